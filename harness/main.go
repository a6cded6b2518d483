package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

const (
	exitViolation = 41
	exitHang      = 42
	exitMemory    = 43
	exitDeadlock  = 44
)

type childOut struct {
	Cases    int
	Ops      int64
	Nontriv  int
	Counts   map[string]int64
	Samples  []sample
	Viol     *violRec
	NStates  int
	Sigs     []uint64
	StateSet []uint64
}

type sample struct {
	Suite string   `json:"suite"`
	Case  int      `json:"case"`
	Ops   []string `json:"operations"`
}

type violRec struct {
	Property string   `json:"property"`
	Suite    string   `json:"suite"`
	Case     int      `json:"case"`
	Seed     int64    `json:"seed"`
	Tier     string   `json:"tier"`
	Message  string   `json:"message"`
	Stack    string   `json:"stack,omitempty"`
	Trace    []string `json:"trace,omitempty"`
	Replay   string   `json:"replay_cmd"`
}

func findProp(id string) *Prop {
	for _, p := range props {
		if p.ID == id {
			return p
		}
	}
	return nil
}

func (p *Prop) suite(name string) *Suite {
	for i := range p.Suites {
		if p.Suites[i].Name == name {
			return &p.Suites[i]
		}
	}
	return nil
}

func (s *Suite) cases(tier string) int {
	n := s.Quick
	if tier == "thorough" {
		n = s.Thorough
	}
	// MON_SCALE=k: a k-th of the cases, for trying the monitors out on mutants
	if k, err := strconv.Atoi(os.Getenv("MON_SCALE")); err == nil && k > 1 && n > 0 && s.Name != "endurance" {
		n = max(n/k, 1)
	}
	return n
}

func main() {
	addLarge()
	addTypes()
	addEndurance()
	addHuge()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mon list | run PROP | replay FILE | child ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		for _, p := range props {
			fmt.Println(p.ID)
		}
	case "needs": // the instrumented builds the property's suites run in
		p := findProp(os.Args[2])
		if p == nil {
			os.Exit(2)
		}
		need := map[string]bool{}
		for _, s := range p.Suites {
			need["race"] = need["race"] || s.Race
			need["cover"] = need["cover"] || s.Cover
		}
		for _, k := range []string{"race", "cover"} {
			if need[k] {
				fmt.Println(k)
			}
		}
	case "run":
		os.Exit(parent(os.Args[2]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "probe":
		fmt.Print(fingerprint(newT("probe", "", argInt(os.Args[3]), int64(argInt(os.Args[2])), "")))
	case "child":
		child(os.Args[2:])
	default:
		os.Exit(2)
	}
}

// ---- worker process ----

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watchdog ends the process when the library stops making progress. Its
// verdicts are logical, not wall-clock: a hang is tens of seconds of this
// process's own CPU time inside one operation, a deadlock is a state in which
// every workload goroutine is parked in a lock and none can run.
func watchdog() {
	last, lastCPU, lastWall := progress.Load(), cpuTime(), time.Now()
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	dead := 0
	hang := 40 * time.Second
	if n, err := strconv.Atoi(os.Getenv("MON_HANG")); err == nil && n > 0 { // for trying out on mutants
		hang = time.Duration(n) * time.Second
	}
	for {
		time.Sleep(500 * time.Millisecond)
		metrics.Read(sample)
		if sample[0].Value.Uint64() > 3<<30 {
			runtime.GC()
			metrics.Read(sample)
			if sample[0].Value.Uint64() > 3<<30 {
				dumpAndExit("memory runaway: more than 3 GiB of live heap", exitMemory)
			}
		}
		if p := progress.Load(); p != last {
			last, lastCPU, lastWall, dead = p, cpuTime(), time.Now(), 0
			continue
		}
		if cpuTime()-lastCPU > hang {
			dumpAndExit(fmt.Sprintf("an operation did not terminate within %v of CPU time", hang), exitHang)
		}
		if time.Since(lastWall) > 3*time.Second {
			if allParked() {
				dead++
				if dead >= 4 {
					dumpAndExit("every workload goroutine is blocked in a lock", exitDeadlock)
				}
			} else {
				dead = 0
			}
		}
	}
}

func allStacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

var stateRe = regexp.MustCompile(`(?m)^goroutine (\d+)[^\[\n]*\[([^\],]+)`)

// allParked: some goroutine waits for a lock inside the library and no goroutine
// other than this one can run.
func allParked() bool {
	st := allStacks()
	inLib := false
	for i, blk := range strings.Split(st, "\n\n") {
		m := stateRe.FindStringSubmatch(blk)
		if m == nil || i == 0 { // the first block is the watchdog itself
			continue
		}
		switch s := m[2]; {
		case strings.HasPrefix(s, "sync.") || s == "semacquire":
			if strings.Contains(blk, "liyue201/gostl") {
				inLib = true
			}
		case s == "chan receive" || s == "chan send" || s == "select" || strings.HasPrefix(s, "GC ") || s == "finalizer wait" || s == "cleanup wait" || strings.HasPrefix(s, "force gc"):
		default:
			return false
		}
	}
	return inLib
}

func dumpAndExit(msg string, code int) {
	fmt.Fprintf(os.Stderr, "WATCHDOG: %s\n%s\n", msg, clip(allStacks(), 20000))
	os.Exit(code)
}

func argInt(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		panic(err)
	}
	return n
}

// child PROP SUITE SEED TIER FIRST STEP LIMIT OUT
func child(a []string) {
	p := findProp(a[0])
	s := p.suite(a[1])
	seed := int64(argInt(a[2]))
	tier := a[3]
	first, step, limit := argInt(a[4]), argInt(a[5]), argInt(a[6])
	out := a[7]
	procs := s.Procs
	if procs == 0 {
		procs = 2
	}
	runtime.GOMAXPROCS(procs)
	go watchdog()
	pos, err := os.OpenFile(out+".pos", os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	if err != nil {
		panic(err)
	}
	var cb [8]byte
	co := &childOut{Counts: map[string]int64{}}
	sigs := map[uint64]struct{}{}
	states := map[uint64]struct{}{}
	for c := first; c < limit; c += step {
		binary.LittleEndian.PutUint64(cb[:], uint64(c)+1)
		pos.WriteAt(cb[:], 0)
		progress.Add(1)
		t := newT(p.ID, s.Name, c, seed, tier)
		res := runCase(s, t)
		co.Cases++
		co.Ops += t.nops
		for k, v := range t.counts {
			co.Counts[k] += v
		}
		for k := range t.states {
			if len(states) < 500000 {
				states[k] = struct{}{}
			}
		}
		if t.nontriv {
			sigs[t.sig] = struct{}{}
		}
		if len(co.Samples) < 1 && t.nontriv && first == 0 {
			co.Samples = append(co.Samples, sample{s.Name, c, t.Trace(25)})
		}
		if res != nil {
			co.Viol = &violRec{Property: p.ID, Suite: s.Name, Case: c, Seed: seed, Tier: tier,
				Message: res.viol, Stack: clip(res.stack, 6000), Trace: t.Trace(300)}
			break
		}
	}
	for k := range sigs {
		co.Sigs = append(co.Sigs, k)
	}
	for k := range states {
		co.StateSet = append(co.StateSet, k)
	}
	b, err := json.Marshal(co)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		panic(err)
	}
	if co.Viol != nil {
		os.Exit(exitViolation)
	}
	os.Exit(0)
}

// ---- supervising process ----

type childRun struct {
	out    *childOut
	code   int
	signal string
	stderr string
	pos    int // case that was running, or -1
	races  []string
	err    error
}

func tmpBase() string { return os.Getenv("MON_TMP") }

func selfBin(s *Suite) string {
	if s.Race {
		return os.Getenv("MON_RACE_BIN")
	}
	if s.Cover {
		return os.Getenv("MON_COVER_BIN")
	}
	b, _ := os.Executable()
	return b
}

func runChild(p *Prop, s *Suite, seed int64, tier string, first, step, limit int, tag string) *childRun {
	out := filepath.Join(tmpBase(), fmt.Sprintf("%s-%s-%s.json", p.ID, s.Name, tag))
	cmd := exec.Command(selfBin(s), "child", p.ID, s.Name, strconv.FormatInt(seed, 10), tier,
		strconv.Itoa(first), strconv.Itoa(step), strconv.Itoa(limit), out)
	racelog := out + ".race"
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+racelog, "GOTRACEBACK=all", "GOCOVERDIR="+tmpBase())
	var eb bytes.Buffer
	cmd.Stderr = &eb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	err := cmd.Run()
	runtime.UnlockOSThread()
	r := &childRun{pos: -1, stderr: eb.String()}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			r.code = ee.ExitCode()
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
				r.signal = ws.Signal().String()
			}
		} else {
			r.err = err
		}
	}
	if b, e := os.ReadFile(out); e == nil {
		co := &childOut{}
		if e := json.Unmarshal(b, co); e == nil {
			r.out = co
		}
	}
	if b, e := os.ReadFile(out + ".pos"); e == nil && len(b) == 8 {
		r.pos = int(binary.LittleEndian.Uint64(b)) - 1
	}
	if s.Race {
		fs, _ := filepath.Glob(racelog + ".*")
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			for _, blk := range strings.Split(string(b), "==================") {
				if strings.Contains(blk, "WARNING: DATA RACE") {
					r.races = append(r.races, strings.TrimSpace(blk))
				}
			}
			os.Remove(f)
		}
	}
	return r
}

var raceFuncRe = regexp.MustCompile(`(?m)^  (\S*liyue201/gostl\S*)\(`)

// raceKey identifies a race by the library functions on its stacks.
func raceKey(blk string) string {
	var fs []string
	for _, m := range raceFuncRe.FindAllStringSubmatch(blk, -1) {
		f := m[1]
		if i := strings.Index(f, "liyue201/gostl/"); i >= 0 {
			f = f[i+len("liyue201/gostl/"):]
		}
		fs = append(fs, f)
	}
	sort.Strings(fs)
	return strings.Join(fs, " | ")
}

func envSeed() int64 {
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		return s
	}
	return 1
}

func envTier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

type known struct{ property, match, what string }

// loadKnown reads the "known:" lines of known-findings.txt:
// known: property=<id> match=<regexp over the violation message> what=<text>
func loadKnown(dir string) []known {
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var ks []known
	re := regexp.MustCompile(`^known: property=(\S+) match=(\S+) what=(.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			ks = append(ks, known{m[1], m[2], m[3]})
		}
	}
	return ks
}

func parent(id string) int {
	start := time.Now()
	p := findProp(id)
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", id)
		return 2
	}
	seed, tier := envSeed(), envTier()
	root := os.Getenv("MON_ROOT")
	repDir := filepath.Join(root, "evidence", "replays")
	os.MkdirAll(repDir, 0o755)
	if old, _ := filepath.Glob(filepath.Join(repDir, id+"-*.json")); old != nil {
		for _, f := range old {
			os.Remove(f)
		}
	}

	counts := map[string]int64{}
	perSuite := map[string]any{}
	var samples []any
	var ops int64
	cases, nontriv := 0, 0
	allStates := map[uint64]struct{}{}
	var viols []*violRec
	inconclusive := []string{}
	raceSeen := map[string]int{}
	exhaustive := []string{}

	for si := range p.Suites {
		s := &p.Suites[si]
		n := s.cases(tier)
		if n == 0 {
			continue
		}
		nw := s.Workers
		if nw == 0 {
			nw = 8
		}
		if nw > n {
			nw = n
		}
		res := make(chan *childRun, nw)
		for w := 0; w < nw; w++ {
			go func(w int) { res <- runChild(p, s, seed, tier, w, nw, n, strconv.Itoa(w)) }(w)
		}
		sigs := map[uint64]struct{}{}
		sCases := 0
		var sOps int64
		var sViol []*violRec
		for w := 0; w < nw; w++ {
			r := <-res
			if r.out != nil {
				sCases += r.out.Cases
				sOps += r.out.Ops
				for k, v := range r.out.Counts {
					counts[k] += v
				}
				for _, x := range r.out.Sigs {
					sigs[x] = struct{}{}
				}
				for _, x := range r.out.StateSet {
					allStates[x] = struct{}{}
				}
				for _, x := range r.out.Samples {
					if len(samples) < 6 {
						samples = append(samples, x)
					}
				}
			}
			for _, blk := range r.races {
				k := raceKey(blk)
				if k == "" {
					inconclusive = append(inconclusive, "race report without a library frame: "+clip(blk, 400))
					continue
				}
				raceSeen[k]++
				if raceSeen[k] == 1 {
					sViol = append(sViol, &violRec{Property: id, Suite: s.Name, Case: -1, Seed: seed, Tier: tier,
						Message: "data race: " + k, Stack: clip(blk, 8000)})
				}
			}
			switch {
			case r.err != nil:
				inconclusive = append(inconclusive, fmt.Sprintf("suite %s: worker did not start: %v", s.Name, r.err))
			case r.code == 0 && r.signal == "" && r.out != nil:
			case r.code == exitViolation && r.out != nil && r.out.Viol != nil:
				sViol = append(sViol, r.out.Viol)
			default:
				v, inc := crashVerdict(p, s, seed, tier, r)
				if v != nil {
					sViol = append(sViol, v)
				} else {
					inconclusive = append(inconclusive, inc)
				}
			}
		}
		cases += sCases
		ops += sOps
		nontriv += len(sigs)
		perSuite[s.Name] = map[string]any{"cases": sCases, "operations": sOps, "distinct_nontrivial": len(sigs), "instrumented_with_race_detector": s.Race, "instrumented_with_step_counters": s.Cover}
		if s.Exhaust && sCases == n {
			exhaustive = append(exhaustive, s.Name)
		}
		viols = append(viols, sViol...)
		if len(viols) > 0 {
			break
		}
	}

	// known findings
	ks := loadKnown(root)
	knownHit := map[string]bool{}
	var fresh []*violRec
	for _, v := range viols {
		hit := false
		for _, k := range ks {
			if k.property == id {
				if ok, _ := regexp.MatchString(k.match, v.Message); ok {
					hit = true
					knownHit[k.what] = true
				}
			}
		}
		if !hit {
			fresh = append(fresh, v)
		}
	}
	for w := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, w)
	}

	if len(fresh) == 0 && len(inconclusive) == 0 {
		for _, k := range p.Require {
			if counts[k] == 0 {
				inconclusive = append(inconclusive, "never observed: "+k)
			}
		}
		if cases == 0 || nontriv == 0 {
			inconclusive = append(inconclusive, "nothing was observed")
		}
	}

	sample := samples
	if len(sample) == 0 {
		sample = []any{}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": cases, "distinct_nontrivial": nontriv, "rule": p.Rule,
			"samples": sample, "operations_observed": ops, "events": counts,
			"distinct_states_observed": len(allStates), "suites": perSuite,
			"suites_enumerated_completely": exhaustive,
			"inconclusive":                 inconclusive,
		},
		"assumptions": p.Assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(fresh),
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	for i, v := range fresh {
		f := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", id, i))
		v.Replay = fmt.Sprintf("cd /verif && ./run.sh replay %s", f)
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(f, append(b, '\n'), 0o644)
		fmt.Printf("%s: suite %s case %d: %s\n", id, v.Suite, v.Case, clip(v.Message, 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
	}
	if len(fresh) > 0 {
		return 1
	}
	if len(inconclusive) > 0 {
		for _, m := range inconclusive {
			fmt.Printf("INCONCLUSIVE property=%s %s\n", id, m)
		}
		return 3
	}
	fmt.Printf("%s held on %d executions (%d distinct non-trivial), %d operations observed, %.1f s\n", id, cases, nontriv, ops, time.Since(start).Seconds())
	return 0
}

// crashVerdict decides what a worker that ended without a verdict means. A
// fatal error of the Go runtime (stack overflow, unlock of an unlocked mutex,
// concurrent map access, out of memory) or a watchdog verdict is a violation if
// it comes out of the library; anything else is inconclusive.
func crashVerdict(p *Prop, s *Suite, seed int64, tier string, r *childRun) (*violRec, string) {
	what := func(r *childRun) string {
		switch r.code {
		case exitHang, exitMemory, exitDeadlock:
			return firstLine(r.stderr, "WATCHDOG:")
		}
		if l := firstLine(r.stderr, "fatal error:"); l != "" {
			return l
		}
		if l := firstLine(r.stderr, "panic:"); l != "" {
			return l
		}
		if l := firstLine(r.stderr, "runtime:"); l != "" {
			return l
		}
		return ""
	}
	w := what(r)
	if w == "" || r.pos < 0 || !strings.Contains(r.stderr, "liyue201/gostl") {
		return nil, fmt.Sprintf("suite %s: worker ended with code %d %s at case %d: %s", s.Name, r.code, r.signal, r.pos, clip(r.stderr, 600))
	}
	v := &violRec{Property: p.ID, Suite: s.Name, Case: r.pos, Seed: seed, Tier: tier,
		Message: w, Stack: clip(r.stderr, 8000)}
	r2 := runChild(p, s, seed, tier, r.pos, 1, r.pos+1, "confirm")
	if what(r2) != "" || r2.code == exitViolation {
		v.Message += " (reproduced by running the case alone)"
	} else {
		v.Message += " (not reproduced by running the case alone)"
	}
	return v, ""
}

func firstLine(s, prefix string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, prefix) {
			return l
		}
	}
	return ""
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	v := &violRec{}
	if err := json.Unmarshal(b, v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := findProp(v.Property)
	s := p.suite(v.Suite)
	first, limit := v.Case, v.Case+1
	if v.Case < 0 { // a race report is not tied to one case
		first, limit = 0, s.cases(v.Tier)
	}
	r := runChild(p, s, v.Seed, v.Tier, first, 1, limit, "replay")
	if r.out != nil && r.out.Viol != nil {
		fmt.Println(r.out.Viol.Message)
		fmt.Println(strings.Join(r.out.Viol.Trace, "\n"))
		fmt.Println(r.out.Viol.Stack)
	}
	for _, x := range r.races {
		fmt.Println(x)
	}
	fmt.Print(clip(r.stderr, 4000))
	if r.code != 0 || len(r.races) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, file)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}
