package main

import (
	"fmt"

	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
)

// ---- C10 bidlist ----

type bnode = bidlist.Node[int]

type bidMon struct {
	t     *T
	l     *bidlist.List[int]
	nodes []*bnode
	vals  []int
}

func (b *bidMon) idx(n *bnode) int {
	for i, x := range b.nodes {
		if x == n {
			return i
		}
	}
	return -1
}

func (b *bidMon) insert(i int, n *bnode, v int) {
	b.nodes = insertAt(b.nodes, i, n)
	b.vals = insertAt(b.vals, i, v)
}

func (b *bidMon) take(i int) (*bnode, int) {
	n, v := b.nodes[i], b.vals[i]
	b.nodes = eraseRange(b.nodes, i, i+1)
	b.vals = eraseRange(b.vals, i, i+1)
	return n, v
}

// check walks the list both ways and compares it with the model, node by node.
func (b *bidMon) check(who string) {
	t, l := b.t, b.l
	n := len(b.nodes)
	if l.Len() != n || l.Size() != n || l.Empty() != (n == 0) {
		t.Failf("%s: Len() = %d, Size() = %d, Empty() = %v, want %d nodes", who, l.Len(), l.Size(), l.Empty(), n)
	}
	if n == 0 {
		if l.FrontNode() != nil || l.BackNode() != nil {
			t.Failf("%s: an empty list has a front or back node", who)
		}
		return
	}
	if l.Front() != b.vals[0] || l.Back() != b.vals[n-1] {
		t.Failf("%s: Front() = %d, Back() = %d, want %d, %d", who, l.Front(), l.Back(), b.vals[0], b.vals[n-1])
	}
	i := 0
	for x := l.FrontNode(); x != nil; x = x.Next() {
		if i >= n {
			t.Failf("%s: walking forwards does not end after %d nodes", who, n)
		}
		if x != b.nodes[i] || x.Value != b.vals[i] {
			t.Failf("%s: node %d forwards holds %d (node identity %v), want %d", who, i, x.Value, x == b.nodes[i], b.vals[i])
		}
		i++
	}
	if i != n {
		t.Failf("%s: walking forwards gave %d nodes, want %d", who, i, n)
	}
	for x := l.BackNode(); x != nil; x = x.Prev() {
		i--
		if i < 0 {
			t.Failf("%s: walking backwards does not end after %d nodes", who, n)
		}
		if x != b.nodes[i] {
			t.Failf("%s: node %d backwards holds %d, want %d", who, i, x.Value, b.vals[i])
		}
	}
	if i != 0 {
		t.Failf("%s: walking backwards missed %d nodes", who, i)
	}
}

func runBidlist(t *T) {
	mons := []*bidMon{{t: t, l: bidlist.New[int]()}, {t: t, l: bidlist.New[int]()}}
	var stale []*bnode // removed nodes
	next := 0
	val := func() int { next++; return next }
	detached := func(n *bnode, v int) {
		if n.Value != v {
			t.Failf("a removed node's value changed from %d to %d", v, n.Value)
		}
		if n.Next() != nil || n.Prev() != nil {
			t.Failf("a removed node still has neighbours")
		}
		stale = append(stale, n)
	}
	maxLen := t.level(3, 8, 30)
	for step, nst := 0, t.steps(30+t.Intn(100)); t.more(step, nst); step++ {
		if len(stale) > 300 {
			stale = stale[:copy(stale, stale[200:])]
		}
		w := t.Intn(5) / 4 // mostly the first list
		b, o := mons[w], mons[1-w]
		l := b.l
		n := len(b.nodes)
		// a node of this list, of the other, or a removed one
		pick := func() (*bnode, string) {
			switch {
			case t.Chance(8) && len(o.nodes) > 0:
				return o.nodes[t.Intn(len(o.nodes))], "foreign"
			case t.Chance(8) && len(stale) > 0:
				return stale[t.Intn(len(stale))], "stale"
			case n > 0:
				i := t.Intn(n)
				if t.Chance(2) {
					i = []int{0, n - 1, min(1, n-1), max(0, n-2)}[t.Intn(4)]
				}
				return b.nodes[i], fmt.Sprint(i)
			}
			return nil, ""
		}
		op := t.Intn(16)
		if n >= maxLen && t.Chance(2) || t.long > 0 && n > maxLen+20 {
			op = 6 + t.Intn(3)
		}
		switch op {
		case 0, 1:
			v := val()
			t.Op("PushBack", w, v)
			l.PushBack(v)
			b.insert(n, l.BackNode(), v)
		case 2, 3:
			v := val()
			t.Op("PushFront", w, v)
			l.PushFront(v)
			b.insert(0, l.FrontNode(), v)
		case 4, 5:
			mark, d := pick()
			if mark == nil {
				continue
			}
			v := val()
			i := b.idx(mark)
			if op == 4 {
				t.Op("InsertAfter", w, v, d)
				nn := l.InsertAfter(v, mark)
				if i >= 0 {
					b.insert(i+1, nn, v)
				}
			} else {
				t.Op("InsertBefore", w, v, d)
				nn := l.InsertBefore(v, mark)
				if i >= 0 {
					b.insert(i, nn, v)
				}
			}
			if i < 0 {
				t.Count("operations with a node of no or another list")
			}
		case 6:
			x, d := pick()
			if x == nil {
				continue
			}
			t.Op("Remove", w, d)
			want := x.Value
			i := b.idx(x)
			if g := l.Remove(x); g != want {
				t.Failf("Remove returned %d, want %d", g, want)
			}
			if i >= 0 {
				nn, v := b.take(i)
				detached(nn, v)
				t.Count("removals")
			} else {
				t.Count("operations with a node of no or another list")
			}
		case 7:
			t.Op("PopBack", w)
			if n == 0 {
				t.mustPanic("PopBack on an empty list", func() { l.PopBack() })
				t.mustPanic("Back on an empty list", func() { l.Back() })
			} else {
				g := l.PopBack()
				nn, v := b.take(n - 1)
				if g != v {
					t.Failf("PopBack() = %d, want %d", g, v)
				}
				detached(nn, v)
			}
		case 8:
			t.Op("PopFront", w)
			if n == 0 {
				t.mustPanic("PopFront on an empty list", func() { l.PopFront() })
				t.mustPanic("Front on an empty list", func() { l.Front() })
			} else {
				g := l.PopFront()
				nn, v := b.take(0)
				if g != v {
					t.Failf("PopFront() = %d, want %d", g, v)
				}
				detached(nn, v)
			}
		case 9, 10:
			x, d := pick()
			if x == nil {
				continue
			}
			i := b.idx(x)
			to := n - 1
			if op == 9 {
				t.Op("MoveToFront", w, d)
				l.MoveToFront(x)
				to = 0
			} else {
				t.Op("MoveToBack", w, d)
				l.MoveToBack(x)
			}
			if i >= 0 {
				nn, v := b.take(i)
				b.insert(to, nn, v)
				t.Count("moves")
				if n > 2 {
					t.Nontrivial()
				}
			} else {
				t.Count("operations with a node of no or another list")
			}
		case 11, 12:
			x, d := pick()
			mark, d2 := pick()
			if x == nil || mark == nil {
				continue
			}
			t.Op("MoveAfter", w, d, d2)
			l.MoveAfter(x, mark)
			if b.idx(x) >= 0 && b.idx(mark) >= 0 {
				if x != mark {
					nn, v := b.take(b.idx(x))
					b.insert(b.idx(mark)+1, nn, v)
					t.Count("moves")
				}
			} else {
				t.Count("operations with a node of no or another list")
			}
		case 13:
			if n+len(o.nodes) > 60 || !t.Chance(2) {
				continue
			}
			src := o
			if t.Chance(3) {
				src = b
				t.Count("a list added to itself")
			}
			if n+len(src.nodes) > 60 {
				continue
			}
			vals := append([]int(nil), src.vals...)
			back := t.Chance(2)
			if back {
				t.Op("PushBackList", w, src == b, len(vals))
				l.PushBackList(src.l)
			} else {
				t.Op("PushFrontList", w, src == b, len(vals))
				l.PushFrontList(src.l)
			}
			// the new nodes are copies: read them off, then check everything
			var nn []*bnode
			k := 0
			for x := l.FrontNode(); x != nil && k < n+len(vals)+1; x = x.Next() {
				nn = append(nn, x)
				k++
			}
			if k != n+len(vals) {
				t.Failf("adding a list of %d to a list of %d gave %d nodes", len(vals), n, k)
			}
			if back {
				for i, x := range nn[n:] {
					if o.idx(x) >= 0 || b.idx(x) >= 0 {
						t.Failf("a node was shared instead of copied")
					}
					b.insert(n+i, x, vals[i])
				}
			} else {
				for i, x := range nn[:len(vals)] {
					if o.idx(x) >= 0 || b.idx(x) >= 0 {
						t.Failf("a node was shared instead of copied")
					}
					b.insert(i, x, vals[i])
				}
			}
			t.Count("lists added")
		case 14:
			if t.Chance(6) {
				t.Op("Clear", w)
				l.Clear()
				old, ov := b.nodes, b.vals
				b.nodes, b.vals = nil, nil
				for i := range old {
					detached(old[i], ov[i])
				}
				t.Count("clears")
			} else if n > 0 {
				i, v := t.Intn(n), val()
				t.Op("node.Value=", w, i, v)
				b.nodes[i].Value = v
				b.vals[i] = v
			}
		case 15:
			t.Op("String", w)
			if g, want := l.String(), fmt.Sprint(b.vals); g != want {
				t.Failf("String() = %s, want %s", g, want)
			}
			stop := t.Intn(n + 2)
			var got []int
			l.Traversal(func(v int) bool { got = append(got, v); return len(got) < stop })
			want := b.vals[:min(n, max(stop, 1))]
			if fmt.Sprint(got) != fmt.Sprint(want) {
				t.Failf("Traversal stopped after %d gave %v, want %v", stop, got, want)
			}
		}
		b.check("the list")
		o.check("the other list")
	}
}

// ---- C11 simplelist ----

type snode = simplelist.Node[int]

func runSimplelist(t *T) {
	l, other := simplelist.New[int](), simplelist.New[int]()
	other.PushBack(-1)
	other.PushBack(-2)
	var nodes []*snode
	var vals []int
	var stale []*snode
	next := 0
	val := func() int { next++; return next }
	ins := func(i int, n *snode, v int) {
		nodes = insertAt(nodes, i, n)
		vals = insertAt(vals, i, v)
	}
	take := func(i int) (*snode, int) {
		n, v := nodes[i], vals[i]
		nodes = eraseRange(nodes, i, i+1)
		vals = eraseRange(vals, i, i+1)
		return n, v
	}
	check := func() {
		n := len(nodes)
		if l.Len() != n {
			t.Failf("Len() = %d, want %d", l.Len(), n)
		}
		if n == 0 {
			if l.FrontNode() != nil || l.BackNode() != nil {
				t.Failf("an empty list has a front or back node")
			}
			return
		}
		if l.FrontNode() != nodes[0] || l.BackNode() != nodes[n-1] {
			t.Failf("FrontNode or BackNode is not the first or last node (front %d, back %d, want %d, %d)", l.FrontNode().Value, l.BackNode().Value, vals[0], vals[n-1])
		}
		i := 0
		for x := l.FrontNode(); x != nil; x = x.Next() {
			if i >= n {
				t.Failf("walking does not end after %d nodes", n)
			}
			if x != nodes[i] || x.Value != vals[i] {
				t.Failf("node %d holds %d (node identity %v), want %d", i, x.Value, x == nodes[i], vals[i])
			}
			i++
		}
		if i != n {
			t.Failf("walking gave %d nodes, want %d", i, n)
		}
		if other.Len() != 2 || other.FrontNode().Value != -1 || other.BackNode().Value != -2 || other.FrontNode().Next() != other.BackNode() || other.BackNode().Next() != nil {
			t.Failf("another list was changed")
		}
	}
	maxLen := t.level(2, 6, 25)
	for step, nst := 0, t.steps(30+t.Intn(100)); t.more(step, nst); step++ {
		if len(stale) > 300 {
			stale = stale[:copy(stale, stale[200:])]
		}
		n := len(nodes)
		at := 0
		if n > 0 {
			at = t.Intn(n)
			if t.Chance(2) {
				at = []int{0, n - 1}[t.Intn(2)]
			}
		}
		pre := func() *snode {
			if at == 0 {
				return nil
			}
			return nodes[at-1]
		}
		op := t.Intn(12)
		if n >= maxLen && t.Chance(2) || t.long > 0 && n > maxLen+20 {
			op = 5
		}
		switch op {
		case 0, 1:
			v := val()
			t.Op("PushBack", v)
			l.PushBack(v)
			ins(n, l.BackNode(), v)
		case 2:
			v := val()
			t.Op("PushFront", v)
			l.PushFront(v)
			ins(0, l.FrontNode(), v)
		case 3, 4:
			if n > 0 {
				v := val()
				t.Op("InsertAfter", v, at)
				nn := l.InsertAfter(v, nodes[at])
				ins(at+1, nn, v)
			}
		case 5, 6:
			if n > 0 {
				t.Op("Remove", at)
				g := l.Remove(pre(), nodes[at])
				x, v := take(at)
				if g != v {
					t.Failf("Remove returned %d, want %d", g, v)
				}
				stale = append(stale, x)
				t.Count("removals")
			}
		case 7:
			if n > 0 {
				t.Op("MoveToFront", at)
				l.MoveToFront(pre(), nodes[at])
				x, v := take(at)
				ins(0, x, v)
				t.Count("moves")
				if n > 2 {
					t.Nontrivial()
				}
			}
		case 8:
			if n > 0 {
				t.Op("MoveToBack", at)
				l.MoveToBack(pre(), nodes[at])
				x, v := take(at)
				ins(n-1, x, v)
				t.Count("moves")
			}
		case 9: // documented: the list is not modified
			mark := other.FrontNode()
			if t.Chance(2) {
				mark = other.BackNode()
			}
			d := "foreign"
			if len(stale) > 0 && t.Chance(2) {
				mark = stale[t.Intn(len(stale))]
				d = "stale"
			}
			t.Op("InsertAfter", val(), d)
			l.InsertAfter(next, mark)
			t.Count("operations with a node of no or another list")
		case 10:
			t.Op("String")
			if g, want := l.String(), fmt.Sprint(vals); g != want {
				t.Failf("String() = %s, want %s", g, want)
			}
			stop := t.Intn(n + 2)
			var got []int
			l.Traversal(func(v int) bool { got = append(got, v); return len(got) < stop })
			want := vals[:min(n, max(stop, 1))]
			if fmt.Sprint(got) != fmt.Sprint(want) {
				t.Failf("Traversal stopped after %d gave %v, want %v", stop, got, want)
			}
		case 11:
			if n > 0 {
				v := val()
				t.Op("node.Value=", at, v)
				nodes[at].Value = v
				vals[at] = v
			}
		}
		check()
	}
}

func init() {
	register(&Prop{ID: "C10",
		Rule:    "random histories of 30-130 operations on two lists of up to 3, 8 or 30 nodes, with marks and nodes taken from the list (ends and neighbours preferred), from the other list and from removed nodes; after each operation both lists are walked both ways and compared node by node with the model; non-trivial when a node was moved in a list of three or more",
		Suites:  []Suite{{Name: "histories", Quick: 800000, Thorough: 2000000, Run: runBidlist}},
		Require: []string{"moves", "removals", "lists added", "a list added to itself", "clears", "operations with a node of no or another list"}})
	register(&Prop{ID: "C11",
		Rule:    "random histories of 30-130 operations on a list of up to 2, 6 or 25 nodes with the predecessor arguments the API asks for, and marks of other lists where the documentation says they are ignored; walked and compared node by node after each operation; non-trivial when a node was moved in a list of three or more",
		Suites:  []Suite{{Name: "histories", Quick: 800000, Thorough: 2000000, Run: runSimplelist}},
		Require: []string{"moves", "removals", "operations with a node of no or another list"}})
}
