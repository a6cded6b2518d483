module gostlmon

go 1.24

require (
	github.com/liyue201/gostl v0.0.0
)

replace github.com/liyue201/gostl => /repo
