// Package clock replaces the wall clock of the repository's code in native replays:
// it shows one fixed time, and on the other node the time the solver chose.
package clock

import "time"

var (
	Other bool
	Ahead func() int64 // nanoseconds
)

func Now() time.Time {
	t := time.Unix(63000000000-62135596800, 0).UTC()
	if Other && Ahead != nil {
		t = t.Add(time.Duration(Ahead()))
	}
	return t
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
