// Package zzsched (overlaid at /repo/zzsched) lets a controller decide which of several goroutines
// runs. Hand-over uses plain memory in functions the race detector does not see, so that the
// scheduler itself orders nothing: accesses that only the scheduler keeps apart are still races.
//
// GOMAXPROCS must be 1.
package zzsched

import "runtime"

const (
	EvPoint = 1 + iota
	EvBlocked
	EvDone
)

// Max is the number of controlled goroutines.
const Max = 4

type shared struct {
	active bool
	gran   int // points of a higher kind are not scheduling points
	quiet  bool
	turn   int // 0: the controller; i: goroutine i
	ids    [Max + 1]uint64
	event  int
	kind   int
}

var s shared

// Point is a possible preemption.
//
//go:norace
func Point(kind int) {
	if !s.active || s.quiet || kind > s.gran {
		return
	}
	me := s.turn
	if me == 0 || s.ids[me] != runtime.VerifGoid() {
		return
	}
	hand(me, EvPoint, kind)
}

//go:norace
func hand(me, event, kind int) {
	s.event, s.kind = event, kind
	s.turn = 0
	if event == EvDone {
		return
	}
	for s.active && s.turn != me {
		runtime.Gosched()
	}
}

// Ptr is a point and then p.
func Ptr[T any](p *T) *T { Point(0); return p }

// Val is a point and then v.
func Val[T any](v T) T { Point(0); return v }

// Zero sets *p to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Blocked is called while a lock is taken.
//
//go:norace
func Blocked() {
	me := s.turn
	if !s.active || me == 0 || s.ids[me] != runtime.VerifGoid() {
		runtime.Gosched()
		return
	}
	hand(me, EvBlocked, 0)
}

// Begin starts controlling.
//
//go:norace
func Begin(gran int) { s = shared{active: true, gran: gran} }

// End lets every goroutine run freely.
//
//go:norace
func End() { s.active = false }

// Enter is called first by goroutine i; it waits for its turn.
//
//go:norace
func Enter(i int) {
	s.ids[i] = runtime.VerifGoid()
	for s.active && s.turn != i {
		runtime.Gosched()
	}
}

// Leave is called last by goroutine i.
//
//go:norace
func Leave(i int) {
	if s.active && s.turn == i {
		hand(i, EvDone, 0)
	}
}

// Entered reports whether goroutine i waits for its turn.
//
//go:norace
func Entered(i int) bool { return s.ids[i] != 0 }

// Resume lets goroutine i run until its next event; quiet says that points are no longer events.
// It returns the event, or 0 when the goroutine does not come back within spins rounds.
//
//go:norace
func Resume(i int, quiet bool, stalled func(round int) bool) (event, kind int) {
	s.quiet = quiet
	s.turn = i
	for n := 0; s.turn != 0; n++ {
		runtime.Gosched()
		if n&1023 == 1023 && stalled(n) {
			return 0, 0
		}
	}
	return s.event, s.kind
}
