package vsched

import "reflect"

// The channels that are closed. (A map, even in a function that is not checked for races, is.)
var (
	closed  [64]uintptr
	nclosed int
)

func init() {
	OnReset(func() { nclosed = 0 })
}

// Send, Recv, Recv2 and Close do what the statements do. Waiting for a buffered channel lets other
// threads run; of an unbuffered one it does not, and the scheduler finds that nothing moves. They
// are compiled with the package that uses them, and so leave all that the threads share to others.

func Send[T any](c chan<- T, v T) {
	await(c, true)
	c <- v
}

func Recv[T any](c <-chan T) T {
	await(c, false)
	return <-c
}

func Recv2[T any](c <-chan T) (T, bool) {
	await(c, false)
	v, ok := <-c
	return v, ok
}

func Close[T any](c chan<- T) {
	mark(c)
	close(c)
}

//go:norace
func await(c interface{}, send bool) {
	if !active {
		return
	}
	v := reflect.ValueOf(c)
	if v.Cap() == 0 {
		return
	}
	step(true)
	if waits(v, send) {
		Block(func() bool { return waits(v, send) })
	}
}

//go:norace
func waits(v reflect.Value, send bool) bool {
	p := v.Pointer()
	for i := 0; i < nclosed; i++ {
		if closed[i] == p {
			return false
		}
	}
	if send {
		return v.Len() == v.Cap()
	}
	return v.Len() == 0
}

//go:norace
func mark(c interface{}) {
	if !active {
		return
	}
	step(true)
	if nclosed < len(closed) {
		closed[nclosed] = reflect.ValueOf(c).Pointer()
		nclosed++
	}
}
