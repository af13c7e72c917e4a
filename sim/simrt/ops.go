package simrt

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
)

func (s *Sim) dead() bool { return s.killed }

// Send is ch <- v, as Send(ch)(v).
//
//go:norace
func Send[T any](ch chan<- T) func(T) {
	return func(v T) { send(ch, v) }
}

//go:norace
func send[T any](ch chan<- T, v T) {
	s := S
	if s == nil {
		ch <- v
		return
	}
	Yield()
	if s.killed {
		runtime.Goexit()
	}
	g := s.cur
	select {
	case ch <- v:
		s.touch()
		return
	default:
	}
	g.where = "channel send"
	select {
	case ch <- v:
	case <-s.kill:
		runtime.Goexit()
	}
	g.where = ""
	s.park(g, nil)
}

// touch makes the next Yield likely: after communication other goroutines may
// be runnable.
func (s *Sim) touch() {
	if s.gapMax > 0 && s.budget > 3 && s.Choose(4) == 1 {
		s.setBudget(1 + s.Choose(3))
	}
}

// Recv is <-ch.
//
//go:norace
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
//
//go:norace
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	s := S
	if s == nil {
		v, ok = <-ch
		return
	}
	Yield()
	if s.killed {
		runtime.Goexit()
	}
	g := s.cur
	select {
	case v, ok = <-ch:
		s.touch()
		return
	default:
	}
	g.where = "channel receive"
	select {
	case v, ok = <-ch:
	case <-s.kill:
		runtime.Goexit()
	}
	g.where = ""
	s.park(g, nil)
	return
}

// Close is close(ch).
//
//go:norace
func Close[T any](ch chan<- T) {
	Yield()
	close(ch)
	if s := S; s != nil && !s.killed {
		s.touch()
	}
}

// Case is one communication of a select statement.
type Case struct {
	Dir reflect.SelectDir
	Ch  reflect.Value
	Val reflect.Value
}

// RecvCase describes a receive.
//
//go:norace
func RecvCase[T any](ch <-chan T) Case {
	return Case{Dir: reflect.SelectRecv, Ch: reflect.ValueOf(ch)}
}

// SendCase describes a send, as SendCase(ch)(v).
//
//go:norace
func SendCase[T any](ch chan<- T) func(T) Case {
	return func(v T) Case {
		return Case{Dir: reflect.SelectSend, Ch: reflect.ValueOf(ch), Val: reflect.ValueOf(&v).Elem()}
	}
}

// MapZero returns zero values of a map's key and element types.
//
//go:norace
func MapZero[M ~map[K]V, K comparable, V any](m M) (k K, v V) { return }

// Val converts a received value.
//
//go:norace
func Val[T any](_ <-chan T, v reflect.Value) (out T) {
	if v.IsValid() {
		reflect.ValueOf(&out).Elem().Set(v)
	}
	return
}

// Select performs a select; with def it has a default case (index -1).
// When several cases are ready the scheduler picks.
func Select(def bool, cases ...Case) (int, reflect.Value, bool) {
	s := S
	if s == nil || s.cur == nil {
		var rc []reflect.SelectCase
		for _, c := range cases {
			rc = append(rc, reflect.SelectCase{Dir: c.Dir, Chan: c.Ch, Send: c.Val})
		}
		if def {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if def && i == len(cases) {
			i = -1
		}
		return i, v, ok
	}
	Yield()
	if s.killed {
		runtime.Goexit()
	}
	g := s.cur
	// pass 1: try the cases one by one in a chosen order
	n := len(cases)
	rot := s.Choose(n)
	for k := 0; k < n; k++ {
		i := (k + rot) % n
		c := cases[i]
		if c.Ch.IsNil() {
			continue
		}
		if c.Dir == reflect.SelectRecv {
			j, v, ok := reflect.Select([]reflect.SelectCase{{Dir: c.Dir, Chan: c.Ch}, {Dir: reflect.SelectDefault}})
			if j == 0 {
				s.touch()
				return i, v, ok
			}
		} else {
			j, _, _ := reflect.Select([]reflect.SelectCase{{Dir: c.Dir, Chan: c.Ch, Send: c.Val}, {Dir: reflect.SelectDefault}})
			if j == 0 {
				s.touch()
				return i, reflect.Value{}, false
			}
		}
	}
	if def {
		return -1, reflect.Value{}, false
	}
	// pass 2: block on all of them. When several become ready at the same
	// instant the runtime would pick pseudo-randomly, so block without
	// consuming is not possible; instead wait natively and accept the pick,
	// which is unique unless two timers fire at the same simulated instant.
	rc := make([]reflect.SelectCase, 0, n+1)
	for _, c := range cases {
		rc = append(rc, reflect.SelectCase{Dir: c.Dir, Chan: c.Ch, Send: c.Val})
	}
	rc = append(rc, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(s.kill)})
	g.where = "select"
	i, v, ok := reflect.Select(rc)
	if i == n {
		runtime.Goexit()
	}
	g.where = ""
	s.park(g, nil)
	return i, v, ok
}

// Block is select {}.
func Block() {
	WaitUntil("select {}", func() bool { return false })
}

// MapKeys returns the keys of m in an order chosen by the scheduler.
//
//go:norace
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	raceReadMap(reflect.ValueOf(m).UnsafePointer())
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		return lessKey(reflect.ValueOf(&keys[i]).Elem(), reflect.ValueOf(&keys[j]).Elem())
	})
	if s := S; s != nil && !s.killed && len(keys) > 1 {
		// Fisher-Yates, 0 = sorted order
		for i := 0; i+1 < len(keys) && i < 16; i++ {
			j := i + s.Choose(len(keys)-i)
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	return keys
}

func lessKey(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	}
	return fmt.Sprint(a.Interface()) < fmt.Sprint(b.Interface())
}

// Val0 keeps an expression evaluated before a preemption point (used for
// read-modify-write statements).
//
//go:norace
func Val0[T any](v T) T { Yield(); return v }

// Flip is true with probability 1/n (never outside a simulation).
func Flip(n int) bool {
	s := S
	return s != nil && !s.killed && s.Choose(n) == n-1
}
