package vrt

import (
	"fmt"
	"sort"
)

// MapKeys returns the keys of m in an order the explorer controls.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	if s := R; s != nil && s.MapDev && len(keys) > 1 && !s.Aborted && s.cur != nil {
		if s.Choose(KMap, 2, 1) == 1 {
			for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
	}
	return keys
}

// ZeroK and ZeroKV give loop variables of the right types.
func ZeroK[M ~map[K]V, K comparable, V any](m M) (k K)       { return }
func ZeroV[M ~map[K]V, K comparable, V any](m M) (v V)       { return }
func ZeroKV[M ~map[K]V, K comparable, V any](m M) (k K, v V) { return }
func Sink(...any)                                            {}

// Channel operations.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) { send(ch, v) }
}

func send[T any](ch chan<- T, v T) {
	Point()
	done := false
	Block(func() bool {
		if done {
			return true
		}
		select {
		case ch <- v:
			done = true
		default:
		}
		return done
	})
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (v T, ok bool) {
	Point()
	done := false
	Block(func() bool {
		if done {
			return true
		}
		select {
		case v, ok = <-ch:
			done = true
		default:
		}
		return done
	})
	return
}

// Poll lets every other thread run and re-tries later; progress is signalled by
// any other thread having run.
func Poll() {
	s := R
	if s == nil || s.Aborted || s.cur == nil {
		return
	}
	at := s.Steps
	first := true
	Block(func() bool {
		if first {
			first = false
			return false
		}
		return s.Steps > at+1
	})
}

// UUID returns a deterministic identifier.
func UUID() [16]byte {
	s := R
	var b [16]byte
	n := 0
	if s != nil {
		s.uuid++
		n = s.uuid
	}
	b[6] = 0x40
	b[8] = 0x80
	b[14] = byte(n >> 8)
	b[15] = byte(n)
	return b
}

// Rand resolves a random draw in [0,n).
func Rand(kind string, n int64) int64 {
	s := R
	if s == nil || s.randFn == nil {
		return 0
	}
	return s.randFn(kind, n)
}

// CurName is the name of the running thread.
func (s *Sched) CurName() string {
	if s.cur == nil {
		return ""
	}
	return s.cur.name
}
