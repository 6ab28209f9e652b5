//go:build race

package verifrt

import "iter"

type pulled[V any] struct {
	v        V
	ok       bool
	panicked bool
	p        any
}

// Pull does what iter.Pull does with a goroutine instead of a coroutine: the race detector
// never forgets a coroutine, and would run out of memory. The synchronisation between the
// two sides is the same, a handing over back and forth.
func Pull[V any](seq iter.Seq[V]) (next func() (V, bool), stop func()) {
	var (
		req  = make(chan bool)
		res  = make(chan pulled[V])
		busy bool
		done bool
	)
	run := func() {
		last := pulled[V]{panicked: true}
		defer func() {
			if last.panicked {
				last.p = recover()
			}
			res <- last
		}()
		if <-req {
			seq(func(v V) bool {
				res <- pulled[V]{v: v, ok: true}
				return <-req
			})
		}
		last.panicked = false
	}
	started := false
	ask := func(more bool) (r pulled[V]) {
		if busy {
			panic("verifrt: Pull: next or stop called again before it returned")
		}
		busy = true
		if !started {
			started = true
			go run()
		}
		req <- more
		r = <-res
		busy = false
		if !r.ok {
			done = true
		}
		if r.panicked {
			panic(r.p)
		}
		return
	}
	next = func() (v V, ok bool) {
		if done {
			return
		}
		r := ask(true)
		return r.v, r.ok
	}
	stop = func() {
		if done {
			return
		}
		done = true
		if started {
			ask(false)
		}
	}
	return
}
