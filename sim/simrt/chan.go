package simrt

import (
	"runtime"
	"unsafe"
)

// Channel operations of instrumented code. What a buffered channel holds is in
// the channel itself; who waits for what is decided by the simulator. Outside
// a simulated run the operations are the real ones.

// Case is an operation of a select statement.
type Case interface {
	try(sel *selection, i int) bool // do it, if it can be done now
	post(sel *selection, i int)     // offer it to other threads
	retract()
}

// selection is a waiting thread; of its operations only one may take place.
type selection struct {
	done int // the operation that has taken place, or -1
}

// Op is a send or receive operation.
type Op[T any] struct {
	c    chan T
	send bool
	Val  T
	OK   bool

	sel *selection
	no  int
}

var (
	chanKey byte // what blocked threads wait for
	nposted int
	posted  [512]any // operations of waiting threads
)

//go:norace
func chanKeyPtr() unsafe.Pointer { return unsafe.Pointer(&chanKey) }

// both makes a channel of any direction one that can do both.
//
//go:norace
func both[T any, C chan T | <-chan T | chan<- T](c C) chan T {
	return *(*chan T)(unsafe.Pointer(&c))
}

//go:norace
func (o *Op[T]) edge() {
	p := *(*unsafe.Pointer)(unsafe.Pointer(&o.c))
	RaceAcquire(p)
	RaceRelease(p)
}

// peer finds a waiting thread with the opposite operation.
//
//go:norace
func (o *Op[T]) peer() *Op[T] {
	if o.c == nil || cap(o.c) > 0 {
		return nil
	}
	for _, x := range posted[:nposted] {
		if p, _ := x.(*Op[T]); p != nil && p.c == o.c && p.send != o.send && p.sel.done < 0 && p.sel != o.sel {
			return p
		}
	}
	return nil
}

//go:norace
func (o *Op[T]) try(sel *selection, i int) bool {
	o.sel, o.no = sel, i
	if o.c == nil {
		return false
	}
	if p := o.peer(); p != nil {
		if o.send {
			p.Val, p.OK = o.Val, true
		} else {
			o.Val, o.OK = p.Val, true
		}
		p.sel.done = p.no
		o.edge()
		wakeKey(chanKeyPtr())
		return true
	}
	if o.send {
		select {
		case o.c <- o.Val:
		default:
			return false
		}
	} else {
		select {
		case o.Val, o.OK = <-o.c:
		default:
			return false
		}
	}
	wakeKey(chanKeyPtr())
	return true
}

//go:norace
func (o *Op[T]) post(sel *selection, i int) {
	o.sel, o.no = sel, i
	if o.c != nil && cap(o.c) == 0 {
		if nposted == len(posted) {
			panic("simrt: too many channel operations at once")
		}
		o.edge()
		posted[nposted] = o
		nposted++
	}
}

//go:norace
func (o *Op[T]) retract() {
	if o.c == nil || cap(o.c) > 0 {
		return
	}
	for i, x := range posted[:nposted] {
		if x == any(o) {
			nposted--
			posted[i], posted[nposted] = posted[nposted], nil
			break
		}
	}
	o.edge()
}

// Select does one of the operations, or none of them if dflt is set and none
// can be done. It returns which one.
//
//go:norace
func Select(dflt bool, cases ...Case) int {
	sel := &selection{done: -1}
	if !active || cur == nil {
		for {
			for i, c := range cases {
				if c.try(sel, i) {
					return i
				}
			}
			if dflt {
				return -1
			}
			runtime.Gosched()
		}
	}
	Yield(4)
	for {
		k := 0
		if len(cases) > 1 {
			k = Choose(KUser, len(cases), 0.5)
		}
		for i := range cases {
			if i = (i + k) % len(cases); cases[i].try(sel, i) {
				Yield(4)
				return i
			}
		}
		if dflt {
			return -1
		}
		for i, c := range cases {
			c.post(sel, i)
		}
		Stats().LockWaits++
		Block(chanKeyPtr(), "channel")
		for _, c := range cases {
			c.retract()
		}
		if sel.done >= 0 {
			return sel.done
		}
	}
}

// RecvCase and SendCase make the operations of a select statement.
//
//go:norace
func RecvCase[T any](c <-chan T) *Op[T] { return &Op[T]{c: both[T](c)} }

func SendCase[T any](c chan<- T) func(T) *Op[T] {
	return func(v T) *Op[T] { return &Op[T]{c: both[T](c), send: true, Val: v} }
}

// Send is c <- v.
func Send[T any](c chan<- T) func(T) {
	return func(v T) {
		if !active || cur == nil {
			c <- v
			return
		}
		Select(false, SendCase(c)(v))
	}
}

// Recv is <-c.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

func Recv2[T any](c <-chan T) (T, bool) {
	if !active || cur == nil {
		v, ok := <-c
		return v, ok
	}
	o := RecvCase(c)
	Select(false, o)
	return o.result()
}

//go:norace
func (o *Op[T]) result() (T, bool) { return o.Val, o.OK }

// Range is what a loop over a channel gets.
func Range[T any](c <-chan T) func(func(T) bool) {
	return func(f func(T) bool) {
		for {
			v, ok := Recv2(c)
			if !ok || !f(v) {
				return
			}
		}
	}
}

// Close is close(c).
func Close[T any](c chan<- T) {
	close(c)
	if active && cur != nil {
		wakeKey(chanKeyPtr())
		Yield(4)
	}
}

// Forever is select {}.
func Forever() {
	if !active || cur == nil {
		select {}
	}
	var k byte
	Block(unsafe.Pointer(&k), "select without cases")
}
