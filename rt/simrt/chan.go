package simrt

import "unsafe"

// Channels are emulated: the real channel is only an identity and a capacity.

type chanState struct {
	buf    []any
	closed bool
	// unbuffered rendezvous
	recvWaiting int
	taken       int
	sent        int
}

var chans = map[unsafe.Pointer]*chanState{}

// ResetChans forgets all channels of a finished run.
func ResetChans() { chans = map[unsafe.Pointer]*chanState{} }

func key[T any](c <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

func state(p unsafe.Pointer) *chanState {
	s := chans[p]
	if s == nil {
		s = &chanState{}
		chans[p] = s
	}
	return s
}

func canSend(p unsafe.Pointer, capacity int) bool {
	if p == nil {
		return false
	}
	s := state(p)
	if s.closed {
		return true
	}
	if capacity > 0 {
		return len(s.buf) < capacity
	}
	return s.recvWaiting > len(s.buf)
}

func doSend(p unsafe.Pointer, v any) {
	s := state(p)
	if s.closed {
		panic("send on closed channel")
	}
	RaceAcquire(p) // earlier receives made room
	RaceRelease(p)
	s.buf = append(s.buf, v)
	s.sent++
}

func canRecv(p unsafe.Pointer) bool {
	if p == nil {
		return false
	}
	s := state(p)
	return len(s.buf) > 0 || s.closed
}

func doRecv(p unsafe.Pointer) (any, bool) {
	s := state(p)
	RaceAcquire(p)
	if len(s.buf) > 0 {
		v := s.buf[0]
		s.buf = s.buf[1:]
		s.taken++
		RaceRelease(p)
		return v, true
	}
	return nil, false
}

func Send[T any](c chan<- T, v T) {
	Y()
	if Dead() {
		return
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	n := cap(c)
	Block("chan send", func() bool { return canSend(p, n) })
	doSend(p, v)
}

func Recv2[T any](c <-chan T) (T, bool) {
	Y()
	var z T
	if Dead() {
		return z, false
	}
	p := key(c)
	if p != nil {
		state(p).recvWaiting++
		RaceRelease(p)
	}
	Block("chan receive", func() bool { return canRecv(p) })
	state(p).recvWaiting--
	v, ok := doRecv(p)
	if v != nil {
		z = v.(T)
	}
	return z, ok
}

func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

func Close[T any](c chan<- T) {
	Y()
	if Dead() {
		return
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	s := state(p)
	if s.closed {
		panic("close of closed channel")
	}
	RaceRelease(p)
	s.closed = true
}

func ChanLen[T any](c <-chan T) int {
	Y()
	if cap(c) == 0 {
		return 0
	}
	return len(state(key(c)).buf)
}

type Case struct {
	p    unsafe.Pointer
	cap  int
	send bool
	v    any
}

type Selected struct {
	I  int
	V  any
	Ok bool
}

func SendCase[T any](c chan<- T, v T) Case {
	return Case{p: *(*unsafe.Pointer)(unsafe.Pointer(&c)), cap: cap(c), send: true, v: v}
}

func RecvCase[T any](c <-chan T) Case { return Case{p: key(c)} }

func Got[T any](c <-chan T, s Selected) T {
	var z T
	if s.V != nil {
		z = s.V.(T)
	}
	return z
}

func Got2[T any](c <-chan T, s Selected) (T, bool) { return Got(c, s), s.Ok }

func Select(def bool, cases []Case) Selected {
	Y()
	if Dead() {
		return Selected{I: -1}
	}
	ready := func() []int {
		var r []int
		for i, c := range cases {
			if c.send && canSend(c.p, c.cap) || !c.send && canRecv(c.p) {
				r = append(r, i)
			}
		}
		return r
	}
	if len(ready()) == 0 && def {
		return Selected{I: -1}
	}
	for _, c := range cases {
		if !c.send && c.p != nil {
			state(c.p).recvWaiting++
			RaceRelease(c.p)
		}
	}
	Block("select", func() bool { return len(ready()) > 0 })
	for _, c := range cases {
		if !c.send && c.p != nil {
			state(c.p).recvWaiting--
		}
	}
	r := ready()
	i := r[0]
	if s0 != nil {
		i = r[s0.maprng.Intn(len(r))]
	}
	c := cases[i]
	if c.send {
		doSend(c.p, c.v)
		return Selected{I: i}
	}
	v, ok := doRecv(c.p)
	return Selected{I: i, V: v, Ok: ok}
}
