package simrt

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// Channels keep their native value as identity; all state lives here.

type cwaiter struct {
	g    *G
	sel  *selCtx
	idx  int
	val  any
	ok   bool
	done bool
}

type selCtx struct {
	fired int
	w     *cwaiter
}

type chanState struct {
	cap    int
	buf    []any
	closed bool
	recvq  []*cwaiter
	sendq  []*cwaiter
}

var chans = map[unsafe.Pointer]*chanState{}

type runtimeErr string

func (e runtimeErr) Error() string { return string(e) }
func (e runtimeErr) RuntimeError() {}

func ptrOf[T any](ch T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func state(p unsafe.Pointer, c int) *chanState {
	st := chans[p]
	if st == nil {
		st = &chanState{cap: c}
		chans[p] = st
	}
	return st
}

func pop(q *[]*cwaiter) *cwaiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.done {
			continue
		}
		if w.sel != nil && w.sel.fired >= 0 {
			continue
		}
		return w
	}
	return nil
}

func fire(w *cwaiter) {
	w.done = true
	if w.sel != nil {
		w.sel.fired = w.idx
		w.sel.w = w
	}
	ready(w.g)
}

func (st *chanState) tryRecv() (v any, ok, done bool) {
	if len(st.buf) > 0 {
		v = st.buf[0]
		st.buf[0] = nil
		st.buf = st.buf[1:]
		if w := pop(&st.sendq); w != nil {
			st.buf = append(st.buf, w.val)
			w.ok = true
			fire(w)
		}
		return v, true, true
	}
	if w := pop(&st.sendq); w != nil {
		v = w.val
		w.ok = true
		fire(w)
		return v, true, true
	}
	if st.closed {
		return nil, false, true
	}
	return nil, false, false
}

func (st *chanState) trySend(v any) bool {
	if st.closed {
		panic(runtimeErr("send on closed channel"))
	}
	if w := pop(&st.recvq); w != nil {
		w.val, w.ok = v, true
		fire(w)
		return true
	}
	if len(st.buf) < st.cap {
		st.buf = append(st.buf, v)
		return true
	}
	return false
}

func cast[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	p := ptrOf(ch)
	if p == nil {
		BlockForever()
	}
	st := state(p, cap(ch))
	v, ok, done := st.tryRecv()
	if done {
		return cast[T](v), ok
	}
	// a channel filled or closed by code outside the simulator
	select {
	case x, ok2 := <-ch:
		return x, ok2
	default:
	}
	w := &cwaiter{g: cur}
	st.recvq = append(st.recvq, w)
	block("chan receive")
	return cast[T](w.val), w.ok
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Sender is used as Sender(ch)(v) for ch <- v.
func Sender[T any](ch chan<- T) func(T) {
	return func(v T) {
		p := ptrOf(ch)
		if p == nil {
			BlockForever()
		}
		st := state(p, cap(ch))
		if st.trySend(v) {
			return
		}
		w := &cwaiter{g: cur, val: v}
		st.sendq = append(st.sendq, w)
		block("chan send")
		if !w.ok {
			panic(runtimeErr("send on closed channel"))
		}
	}
}

// TrySendRaw is a non-blocking send from scheduler context (timers).
func TrySendRaw[T any](ch chan T, v T) bool {
	st := state(ptrOf(ch), cap(ch))
	if st.closed {
		return false
	}
	return st.trySend(v)
}

// Drain empties a channel buffer.
func Drain[T any](ch chan T) {
	st := state(ptrOf(ch), cap(ch))
	st.buf = nil
}

// Close is close(ch).
func Close[C ~chan E | ~chan<- E, E any](ch C) {
	p := ptrOf(ch)
	if p == nil {
		panic(runtimeErr("close of nil channel"))
	}
	st := state(p, cap(ch))
	if st.closed {
		panic(runtimeErr("close of closed channel"))
	}
	st.closed = true
	for {
		w := pop(&st.recvq)
		if w == nil {
			break
		}
		w.val, w.ok = nil, false
		fire(w)
	}
	for {
		w := pop(&st.sendq)
		if w == nil {
			break
		}
		w.ok = false
		fire(w)
	}
}

// Len is len(ch).
func Len[C any](ch C) int {
	p := ptrOf(ch)
	if p == nil {
		return 0
	}
	if st := chans[p]; st != nil {
		return len(st.buf)
	}
	return 0
}

// BlockForever is select{}.
func BlockForever() {
	block("forever")
}

// ---------------------------------------------------------------- select

// SelCase is one prepared select case.
type SelCase interface{ sc() *selCase }

type selCase struct {
	st     *chanState
	send   bool
	val    any
	native func() (any, bool, bool)
	rv     any
	rok    bool
}

type RCase[T any] struct{ c selCase }
type SCase struct{ c selCase }

func (r *RCase[T]) sc() *selCase { return &r.c }
func (s *SCase) sc() *selCase    { return &s.c }

func (r *RCase[T]) Val() T          { return cast[T](r.c.rv) }
func (r *RCase[T]) Val2() (T, bool) { return cast[T](r.c.rv), r.c.rok }

// RecvCase prepares case <-ch.
func RecvCase[T any](ch <-chan T) *RCase[T] {
	r := &RCase[T]{}
	if p := ptrOf(ch); p != nil {
		r.c.st = state(p, cap(ch))
		r.c.native = func() (any, bool, bool) {
			select {
			case x, ok := <-ch:
				return x, ok, true
			default:
				return nil, false, false
			}
		}
	}
	return r
}

// SendCase prepares case ch <- v (used as SendCase(ch)(v)).
func SendCase[T any](ch chan<- T) func(T) *SCase {
	return func(v T) *SCase {
		s := &SCase{}
		s.c.send = true
		s.c.val = v
		if p := ptrOf(ch); p != nil {
			s.c.st = state(p, cap(ch))
		}
		return s
	}
}

// Select returns the index of the case taken, or -1 for default.
func Select(hasDefault bool, cases ...SelCase) int {
	n := len(cases)
	start := 0
	if n > 1 {
		start = schedR.Intn(n)
	}
	for k := 0; k < n; k++ {
		i := (start + k) % n
		c := cases[i].sc()
		if c.st == nil {
			continue
		}
		if c.send {
			if c.st.trySend(c.val) {
				return i
			}
			continue
		}
		if v, ok, done := c.st.tryRecv(); done {
			c.rv, c.rok = v, ok
			return i
		}
		if v, ok, done := c.native(); done {
			c.rv, c.rok = v, ok
			return i
		}
	}
	if hasDefault {
		return -1
	}
	ctx := &selCtx{fired: -1}
	ws := make([]*cwaiter, n)
	for i, cs := range cases {
		c := cs.sc()
		if c.st == nil {
			continue
		}
		w := &cwaiter{g: cur, sel: ctx, idx: i, val: c.val}
		ws[i] = w
		if c.send {
			c.st.sendq = append(c.st.sendq, w)
		} else {
			w.val = nil
			c.st.recvq = append(c.st.recvq, w)
		}
	}
	block("select")
	for i, cs := range cases {
		if w := ws[i]; w != nil && i != ctx.fired {
			w.done = true
			c := cs.sc()
			if c.send {
				c.st.sendq = remove(c.st.sendq, w)
			} else {
				c.st.recvq = remove(c.st.recvq, w)
			}
		}
	}
	i := ctx.fired
	c := cases[i].sc()
	if c.send {
		if !ctx.w.ok {
			panic(runtimeErr("send on closed channel"))
		}
	} else {
		c.rv, c.rok = ctx.w.val, ctx.w.ok
	}
	return i
}

func remove(q []*cwaiter, w *cwaiter) []*cwaiter {
	for i, x := range q {
		if x == w {
			return append(q[:i:i], q[i+1:]...)
		}
	}
	return q
}

// ---------------------------------------------------------------- range

// ChanIter drives for v := range ch.
type ChanIter[T any] struct{ ch <-chan T }

func ChanStart[T any](ch <-chan T) (ChanIter[T], T) {
	var z T
	return ChanIter[T]{ch}, z
}

func (c ChanIter[T]) Next(v *T) bool {
	x, ok := Recv2(c.ch)
	if ok {
		*v = x
	}
	return ok
}

// MapIter drives for k, v := range m in a seeded order.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    *int
}

func MapStart[M ~map[K]V, K comparable, V any](m M) (MapIter[K, V], K, V) {
	MapR(m)
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keyLess(keys[i], keys[j]) })
	for i := len(keys) - 1; i > 0; i-- {
		j := schedR.Intn(i + 1)
		keys[i], keys[j] = keys[j], keys[i]
	}
	i := 0
	var zk K
	var zv V
	return MapIter[K, V]{m: m, keys: keys, i: &i}, zk, zv
}

func (it MapIter[K, V]) Next(k *K, v *V) bool {
	for *it.i < len(it.keys) {
		key := it.keys[*it.i]
		*it.i++
		if val, ok := it.m[key]; ok {
			*k, *v = key, val
			return true
		}
	}
	return false
}

func keyLess(a, b any) bool {
	switch x := a.(type) {
	case string:
		return x < b.(string)
	case int:
		return x < b.(int)
	case int64:
		return x < b.(int64)
	case uint64:
		return x < b.(uint64)
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.IsValid() && vb.IsValid() && va.Kind() == vb.Kind() {
		switch va.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return va.Int() < vb.Int()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return va.Uint() < vb.Uint()
		case reflect.String:
			return va.String() < vb.String()
		}
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

// ---------------------------------------------------------------- map races

var mapWriters = map[unsafe.Pointer]int{}

// MapR checks for a write in progress (the runtime's concurrent map access error).
func MapR[M ~map[K]V, K comparable, V any](m M) M {
	if len(mapWriters) > 0 {
		if id, ok := mapWriters[ptrOf(m)]; ok && id != cur.id {
			Fatal("concurrent map read and map write")
		}
	}
	return m
}

// MapW brackets a map write: it returns the map after a window in which other
// goroutines may run and collide.
func MapW[M ~map[K]V, K comparable, V any](m M) M {
	p := ptrOf(m)
	if p == nil {
		return m
	}
	if id, ok := mapWriters[p]; ok && id != cur.id {
		Fatal("concurrent map writes")
	}
	mapWriters[p] = cur.id
	Y()
	delete(mapWriters, p)
	return m
}
