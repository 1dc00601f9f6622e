// Package simsync replaces package sync.
package simsync

import (
	"simrt"
	"sync"
)

type Locker = sync.Locker

type Mutex struct {
	locked bool
	q      simrt.WaitQ
}

func (m *Mutex) Lock() {
	simrt.Y()
	for m.locked {
		m.q.Wait("sync.Mutex.Lock", 0)
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	simrt.Y()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		simrt.Fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.q.WakeOne()
	simrt.Y()
}

type RWMutex struct {
	w       bool
	readers int
	wwait   int
	rq, wq  simrt.WaitQ
}

func (m *RWMutex) Lock() {
	simrt.Y()
	m.wwait++
	for m.w || m.readers > 0 {
		m.wq.Wait("sync.RWMutex.Lock", 0)
	}
	m.wwait--
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	simrt.Y()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		simrt.Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.rq.WakeAll()
	m.wq.WakeOne()
	simrt.Y()
}
func (m *RWMutex) RLock() {
	simrt.Y()
	for m.w || m.wwait > 0 {
		m.rq.Wait("sync.RWMutex.RLock", 0)
		if !m.w {
			break
		}
	}
	m.readers++
}
func (m *RWMutex) TryRLock() bool {
	simrt.Y()
	if m.w || m.wwait > 0 {
		return false
	}
	m.readers++
	return true
}
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		simrt.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 {
		m.wq.WakeOne()
	}
	simrt.Y()
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	simrt.Y()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p any
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	g := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { g(); return r1, r2 }
}

type WaitGroup struct {
	n int
	q simrt.WaitQ
}

func (w *WaitGroup) Add(d int) {
	simrt.Y()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.WakeAll()
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	simrt.Y()
	for w.n > 0 {
		w.q.Wait("sync.WaitGroup.Wait", 0)
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L Locker
	q simrt.WaitQ
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	// enqueue before unlocking, as the real one does
	tk := c.q.Enqueue()
	c.L.Unlock()
	c.q.Park(tk, "sync.Cond.Wait")
	c.L.Lock()
}
func (c *Cond) Signal()    { simrt.Y(); c.q.WakeOne() }
func (c *Cond) Broadcast() { simrt.Y(); c.q.WakeAll() }

// Pool: objects may be handed out again in any order or dropped.
type Pool struct {
	New func() any
	xs  []any
}

func (p *Pool) Get() any {
	simrt.Y()
	if n := len(p.xs); n > 0 && !simrt.Chance(1, 16) {
		i := n - 1
		if simrt.Chance(1, 4) {
			i = simrt.Choose(n)
		}
		x := p.xs[i]
		p.xs = append(p.xs[:i:i], p.xs[i+1:]...)
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	simrt.Y()
	if x == nil {
		return
	}
	p.xs = append(p.xs, x)
}

// Map is a linearizable map with a seeded iteration order.
type Map struct {
	m     map[any]*ment
	order []*ment
	dead  int
}
type ment struct {
	k, v any
	del  bool
}

func (m *Map) get(k any) *ment {
	if m.m == nil {
		return nil
	}
	return m.m[k]
}
func (m *Map) put(k, v any) {
	if m.m == nil {
		m.m = map[any]*ment{}
	}
	if e := m.m[k]; e != nil {
		e.v = v
		return
	}
	e := &ment{k: k, v: v}
	m.m[k] = e
	m.order = append(m.order, e)
}
func (m *Map) drop(e *ment) {
	delete(m.m, e.k)
	e.del = true
	m.dead++
	if m.dead > 32 && m.dead > len(m.order)/2 {
		var o []*ment
		for _, x := range m.order {
			if !x.del {
				o = append(o, x)
			}
		}
		m.order, m.dead = o, 0
	}
}

func (m *Map) Load(k any) (any, bool) {
	simrt.Y()
	if e := m.get(k); e != nil {
		return e.v, true
	}
	return nil, false
}
func (m *Map) Store(k, v any) { simrt.Y(); m.put(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.Y()
	if e := m.get(k); e != nil {
		return e.v, true
	}
	m.put(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	simrt.Y()
	if e := m.get(k); e != nil {
		m.drop(e)
		return e.v, true
	}
	return nil, false
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	simrt.Y()
	if e := m.get(k); e != nil {
		o := e.v
		e.v = v
		return o, true
	}
	m.put(k, v)
	return nil, false
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	simrt.Y()
	if e := m.get(k); e != nil && e.v == o {
		e.v = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	simrt.Y()
	if e := m.get(k); e != nil && e.v == o {
		m.drop(e)
		return true
	}
	return false
}
func (m *Map) Clear() {
	simrt.Y()
	for _, e := range m.order {
		e.del = true
	}
	m.m, m.order, m.dead = nil, nil, 0
}
func (m *Map) Range(f func(k, v any) bool) {
	simrt.Y()
	var es []*ment
	for _, e := range m.order {
		if !e.del {
			es = append(es, e)
		}
	}
	for i := len(es) - 1; i > 0; i-- {
		j := simrt.Choose(i + 1)
		es[i], es[j] = es[j], es[i]
	}
	for _, e := range es {
		simrt.Y()
		if e.del {
			continue
		}
		if !f(e.k, e.v) {
			return
		}
	}
}
