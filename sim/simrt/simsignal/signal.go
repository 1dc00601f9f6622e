// Package simsignal replaces os/signal.
package simsignal

import (
	"context"
	"os"
	"simrt"
)

type reg struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

var regs []*reg
var ignored = map[os.Signal]bool{}

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	simrt.Y()
	if c == nil {
		panic("os/signal: Notify using nil channel")
	}
	regs = append(regs, &reg{c, append([]os.Signal{}, sig...)})
}

func Stop(c chan<- os.Signal) {
	simrt.Y()
	for i := 0; i < len(regs); i++ {
		if regs[i].c == c {
			regs = append(regs[:i], regs[i+1:]...)
			i--
		}
	}
}

func Ignore(sig ...os.Signal) {
	for _, s := range sig {
		ignored[s] = true
	}
}
func Reset(sig ...os.Signal) {
	if len(sig) == 0 {
		regs = nil
		return
	}
	for _, r := range regs {
		var k []os.Signal
		for _, s := range r.sigs {
			drop := false
			for _, x := range sig {
				drop = drop || x == s
			}
			if !drop {
				k = append(k, s)
			}
		}
		r.sigs = k
	}
}
func Ignored(sig os.Signal) bool { return ignored[sig] }

// Handled reports whether somebody registered for the signal.
func Handled(s os.Signal) bool {
	for _, r := range regs {
		if len(r.sigs) == 0 {
			return true
		}
		for _, x := range r.sigs {
			if x == s {
				return true
			}
		}
	}
	return false
}

// Deliver sends a signal to the process (harness side): channel sends never
// block, exactly as package os/signal does.  It reports whether a handler was
// registered.
func Deliver(s os.Signal) bool {
	h := false
	for _, r := range append([]*reg{}, regs...) {
		m := len(r.sigs) == 0
		for _, x := range r.sigs {
			m = m || x == s
		}
		if m {
			h = true
			simrt.Select(true, simrt.SendCase(r.c)(s))
		}
	}
	return h
}

func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	panic("simsignal: NotifyContext is not simulated")
}

// Registered is the number of channels that would receive the signal.
func Registered(s os.Signal) int {
	n := 0
	for _, r := range regs {
		if len(r.sigs) == 0 {
			n++
			continue
		}
		for _, x := range r.sigs {
			if x == s {
				n++
				break
			}
		}
	}
	return n
}
