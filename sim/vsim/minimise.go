package main

import (
	"encoding/json"
	"sync"
	"time"
)

// minimise shrinks a failing spec while the same violation class persists.
func minimise(w ws, prop string, v Violation, orig []byte, limit time.Duration) ([]byte, int) {
	end := time.Now().Add(limit)
	best := orig
	tried := 0
	lim := runLimit
	if lim > 30*time.Second {
		lim = 30 * time.Second
	}
	// try evaluates candidates in parallel and takes the first that still fails
	try := func(cands [][]byte) int {
		for lo := 0; lo < len(cands); lo += workers() {
			if time.Now().After(end) {
				return -1
			}
			hi := min(lo+workers(), len(cands))
			ok := make([]bool, hi-lo)
			var wg sync.WaitGroup
			for i := lo; i < hi; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					r := runSpec(w.Runner, cands[i], lim, false)
					_, ok[i-lo] = matchV(r, prop, v)
				}()
			}
			wg.Wait()
			tried += hi - lo
			for i := range ok {
				if ok[i] {
					best = cands[lo+i]
					return lo + i
				}
			}
		}
		return -1
	}
	decode := func(b []byte) map[string]any {
		var m map[string]any
		ck(json.Unmarshal(b, &m), "spec")
		return m
	}
	// numbers stay exact: seeds are 63 bit
	decode = func(b []byte) map[string]any {
		var m map[string]any
		d := json.NewDecoder(bytesReader(b))
		d.UseNumber()
		ck(d.Decode(&m), "spec")
		return m
	}
	enc := func(m map[string]any) []byte {
		b, err := json.Marshal(m)
		ck(err, "spec")
		return b
	}
	// lists that may lose elements
	var find func(x any, path []any, out *[][]any)
	find = func(x any, path []any, out *[][]any) {
		switch y := x.(type) {
		case map[string]any:
			for _, k := range sortedKeys(y) {
				p := append(append([]any{}, path...), k)
				if l, ok := y[k].([]any); ok && shrinkable[k] && len(l) > 0 {
					*out = append(*out, p)
				}
				if s, ok := y[k].(string); ok && k == "s" && len(s) > 1 && len(s) < 400 {
					if kk, _ := y["k"].(string); kk == "burst" {
						*out = append(*out, p)
					}
				}
				find(y[k], p, out)
			}
		case []any:
			for i := range y {
				find(y[i], append(append([]any{}, path...), i), out)
			}
		}
	}
	at := func(m map[string]any, path []any) (get any, set func(any)) {
		var x any = m
		for i, p := range path {
			last := i == len(path)-1
			switch k := p.(type) {
			case string:
				mm, ok := x.(map[string]any)
				if !ok {
					return nil, nil
				}
				if last {
					return mm[k], func(v any) { mm[k] = v }
				}
				x = mm[k]
			case int:
				l, ok := x.([]any)
				if !ok || k >= len(l) {
					return nil, nil
				}
				if last {
					return l[k], func(v any) { l[k] = v }
				}
				x = l[k]
			}
		}
		return nil, nil
	}
	cut := func(b []byte, path []any, lo, hi int) []byte {
		m := decode(b)
		g, set := at(m, path)
		switch l := g.(type) {
		case []any:
			if hi > len(l) || lo >= hi {
				return nil
			}
			set(append(append([]any{}, l[:lo]...), l[hi:]...))
		case string:
			if hi > len(l) || lo >= hi || hi-lo == len(l) {
				return nil
			}
			set(l[:lo] + l[hi:])
		default:
			return nil
		}
		return enc(m)
	}
	// first: simplest schedule that still fails
	simple := func() {
		var c [][]byte
		for _, mod := range []map[string]any{
			{"mode": 2, "preempt": 0, "stall_prob": 0},
			{"preempt": 0, "stall_prob": 0},
			{"stall_prob": 0},
			{"mode": 2},
		} {
			m := decode(best)
			s := m["sched"].(map[string]any)
			for k, x := range mod {
				s[k] = x
			}
			c = append(c, enc(m))
		}
		if i := try(c); i > 0 { // also with fewer preemptions
			return
		}
	}
	simple()
	for round := 0; round < 6 && time.Now().Before(end); round++ {
		before := len(best)
		var paths [][]any
		find(any(decode(best)), nil, &paths)
		for _, p := range paths {
			g, _ := at(decode(best), p)
			n := 0
			switch l := g.(type) {
			case []any:
				n = len(l)
			case string:
				n = len(l)
			}
			for size := n; size >= 1 && time.Now().Before(end); size /= 2 {
				for {
					g, _ := at(decode(best), p)
					cur := 0
					switch l := g.(type) {
					case []any:
						cur = len(l)
					case string:
						cur = len(l)
					}
					var c [][]byte
					for lo := 0; lo < cur; lo += size {
						if b := cut(best, p, lo, min(lo+size, cur)); b != nil {
							c = append(c, b)
						}
					}
					if len(c) == 0 || try(c) < 0 {
						break
					}
				}
			}
		}
		// plain links, no extra features
		m := decode(best)
		var links [][]any
		var walk func(x any, path []any)
		walk = func(x any, path []any) {
			switch y := x.(type) {
			case map[string]any:
				for _, k := range sortedKeys(y) {
					p := append(append([]any{}, path...), k)
					if k == "link" {
						links = append(links, p)
					}
					walk(y[k], p)
				}
			case []any:
				for i := range y {
					walk(y[i], append(append([]any{}, path...), i))
				}
			}
		}
		walk(m, nil)
		for _, p := range links {
			m := decode(best)
			g, _ := at(m, p)
			l, ok := g.(map[string]any)
			if !ok {
				continue
			}
			ch := false
			for _, k := range []string{"seg", "coal_us", "short_read", "rcv_wnd", "snd_buf"} {
				if s, ok := l[k].(json.Number); ok && s.String() != "0" {
					l[k] = 0
					ch = true
				}
			}
			if ch {
				try([][]byte{enc(m)})
			}
		}
		if len(best) >= before {
			break
		}
	}
	// as few preemptions as possible: cut them off after the k-th
	s := decode(best)["sched"].(map[string]any)
	if p, ok := s["preempt"].(json.Number); ok && p.String() != "0" {
		r := runSpec(w.Runner, best, lim, false)
		lo, hi := int64(0), r.Stats.Preempts
		for lo < hi && time.Now().Before(end) {
			mid := (lo + hi) / 2
			m := decode(best)
			m["sched"].(map[string]any)["max_preempt"] = mid
			keep := best
			if try([][]byte{enc(m)}) >= 0 {
				hi = mid
			} else {
				best = keep
				lo = mid + 1
			}
		}
	}
	return best, tried
}

// shrinkable names the lists of a spec whose elements may be left out.
var shrinkable = map[string]bool{"peers": true, "ops": true, "steps": true, "callers": true, "signals": true, "clients": false}
