package main

import (
	"math"
	"strings"
	"syscall"

	"plan"
	"simrt"
	"simrt/simos"
)

// Credential changes while the gateways run: what may be in force when.

type credVer struct {
	from   int64 // written
	till   int64 // overwritten, spoilt or removed; 0 = not yet
	absent bool
	c      plan.Cred
}

type credState struct {
	vers []*credVer
}

func (w *sworld) credFile(ci int) string {
	c := &w.p.Creds[ci]
	return w.credDir + "/" + c.Proto + "_" + c.ID + ".yaml"
}

// startCreds records the entries present before the first load.
func (w *sworld) startCreds() {
	if w.p.ReloadMs == 0 {
		return
	}
	for i := range w.p.Creds {
		w.creds = append(w.creds, &credState{vers: []*credVer{{c: w.p.Creds[i], absent: w.p.Creds[i].Late}}})
	}
}

// cur is what the operator knows as the credentials of a client.
func (w *sworld) cur(ci int) *plan.Cred {
	if w.creds == nil {
		return &w.p.Creds[ci]
	}
	v := w.creds[ci].vers
	return &v[len(v)-1].c
}

// old is what they were before the last change.
func (w *sworld) old(ci int) *plan.Cred {
	if w.creds == nil {
		return &w.p.Creds[ci]
	}
	v := w.creds[ci].vers
	return &v[max(len(v)-2, 0)].c
}

// takes bounds the time within which a readable entry is in force.
func (w *sworld) takes() int64 { return w.p.ReloadMs*ms + sec + slack() }

// sure is when a version is certainly in force, if nothing newer is.
func (w *sworld) sure(ci int, v *credVer) int64 {
	if v.from == 0 {
		return 0
	}
	end := v.till
	if end == 0 {
		end = math.MaxInt64
	}
	t, need := v.from, w.takes()
	for _, f := range w.credFaults { // in order of their beginning
		if f[2] >= 0 && f[2] != int64(ci) {
			continue // another entry's
		}
		if f[1] == 0 || f[1] > t {
			if f[0]-t >= need {
				break
			}
			if f[1] == 0 {
				return math.MaxInt64
			}
			t = f[1]
		}
	}
	if t > end || end-t < need {
		return math.MaxInt64
	}
	return t + need
}

// possible lists the versions some instant of a period may have seen.
func (w *sworld) possible(ci int, from, to int64) (l []*credVer) {
	vs := w.creds[ci].vers
	for i := len(vs) - 1; i >= 0; i-- {
		v := vs[i]
		if v.from > to {
			continue
		}
		l = append(l, v)
		if w.sure(ci, v) <= from {
			break
		}
	}
	return
}

// outcome is what a login deserves under one version.
func (x *sent) outcome(v *credVer) string {
	switch {
	case v.absent || x.base == "unknown":
		return "unknown"
	case x.base == "ver" && x.secret != v.c.Secret:
		return "verandsecret"
	case x.base == "ver":
		return "ver"
	case x.secret == v.c.Secret && x.base == "":
		return "ok"
	}
	return "secret"
}

// judge settles what a login deserved, given its answer (st < 0: none).
func (c *sconn) judge(x *sent, until int64, st int64) (match []*credVer) {
	if w.creds == nil {
		return
	}
	codes := loginCodes[c.proto]
	pos := w.possible(c.ci, x.delivered, until)
	outs := map[string]bool{}
	pick := ""
	for _, v := range pos {
		o := x.outcome(v)
		outs[o] = true
		if o == "ok" {
			match = append(match, v)
		}
		k := codes[o]
		if o == "ok" {
			k = codes["limit"]
		}
		if pick == "" || st == 0 && o == "ok" || st > 0 && in(uint32(st), k) {
			pick = o
		}
	}
	x.expect = pick
	if len(outs) > 1 && st < 0 {
		x.expect = "unsettled"
	}
	if st >= 0 {
		switch {
		case len(outs) > 1:
			probe("login_during_change")
		case len(w.creds[c.ci].vers) > 1 && pos[0] != w.creds[c.ci].vers[0]:
			probe("login_after_change_" + pick)
		}
		if len(pos) == 1 && len(w.creds[c.ci].vers) > 1 && pos[0] != w.creds[c.ci].vers[0] {
			probe("login_settled_new_version")
		}
	}
	return
}

// admit gives a session the parameters of the version it logged in under.
func (c *sconn) admit(match []*credVer) {
	if len(match) == 0 {
		return
	}
	cr := match[0].c
	for _, v := range match[1:] {
		if v.c.Window != cr.Window || v.c.Tput != cr.Tput {
			c.loose = true
			cr.Window = min(cr.Window, v.c.Window)
			cr.Tput = min(cr.Tput, v.c.Tput)
		}
		cr.MaxConns = max(cr.MaxConns, v.c.MaxConns)
	}
	c.cred = &cr
}

// maxConns gives the bounds of the connection limit a login may have met.
func (c *sconn) maxConns(match []*credVer) (lo, hi int) {
	if len(match) == 0 {
		return c.cred.MaxConns, c.cred.MaxConns
	}
	lo = math.MaxInt
	for _, v := range match {
		lo, hi = min(lo, v.c.MaxConns), max(hi, v.c.MaxConns)
	}
	return
}

func (w *sworld) credOps() {
	if w.creds == nil {
		return
	}
	active := map[int]*plan.CredOp{}
	simos.Fault = func(op, name string) (error, int) {
		for i := range w.p.CredOps {
			if f := active[i]; f != nil && op == f.S && (f.C < 0 && strings.HasPrefix(name, w.credDir) || f.C >= 0 && name == w.credFile(f.C)) {
				res.Faults["cred_"+op+"_error"]++
				return []error{syscall.EIO, syscall.EMFILE, syscall.EACCES}[len(name)%3], 0
			}
		}
		return nil, -1
	}
	pending := 0
	for i := range w.p.CredOps {
		i, o := i, w.p.CredOps[i]
		if d := o.AtMs*ms - (simrt.PeekNs() - w.credStart); d > 0 {
			simrt.SleepNs(d)
		}
		now := simrt.PeekNs()
		if o.K == "ioerr" {
			active[i] = &o
			k := len(w.credFaults)
			w.credFaults = append(w.credFaults, [3]int64{now, 0, int64(o.C)})
			pending++
			simrt.GoSys(func() {
				simrt.SleepNs(o.ForMs * ms)
				delete(active, i)
				w.credFaults[k][1] = simrt.PeekNs()
				pending--
			})
			continue
		}
		w.credOp(&o)
	}
	for pending > 0 {
		simrt.SleepNs(10 * ms)
	}
	// in the end everything is in order
	for ci, s := range w.creds {
		last := s.vers[len(s.vers)-1]
		if last.absent {
			w.credOp(&plan.CredOp{K: "put", C: ci, Secret: w.p.Creds[ci].Secret, MaxConns: w.p.Creds[ci].MaxConns, Window: w.p.Creds[ci].Window, Tput: w.p.Creds[ci].Tput})
		} else if last.till > 0 {
			c := last.c
			w.credOp(&plan.CredOp{K: "put", C: ci, Secret: c.Secret, MaxConns: c.MaxConns, Window: c.Window, Tput: c.Tput})
		}
	}
}

func (w *sworld) credOp(o *plan.CredOp) {
	now := simrt.PeekNs()
	s := w.creds[o.C]
	last := s.vers[len(s.vers)-1]
	if last.till == 0 {
		last.till = now
	}
	f := w.credFile(o.C)
	trace("credentials of %s: %s %s", w.p.Creds[o.C].ID, o.K, o.S)
	switch o.K {
	case "put":
		v := &credVer{from: now, c: w.p.Creds[o.C]}
		v.c.Secret, v.c.MaxConns, v.c.Window, v.c.Tput = o.Secret, o.MaxConns, o.Window, o.Tput
		s.vers = append(s.vers, v)
		simos.Put(f, []byte(credYaml(&v.c)))
		res.Faults["credentials_changed"]++
	case "bad":
		x := last.c
		x.Secret, x.MaxConns, x.Window, x.Tput = o.Secret, o.MaxConns, o.Window, o.Tput
		full := credYaml(&x)
		var d string
		switch o.S {
		case "torn":
			d = full[:strings.Index(full, "shared-secret: \"")*(int(o.ForMs)%5)/4]
		case "malformed":
			d = "client-id: [\n" + full
		case "nosecret":
			d = strings.Replace(full, "shared-secret", "shared-sec", 1)
		case "type":
			d = strings.Replace(full, "max-conns: ", "max-conns: x", 1)
		}
		simos.Put(f, []byte(d))
		res.Faults["credentials_bad_"+o.S]++
	case "rm":
		simos.Delete(f)
		res.Faults["credentials_removed"]++
	}
}

// credSettled waits until the last versions are in force.
func credSettled() {
	if w.creds == nil {
		return
	}
	for k := 0; k < 4; k++ {
		t := int64(0)
		for ci, s := range w.creds {
			if u := w.sure(ci, s.vers[len(s.vers)-1]); u > t && u < math.MaxInt64 {
				t = u
			}
		}
		d := t - simrt.PeekNs()
		if d <= 0 {
			return
		}
		simrt.SleepNs(d + 10*ms)
	}
}

// settled says whether one version only can be in force now.
func (w *sworld) settled(ci int) bool {
	return w.creds == nil || len(w.possible(ci, simrt.PeekNs(), simrt.PeekNs())) == 1
}

// outlived: the client's entry changed during the session.
func (c *sconn) outlived() bool {
	for _, v := range w.creds[c.ci].vers {
		if v.from > c.okTap && c.okTap > 0 && v.from < c.endOf() && (c.am.closeEnter == 0 || v.from < c.am.closeEnter) {
			return true
		}
	}
	return false
}
