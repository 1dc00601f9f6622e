package main

import (
	"strings"
	"unicode/utf16"

	"golang.org/x/text/encoding/simplifiedchinese"
	"harness/wire"
	"plan"
	"simrt"
)

// Simulated upstream messages (P22).

// ownSeq: requests of the server itself have distinct numbers on a connection.
func (c *sconn) ownSeq(f *frame) {
	switch f.p.Kind {
	case wire.Deliver, wire.Report, wire.Active, wire.Term:
	default:
		return
	}
	if c.own == nil {
		c.own = map[string]string{}
	}
	if k := c.own[f.p.Seq]; k != "" && (k == wire.Deliver || f.p.Kind == wire.Deliver) {
		violate("P22", "push-seq", "c%d %s: a %s carries the sequence number %s of an earlier %s", c.id, c.proto, f.p.Kind, f.p.Seq, k)
	}
	c.own[f.p.Seq] = f.p.Kind
}

// unusable tells whether a configured upstream message is none.
func unusable(s string) bool { return !strings.Contains(s, "_,_") }

// pushed judges one upstream message.
func (c *sconn) pushed(f *frame) {
	p := f.p
	if c.hostile {
		return
	}
	c.pushAt = append(c.pushAt, f.at)
	if !w.p.MO {
		violate("P22", "push-while-off", "c%d %s: an upstream message although they are switched off", c.id, c.proto)
		return
	}
	if c.okTap == 0 {
		violate("P22", "push-before-login", "c%d %s: an upstream message on a connection that is not logged in", c.id, c.proto)
	}
	if c.proto == wire.SGIP {
		violate("P22", "push-sgip", "c%d: an upstream message on an SGIP submit connection", c.id)
		return
	}
	if p.Err != "" {
		violate("P22", "push-frame", "c%d %s: upstream message with a bad frame: %s (%x)", c.id, c.proto, p.Err, p.Raw)
		return
	}
	if o := w.msgids[c.proto+"/"+p.MsgID]; o != "" || strings.Trim(p.MsgID, "0") == "" {
		violate("P22", "push-id", "c%d %s: upstream message with id %s, which is that of %q", c.id, c.proto, p.MsgID, o)
	}
	w.msgids[c.proto+"/"+p.MsgID] = "an upstream message"
	if !isDigits(p.Src) || len(p.Src) != 11 {
		violate("P22", "push-source", "c%d %s: upstream message from %q", c.id, c.proto, p.Src)
	}
	t, ok := "", true
	switch {
	case c.proto == wire.SMGP && p.Fmt == 15:
		x, err := simplifiedchinese.GB18030.NewDecoder().String(string(p.Content))
		t, ok = x, err == nil
	case p.Fmt == 8:
		var u []uint16
		for i := 0; i+1 < len(p.Content); i += 2 {
			u = append(u, uint16(p.Content[i])<<8|uint16(p.Content[i+1]))
		}
		t, ok = string(utf16.Decode(u)), len(p.Content)%2 == 0
	case p.Fmt == 0:
		t = string(p.Content)
		for _, b := range p.Content {
			ok = ok && b < 0x80
		}
	default:
		ok = false
	}
	if !ok || p.UDHI != 0 {
		violate("P22", "push-text", "c%d %s: upstream message with format %d, header flag %d and content %x", c.id, c.proto, p.Fmt, p.UDHI, p.Content)
		return
	}
	if len(p.Content) > 160 || p.Fmt != 0 && len(p.Content) > 140 {
		violate("P22", "push-long", "c%d %s: upstream message of %d bytes in format %d", c.id, c.proto, len(p.Content), p.Fmt)
	}
	probe("push_" + c.proto)
	near := ""
	for _, x := range plan.MOTexts(w.p.Contents) {
		i := strings.Index(x, "_,_")
		if i < 0 {
			continue
		}
		sub, x := x[:i], x[i+3:]
		if p.Dests[0] != c.cred.Display+sub {
			continue
		}
		near = x
		if x == t {
			probe("push_whole")
			return
		}
		if strings.HasPrefix(x, t) && fullSMS(c.proto, x, t) {
			probe("push_cut")
			return
		}
	}
	violate("P22", "push-text", "c%d %s: upstream message to %q says %q (format %d), configured is %q", c.id, c.proto, p.Dests[0], t, p.Fmt, near)
}

// fullSMS: t, the beginning of x, fills a message: the next character would
// not fit (SMGP: or it has 70 already).
func fullSMS(proto, x, t string) bool {
	if proto == wire.SMGP && len([]rune(t)) >= 70 {
		return true
	}
	next := []rune(t + x[len(t):])[:len([]rune(t))+1]
	switch {
	case proto == wire.SMGP:
		b, _ := simplifiedchinese.GB18030.NewEncoder().String(string(next))
		return len(b) > 140
	case len(x) == len([]rune(x)):
		return len(next) > 160
	}
	return len(utf16.Encode(next)) > 70
}

func isDigits(s string) bool {
	for i := range s {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return s != ""
}

// crowded: the workers of the gateways may all be taken at times.
func (w *sworld) crowded() bool {
	n := 2 * len(w.conns)
	for _, c := range w.conns {
		for _, x := range c.sents {
			if x.kind == wire.Submit {
				n++
			}
		}
	}
	return n >= spec.Sched.NumCPU
}

// pushTimes: at most one message per tick and, with the rate at its maximum,
// not fewer either.
func (c *sconn) pushTimes() {
	if c.hostile || c.proto == wire.SGIP {
		return
	}
	sl := slack() + 50*ms
	tick := w.p.TickMs * ms
	for i := range c.pushAt {
		for j := i + 1; j < len(c.pushAt); j++ {
			if int64(j-i) > (c.pushAt[j]-c.pushAt[i]+sl)/tick+1 {
				violate("P22", "push-often", "c%d %s: %d upstream messages within %.3fs, the tick is %.3fs", c.id, c.proto, j-i+1, s64(c.pushAt[j]-c.pushAt[i]), s64(tick))
				return
			}
		}
	}
	all := w.p.MO && w.p.MORate >= 1 && len(w.p.Contents) > 0 && !w.crowded()
	for _, x := range w.p.Contents {
		all = all && !unusable(x)
	}
	if !all || c.okTap == 0 || c.endHow == "vanish" || c.slow > 0 || c.broken {
		return
	}
	end := simrt.PeekNs()
	if c.clientEnd > 0 {
		end = c.clientEnd
	}
	if c.am != nil && c.am.closeEnter > 0 && c.am.closeEnter < end {
		end = c.am.closeEnter
	}
	if c.eofAt > 0 && c.eofAt < end {
		end = c.eofAt
	}
	for _, x := range []int64{c.termSent, c.termRsp} {
		if x > 0 && x < end {
			end = x
		}
	}
	if len(c.srvTerm) > 0 && c.srvTerm[0] < end {
		end = c.srvTerm[0]
	}
	last := c.okTap
	for _, t := range append(append([]int64{}, c.pushAt...), end) {
		if t > end {
			t = end
		}
		// a tick finds the session no later than two ticks on
		if t-last > 2*tick+sl {
			violate("P22", "no-push", "c%d %s: no upstream message for %.3fs on a logged-in session, the tick is %.3fs and every tick sends one", c.id, c.proto, s64(t-last), s64(tick))
			return
		}
		last = t
	}
	if len(c.pushAt) > 0 {
		probe("push_every_tick")
	}
}
