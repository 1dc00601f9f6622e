package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"harness/wire"
	"simrt"

	sms "github.com/hrygo/gosms/smc_client"
	"github.com/hrygo/gosms/smc_client/session"
	"golang.org/x/text/encoding/simplifiedchinese"
)

// partsOf is the number of parts a text needs at least when every part but a
// single one carries a six byte header.
func encLen(proto, text string) (n, limit int) {
	if proto == wire.SMGP {
		b, err := simplifiedchinese.GB18030.NewEncoder().String(text)
		if err != nil {
			return -1, 140
		}
		return len(b), 140
	}
	ascii := true
	for i := 0; i < len(text); i++ {
		if text[i] >= 0x80 {
			ascii = false
		}
	}
	if ascii {
		return len(text), 160
	}
	return 2 * len(utf16.Encode([]rune(text))), 140
}

// unsendable: no sequence of submits can carry the text.
func unsendable(s *csend) bool {
	if !utf8.ValidString(s.text) {
		return true
	}
	for _, g := range s.gws {
		if g == nil {
			continue
		}
		n, lim := encLen(g.Proto, s.text)
		if n < 0 || n > 255*(lim-6) {
			return true
		}
	}
	return false
}

func (w *cworld) evaluate() {
	w.look()
	slk := cslack()
	exp := w.p.ExpireMs * ms
	now := simrt.PeekNs()
	// frames and records
	bySeq := map[string]*crec{}
	for _, k := range w.order {
		if k.send == nil { // handed to the journal, its query came too late
			for _, s := range w.sends {
				if s.qid != 0 && s.qid == k.r.QueryId {
					k.send = s
					s.recs = append(s.recs, k)
					s.got = true
				}
			}
		}
		if k.send == nil {
			violate("P18", "foreign-record", "the journal receives a record (query id %d, number %s) that belongs to no send", k.r.QueryId, k.r.Phone)
		}
	}
	for _, k := range w.order {
		q := seqKey(k.r)
		if o := bySeq[q]; o != nil && o.r != k.r {
			violate("P19", "same-seq", "two records share the sequence number %s", q)
		}
		bySeq[q] = k
	}
	for _, s := range w.subs {
		q := s.conn.gw.key(s.p)
		if k := bySeq[q]; k != nil {
			k.subs = append(k.subs, s)
			s.rec = k
			if len(k.subs) > 1 {
				violate("P19", "two-frames", "%d frames carry the sequence number %s of one record", len(k.subs), q)
			}
		}
	}
	if len(w.subs) > 0 {
		probe("submits")
	}
	w.checkSends(slk)
	w.checkText(slk)
	w.checkResults(slk, exp)
	w.checkAcks(slk)
	w.checkJournal(slk, exp, now)
	w.checkCaches()
	w.checkRoutes()
	w.checkLimits()
	w.checkSpread()
}

// key is the identity under which the client files a submit.
func (g *cgw) key(p *wire.PDU) string {
	if g.Proto == wire.SGIP {
		return p.Seq[8:]
	}
	return p.Seq
}

func seqKey(r *session.Result) string {
	if r.SequenceId>>32 != 0 {
		return fmt.Sprintf("%016x", r.SequenceId)
	}
	return fmt.Sprintf("%08x", r.SequenceId)
}

// calmAt reports whether nothing was ever wrong with the gateway's
// connections that could still matter in the interval.
func (g *cgw) calmIn(from, to int64) bool {
	for _, c := range g.conns {
		if c.openAt > to {
			continue
		}
		if c.faultAt > 0 && c.faultAt <= to && (c.eofAt == 0 || c.eofAt > from-sec) {
			return false
		}
		if c.faultAt > 0 && c.faultAt <= to && c.cliOpen() {
			return false
		}
	}
	return true
}

func (c *cconn) cliOpen() bool { return !c.cli.Closed() }

func (w *cworld) checkSends(slk int64) {
	for _, s := range w.sends {
		if s.end == 0 {
			continue
		}
		if s.invalid && len(s.recs) > 0 && (len(s.gws) == 1 || allSame(s)) {
			// it must not be sent altered
			violate("P19", "unsendable-sent", "a text of %d bytes (kind %s) that cannot be sent has %d records", len(s.text), s.enc, len(s.recs))
		}
		if s.stopped || s.limited || s.invalid || len(s.phones) == 0 {
			continue
		}
		cnt := map[string]int{}
		for _, k := range s.recs {
			cnt[k.r.Phone]++
		}
		if w.p.Handler == false && !s.got && s.end-s.start > w.p.ExpireMs*ms-sec {
			continue
		}
		for i, ph := range s.phones {
			g := s.gws[i]
			if g == nil {
				if cnt[ph] > 0 {
					violate("P19", "nobodys-number", "%d records for %s, which no operator serves", cnt[ph], ph)
				}
				continue
			}
			if cnt[ph] > 0 {
				continue
			}
			ok := false
			for _, c := range g.conns {
				if c.okOut != nil && c.okOut.delivered > 0 && c.okOut.delivered+g.tickNs+3*sec+slk < s.start && c.faultAt == 0 && (c.eofAt == 0 || c.eofAt > s.end) {
					ok = true
				}
			}
			if ok && g.calmIn(s.start, s.end) {
				violate("P17,P19,P23", "send-lost", "a send of %d bytes to %s yields no record although connections to %s were up all the time", len(s.text), ph, g.Proto)
			}
		}
	}
}

func allSame(s *csend) bool {
	for _, g := range s.gws {
		if g != s.gws[0] {
			return false
		}
	}
	return true
}

// group is one message as it left for one number.
type group struct {
	s          *csend
	phone      string
	g          *cgw
	ref        byte
	total      int
	start, end int64
	n          int
}

func (w *cworld) checkText(slk int64) {
	var groups []*group
	for _, s := range w.sends {
		recs := s.recs
		for i := 0; i < len(recs); {
			// records of one number
			j := i
			for j < len(recs) && recs[j].r.Phone == recs[i].r.Phone {
				j++
			}
			ph := recs[i].r.Phone
			var g *cgw
			for x, p := range s.phones {
				if p == ph {
					g = s.gws[x]
				}
			}
			if g == nil {
				violate("P19", "strange-phone", "a record of send %d names %s, which the caller did not give", s.id, ph)
				i = j
				continue
			}
			groups = append(groups, w.groups(s, g, recs[i:j], slk)...)
			i = j
		}
	}
	// frames without a record
	for _, s := range w.subs {
		if s.rec == nil && !s.conn.junked {
			known := true
			for _, x := range w.sends {
				if x.end == 0 || !x.got && (x.end-x.start > w.p.ExpireMs*ms-sec || w.stopAt > 0) {
					known = false
				}
			}
			if known && s.conn.faultAt == 0 && w.stopAt == 0 {
				violate("P19,P18", "frame-without-record", "a submit to %v with sequence %s has no record", s.p.Dests, s.p.Seq)
			}
		}
	}
	// references of overlapping messages
	sort.Slice(groups, func(i, j int) bool { return groups[i].s.start < groups[j].s.start })
	for i, a := range groups {
		for _, b := range groups[i+1:] {
			if b.s.start > a.s.end {
				break
			}
			if a.s != b.s && a.phone == b.phone && a.total == b.total && a.ref == b.ref && a.g == b.g {
				violate("P19", "same-reference", "two messages of %d parts sent at the same time to %s share the reference %d", a.total, a.phone, a.ref)
			}
			if a.s != b.s && a.phone == b.phone {
				probe("overlap_same_dest")
			}
		}
	}
}

func (w *cworld) groups(s *csend, g *cgw, recs []*crec, slk int64) (out []*group) {
	complete := func() bool { // may parts be missing?
		return g.calmIn(s.start, s.end+slk) && !s.stopped && (w.stopAt == 0 || w.stopAt > s.end+slk)
	}
	for i := 0; i < len(recs); {
		k := recs[i]
		if len(k.subs) == 0 {
			if complete() {
				violate("P19", "record-without-frame", "record %s of a send to %s: no frame with its number arrived", seqKey(k.r), k.r.Phone)
				return
			}
			i++
			continue
		}
		f := k.subs[0]
		udh, ref, total, num, body := split(f.p)
		if f.conn.gw != g {
			violate("P19", "wrong-gateway", "a message to %s arrives at the gateway of %s", k.r.Phone, f.conn.gw.Proto)
		}
		w.checkFrame(s, g, k, f)
		if !udh {
			n, lim := encLen(g.Proto, s.text)
			if n > lim && !s.invalid {
				violate("P19", "not-split", "a text of %d bytes leaves in one part", n)
			}
			w.compare(s, g, f.p.Fmt, body, 1)
			probe("short_message")
			i++
			continue
		}
		if total < 1 || num != 1 {
			if complete() || num < 1 || num > total {
				violate("P19", "part-number", "the first part of a message to %s is number %d of %d", k.r.Phone, num, total)
				return
			}
			i++
			continue
		}
		var all []byte
		n := 0
		whole := true
		lastAt, firstAt := f.at, f.at
		for n < total && i+n < len(recs) {
			x := recs[i+n]
			if len(x.subs) == 0 {
				whole = false
				n++
				continue
			}
			y := x.subs[0]
			u2, r2, t2, n2, b2 := split(y.p)
			if !u2 || r2 != ref || t2 != total || n2 != n+1 {
				violate("P19", "mixed-parts", "part %d of a message to %s carries reference %d, total %d, number %d; the first %d, %d, 1", n+1, x.r.Phone, r2, t2, n2, ref, total)
				return
			}
			if n > 0 {
				w.checkFrame(s, g, x, y)
			}
			if y.p.Fmt != f.p.Fmt {
				violate("P19", "mixed-format", "part %d has format %d, the first %d", n+1, y.p.Fmt, f.p.Fmt)
			}
			if g.Proto != wire.SGIP && (int(y.p.PkTotal) != total || int(y.p.PkNum) != n2) {
				violate("P19", "packet-number", "%s: part %d of %d is announced as %d of %d", g.Proto, n2, total, y.p.PkNum, y.p.PkTotal)
			}
			if len(b2) == 0 {
				violate("P19", "empty-part", "part %d of %d is empty", n2, total)
			}
			all = append(all, b2...)
			lastAt = y.at
			n++
		}
		if n < total {
			if complete() && !s.invalid {
				violate("P19", "incomplete", "a message to %s has %d of %d parts", k.r.Phone, n, total)
			}
			whole = false
		}
		if whole {
			w.compare(s, g, f.p.Fmt, all, total)
			probe("long_message")
			if total > 10 {
				probe("very_long_message")
			}
		}
		out = append(out, &group{s: s, phone: k.r.Phone, g: g, ref: byte(ref), total: total, start: firstAt, end: lastAt, n: n})
		i += n
	}
	return
}

func split(p *wire.PDU) (udh bool, ref, total, num int, body []byte) {
	c := p.Content
	if p.UDHI == 1 && len(c) >= 6 && c[0] == 5 && c[1] == 0 && c[2] == 3 {
		return true, int(c[3]), int(c[4]), int(c[5]), c[6:]
	}
	return p.UDHI != 0, 0, 0, 0, c
}

func (w *cworld) compare(s *csend, g *cgw, f byte, b []byte, parts int) {
	var t string
	switch f {
	case 0:
		t = string(b)
		for i := range b {
			if b[i] >= 0x80 && !s.invalid {
				violate("P19", "format", "%s: a text of kind %s is sent as ASCII, its byte %d is %#x", g.Proto, s.enc, i, b[i])
				return
			}
		}
	case 8:
		if len(b)%2 != 0 {
			violate("P19", "text", "odd UCS2 length %d", len(b))
			return
		}
		u := make([]uint16, len(b)/2)
		for i := range u {
			u[i] = uint16(b[2*i])<<8 | uint16(b[2*i+1])
		}
		t = string(utf16.Decode(u))
	case 15:
		x, err := simplifiedchinese.GB18030.NewDecoder().String(string(b))
		if err != nil {
			violate("P19", "text", "not GB18030: %v", err)
			return
		}
		t = x
	default:
		violate("P19", "format", "message format %d", f)
		return
	}
	if t != s.text && !s.invalid {
		d := 0
		for d < len(t) && d < len(s.text) && t[d] == s.text[d] {
			d++
		}
		violate("P19", "text", "%s: a text of %d bytes (kind %s, %d parts, format %d) arrives with %d bytes, different from byte %d on", g.Proto, len(s.text), s.enc, parts, f, len(t), d)
	}
}

func (w *cworld) checkFrame(s *csend, g *cgw, k *crec, f *csub) {
	p := f.p
	if len(p.Dests) != 1 || p.Dests[0] != k.r.Phone {
		violate("P19", "destination", "a message to %s carries the destination %v", k.r.Phone, p.Dests)
	}
	lim := 140
	if p.Fmt == 0 {
		lim = 160
	}
	if len(p.Content) > lim {
		violate("P19", "too-long", "a part of %d bytes in format %d", len(p.Content), p.Fmt)
	}
	want := func(what, got, exp string) {
		if got != exp {
			violate("P19", "option-"+what, "%s: %s of a message sent with options %q is %q, expected %q", g.Proto, what, s.opts, got, exp)
		}
	}
	has := func(o string) bool {
		for _, x := range strings.Split(s.opts, ".") {
			if x == o {
				return true
			}
		}
		return false
	}
	m := has("m")
	src := g.Display
	if has("s") {
		src += "77"
	}
	want("source", p.Src, src)
	need := "1"
	switch {
	case has("r1"):
		need = "1"
	case has("r0"), m:
		need = "0"
	}
	if !(has("r0") && has("r1")) {
		want("report flag", fmt.Sprint(p.Need), need)
	}
	lv := "1"
	switch {
	case has("p"):
		lv = "3"
	case has("p0"):
		lv = "0"
	case m:
		lv = "5"
	}
	want("priority", fmt.Sprint(p.Level), lv)
	sv := "svc"
	switch {
	case has("f"):
		sv = "svx"
	case m:
		sv = "mopt"
	}
	want("service", p.Service, sv)
	if has("v") {
		want("validity", p.Valid, "260306010203032+")
	}
	if has("t") {
		want("schedule", p.AtTime, "260305235959032+")
	}
	if has("l") && g.Proto == wire.CMPP && v3of(&g.Cred) {
		want("link", p.LinkID, "link42")
	}
}

// checkResults: what the gateway said about a message is what its record says.
func (w *cworld) checkResults(slk, exp int64) {
	for _, k := range w.order {
		if len(k.subs) != 1 {
			if len(k.subs) == 0 && !w.hostile && (!k.r.ResponseTime.IsZero() || k.r.MsgId != "" || k.r.Report != "") {
				violate("P15", "invented", "record %s shows id %q report %q, no submit with its number reached a gateway", seqKey(k.r), k.r.MsgId, k.r.Report)
			}
			continue
		}
		s := k.subs[0]
		if s.ambig || w.hostile {
			continue
		}
		r := k.r
		st := tns(r.SendTime)
		dl := st + exp - slk
		if len(s.rsps) == 0 {
			if r.MsgId != "" || r.Result != 0 || !r.ResponseTime.IsZero() || r.Report != "" {
				violate("P15", "invented", "record %s (%s) shows result %d id %q report %q; the gateway never answered it", seqKey(r), r.Phone, r.Result, r.MsgId, r.Report)
			}
			continue
		}
		answered := r.MsgId != "" || !r.ResponseTime.IsZero()
		if answered && (r.MsgId != s.msgid || r.Result != s.status) {
			violate("P15", "wrong-answer", "record %s (%s) shows result %d id %q, the gateway answered %d %q", seqKey(r), r.Phone, r.Result, r.MsgId, s.status, s.msgid)
		}
		if answered && r.ResponseTime.Before(r.SendTime) {
			violate("P15", "time", "record %s: response time before send time", seqKey(r))
		}
		must := false
		for _, o := range s.rsps {
			if o.delivered > 0 && o.delivered < dl && o.conn.cleanUntil(o.delivered+slk) && (w.stopAt == 0 || o.delivered+slk < w.stopAt) {
				must = true
			}
		}
		if must && !answered {
			violate("P15", "answer-lost", "record %s (%s) of a send at %.6f shows no answer, the gateway's response (%d, %q) was delivered at %.6f", seqKey(r), r.Phone, float64(st)/1e9, s.status, s.msgid, float64(s.rsps[0].delivered)/1e9)
		}
		if must {
			probe("answered")
		}
		if len(s.rpts) == 0 {
			if r.Report != "" || !r.ReportTime.IsZero() {
				violate("P15", "invented-report", "record %s (%s) shows report %q, the gateway sent none for it", seqKey(r), r.Phone, r.Report)
			}
			continue
		}
		if !answered {
			if r.Report != "" {
				violate("P15", "report-without-answer", "record %s shows a report but no answer", seqKey(r))
			}
			continue
		}
		var last *cout
		set := map[string]bool{"": true}
		mustR := must
		for _, o := range s.rpts {
			set[o.stat] = true
			if o.delivered == 0 {
				if o.conn.faultAt == 0 {
					// still under way when the run ended
				}
				continue
			}
			last = o
			if o.delivered >= dl || !o.conn.cleanUntil(o.delivered+slk) {
				mustR = false
			}
			if w.stopAt > 0 && o.delivered+slk >= w.stopAt {
				mustR = false
			}
			// the report has to follow the response
			f := false
			for _, x := range s.rsps {
				if x.conn == o.conn && x.end < o.end && x.delivered > 0 || x.delivered > 0 && x.delivered+2*sec < o.delivered {
					f = true
				}
			}
			if !f {
				mustR = false
			}
		}
		if !set[r.Report] {
			violate("P15", "wrong-report", "record %s (%s, id %s) shows report %q, the gateway reported %v", seqKey(r), r.Phone, r.MsgId, r.Report, keys(set))
		}
		if mustR && last != nil {
			probe("reported")
			if r.Report != last.stat {
				violate("P15", "report-lost", "record %s (%s, id %s) shows report %q, the last report delivered says %q", seqKey(r), r.Phone, r.MsgId, r.Report, last.stat)
			}
		}
	}
}

func keys(m map[string]bool) (out []string) {
	for k := range m {
		if k != "" {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return
}

func (c *cconn) cleanUntil(t int64) bool {
	return (c.faultAt == 0 || c.faultAt > t) && (c.eofAt == 0 || c.eofAt > t) && (c.endAt == 0 || c.endAt > t)
}

// checkAcks: heartbeats and deliveries are answered.
func (w *cworld) checkAcks(slk int64) {
	for _, c := range w.conns {
		for _, o := range c.acks {
			if o.delivered == 0 {
				continue
			}
			dl := o.delivered + 5*sec + slk + spike(c.gw)
			if !c.cleanUntil(dl) || simrt.PeekNs() < dl || w.stopAt > 0 && w.stopAt < dl {
				continue
			}
			probe("acked_" + o.kind)
			if o.acked == 0 || o.acked > dl {
				violate("P16", "no-ack", "%s %s sent to the client at %.3f over a healthy connection to %s is not acknowledged", o.kind, o.seq, float64(o.at)/1e9, c.gw.Proto)
			}
		}
	}
}

// checkJournal: exactly once, in time.
func (w *cworld) checkJournal(slk, exp, now int64) {
	if !w.p.Handler {
		return
	}
	late := w.p.CheckMs*ms + slk + 2*sec + w.p.SlowMs*ms*int64(w.batches+2)
	for _, s := range w.sends {
		if len(s.recs) == 0 || s.end == 0 {
			continue
		}
		t0 := tns(s.first())
		for _, k := range s.recs {
			due := t0 + exp
			if due < s.end {
				due = s.end
			}
			switch {
			case k.jn == 0:
				if now > due+late {
					violate("P18", "not-journaled", "record %s (%s), sent %.3f s ago, was never handed to the persistence handler (expiry %d ms)", seqKey(k.r), k.r.Phone, float64(now-t0)/1e9, w.p.ExpireMs)
				}
			default:
				probe("journaled")
				if k.jat < t0+exp-ms {
					violate("P18", "journaled-early", "record %s is handed over %.3f s after it was sent, the expiry time is %d ms", seqKey(k.r), float64(k.jat-t0)/1e9, w.p.ExpireMs)
				}
				if k.jat > due+late {
					violate("P18", "journaled-late", "record %s is handed over %.3f s after it was due", seqKey(k.r), float64(k.jat-due)/1e9)
				}
			}
			if k.r.QueryId != s.qid {
				violate("P18", "query-id", "a record of send %d shows query id %d, returned was %d", s.id, k.r.QueryId, s.qid)
			}
		}
	}
}

func (w *cworld) checkCaches() {
	for _, s := range w.sends {
		if s.end == 0 || s.qid == 0 {
			continue
		}
		var rs []any
		sut(func() { rs = sms.Query(s.qid) })
		if rs != nil {
			violate("P18", "query-after-expiry", "%d records of a send that ended %.1f s ago can still be queried (expiry %d ms)", len(rs), float64(simrt.PeekNs()-s.end)/1e9, w.p.ExpireMs)
		}
	}
	n, m := 0, 0
	ex := ""
	session.SequenceIdResultCacheMap.Range(func(k, v any) bool { n++; return true })
	session.MsgIdResultCacheMap.Range(func(k, v any) bool { m++; ex = fmt.Sprint(k); return true })
	if n > 0 {
		violate("P18", "sequence-cache", "%d entries are left in the sequence cache after everything has expired", n)
	}
	if m > 0 {
		violate("P18", "id-cache", "%d entries are left in the message id cache after everything has expired (%s)", m, ex)
	}
}
