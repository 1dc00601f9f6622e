// Package wire is an independent implementation of the three protocols, used
// by the model peers. It shares nothing with the code under test.
package wire

import (
	"bytes"
	"crypto/md5"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"strings"
)

const (
	CMPP = "cmpp"
	SMGP = "smgp"
	SGIP = "sgip"
)

// Kinds of PDU.
const (
	Login     = "login"
	LoginRsp  = "login_rsp"
	Submit    = "submit"
	SubmitRsp = "submit_rsp"
	Deliver   = "deliver"
	DeliverRp = "deliver_rsp"
	Report    = "report" // a delivery report (CMPP/SMGP deliver with the report flag, SGIP report)
	ReportRsp = "report_rsp"
	Active    = "active"
	ActiveRsp = "active_rsp"
	Term      = "term"
	TermRsp   = "term_rsp"
)

var cmds = map[string]map[uint32]string{
	CMPP: {1: Login, 2: Term, 4: Submit, 5: Deliver, 8: Active},
	SMGP: {1: Login, 2: Submit, 3: Deliver, 4: Active, 6: Term},
	SGIP: {1: Login, 2: Term, 3: Submit, 4: Deliver, 5: Report},
}

// Cmd is the command id of a kind.
func Cmd(proto, kind string) uint32 {
	add := uint32(0)
	k := kind
	if strings.HasSuffix(kind, "_rsp") {
		add, k = 0x80000000, strings.TrimSuffix(kind, "_rsp")
	}
	if k == Report && proto != SGIP {
		k = Deliver
	}
	for c, n := range cmds[proto] {
		if n == k {
			return c | add
		}
	}
	return 0x0fffffff
}

// HeadLen of a protocol.
func HeadLen(proto string) int {
	if proto == SGIP {
		return 20
	}
	return 12
}

// PDU is a decoded frame.
type PDU struct {
	Kind    string
	Cmd     uint32
	Seq     string // the full sequence number
	SeqN    uint32 // first (CMPP, SMGP) or last (SGIP) word
	Raw     []byte
	Status  uint32
	MsgID   string // hex
	Src     string
	Dests   []string
	Content []byte
	UDHI    byte
	Fmt     byte
	PkTotal byte
	PkNum   byte
	Stat    string
	Err     string
	Auth    []byte
	Name    string
	Secret  string
	Ver     byte
	TS      uint32
	Need    byte
	Level   byte
	Service string
	Valid   string
	AtTime  string
	LinkID  string
}

func seqText(proto string, raw []byte) (string, uint32) {
	if proto == SGIP {
		if len(raw) < 20 {
			return "", 0
		}
		return hex.EncodeToString(raw[8:20]), binary.BigEndian.Uint32(raw[16:20])
	}
	return hex.EncodeToString(raw[8:12]), binary.BigEndian.Uint32(raw[8:12])
}

func cstr(b []byte) string {
	if i := bytes.IndexByte(b, 0); i >= 0 {
		for _, c := range b[i:] {
			if c != 0 {
				return string(b) // padding is not clean: keep everything
			}
		}
		b = b[:i]
	}
	return string(b)
}

type rd struct {
	b   []byte
	i   int
	bad bool
}

func (r *rd) n(n int) []byte {
	if r.i+n > len(r.b) || n < 0 {
		r.bad = true
		if n < 0 {
			n = 0
		}
		return make([]byte, n)
	}
	r.i += n
	return r.b[r.i-n : r.i]
}
func (r *rd) u8() byte       { return r.n(1)[0] }
func (r *rd) u16() uint16    { return binary.BigEndian.Uint16(r.n(2)) }
func (r *rd) u32() uint32    { return binary.BigEndian.Uint32(r.n(4)) }
func (r *rd) s(n int) string { return cstr(r.n(n)) }

// Parse decodes one whole frame. v3 selects the CMPP 3 layouts.
func Parse(proto string, v3 bool, raw []byte) *PDU {
	p := &PDU{Raw: raw, Cmd: binary.BigEndian.Uint32(raw[4:8])}
	k, ok := cmds[proto][p.Cmd&0x7fffffff]
	if !ok {
		p.Kind, p.Err = "unknown", fmt.Sprintf("unknown command %#x", p.Cmd)
		return p
	}
	if p.Cmd&0x80000000 != 0 {
		k += "_rsp"
	}
	p.Kind = k
	if len(raw) < HeadLen(proto) {
		p.Err = "shorter than a header"
		return p
	}
	p.Seq, p.SeqN = seqText(proto, raw)
	r := &rd{b: raw, i: HeadLen(proto)}
	switch proto {
	case CMPP:
		p.cmpp(r, v3)
	case SMGP:
		p.smgp(r)
	case SGIP:
		p.sgip(r)
	}
	if r.bad {
		p.Err = "truncated body"
	} else if p.Err == "" && r.i != len(raw) {
		p.Err = fmt.Sprintf("%d excess bytes", len(raw)-r.i)
	}
	return p
}

func (p *PDU) cmpp(r *rd, v3 bool) {
	idl := 21
	if v3 {
		idl = 32
	}
	switch p.Kind {
	case Login:
		p.Name = r.s(6)
		p.Auth = r.n(16)
		p.Ver = r.u8()
		p.TS = r.u32()
	case LoginRsp:
		if len(p.Raw) == 30 {
			p.Status = uint32(r.u8())
		} else {
			p.Status = r.u32()
		}
		p.Auth = r.n(16)
		p.Ver = r.u8()
	case Submit:
		r.n(8)
		p.PkTotal, p.PkNum, p.Need = r.u8(), r.u8(), r.u8()
		p.Level, p.Service = r.u8(), r.s(10)
		r.n(1 + idl)
		if v3 {
			r.n(1)
		}
		r.u8()
		p.UDHI, p.Fmt = r.u8(), r.u8()
		r.n(6 + 2 + 6)
		p.Valid, p.AtTime = r.s(17), r.s(17)
		p.Src = r.s(21)
		for n := int(r.u8()); n > 0 && !r.bad; n-- {
			p.Dests = append(p.Dests, r.s(idl))
		}
		if v3 {
			r.n(1)
		}
		p.Content = r.n(int(r.u8()))
		if v3 {
			p.LinkID = r.s(20)
		} else {
			r.n(8)
		}
	case SubmitRsp:
		p.MsgID = hex.EncodeToString(r.n(8))
		if v3 {
			p.Status = r.u32()
		} else {
			p.Status = uint32(r.u8())
		}
	case Deliver:
		p.MsgID = hex.EncodeToString(r.n(8))
		dest := r.s(21)
		r.n(10 + 1)
		p.UDHI, p.Fmt = r.u8(), r.u8()
		p.Src = r.s(idl)
		if v3 {
			r.n(1)
		}
		rep := r.u8()
		p.Content = r.n(int(r.u8()))
		if v3 {
			r.n(20)
		} else {
			r.n(8)
		}
		p.Dests = []string{dest}
		if rep == 1 {
			p.Kind = Report
			q := &rd{b: p.Content}
			p.MsgID = hex.EncodeToString(q.n(8))
			p.Stat = q.s(7)
			q.n(20)
			d := q.s(21)
			q.n(4)
			if q.bad || q.i != len(p.Content) {
				p.Err = "bad report content"
			}
			// the report names the message's own destination
			p.Name = d
		}
	case DeliverRp:
		p.MsgID = hex.EncodeToString(r.n(8))
		if v3 {
			p.Status = r.u32()
		} else {
			p.Status = uint32(r.u8())
		}
	case ActiveRsp:
		r.u8()
	}
}

func (p *PDU) smgp(r *rd) {
	switch p.Kind {
	case Login:
		p.Name = r.s(8)
		p.Auth = r.n(16)
		r.u8()
		p.TS = r.u32()
		p.Ver = r.u8()
	case LoginRsp:
		p.Status = r.u32()
		p.Auth = r.n(16)
		p.Ver = r.u8()
	case Submit:
		r.u8()
		p.Need = r.u8()
		p.Level, p.Service = r.u8(), r.s(10)
		r.n(2 + 6 + 6)
		p.Fmt = r.u8()
		p.Valid, p.AtTime = r.s(17), r.s(17)
		p.Src = r.s(21)
		r.n(21)
		for n := int(r.u8()); n > 0 && !r.bad; n-- {
			p.Dests = append(p.Dests, r.s(21))
		}
		p.Content = r.n(int(r.u8()))
		r.n(8)
		p.tlvs(r)
	case SubmitRsp:
		p.MsgID = hex.EncodeToString(r.n(10))
		p.Status = r.u32()
	case Deliver:
		p.MsgID = hex.EncodeToString(r.n(10))
		rep := r.u8()
		p.Fmt = r.u8()
		r.n(14)
		p.Src = r.s(21)
		p.Dests = []string{r.s(21)}
		p.Content = r.n(int(r.u8()))
		r.n(8)
		p.tlvs(r)
		if rep == 1 {
			p.Kind = Report
			c := p.Content
			if len(c) < 13 || string(c[:3]) != "id:" {
				p.Err = "bad report content"
				return
			}
			p.MsgID = hex.EncodeToString(c[3:13])
			t := string(c[13:])
			if i := strings.Index(t, "stat:"); i >= 0 && len(t) >= i+12 {
				p.Stat = strings.TrimRight(t[i+5:i+12], " \x00")
			} else {
				p.Err = "report without stat"
			}
		}
	case DeliverRp:
		p.MsgID = hex.EncodeToString(r.n(10))
		p.Status = r.u32()
	}
}

func (p *PDU) tlvs(r *rd) {
	for len(r.b)-r.i >= 4 && !r.bad {
		tag, l := r.u16(), int(r.u16())
		v := r.n(l)
		if l == 1 && !r.bad {
			switch tag {
			case 2:
				p.UDHI = v[0]
			case 9:
				p.PkTotal = v[0]
			case 10:
				p.PkNum = v[0]
			}
		}
	}
}

func (p *PDU) sgip(r *rd) {
	switch p.Kind {
	case Login:
		r.u8()
		p.Name = r.s(16)
		p.Secret = r.s(16)
		r.n(8)
	case LoginRsp, SubmitRsp, DeliverRp, ReportRsp:
		p.Status = uint32(r.u8())
		if len(r.b)-r.i == 8 {
			r.n(8)
		}
	case Submit:
		p.Src = r.s(21)
		r.n(21)
		for n := int(r.u8()); n > 0 && !r.bad; n-- {
			p.Dests = append(p.Dests, r.s(21))
		}
		r.n(5)
		p.Service = r.s(10)
		r.n(1 + 6 + 6 + 1 + 1)
		p.Level = r.u8()
		p.Valid, p.AtTime = r.s(16), r.s(16)
		p.Need = r.u8()
		r.u8()
		p.UDHI, p.Fmt = r.u8(), r.u8()
		r.u8()
		n := r.u32()
		if n > 5000 {
			r.bad = true
			return
		}
		p.Content = r.n(int(n))
		r.n(8)
	case Deliver:
		p.Src = r.s(21)
		p.Dests = []string{r.s(21)}
		r.u8()
		p.UDHI, p.Fmt = r.u8(), r.u8()
		n := r.u32()
		if n > 5000 {
			r.bad = true
			return
		}
		p.Content = r.n(int(n))
		r.n(8)
	case Report:
		p.MsgID = hex.EncodeToString(r.n(12))
		r.u8()
		p.Src = r.s(21)
		p.Stat = fmt.Sprint(r.u8())
		p.Status = uint32(r.u8())
		r.n(8)
	}
}

// ---------------------------------------------------------------- building

type wr struct{ b []byte }

func (w *wr) u8(v ...byte) *wr { w.b = append(w.b, v...); return w }
func (w *wr) u32(v uint32) *wr { w.b = binary.BigEndian.AppendUint32(w.b, v); return w }
func (w *wr) s(s string, n int) *wr {
	t := make([]byte, n)
	copy(t, s)
	w.b = append(w.b, t...)
	return w
}
func (w *wr) raw(b []byte) *wr { w.b = append(w.b, b...); return w }

// Seq is a sequence number; CMPP and SMGP use only the last word.
type Seq [3]uint32

func N(n uint32) Seq { return Seq{0, 0, n} }

// SeqOf takes the sequence number of a frame.
func SeqOf(proto string, raw []byte) (q Seq) {
	if proto == SGIP {
		for i := range q {
			q[i] = binary.BigEndian.Uint32(raw[8+4*i:])
		}
		return
	}
	return N(binary.BigEndian.Uint32(raw[8:12]))
}

// Text is the comparable form used in PDU.Seq.
func (q Seq) Text(proto string) string {
	var b []byte
	if proto == SGIP {
		b = binary.BigEndian.AppendUint32(b, q[0])
		b = binary.BigEndian.AppendUint32(b, q[1])
	}
	return hex.EncodeToString(binary.BigEndian.AppendUint32(b, q[2]))
}

// Frame puts a header before a body.
func Frame(proto, kind string, q Seq, body []byte) []byte {
	w := &wr{}
	w.u32(uint32(HeadLen(proto) + len(body))).u32(Cmd(proto, kind))
	if proto == SGIP {
		w.u32(q[0]).u32(q[1])
	}
	w.u32(q[2]).raw(body)
	return w.b
}

// Authenticator of CMPP and SMGP logins.
func Authenticator(proto, id, secret string, ts uint32) []byte {
	z := 9
	if proto == SMGP {
		z = 7
	}
	h := md5.Sum([]byte(id + strings.Repeat("\x00", z) + secret + fmt.Sprintf("%010d", ts)))
	return h[:]
}

// LoginPDU builds a login; tsAuth is the timestamp used in the digest.
func LoginPDU(proto string, q Seq, id, secret string, ver byte, ts, tsAuth uint32) []byte {
	w := &wr{}
	switch proto {
	case CMPP:
		w.s(id, 6).raw(Authenticator(proto, id, secret, tsAuth)).u8(ver).u32(ts)
	case SMGP:
		w.s(id, 8).raw(Authenticator(proto, id, secret, tsAuth)).u8(2).u32(ts).u8(ver)
	case SGIP:
		w.u8(1).s(id, 16).s(secret, 16).s("", 8)
	}
	return Frame(proto, Login, q, w.b)
}

// SubmitPDU builds a well-formed single submit.
func SubmitPDU(proto string, v3 bool, q Seq, src string, dests []string, fmtc byte, content []byte) []byte {
	return SubmitPart(proto, v3, q, src, dests, fmtc, content, 0, 1, 1, "", "")
}

// SubmitPart builds a well-formed submit of one part of a message.
func SubmitPart(proto string, v3 bool, q Seq, src string, dests []string, fmtc byte, content []byte, udhi, total, num byte, valid, at string) []byte {
	w := &wr{}
	switch proto {
	case CMPP:
		idl := 21
		if v3 {
			idl = 32
		}
		w.s("", 8).u8(total, num, 1, 1).s("svc", 10).u8(0).s("", idl)
		if v3 {
			w.u8(0)
		}
		w.u8(0, udhi, fmtc).s("src", 6).s("01", 2).s("000010", 6).s(valid, 17).s(at, 17).s(src, 21).u8(byte(len(dests)))
		for _, d := range dests {
			w.s(d, idl)
		}
		if v3 {
			w.u8(0)
		}
		w.u8(byte(len(content))).raw(content)
		if v3 {
			w.s("", 20)
		} else {
			w.s("", 8)
		}
	case SMGP:
		w.u8(6, 1, 1).s("svc", 10).s("00", 2).s("000010", 6).s("000000", 6).u8(fmtc).s(valid, 17).s(at, 17).s(src, 21).s("", 21).u8(byte(len(dests)))
		for _, d := range dests {
			w.s(d, 21)
		}
		w.u8(byte(len(content))).raw(content).s("", 8)
		if udhi != 0 || total > 1 {
			w.u8(0, 2, 0, 1, udhi, 0, 9, 0, 1, total, 0, 10, 0, 1, num)
		}
	case SGIP:
		w.s(src, 21).s("", 21).u8(byte(len(dests)))
		for _, d := range dests {
			w.s(d, 21)
		}
		w.s("corp", 5).s("svc", 10).u8(0).s("0", 6).s("0", 6).u8(0, 2, 1).s(valid, 16).s(at, 16).u8(1, 0, udhi, fmtc, 0).u32(uint32(len(content))).raw(content).s("", 8)
	}
	return Frame(proto, Submit, q, w.b)
}

// Simple builds header-only requests and the fixed-layout responses.
func Simple(proto, kind string, q Seq) []byte {
	var body []byte
	switch {
	case kind == ActiveRsp && proto == CMPP:
		body = []byte{0}
	}
	return Frame(proto, kind, q, body)
}

func unhex(s string, n int) []byte {
	b, _ := hex.DecodeString(s)
	t := make([]byte, n)
	copy(t, b)
	return t
}

// SubmitRspPDU builds a submit response.
func SubmitRspPDU(proto string, v3 bool, q Seq, msgID string, status uint32) []byte {
	w := &wr{}
	switch proto {
	case CMPP:
		w.raw(unhex(msgID, 8))
		if v3 {
			w.u32(status)
		} else {
			w.u8(byte(status))
		}
	case SMGP:
		w.raw(unhex(msgID, 10)).u32(status)
	case SGIP:
		w.u8(byte(status)).s("", 8)
	}
	return Frame(proto, SubmitRsp, q, w.b)
}

// LoginRspPDU builds a login response.
func LoginRspPDU(proto string, v3 bool, q Seq, status uint32, ver byte) []byte {
	w := &wr{}
	switch proto {
	case CMPP:
		if v3 {
			w.u32(status)
		} else {
			w.u8(byte(status))
		}
		w.s("", 16).u8(ver)
	case SMGP:
		w.u32(status).s("", 16).u8(ver)
	case SGIP:
		w.u8(byte(status))
	}
	return Frame(proto, LoginRsp, q, w.b)
}

// DeliverRspPDU acknowledges a deliver or report.
func DeliverRspPDU(proto string, v3 bool, kind string, q Seq, req []byte, status uint32) []byte {
	w := &wr{}
	switch proto {
	case CMPP:
		w.raw(req[12:20])
		if v3 {
			w.u32(status)
		} else {
			w.u8(byte(status))
		}
	case SMGP:
		w.raw(req[12:22]).u32(status)
	case SGIP:
		w.u8(byte(status)).s("", 8)
	}
	return Frame(proto, kind, q, w.b)
}

// ReportPDU builds a delivery report.
func ReportPDU(proto string, v3 bool, q Seq, msgID, src, dest, stat string) []byte {
	w := &wr{}
	switch proto {
	case CMPP:
		idl := 21
		if v3 {
			idl = 32
		}
		w.s("reportid", 8).s(src, 21).s("svc", 10).u8(0, 0, 0).s(dest, idl)
		if v3 {
			w.u8(0)
		}
		w.u8(1, 60)
		w.raw(unhex(msgID, 8)).s(stat, 7).s("2603050800", 10).s("2603050801", 10).s(dest, 21).u32(7)
		if v3 {
			w.s("", 20)
		} else {
			w.s("", 8)
		}
		return Frame(proto, Deliver, q, w.b)
	case SMGP:
		c := &wr{}
		c.raw([]byte("id:")).raw(unhex(msgID, 10)).raw([]byte(" sub:001 dlvrd:001 submit date:2603050800 done date:2603050801 stat:")).s(stat, 7).raw([]byte(" err:000 text:")).s("", 20)
		w.s("0123456789", 10).u8(1, 0).s("20260305080000", 14).s(dest, 21).s(src, 21).u8(byte(len(c.b))).raw(c.b).s("", 8)
		return Frame(proto, Deliver, q, w.b)
	}
	st := byte(0)
	if stat != "DELIVRD" {
		st = 2
	}
	w.raw(unhex(msgID, 12)).u8(0).s(dest, 21).u8(st, 0).s("", 8)
	return Frame(proto, Report, q, w.b)
}

// DeliverPDU builds a mobile-originated message.
func DeliverPDU(proto string, v3 bool, q Seq, src, dest string, fmtc byte, content []byte) []byte {
	w := &wr{}
	switch proto {
	case CMPP:
		idl := 21
		if v3 {
			idl = 32
		}
		w.s("deliver1", 8).s(dest, 21).s("svc", 10).u8(0, 0, fmtc).s(src, idl)
		if v3 {
			w.u8(0)
		}
		w.u8(0, byte(len(content))).raw(content)
		if v3 {
			w.s("", 20)
		} else {
			w.s("", 8)
		}
	case SMGP:
		w.s("deliver123", 10).u8(0, fmtc).s("20260305080000", 14).s(src, 21).s(dest, 21).u8(byte(len(content))).raw(content).s("", 8)
	case SGIP:
		w.s(src, 21).s(dest, 21).u8(0, 0, fmtc).u32(uint32(len(content))).raw(content).s("", 8)
	}
	return Frame(proto, Deliver, q, w.b)
}

// Splitter cuts a byte stream into frames.
type Splitter struct {
	buf []byte
	Bad string
}

// Feed adds bytes and returns the complete frames.
func (s *Splitter) Feed(b []byte) (out [][]byte) {
	if s.Bad != "" {
		return
	}
	s.buf = append(s.buf, b...)
	for len(s.buf) >= 12 {
		n := int(binary.BigEndian.Uint32(s.buf))
		if n < 12 || n > 8192 {
			s.Bad = fmt.Sprintf("frame length %d", n)
			return
		}
		if len(s.buf) < n {
			return
		}
		out = append(out, append([]byte{}, s.buf[:n]...))
		s.buf = s.buf[n:]
	}
	return
}

// Rest is the number of bytes of an incomplete frame.
func (s *Splitter) Rest() int { return len(s.buf) }
