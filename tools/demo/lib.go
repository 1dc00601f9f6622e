package main

import (
	"fmt"
	"net"
	"os"
	"time"

	"github.com/hrygo/gosms/auth"
	bs "github.com/hrygo/gosms/msc_server"
	"github.com/hrygo/gosms/msc_server/server"
	"github.com/hrygo/gosms/msc_server/zzdemo/wire"
)

const secret = "shared secret"

var ids = map[string]string{"cmpp": "123456", "smgp": "12345678", "sgip": "3037196688"}

var srvs = map[string]*server.Server{}

// fail ends the demonstration: the property is broken.
func fail(f string, a ...any) {
	fmt.Printf("DEMO: "+f+"\n", a...)
	os.Exit(1)
}

func must(err error, what string) {
	if err != nil {
		fail("%s: %v", what, err)
	}
}

func addr(proto string) string {
	return "127.0.0.1:" + os.Getenv(map[string]string{"cmpp": "P1", "sgip": "P2", "smgp": "P3"}[proto])
}

func start(protos ...string) {
	auth.Cache = auth.New(bs.ConfigYml)
	for _, p := range protos {
		srvs[p] = server.New(p)
		server.Start(srvs[p])
		for i := 0; ; i++ {
			c, err := net.Dial("tcp", addr(p))
			if err == nil {
				c.Close()
				break
			}
			if i > 100 {
				fail("%s gateway does not listen", p)
			}
			time.Sleep(50 * time.Millisecond)
		}
	}
	time.Sleep(200 * time.Millisecond)
}

type conn struct {
	net.Conn
	proto  string
	v3     bool
	sp     wire.Splitter
	q      []*wire.PDU
	n      uint32
	closed bool
}

func dial(proto string) *conn {
	c, err := net.Dial("tcp", addr(proto))
	must(err, "connect")
	return &conn{Conn: c, proto: proto, v3: true}
}

func (c *conn) seq() wire.Seq {
	c.n++
	return wire.Seq{7, 8, c.n}
}

func (c *conn) put(frames ...[]byte) {
	var b []byte
	for _, f := range frames {
		b = append(b, f...)
	}
	_, _ = c.Write(b)
}

// get returns the next frame, or nil when d has passed or the connection is closed.
func (c *conn) get(d time.Duration) *wire.PDU {
	end := time.Now().Add(d)
	for len(c.q) == 0 {
		_ = c.SetReadDeadline(end)
		var b [4096]byte
		n, err := c.Read(b[:])
		for _, f := range c.sp.Feed(b[:n]) {
			c.q = append(c.q, wire.Parse(c.proto, c.v3, f))
		}
		if len(c.q) > 0 {
			break
		}
		if err != nil {
			if ne, ok := err.(net.Error); !ok || !ne.Timeout() {
				c.closed = true
			}
			return nil
		}
	}
	p := c.q[0]
	c.q = c.q[1:]
	return p
}

// want skips other frames until one of the kind arrives.
func (c *conn) want(kind string, d time.Duration) *wire.PDU {
	end := time.Now().Add(d)
	for {
		p := c.get(time.Until(end))
		if p == nil || p.Kind == kind {
			return p
		}
	}
}

func (c *conn) loginFrame(id, pw string) []byte {
	ts := uint32(1106080000)
	return wire.LoginPDU(c.proto, c.seq(), id, pw, 0x30, ts, ts)
}

// login returns the status, or -1 when there is no answer.
func (c *conn) login(id, pw string) int {
	c.put(c.loginFrame(id, pw))
	p := c.want(wire.LoginRsp, 5*time.Second)
	if p == nil {
		return -1
	}
	return int(p.Status)
}

// logged opens a logged-in connection.
func logged(proto string) *conn {
	c := dial(proto)
	if st := c.login(ids[proto], secret); st != 0 {
		fail("%s login refused with %d", proto, st)
	}
	time.Sleep(50 * time.Millisecond)
	return c
}

func (c *conn) submit() ([]byte, wire.Seq) {
	q := c.seq()
	return wire.SubmitPDU(c.proto, c.v3, q, "95566001", []string{"13800000001"}, 0, []byte("hello")), q
}

// serve submits one message and waits for its response.
func (c *conn) serve(d time.Duration) *wire.PDU {
	f, q := c.submit()
	c.put(f)
	end := time.Now().Add(d)
	for {
		p := c.want(wire.SubmitRsp, time.Until(end))
		if p == nil || p.Seq == q.Text(c.proto) {
			return p
		}
	}
}

// gone waits until the gateway has closed the connection.
func (c *conn) gone(d time.Duration) bool {
	end := time.Now().Add(d)
	for !c.closed && time.Now().Before(end) {
		c.get(time.Until(end))
	}
	return c.closed
}

func ok() {
	fmt.Println("DEMO: ok")
	os.Exit(0)
}
