package main

import (
	"fmt"
	"net"
	"os"
	"sync"
	"time"

	"github.com/hrygo/gosms/auth"
	sms "github.com/hrygo/gosms/smc_client"
	"github.com/hrygo/gosms/smc_client/zzdemo/wire"
)

var phones = map[string]string{"cmpp": "13800001111", "sgip": "13000001111", "smgp": "13300001111"}
var ports = map[string]string{"cmpp": "P1", "sgip": "P2", "smgp": "P3"}

// fail ends the demonstration: the property is broken.
func fail(f string, a ...any) {
	fmt.Printf("DEMO: "+f+"\n", a...)
	os.Exit(1)
}

func ok() {
	fmt.Println("DEMO: ok")
	os.Exit(0)
}

// load reads the credentials.
func load() { auth.Cache = auth.New(sms.ConfigYml) }

// gw is a gateway that accepts every login.
type gw struct {
	sync.Mutex
	proto    string
	ln       net.Listener
	noBeat   bool
	onSubmit func(c *gconn, p *wire.PDU, q wire.Seq)
	onOther  func(c *gconn, p *wire.PDU, q wire.Seq)
	open     int
	maxOpen  int
	total    int
	conns    []*gconn
	n        uint32
}

type gconn struct {
	net.Conn
	g  *gw
	wl sync.Mutex
}

func serve(proto string) *gw {
	g := &gw{proto: proto}
	ln, err := net.Listen("tcp", "127.0.0.1:"+os.Getenv(ports[proto]))
	if err != nil {
		fmt.Println("DEMO: cannot listen:", err)
		os.Exit(3)
	}
	g.ln = ln
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			x := &gconn{Conn: c, g: g}
			g.Lock()
			g.open++
			g.total++
			if g.open > g.maxOpen {
				g.maxOpen = g.open
			}
			g.conns = append(g.conns, x)
			g.Unlock()
			go x.loop()
		}
	}()
	return g
}

func (c *gconn) put(frames ...[]byte) {
	var b []byte
	for _, f := range frames {
		b = append(b, f...)
	}
	c.wl.Lock()
	defer c.wl.Unlock()
	_, _ = c.Write(b)
}

func (c *gconn) seq() wire.Seq {
	c.g.Lock()
	defer c.g.Unlock()
	c.g.n++
	if c.g.proto == wire.SGIP {
		return wire.Seq{7, 8, c.g.n}
	}
	return wire.N(c.g.n)
}

func (c *gconn) loop() {
	g := c.g
	defer func() {
		c.Close()
		g.Lock()
		g.open--
		g.Unlock()
	}()
	var sp wire.Splitter
	var b [4096]byte
	for {
		n, err := c.Read(b[:])
		for _, f := range sp.Feed(b[:n]) {
			p := wire.Parse(g.proto, true, f)
			q := wire.SeqOf(g.proto, f)
			switch p.Kind {
			case wire.Login:
				c.put(wire.LoginRspPDU(g.proto, true, q, 0, 0x30))
			case wire.Active:
				if !g.noBeat {
					c.put(wire.Simple(g.proto, wire.ActiveRsp, q))
				}
			case wire.Submit:
				if g.onSubmit != nil {
					g.onSubmit(c, p, q)
				} else {
					c.put(wire.SubmitRspPDU(g.proto, true, q, c.id(), 0))
				}
			default:
				if g.onOther != nil {
					g.onOther(c, p, q)
				}
			}
		}
		if err != nil {
			return
		}
	}
}

// id makes up a message id.
func (c *gconn) id() string {
	q := c.seq()
	if c.g.proto == wire.SMGP {
		return fmt.Sprintf("010203%014x", q[2])
	}
	return fmt.Sprintf("%016x", q[2])
}

func (g *gw) count() (open, max, total int) {
	g.Lock()
	defer g.Unlock()
	return g.open, g.maxOpen, g.total
}

func until(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}
