package main

import (
	"fmt"
	"time"

	"plan"
	"simrt"

	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/codec/sgip"
	bs "github.com/hrygo/gosms/msc_server"
	"github.com/hrygo/gosms/utils"
	"github.com/hrygo/gosms/utils/snowflake"
	"github.com/hrygo/gosms/utils/snowflake32"
)

// inst is one generator instance: next yields a value as a comparable key and
// names what is wrong with its node numbers.
type inst struct {
	name string
	next func() (val string, bad string)
}

func node64(n plan.GenNode, g codec.Sequence64) *inst {
	return &inst{"64-bit message id", func() (string, string) {
		v := uint64(g.NextVal())
		bad := ""
		if dc, w := int64(v>>19&7), int64(v>>12&0x7f); dc != n.DC || w != n.Worker {
			bad = fmt.Sprintf("carries datacenter %d worker %d, configured are %d and %d", dc, w, n.DC, n.Worker)
		}
		return fmt.Sprintf("%016x", v), bad
	}}
}

func nodeCycle(n plan.GenNode, g codec.Sequence32) *inst {
	return &inst{"cyclic 32-bit sequence", func() (string, string) {
		v := uint32(g.NextVal())
		bad := ""
		if dc, w := int64(v>>29), int64(v>>26&7); dc != n.DC || w != n.Worker {
			bad = fmt.Sprintf("carries datacenter %d worker %d, configured are %d and %d", dc, w, n.DC, n.Worker)
		}
		return fmt.Sprintf("%08x", v), bad
	}}
}

func nodeBcd(n plan.GenNode, g codec.SequenceBCD) *inst {
	return &inst{"decimal message id", func() (string, string) {
		v := fmt.Sprintf("%x", g.NextVal())
		bad := ""
		if len(v) != 20 || v[:6] != n.Text {
			bad = "does not carry the configured number " + n.Text
		}
		for _, c := range v {
			if c > '9' {
				bad = "is not decimal"
			}
		}
		return v, bad
	}}
}

func nodeSgip(n plan.GenNode, next func() []uint32) *inst {
	return &inst{"SGIP sequence", func() (string, string) {
		v := next()
		bad := ""
		if len(v) != 3 || v[0] != n.Num {
			bad = fmt.Sprintf("does not carry the configured node %d", n.Num)
		}
		return fmt.Sprint(v), bad
	}}
}

func runGen(g *plan.Gen) {
	time.Local = time.FixedZone("sim", g.TZMin*60)
	if spec.WallMs != 0 {
		simrt.WallBase = spec.WallMs * 1e6
	}
	var ins [][]*inst
	unit := int64(ms)
	switch g.Kind {
	case "init":
		bs.SeqInit()
		a, b := g.Nodes[0], g.Nodes[1]
		ins = append(ins, []*inst{
			node64(a, codec.B64Seq), nodeCycle(b, codec.B32Seq), nodeBcd(a, codec.BcdSeq),
			nodeSgip(a, func() []uint32 { return sgip.Sequencer.NextVal() }),
		})
		ins = append(ins, ins[0])
	default:
		for _, n := range g.Nodes {
			n := n
			var i *inst
			switch g.Kind {
			case "sf64":
				i = node64(n, snowflake.NewSnowflake(n.DC, n.Worker))
			case "sf32":
				s := snowflake32.NewSnowflake(int32(n.DC), int32(n.Worker))
				unit = sec
				i = &inst{"24-hour 32-bit id", func() (string, string) {
					v := uint32(s.NextVal())
					bad := ""
					if dc, w := int64(v>>12&3), int64(v>>9&7); dc != n.DC || w != n.Worker || v>>14 >= 86400 {
						bad = fmt.Sprintf("carries datacenter %d worker %d second %d, configured are %d and %d", dc, w, v>>14, n.DC, n.Worker)
					}
					return fmt.Sprintf("%08x", v), bad
				}}
			case "bcd":
				i = nodeBcd(n, utils.NewBcdSequence(n.Text))
			case "cycle":
				i = nodeCycle(n, utils.NewCycleSequence(int32(n.DC), int32(n.Worker)))
			case "sgip":
				i = nodeSgip(n, func() []uint32 { return sgip.Sequencer.NextVal() })
			}
			ins = append(ins, []*inst{i})
		}
	}
	if g.Long {
		runLong(g, ins[0][0])
		return
	}
	var frozen int64
	for _, st := range spec.Steps {
		frozen += st.FreezeUs * 1000
	}
	simrt.Start()
	// a call may wait for the next tick of its clock, behind other callers, while the clock stands still
	var calls int64
	for _, c := range g.Callers {
		for _, o := range c.Ops {
			if o.K == "call" {
				calls += o.A
			}
		}
	}
	bound := frozen + (2+calls/512)*unit + 300*ms // 512 (or more) values per tick
	seenv := map[string]bool{}
	started := make([]int64, len(g.Callers))
	left := len(g.Callers)
	var total int64
	for ci, c := range g.Callers {
		ci, c := ci, c
		simrt.GoSys(func() {
			simrt.SleepNs(c.StartUs * 1000)
			for _, o := range c.Ops {
				if o.K == "sleep" {
					simrt.SleepNs(o.A * 1000)
					continue
				}
				for k := int64(0); k < o.A; k++ {
					for _, i := range ins[c.Node] {
						started[ci] = simrt.PeekNs()
						v, bad := i.next()
						d := simrt.PeekNs() - started[ci]
						started[ci] = 0
						total++
						key := i.name + " " + v
						trace("caller %d %s", ci, key)
						if d > bound+genSlack() {
							violate("P12", "slow-call", "a call for the next %s took %d ms", i.name, d/ms)
						}
						if seenv[key] {
							violate("P12", "duplicate", "%s %s was handed out twice", i.name, v)
							probe("duplicate")
						}
						seenv[key] = true
						if bad != "" {
							violate("P12", "node", "%s %s %s", i.name, v, bad)
						}
					}
					if o.B > 0 {
						simrt.SleepNs(o.B * 1000)
					}
				}
			}
			left--
		})
	}
	for left > 0 {
		simrt.SleepNs(10 * ms)
		for ci, at := range started {
			if at > 0 && simrt.PeekNs()-at > bound+genSlack() {
				violate("P12", "stuck-call", "caller %d: a call for the next value has not returned after %d ms", ci, (simrt.PeekNs()-at)/ms)
				return
			}
		}
	}
	if total > 1 {
		probe("gen_" + g.Kind)
	}
	if len(g.Callers) > 1 {
		probe("concurrent_callers")
	}
	res.Info["values"] = total
}

// genSlack is what scheduling stalls and the cost of execution may add: each
// of the callers in front of a call may have been stalled while it held the lock.
func genSlack() int64 {
	st := simrt.GetStats()
	return st.Stalls*spec.Sched.StallMaxUs*1000 + 200*ms
}

// runLong takes one complete cycle of values from one instance.
func runLong(g *plan.Gen, i *inst) {
	simrt.Start()
	bits := make([]uint64, 1<<21) // 2^27 bits
	cyc := utils.NewCycleSequence(int32(g.Nodes[0].DC), int32(g.Nodes[0].Worker))
	left := len(g.Callers)
	tick := map[string]int64{}
	var total int64
	for _, c := range g.Callers {
		c := c
		simrt.GoSys(func() {
			for _, o := range c.Ops {
				for k := int64(0); k < o.A; k++ {
					if g.Kind == "cycle" {
						n := uint32(cyc.NextVal())
						total++
						m := n & (1<<26 - 1)
						if n>>26 != uint32(g.Nodes[0].DC<<3|g.Nodes[0].Worker) {
							violate("P12", "node", "cyclic 32-bit sequence %08x does not carry datacenter %d and worker %d", n, g.Nodes[0].DC, g.Nodes[0].Worker)
						}
						if bits[m/64]&(1<<(m%64)) != 0 {
							violate("P12", "duplicate", "cyclic 32-bit sequence %08x was handed out twice within one cycle", n)
						}
						bits[m/64] |= 1 << (m % 64)
						continue
					}
					v, bad := i.next()
					total++
					var n uint64
					{
						key := v[6:14]
						fmt.Sscanf(v[14:], "%d", &n)
						if tick[key]++; len(tick) > 100 {
							violate("P12", "duplicate", "a hundred minutes within one")
							return
						}
						n += uint64(len(tick)-1) * 1000000
					}
					if bits[n/64]&(1<<(n%64)) != 0 {
						violate("P12", "duplicate", "%s %s was handed out twice within one cycle", i.name, v)
					}
					bits[n/64] |= 1 << (n % 64)
					if bad != "" {
						violate("P12", "node", "%s %s %s", i.name, v, bad)
					}
				}
			}
			left--
		})
	}
	for left > 0 {
		simrt.SleepNs(100 * ms)
	}
	trace("%d values", total)
	probe("gen_full_cycle_" + g.Kind)
	res.Info["values"] = total
}
