// Package plan describes simulated runs. A Spec is everything that decides
// one execution; Generate derives it from a property name and one integer.
package plan

import "fmt"

// Sched mirrors simrt.SchedOpts.
type Sched struct {
	Seed       uint64  `json:"seed"`
	Mode       int     `json:"mode"`
	Preempt    int     `json:"preempt"`
	Changes    int     `json:"changes"`
	StallProb  float64 `json:"stall_prob"`
	StallMaxUs int64   `json:"stall_max_us"`
	DiceEdge   float64 `json:"dice_edge,omitempty"` // chance that a random choice of the program is the first or the last value
	MaxPreempt int64   `json:"max_preempt"`
	StepNs     int64   `json:"step_ns"`
	AppSeed    uint64  `json:"app_seed"`
	NetSeed    uint64  `json:"net_seed"`
	NumCPU     int     `json:"num_cpu"`
	MaxSteps   int64   `json:"max_steps"`
}

// Spec is one run.
type Spec struct {
	Sched    Sched                     `json:"sched"`
	Prop     string                    `json:"prop"`
	Seed     uint64                    `json:"seed"`
	Scenario string                    `json:"scenario"`
	Config   map[string]map[string]any `json:"config,omitempty"`
	WallMs   int64                     `json:"wall_ms,omitempty"` // start of the wall clock, ms since the epoch (0: default)
	Steps    []ClockStep               `json:"steps,omitempty"`
	Server   *Server                   `json:"server,omitempty"`
	Client   *Client                   `json:"client,omitempty"`
	Whole    *Whole                    `json:"whole,omitempty"`
	Gen      *Gen                      `json:"gen,omitempty"`
	Auth     *Auth                     `json:"auth,omitempty"`
	Event    *Event                    `json:"event,omitempty"`
}

// ClockStep moves the wall clock.
type ClockStep struct {
	AtUs     int64 `json:"at_us"`
	ByMs     int64 `json:"by_ms"`
	FreezeUs int64 `json:"freeze_us,omitempty"` // afterwards the clock stands still for so long
}

// ---------------------------------------------------------------- server runs

type Server struct {
	GWs     []GW    `json:"gws"`
	Creds   []Cred  `json:"creds"`
	Peers   []Peer  `json:"peers"`
	Loops   int     `json:"loops"`    // event loops per multicore gateway
	MonUs   int64   `json:"mon_us"`   // mean distance of state snapshots, 0 = few
	QuietS  int64   `json:"quiet_s"`  // idle time before the final checks
	NoProbe bool    `json:"no_probe"` // no final login probe
	MinResp int64   `json:"min_resp"`
	MaxResp int64   `json:"max_resp"`
	Report  int64   `json:"report"`
	Success float64 `json:"success"`
	TickMs  int64   `json:"tick_ms"`
	ForceMs int64   `json:"force_ms"`
	MO      bool    `json:"mo"`
	MORate  float64 `json:"mo_rate,omitempty"`
	// what is pushed: "sub_,_text"; the text may be "@kind:length"
	Contents []string `json:"contents,omitempty"`
	// credentials change while the gateways run, which reload them this often (0: never)
	ReloadMs int64    `json:"reload_ms,omitempty"`
	CredOps  []CredOp `json:"signals,omitempty"`
	// the configuration at the start and its edits while the gateways run (nil: none)
	Conf    *Conf    `json:"conf,omitempty"`
	ConfOps []ConfOp `json:"conf_ops,omitempty"`
}

// Conf is the part of the configuration that is edited.
type Conf struct {
	Success float64 `json:"success"`
	MinResp int64   `json:"min_resp"`
	MaxResp int64   `json:"max_resp"`
	Report  int64   `json:"report"`
	TickMs  int64   `json:"tick_ms"`
	ForceMs int64   `json:"force_ms"`
	MO      bool    `json:"mo"`
	MORate  float64 `json:"mo_rate"`
}

// ConfOp is one edit.
type ConfOp struct {
	AtMs int64 `json:"at_ms"`
	Conf Conf  `json:"conf"`
}

// Keys gives the configuration keys.
func (c *Conf) Keys() map[string]any {
	return map[string]any{
		"Server.TickDuration": fmt.Sprintf("%dms", c.TickMs), "Server.ForceCloseConnTime": fmt.Sprintf("%dms", c.ForceMs),
		"Server.Mock.SuccessRate": c.Success, "Server.Mock.MinSubmitRespMs": float64(c.MinResp), "Server.Mock.MaxSubmitRespMs": float64(c.MaxResp),
		"Server.Mock.FixReportRespMs": float64(c.Report), "Server.Mock.Delivery.Enable": c.MO, "Server.Mock.Delivery.Rate": c.MORate,
	}
}

// CredOp changes the stored entry of a client, or breaks the storage for a while.
type CredOp struct {
	AtMs     int64  `json:"at_ms"`
	K        string `json:"k"` // put, bad, rm, ioerr
	C        int    `json:"c"`
	S        string `json:"s,omitempty"`
	ForMs    int64  `json:"for_ms,omitempty"`
	Secret   string `json:"secret,omitempty"`
	MaxConns int    `json:"max_conns,omitempty"`
	Window   int    `json:"window,omitempty"`
	Tput     int    `json:"tput,omitempty"`
}

type GW struct {
	Proto string `json:"proto"`
	Cap   int    `json:"cap"`
	Multi bool   `json:"multi"`
}

type Cred struct {
	Proto    string `json:"proto"`
	ID       string `json:"id"`
	Name     string `json:"name"`
	Secret   string `json:"secret"`
	Ver      int    `json:"ver"`
	MaxConns int    `json:"max_conns"`
	Window   int    `json:"window"`
	Tput     int    `json:"tput"`
	Display  string `json:"display"`
	Role     string `json:"role,omitempty"`
	Late     bool   `json:"late,omitempty"` // appears while the gateways run
}

type Link struct {
	LatMinUs  int64   `json:"lat_min_us"`
	LatMaxUs  int64   `json:"lat_max_us"`
	Seg       int     `json:"seg"`
	CoalUs    int64   `json:"coal_us"`
	ShortRead float64 `json:"short_read"`
	RcvWnd    int     `json:"rcv_wnd"`
	SndBuf    int     `json:"snd_buf"`
}

// Peer is one simulated SP.
type Peer struct {
	ID        int    `json:"id"`
	Cred      int    `json:"cred"`
	StartUs   int64  `json:"start_us"`
	Login     string `json:"login"`
	Link      Link   `json:"link"`
	Ops       []Op   `json:"ops"`
	NoHB      bool   `json:"no_hb"`       // never answers heartbeats
	HBDelayMs int64  `json:"hb_delay_ms"` // answers them late
	HBMax     int    `json:"hb_max"`      // answers only so many (0: all)
	NoAck     bool   `json:"no_ack"`      // never acknowledges deliveries and reports
	NoTermRsp bool   `json:"no_term_rsp"`
	Role      string `json:"role"`
}

// Op is one step of a peer.
type Op struct {
	K string `json:"k"`
	A int64  `json:"a,omitempty"`
	B int64  `json:"b,omitempty"`
	C int64  `json:"c,omitempty"`
	S string `json:"s,omitempty"`
}

// ---------------------------------------------------------------- other runs

// Client exercises the client library against model gateways.
type Client struct {
	GWs      []CGW     `json:"gws"`
	Senders  []CSender `json:"peers"`
	Events   []CEvent  `json:"signals"`
	EndMs    int64     `json:"end_ms"` // all trouble is over
	ExpireMs int64     `json:"expire_ms"`
	CheckMs  int64     `json:"check_ms"`
	Handler  bool      `json:"handler"` // results are handed to a persistence handler
	SlowMs   int64     `json:"slow_ms"` // which takes so long
	Mongo    bool      `json:"mongo"`   // journal kept in the database
	StopMs   int64     `json:"stop_ms"` // termination signal (0: none)
	Direct   int       `json:"direct"`  // concurrent direct users of CreateSessionFactory
	Leaks    bool      `json:"leaks"`   // what the client holds is compared before and after
}

// CGW is one operator's gateway, as configured and as it behaves.
type CGW struct {
	Cred
	Prefix  string   `json:"prefix"`
	Segment string   `json:"segment,omitempty"` // "": numbers that begin with Prefix
	Max     int      `json:"max"`
	Tps     int      `json:"tps"`
	Win     int      `json:"win"`
	TickMs  int64    `json:"tick_ms"`
	Link    Link     `json:"link"`
	RspMin  int64    `json:"rsp_min_us"`
	RspMax  int64    `json:"rsp_max_us"`
	RptMin  int64    `json:"rpt_min_us"`
	RptMax  int64    `json:"rpt_max_us"`
	Reorder bool     `json:"reorder"`
	DupRsp  float64  `json:"dup_rsp"`
	DupRpt  float64  `json:"dup_rpt"`
	FailP   float64  `json:"fail_p"`
	NoRsp   float64  `json:"no_rsp"`
	NoRpt   float64  `json:"no_rpt"`
	Other   float64  `json:"other"`   // reports on another connection
	Two     float64  `json:"two"`     // an intermediate report comes first
	Unknown float64  `json:"unknown"` // additional responses and reports for messages never sent
	HBMs    int64    `json:"hb_ms"`
	MOMs    int64    `json:"mo_ms"`
	NoHB    bool     `json:"no_hb"`  // does not answer heartbeats
	Spec29  bool     `json:"spec29"` // SGIP: bind response with the reserve field
	Phases  []CPhase `json:"steps"`
}
type CPhase struct {
	AtMs  int64  `json:"at_ms"`
	ForMs int64  `json:"for_ms"`
	K     string `json:"k"` // down hang reject rejclose mute drop junk slow partial
	S     string `json:"s,omitempty"`
	A     int64  `json:"a,omitempty"`
}
type CSender struct {
	StartUs int64 `json:"start_us"`
	Ops     []Op  `json:"ops"` // send: S = "gw:phone,...|kind:len|options"; sleep: A us
}
type CEvent struct {
	AtMs int64  `json:"at_ms"`
	GW   int    `json:"gw"`
	K    string `json:"k"` // reset close vanish stall partition deaf junk term
	N    int    `json:"n"` // which connection (-1: all)
	S    string `json:"s,omitempty"`
	A    int64  `json:"a,omitempty"`
}

// Whole runs the client library against the gateways.
type Whole struct {
	GWs      []CGW     `json:"gws"`
	Senders  []CSender `json:"peers"`
	Events   []CEvent  `json:"signals"` // reset resetcli resetsrv hole upstall downstall
	EndMs    int64     `json:"end_ms"`
	IdleMs   int64     `json:"idle_ms"`
	StopMs   int64     `json:"stop_ms"`
	ExpireMs int64     `json:"expire_ms"`
	CheckMs  int64     `json:"check_ms"`
	Loops    int       `json:"loops"`
	TickMs   int64     `json:"tick_ms"`
	ForceMs  int64     `json:"force_ms"`
	MinResp  int64     `json:"min_resp"`
	MaxResp  int64     `json:"max_resp"`
	Report   int64     `json:"report"`
	Success  float64   `json:"success"`
	MO       bool      `json:"mo"`
	MORate   float64   `json:"mo_rate,omitempty"`
	Strict   bool      `json:"strict"` // the gateways accept everything and nothing interferes
}

// Gen exercises one kind of identifier generator.
type Gen struct {
	Kind    string      `json:"kind"` // sf64, sf32, bcd, cycle, sgip; init: all of them as configured
	Nodes   []GenNode   `json:"nodes"`
	Callers []GenCaller `json:"callers"`
	TZMin   int         `json:"tz_min"`
	Long    bool        `json:"long"` // one complete cycle
}
type GenNode struct {
	DC     int64  `json:"dc"`
	Worker int64  `json:"worker"`
	Text   string `json:"text"`
	Num    uint32 `json:"num"`
}
type GenCaller struct {
	StartUs int64 `json:"start_us"`
	Node    int   `json:"node"`
	Ops     []Op  `json:"ops"` // call: A values, B us between them; sleep: A us
}

// Auth exercises a credential store under storage trouble.
type Auth struct {
	Store     string     `json:"store"` // yaml, mongo
	ReloadMs  int64      `json:"reload_ms"`
	TimeoutMs int64      `json:"timeout_ms"`
	Clients   []Cred     `json:"clients"`
	Ops       []AuOp     `json:"ops"`
	Readers   []AuReader `json:"callers"`
	EndMs     int64      `json:"end_ms"`
}

// AuOp changes the storage, or breaks it for a while.
type AuOp struct {
	AtMs    int64   `json:"at_ms"`
	K       string  `json:"k"` // put bad rm stray dir fault
	C       int     `json:"c"`
	V       int     `json:"v"`
	S       string  `json:"s,omitempty"`
	ForMs   int64   `json:"for_ms,omitempty"`
	P       float64 `json:"p,omitempty"`
	DelayMs int64   `json:"delay_ms,omitempty"`
}
type AuReader struct {
	GapUs int64 `json:"gap_us"`
	C     int   `json:"c"` // only this client (-1: all)
}

// Event exercises the event registry and the shutdown path.
type Event struct {
	Workers  []EvWorker `json:"callers"`
	Signals  []EvSignal `json:"signals"`
	ListenUs int64      `json:"listen_us"` // when the main goroutine starts to wait for the stop message
}
type EvWorker struct {
	StartUs int64 `json:"start_us"`
	Ops     []Op  `json:"ops"`
}
type EvSignal struct {
	AtUs int64  `json:"at_us"`
	Name string `json:"name"`
}
