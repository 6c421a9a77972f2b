// Package plan describes one simulated run completely: everything the stub
// clients send, every fault, every handler's behaviour and the scheduling
// parameters. A run is a function of the plan and the code.
package plan

import (
	"verifsim/simnet"
	"verifsim/wire"
)

// Job is what the simulated process reads from its standard input.
type Job struct {
	Prop    string `json:"prop"`
	Seed    uint64 `json:"seed"`
	Sched   Sched  `json:"sched"`
	Plan    *Plan  `json:"plan"`
	Verbose bool   `json:"verbose,omitempty"`
	WantTr  bool   `json:"want_trace,omitempty"`
}

// Sched are the scheduler's parameters.
type Sched struct {
	Policy    int      `json:"policy"`
	YieldProb uint32   `json:"yield"`
	Dev       uint32   `json:"dev"`
	Epoch     uint32   `json:"epoch"`
	SiteMod   uint32   `json:"mod"`
	ReplayOn  bool     `json:"replay_on,omitempty"`
	Replay    []uint64 `json:"replay,omitempty"`
}

// Plan is the whole scenario.
type Plan struct {
	Kind      string  `json:"kind"` // spop, peers, relay
	NumCPU    int     `json:"ncpu"`
	TailMs    int     `json:"tail"`   // how long to run after the last client is done
	CancelMs  int     `json:"cancel"` // cancel BaseContext at, 0: never
	LCloseMs  int     `json:"lclose"` // close the listener at, 0: never
	NilBase   bool    `json:"nilbase,omitempty"`
	Two       int     `json:"two,omitempty"`       // serve two listeners: 1 two Agents or Peers, 2 the same, 3 the same, one after the other
	Listen    int     `json:"listen,omitempty"`    // 0: Serve, 1: the method ListenAndServe, 2: the function
	NoTCP     bool    `json:"notcp,omitempty"`     // the connections are not *net.TCPConn
	HCloseMs  int     `json:"hclose,omitempty"`    // peers: time a handler's Close takes
	HCloseErr bool    `json:"hcloseerr,omitempty"` // peers: a handler's Close fails
	HSource   bool    `json:"hsource,omitempty"`   // peers: use HandlerSource
	Conns     []*Conn `json:"conns"`
	LeakCheck bool    `json:"leak,omitempty"`   // before the end, close all connections and look for what is left
	CtxErr    int     `json:"ctxerr,omitempty"` // how the base context ends: 1 as at a deadline, 2 with a cause of its own
	OwnCtx    bool    `json:"ownctx,omitempty"` // the base context is not one of package context
	MemLimit  int     `json:"mem,omitempty"`    // bytes the run may allocate in all, 0: unchecked
}

// Conn is one client connection.
type Conn struct {
	AtMs    int          `json:"at"`
	Srv     int          `json:"srv,omitempty"` // the listener it connects to
	Net     simnet.Knobs `json:"net"`
	Ops     []Op         `json:"ops"`
	HS      *Handshake   `json:"hs,omitempty"`
	Tasks   []Task       `json:"tasks,omitempty"` // peers: goroutines using the Writer
	HSOps   []WOp        `json:"hsops,omitempty"` // peers: Writer calls made inside HandleHandshake
	HSCut   int          `json:"hscut,omitempty"` // peers: the hello is sent in two parts, HSGapMs apart
	HSGapMs int          `json:"hsgap,omitempty"`
	HSGlue  bool         `json:"hsglue,omitempty"` // peers: the hello arrives together with the first message
	HSMs    int          `json:"hsms,omitempty"`   // peers: time spent in HandleHandshake
	Relay   int          `json:"relay,omitempty"`  // relay: connection index+1 this one's output is forwarded to
	KeepMs  int          `json:"keep,omitempty"`   // peers: gap between the client's heartbeats, 0: none
	KeepBy  []int        `json:"keepby,omitempty"` // peers: what it sends instead: control messages by type, 0x84 for acknowledgements
	NoJudg  bool         `json:"nojudge,omitempty"`
}

// Op is one client action.
type Op struct {
	K      string  `json:"k"`
	Ms     int     `json:"ms,omitempty"`
	Us     int     `json:"us,omitempty"`
	Hello  *Hello  `json:"hello,omitempty"`
	Notify *Notify `json:"notify,omitempty"`
	Raw    []byte  `json:"raw,omitempty"`
	Code   int     `json:"code,omitempty"`
	// peers
	Def  *wire.Def `json:"def,omitempty"`
	Upd  *UpdOp    `json:"upd,omitempty"`
	Ctl  int       `json:"ctl,omitempty"`
	Note string    `json:"note,omitempty"`
	// Pieces > 1: the update is sent in so many pieces, Ms apart.
	Pieces int `json:"pieces,omitempty"`
	// Glue makes the bytes arrive together with those of the next operation.
	Glue bool `json:"glue,omitempty"`
	// Bad marks bytes after which the connection's own fate is unspecified.
	Bad bool `json:"bad,omitempty"`
}

// Sends reports whether the operation sends bytes, all at once.
func (o *Op) Sends() bool {
	if o.Pieces > 1 {
		return false
	}
	switch o.K {
	case "hello", "notify", "disc", "def", "upd", "ctl", "ack", "raw", "over":
		return true
	}
	return false
}

// Glued reports whether what operation k does arrives together with something
// before, and whether with something after it.
func Glued(ops []Op, k int) (before, after bool) {
	o := &ops[k]
	ends := o.K == "eof" || o.K == "close" || o.K == "reset" || o.K == "rtimeout"
	before = k > 0 && ops[k-1].Glue && ops[k-1].Sends() && (o.Sends() || ends)
	return before, o.Glue && o.Sends()
}

// Hello is a HAPROXY-HELLO.
type Hello struct {
	MaxFrame uint64     `json:"mf"`
	NoMax    bool       `json:"nomax,omitempty"`
	MaxType  int        `json:"mt,omitempty"`     // data type of max-frame-size, default uint32
	Health   int        `json:"health,omitempty"` // 0 absent, 1 true, 2 false
	Engine   string     `json:"engine,omitempty"`
	Versions string     `json:"ver,omitempty"`
	Caps     string     `json:"caps"`
	Extra    []wire.Val `json:"extra,omitempty"`   // items nobody knows
	ExtraK   []string   `json:"extrak,omitempty"`  // their names
	Perm     uint64     `json:"perm,omitempty"`    // order of the items
	PadTo    int        `json:"pad,omitempty"`     // make the frame exactly this long with a long engine id
	Broken   []byte     `json:"broken,omitempty"`  // follows the items
	WantBad  bool       `json:"wantbad,omitempty"` // the agent must refuse it
}

// Notify is a NOTIFY frame and what the handler does with it.
type Notify struct {
	Stream uint64 `json:"s"`
	Frame  uint64 `json:"f"`
	Msgs   []*Msg `json:"msgs"`
	PadTo  int    `json:"pad,omitempty"` // pad the frame to exactly this length
}

// Msg is one SPOE message.
type Msg struct {
	Name string    `json:"name"`
	Args []wire.KV `json:"args"`
	B    Behave    `json:"b"`
	// Common is set if the message goes by a name that others have too,
	// unless one that has it is under way.
	Common bool `json:"common,omitempty"`
}

// Behave is the handler's behaviour for one message.
type Behave struct {
	Read    int           `json:"read"`           // arguments to read before acting: -1 all, else at most that many
	Rest    bool          `json:"rest,omitempty"` // read the remaining ones at the end
	Unm     bool          `json:"unm,omitempty"`  // unmarshal the remaining ones into a struct
	UnmType int           `json:"unmt,omitempty"` // which struct
	UnmOld  int           `json:"unmo,omitempty"` // 1 one unmarshalled into before, if any; 2 else an empty one; 4 used again later
	PreMs   int           `json:"pre,omitempty"`
	MidMs   int           `json:"mid,omitempty"`
	Acts    []wire.Action `json:"acts,omitempty"`
	Panic   int           `json:"panic,omitempty"`  // 1 before reading, 2 after reading, 3 after the actions
	PanicV  int           `json:"panicv,omitempty"` // what it panics with
	WaitCtx bool          `json:"wait,omitempty"`
	Ent     int           `json:"ent,omitempty"`  // entries: 0 one, 1 one not from the pool, 2 released in between, 3 two in turns
	Disc    bool          `json:"disc,omitempty"` // discard what is left
	Codec   []*Codec      `json:"codec,omitempty"`
	Yield   bool          `json:"yield,omitempty"` // give up the processor between steps
}

// TakesMs returns how long the handler takes at most.
func (b *Behave) TakesMs() int {
	t := b.PreMs + b.MidMs*(len(b.Acts)+1)
	for _, x := range b.Codec {
		t += x.Ms * (2*len(x.Items) + len(x.Ints))
	}
	return t
}

// Codec is a list a handler encodes and decodes for itself.
type Codec struct {
	Buf   int       `json:"buf"` // the room it has
	Off   int       `json:"off,omitempty"`
	New   bool      `json:"new,omitempty"`   // not from the pools
	Count bool      `json:"count,omitempty"` // scan by number, not to the end
	Ms    int       `json:"ms,omitempty"`
	Items []wire.KV `json:"items,omitempty"`
	Ints  []uint64  `json:"ints,omitempty"`
	// Cut follows the items by one that is cut off in this way.
	Cut int `json:"cut,omitempty"`
}

// Handshake is a peers hello.
type Handshake struct {
	Proto, Version, Remote, Local string
	Pid, Rel                      int
	Raw                           []byte `json:",omitempty"` // replaces the three lines
	Bad                           bool   `json:",omitempty"`
	New                           bool   `json:",omitempty"` // with the defaults of NewHandshake
	Go                            bool   `json:",omitempty"` // written by the repository itself
}

// UpdOp is an entry update and what the handler does with it.
type UpdOp struct {
	U      wire.Upd `json:"u"`
	HMs    int      `json:"hms,omitempty"`
	HOps   []WOp    `json:"hops,omitempty"`
	Panic  bool     `json:"panic,omitempty"`
	PadLen int      `json:"padlen,omitempty"`
}

// Task is a goroutine that calls the Writer.
type Task struct {
	StartMs int   `json:"start"`
	Ops     []WOp `json:"ops"`
}

// WOp is one Writer call.
type WOp struct {
	K    string     `json:"k"` // entry, entries, def, switch, flush, sleep, close, codec
	Ms   int        `json:"ms,omitempty"`
	Def  *wire.Def  `json:"def,omitempty"`
	Upds []wire.Upd `json:"upds,omitempty"`
	ID   uint64     `json:"id,omitempty"`
	// Share is set for calls that send the very same entries.
	Share int `json:"share,omitempty"`
	// Reuse is 1 for calls that send entries others sent as well, and 2 if
	// the entries of the call before are changed and sent again.
	Reuse int  `json:"reuse,omitempty"`
	Fail  bool `json:"fail,omitempty"` // the call must fail to marshal
}

// Violation is one broken property.
type Violation struct {
	Prop string `json:"prop"`
	Sig  string `json:"sig"` // what failed, without run-specific detail
	Msg  string `json:"msg"`
}

// Result is what the simulated process reports.
type Result struct {
	Viol      []Violation    `json:"viol,omitempty"`
	Hash      uint64         `json:"hash"` // over events and schedule
	EvHash    uint64         `json:"evhash"`
	Steps     uint64         `json:"steps"`
	Decisions uint64         `json:"dec"`
	Switches  uint64         `json:"sw"`
	Preempts  uint64         `json:"pre"`
	Jumps     uint64         `json:"jumps"`
	SimUs     int64          `json:"us"`
	Cover     []byte         `json:"cover,omitempty"`
	Faults    map[string]int `json:"faults,omitempty"`
	Probes    map[string]int `json:"probes,omitempty"`
	Trace     []uint64       `json:"trace,omitempty"`
	TraceFull bool           `json:"trace_full,omitempty"`
	Log       []string       `json:"log,omitempty"`
	Events    int            `json:"events"`
}
