package vfharness

import (
	"encoding/json"
	"errors"
	"io"
	"reflect"
	"sync"
	"sync/atomic"

	"ustack"
)

func init() {
	drivers["stack"] = driver{true, runStack}
}

type procCfg struct {
	K string `json:"k"`
	N int    `json:"n"`
}
type encRow struct {
	I  vmsg `json:"i"`
	Ok bool `json:"ok"`
	B  bs   `json:"b"`
}
type decRow struct {
	I  bs   `json:"i"`
	Ok bool `json:"ok"`
	M  vmsg `json:"m"`
}
type stackCfg struct {
	Mtu   int       `json:"mtu"`
	Cap   int       `json:"cap"`
	CapOp bool      `json:"capop"` // give the capacity as an option
	Name  bs        `json:"name"`
	Procs []procCfg `json:"procs"`
	Conns int       `json:"conns"`
	Eps   int       `json:"eps"`
	Enc   []encRow  `json:"enc"`
	Dec   []decRow  `json:"dec"`
}
type stackOp struct {
	O   string `json:"o"`
	E   int    `json:"e"`
	S   bs     `json:"s"`
	C   int    `json:"c"`
	Ref bool   `json:"ref"`
	B   bs     `json:"b"`
	M   vmsg   `json:"m"`
	D   bs     `json:"d"`
	Clr bool   `json:"clr"`
	P   int    `json:"p"`
	On  bool   `json:"on"`
	Fup []bool `json:"fup"`
	Fdn []bool `json:"fdn"`
}
type stackEv struct {
	stackOp
	Wire  [][]interface{} `json:"wire"`
	Refs  [][]interface{} `json:"refs"`
	Dlv   [][]interface{} `json:"dlv"`
	Calls [][]interface{} `json:"calls"`
	Dead  []int           `json:"dead"`
}

func newEv(o stackOp) *stackEv {
	if o.Fup == nil {
		o.Fup = []bool{}
	}
	if o.Fdn == nil {
		o.Fdn = []bool{}
	}
	if o.M.K == "" {
		o.M.K = "none"
	}
	return &stackEv{o, [][]interface{}{}, [][]interface{}{}, [][]interface{}{}, [][]interface{}{}, []int{}}
}

// makeProc: one processor of the pipeline; ask answers the predicates
func makeProc(cfg stackCfg, p int, ask func(p, j int, x ustack.Context, up bool) bool) ustack.DataProcessor {
	// which side it is on makes no difference to a processor
	return newProc(cfg, p, ask).ForServer((cfg.Mtu+p)%2 == 0)
}

func newProc(cfg stackCfg, p int, ask func(p, j int, x ustack.Context, up bool) bool) ustack.DataProcessor {
	k := cfg.Procs[p-1]
	switch k.K {
	case "bytes":
		return ustack.NewBytesCodec()
	case "string":
		return ustack.NewStringCodec()
	case "raw":
		return newRawCodec()
	case "generic":
		return ustack.NewGenericCodec(nil, genericEncoder, genericDecoder)
	case "ggob":
		return ustack.NewGenericCodec(func() {}, gobEncoder, gobDecoder)
	case "json":
		return ustack.NewJSONCodec(objType)
	case "gob":
		return ustack.NewGOBCodec(objType)
	case "session":
		return ustack.NewSessionResolver()
	case "stat":
		return ustack.NewStatCounter()
	case "hb":
		return ustack.NewHeartbeat().SetOption("IntervalInSecond", 100000000).SetOption("TimeoutInSecond", 200000000)
	case "lb":
		return ustack.NewLoadBalancer()
	case "frame":
		f := ustack.NewFrameDecoder()
		if cfg.CapOp && cfg.Cap > 0 {
			f.SetOption("CacheCapacity", cfg.Cap)
		}
		return f
	case "loop":
		return ustack.NewLoopback()
	case "echo":
		return ustack.NewEcho()
	case "discard":
		return ustack.NewDiscarder()
	case "flow":
		return ustack.NewFlowController()
	case "filter":
		fns := []ustack.FilterFn{}
		for j := 1; j <= k.N; j++ {
			j := j
			fns = append(fns, func(x ustack.Context, up bool) bool { return ask(p, j, x, up) })
		}
		return ustack.NewFilter(fns...)
	case "fwd":
		fns := []ustack.ForwardFn{}
		for j := 1; j <= k.N; j++ {
			j := j
			fns = append(fns, func(x ustack.Context, up bool) bool { return ask(p, j, x, up) })
		}
		return ustack.NewForwarder(fns...)
	}
	panic("no such processor " + k.K)
}

type stackSys struct {
	mu    sync.Mutex
	cfg   stackCfg
	ev    []*stackEv
	cur   *stackEv
	kept  keeper
	conns map[int]*fakeConn
	eps   map[int]ustack.EndPoint
	mine  bool // the harness itself closes
	pay   map[string]bool
	out   map[int][]byte // written and not yet fed back
}

func connID(c ustack.TransportConnection) int {
	if c == nil || reflect.ValueOf(c).IsNil() {
		return 0
	}
	return c.(*fakeConn).id
}

// collect what was delivered; the stack is quiet or waits for it
func (s *stackSys) drain() int {
	n := 0
	for e := 1; e <= len(s.eps); e++ {
		ep := s.eps[e]
		if ep == nil {
			continue
		}
		for more := true; more; {
			select {
			case d := <-ep.GetRxChannel():
				s.cur.Dlv = append(s.cur.Dlv, []interface{}{e, connID(d.GetConnection()), canon(d.GetData())})
				if c, ok := d.GetConnection().(*fakeConn); !ok || !c.ref {
					s.kept.take(d.GetData())
				}
				n++
			default:
				more = false
			}
		}
	}
	return n
}

func (s *stackSys) settle() {
	for {
		settled()
		atomic.AddInt64(&progress, 1)
		s.mu.Lock()
		n := s.drain()
		s.mu.Unlock()
		if n == 0 {
			return
		}
	}
}

func (s *stackSys) begin(o stackOp) {
	s.mu.Lock()
	s.cur = newEv(o)
	s.ev = append(s.ev, s.cur)
	s.mu.Unlock()
}

func runStack(script json.RawMessage) (interface{}, string) {
	var sc struct {
		Cfg stackCfg  `json:"cfg"`
		Ops []stackOp `json:"ops"`
		Run int       `json:"run"` // the stack is started before this operation

		Sets []setting `json:"sets"` // instead of mtu and cap
	}
	must(json.Unmarshal(script, &sc))
	s := &stackSys{cfg: sc.Cfg, conns: map[int]*fakeConn{}, eps: map[int]ustack.EndPoint{}, pay: map[string]bool{}, out: map[int][]byte{}}
	if s.cfg.Enc == nil {
		s.cfg.Enc = []encRow{}
	}
	s.cfg.Dec = []decRow{}

	u := ustack.NewUStack().SetName(string(sc.Cfg.Name.bytes()))
	if sc.Sets == nil {
		u.SetOption("MTU", sc.Cfg.Mtu)
	}
	applyStack(sc.Sets, u)
	procs := []ustack.DataProcessor{}
	codecAt := 0
	for i, k := range sc.Cfg.Procs {
		switch k.K {
		case "bytes", "string", "raw", "generic", "json", "gob", "ggob":
			codecAt = i + 1
		}
	}
	ask := func(p, j int, x ustack.Context, up bool) bool {
		s.mu.Lock()
		defer s.mu.Unlock()
		mb := bs{}
		if x.GetMessage() != nil {
			mb = canon(x.GetMessage()).B
		}
		bb := bs{}
		if p > codecAt {
			bb = bints(peekAll(x.GetBuffer()))
		}
		s.cur.Calls = append(s.cur.Calls, []interface{}{p, j, up, connID(x.GetConnection()), mb, bb})
		if up {
			return j <= len(s.cur.Fup) && s.cur.Fup[j-1]
		}
		return j <= len(s.cur.Fdn) && s.cur.Fdn[j-1]
	}
	for i, k := range sc.Cfg.Procs {
		dp := makeProc(sc.Cfg, i+1, ask)
		applyProc(sc.Sets, k.K, dp)
		procs = append(procs, dp)
		u.AppendDataProcessor(dp)
		if k.K == "json" || k.K == "gob" || k.K == "ggob" {
			pr := newProbe()
			kind := k.K
			pr.onUp = func(x ustack.Context) {
				if x.GetBuffer() == nil {
					return
				}
				b := peekAll(x.GetBuffer())
				s.mu.Lock()
				if !s.pay[string(b)] {
					s.pay[string(b)] = true
					m, ok := codecDecode(kind, b)
					s.cfg.Dec = append(s.cfg.Dec, decRow{bints(b), ok, m})
				}
				s.mu.Unlock()
			}
			u.AppendDataProcessor(pr)
			seen := map[string]bool{}
			for _, o := range sc.Ops {
				if o.M.K != "" {
					o.M = canon(o.M.value())
				}
				key, _ := json.Marshal(o.M)
				if o.O == "send" && !seen[string(key)] {
					seen[string(key)] = true
					b, ok := codecEncode(kind, o.M)
					s.cfg.Enc = append(s.cfg.Enc, encRow{o.M, ok, b})
				}
			}
		}
	}
	tp := newFakeTransport("t")
	u.AddTransport(tp)

	newConn := func(id int, ref bool) *fakeConn {
		c := newFakeConn(id, ref)
		c.onIdle = func(c *fakeConn) {
			s.mu.Lock()
			s.drain()
			s.mu.Unlock()
		}
		c.onRead = func(c *fakeConn, b []byte, err error) {
			if c.ref {
				return
			}
			s.mu.Lock()
			defer s.mu.Unlock()
			if len(b) == 0 {
				return
			}
			if s.cur.O == "chunk" {
				// the first read of this chunk
				s.cur.O = "read"
				s.cur.B = bints(b)
			} else {
				o := s.cur.stackOp
				o.B = bints(b)
				o.O = "read"
				s.cur = newEv(o)
				s.ev = append(s.ev, s.cur)
			}
			if err != nil {
				s.cur.O = "readend"
			}
		}
		c.onWrite = func(c *fakeConn, b []byte) (int, error) {
			s.mu.Lock()
			defer s.mu.Unlock()
			if len(b) > 0 {
				s.cur.Wire = append(s.cur.Wire, []interface{}{c.id, bints(b)})
				s.out[c.id] = append(s.out[c.id], b...)
			}
			return len(b), nil
		}
		c.onSet = func(c *fakeConn, p interface{}) error {
			if p == nil {
				return errors.New("nil reference")
			}
			s.mu.Lock()
			defer s.mu.Unlock()
			s.cur.Refs = append(s.cur.Refs, []interface{}{c.id, canon(p)})
			return nil
		}
		c.onClose = func(c *fakeConn) {
			s.mu.Lock()
			defer s.mu.Unlock()
			for _, d := range s.cur.Dead {
				if d == c.id {
					return
				}
			}
			if !s.mine {
				s.cur.Dead = append(s.cur.Dead, c.id)
			}
		}
		return c
	}

	if sc.Run <= 0 {
		u.Run()
	}
	for i, o := range sc.Ops {
		if sc.Run > 0 && i == sc.Run {
			u.Run()
			settled()
		}
		if o.M.K != "" {
			o.M = canon(o.M.value())
		}
		c := s.conns[o.C]
		open := c != nil && !c.Closed()
		switch o.O {
		case "addep":
			ep := s.eps[o.E]
			if ep == nil {
				ep = ustack.NewEndPoint("e", o.S.sess())
				s.eps[o.E] = ep
			}
			o.S = sess4(ep.GetSession())
			s.begin(o)
			u.AddEndPoint(ep)
		case "delep":
			ep := s.eps[o.E]
			if ep == nil {
				continue
			}
			s.begin(o)
			u.DeleteEndPoint(ep)
		case "open":
			if c != nil {
				continue
			}
			s.begin(o)
			c = newConn(o.C, o.Ref)
			s.conns[o.C] = c
			tp.yield(c)
		case "event": // something happens that does not concern the data path
			if !open {
				continue
			}
			s.begin(o)
			switch o.P {
			case 0:
				u.PublishEvent(ustack.Event{Type: ustack.UStackEventHeartbeatLost, Source: s, Data: c})
			case 1:
				u.PublishEvent(ustack.Event{Type: ustack.UStackEventHeartbeatRecover, Source: s, Data: c})
			case 2:
				other := newFakeTransport("t")
				u.AddTransport(other)
				u.DeleteTransport(other)
			case 3:
				u.PublishEvent(ustack.Event{Type: 99, Source: s, Data: c})
			case 4:
				u.PublishEvent(ustack.Event{Type: 99, Source: nil, Data: nil})
			}
		case "close":
			if !open {
				continue
			}
			s.begin(o)
			c.rx <- rxItem{err: io.EOF}
		case "read", "readend":
			if !open || len(o.B) == 0 || c.ref {
				continue
			}
			var err error
			if o.O == "readend" {
				err = io.EOF
			}
			o.O = "chunk"
			s.begin(o)
			c.rx <- rxItem{b: o.B.bytes(), err: err}
		case "back":
			// what was written on connection c comes in on connection e, in
			// pieces of the sizes b, with the changes d (position, mask)
			s.mu.Lock()
			data := s.out[o.C]
			s.out[o.C] = nil
			s.mu.Unlock()
			to := s.conns[o.E]
			for j := 0; j+1 < len(o.D) && len(data) > 0; j += 2 {
				data[o.D[j]%len(data)] ^= byte(o.D[j+1])
			}
			for j := 0; len(data) > 0; j++ {
				n := len(data)
				if len(o.B) > 0 && o.B[j%len(o.B)] < n && o.B[j%len(o.B)] > 0 {
					n = o.B[j%len(o.B)]
				}
				if to == nil || to.ref || to.Closed() {
					break
				}
				s.begin(stackOp{O: "chunk", C: o.E, Fup: o.Fup, Fdn: o.Fdn})
				to.rx <- rxItem{b: append([]byte{}, data[:n]...)}
				data = data[n:]
				s.settle()
			}
			continue
		case "readref":
			if !open || !c.ref {
				continue
			}
			s.begin(o)
			c.rx <- rxItem{ref: o.M.value()}
		case "send":
			ep := s.eps[o.E]
			if ep == nil || (o.C != 0 && c == nil) {
				continue
			}
			d := ustack.NewEndPointData().SetData(o.M.value())
			if o.C != 0 {
				d.SetConnection(c)
				o.Ref = c.ref
			} else {
				o.Ref = false
			}
			if len(o.D) == 4 {
				d.SetDestinationSession(o.D.sess())
				if o.Clr {
					d.ClearDestinationSession()
					o.D = nil
				}
			} else {
				o.D = nil
			}
			s.begin(o)
			ep.GetTxChannel() <- d
		case "enable":
			s.begin(o)
			procs[o.P-1].SetEnable(o.On)
		default:
			panic("no such operation " + o.O)
		}
		s.settle()
	}
	ev := s.ev
	// let everything end
	s.mu.Lock()
	s.cur = newEv(stackOp{})
	s.mu.Unlock()
	for _, c := range s.conns {
		c.Close()
	}
	tp.Stop()
	for _, ep := range s.eps {
		u.DeleteEndPoint(ep)
	}
	s.settle()
	s.mu.Lock()
	defer s.mu.Unlock()
	out := []*stackEv{}
	for _, e := range ev {
		if e.O == "chunk" { // the stack never asked for it
			e.O = "unread"
		}
		out = append(out, e)
	}
	if s.kept.changed() > 0 {
		e := newEv(stackOp{O: "unread"}) // no step of the specification
		out = append(out, e)
	}
	if sc.Sets != nil {
		s.cfg.Mtu, s.cfg.Cap = 0, 0
		return map[string]interface{}{"cfg": s.cfg, "sets": sc.Sets, "ev": out}, ""
	}
	return map[string]interface{}{"cfg": s.cfg, "ev": out}, ""
}
