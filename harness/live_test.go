package vfharness

import (
	"encoding/json"
	"io"
	"sync"
	"sync/atomic"
	"time"

	"ustack"
)

// live: one stack in a bubble. Operations happen at given virtual times, in
// several lanes (goroutines); everything that can be observed is logged with
// its virtual time. Operations of different lanes at the same time race.

func init() {
	drivers["live"] = driver{true, runLive}
}

type liveOp struct {
	T   int    `json:"t"` // virtual milliseconds
	G   int    `json:"g"` // lane
	O   string `json:"o"`
	C   int    `json:"c"`
	N   int    `json:"n"` // transport
	E   int    `json:"e"`
	S   bs     `json:"s"`
	B   bs     `json:"b"`
	M   vmsg   `json:"m"`
	D   bs     `json:"d"`
	Ref bool   `json:"ref"`

	Early bool `json:"early"` // send: the connection may not have been handed over yet
}
type liveEv struct {
	T   int    `json:"t"`
	O   string `json:"o"`
	C   int    `json:"c"`
	N   int    `json:"n"`
	E   int    `json:"e"`
	S   bs     `json:"s"`
	B   bs     `json:"b"`
	M   vmsg   `json:"m"`
	D   bs     `json:"d"`
	Ref bool   `json:"ref"`
}
type liveScript struct {
	Cfg     stackCfg                `json:"cfg"`
	Ops     []liveOp                `json:"ops"`
	Hb      map[string]int          `json:"hb"` // interval, timeout, close
	Collect int                     `json:"collect"`
	Tps     int                     `json:"tps"`
	React   map[int]json.RawMessage `json:"react"` // connection: what the listener does when it is new
	Lossy   bool                    `json:"lossy"` // stopping a transport does not close what it yielded
	Log     []string                `json:"log"`   // only these are logged
	Sets    []setting               `json:"sets"`  // instead of mtu, cap, hb and collect
}

func runLive(script json.RawMessage) (interface{}, string) {
	var sc liveScript
	must(json.Unmarshal(script, &sc))
	cfg := sc.Cfg
	cfg.Enc, cfg.Dec = []encRow{}, []decRow{}
	var mu sync.Mutex
	start := time.Now()
	now := func() int { return int(time.Since(start) / time.Millisecond) }
	ev := []liveEv{}
	only := map[string]bool{}
	for _, o := range sc.Log {
		only[o] = true
	}
	log := func(e liveEv) {
		atomic.AddInt64(&progress, 1)
		if len(only) > 0 && !only[e.O] {
			return
		}
		if e.M.K == "" {
			e.M = vmsg{"none", nil}
		}
		mu.Lock()
		e.T = now()
		ev = append(ev, e)
		mu.Unlock()
	}
	if sc.Tps == 0 {
		sc.Tps = 1
	}
	eps := map[int]ustack.EndPoint{}
	conns := map[int]*fakeConn{}
	gates := map[int]chan struct{}{}
	broken := map[int]bool{}
	given := map[int]bool{}
	quit := make(chan struct{})

	u := ustack.NewUStack().SetName(string(cfg.Name.bytes()))
	if sc.Sets == nil {
		u.SetOption("MTU", cfg.Mtu)
	}
	applyStack(sc.Sets, u)
	procs := []ustack.DataProcessor{}
	for i, k := range cfg.Procs {
		p := makeProc(cfg, i+1, nil)
		if k.K == "hb" && sc.Sets != nil {
			p = ustack.NewHeartbeat()
		} else if k.K == "hb" && sc.Hb != nil {
			p.SetOption("IntervalInSecond", sc.Hb["interval"]).SetOption("TimeoutInSecond", sc.Hb["timeout"])
			p.SetOption("CloseOnLost", sc.Hb["close"] == 1)
		}
		applyProc(sc.Sets, k.K, p)
		if k.K == "stat" && sc.Collect > 0 && sc.Sets == nil {
			p.SetOption("Collect.IntervalInSecond", sc.Collect)
		}
		if k.K == "lb" {
			p.SetEnable(false)
		}
		procs = append(procs, p)
		u.AppendDataProcessor(p)
	}
	tps := []*fakeTransport{}
	for i := 0; i < sc.Tps; i++ {
		tp := newFakeTransport("t")
		tp.closeOnStop = !sc.Lossy
		tps = append(tps, tp)
	}
	endpoint := func(e int, s bs) ustack.EndPoint {
		mu.Lock()
		defer mu.Unlock()
		ep := eps[e]
		if ep == nil {
			ep = ustack.NewEndPoint("e", s.sess())
			eps[e] = ep
			go func() {
				for {
					select {
					case d := <-ep.GetRxChannel():
						log(liveEv{O: "dlv", E: e, C: connID(d.GetConnection()), M: canon(d.GetData())})
					case <-quit:
						return
					}
				}
			}()
		}
		return ep
	}
	var mk func(id int, ref bool) *fakeConn
	var do func(o liveOp)
	send := func(o liveOp) {
		mu.Lock()
		ep, c := eps[o.E], conns[o.C]
		if c == nil && o.Early {
			c = mk(o.C, o.Ref)
			conns[o.C] = c
		}
		mu.Unlock()
		if ep == nil || c == nil {
			return
		}
		d := ustack.NewEndPointData().SetData(o.M.value()).SetConnection(c)
		if len(o.D) == 4 {
			d.SetDestinationSession(o.D.sess())
		}
		log(liveEv{O: "put", E: o.E, C: o.C, M: canon(o.M.value()), D: o.D})
		ep.GetTxChannel() <- d
		log(liveEv{O: "putd", E: o.E})
	}
	u.SetEventListener(func(e ustack.Event) {
		c, ok := e.Data.(ustack.TransportConnection)
		if !ok {
			return
		}
		id := connID(c)
		switch e.Type {
		case ustack.UStackEventNewConnection:
			log(liveEv{O: "new", C: id})
			if how, ok := sc.React[id]; ok {
				var word string
				var ops []liveOp
				if json.Unmarshal(how, &word) == nil {
					ops = []liveOp{{O: map[string]string{"close": "appclose", "send": "send"}[word], E: 1, C: id, M: vmsg{"bytes", bs{id, 99, 99}}}}
				} else {
					must(json.Unmarshal(how, &ops))
				}
				for _, o := range ops {
					do(o)
				}
			}
		case ustack.UStackEventConnectionClosed:
			log(liveEv{O: "closed", C: id, B: bs{map[bool]int{true: 1, false: 0}[c.Closed()]}})
		case ustack.UStackEventHeartbeatLost:
			log(liveEv{O: "lost", C: id})
		}
	})
	mk = func(id int, ref bool) *fakeConn {
		c := newFakeConn(id, ref)
		c.onWrite = func(c *fakeConn, b []byte) (int, error) {
			mu.Lock()
			g, bad := gates[id], broken[id]
			mu.Unlock()
			if bad {
				log(liveEv{O: "wfail", C: id})
				return 0, errBroken
			}
			if g != nil {
				log(liveEv{O: "wbeg", C: id, B: bints(b)})
				select {
				case <-g:
				case <-c.done:
					return 0, errClosed
				}
			}
			log(liveEv{O: "wire", C: id, B: bints(b)})
			return len(b), nil
		}
		c.onSet = func(c *fakeConn, p interface{}) error {
			log(liveEv{O: "ref", C: id, M: canon(p)})
			return nil
		}
		c.onRead = func(c *fakeConn, b []byte, err error) {
			if err != nil {
				log(liveEv{O: "rerr", C: id})
			}
		}
		c.onClose = func(c *fakeConn) { log(liveEv{O: "close", C: id}) }
		return c
	}
	do = func(o liveOp) {
		mu.Lock()
		c, yielded := conns[o.C], given[o.C]
		mu.Unlock()
		base := liveEv{O: o.O, C: o.C, N: o.N, E: o.E, S: o.S, B: o.B, D: o.D, Ref: o.Ref}
		switch o.O {
		case "open":
			mu.Lock()
			c = conns[o.C]
			if c == nil {
				c = mk(o.C, o.Ref)
				conns[o.C] = c
			}
			mu.Unlock()
			base.O = "yield"
			log(base)
			mu.Lock()
			given[o.C] = true
			mu.Unlock()
			tps[o.N].yield(c)
		case "rx":
			if c == nil || !yielded {
				return
			}
			log(base)
			c.rx <- rxItem{b: o.B.bytes()}
		case "rxref":
			if c == nil {
				return
			}
			base.M = canon(o.M.value())
			log(base)
			c.rx <- rxItem{ref: o.M.value()}
		case "eof", "rxeof", "err":
			if c == nil {
				return
			}
			log(base)
			e := io.EOF
			if o.O == "err" {
				e = errBroken
			}
			c.rx <- rxItem{b: o.B.bytes(), err: e}
		case "werr":
			if c == nil {
				return
			}
			log(base)
			mu.Lock()
			broken[o.C] = true
			mu.Unlock()
		case "gate":
			log(base)
			mu.Lock()
			gates[o.C] = make(chan struct{})
			mu.Unlock()
		case "ungate":
			log(base)
			mu.Lock()
			g := gates[o.C]
			delete(gates, o.C)
			mu.Unlock()
			if g != nil {
				close(g)
			}
		case "appclose":
			if c == nil {
				return
			}
			log(base)
			c.Close()
		case "send":
			send(o)
		case "make":
			endpoint(o.E, o.S)
			log(base)
		case "add":
			ep := endpoint(o.E, o.S)
			base.S = sess4(ep.GetSession())
			log(base)
			u.AddEndPoint(ep)
			base.O = "added"
			log(base)
		case "del":
			ep := endpoint(o.E, o.S)
			base.S = sess4(ep.GetSession())
			log(base)
			u.DeleteEndPoint(ep)
			base.O = "deleted"
			log(base)
		case "addtp":
			log(base)
			u.AddTransport(tps[o.N])
			base.O = "addedtp"
			log(base)
		case "deltp":
			log(base)
			u.DeleteTransport(tps[o.N])
			base.O = "deletedtp"
			log(base)
		case "quiet":
			settled()
			log(base)
			mu.Lock()
			all := map[int]ustack.EndPoint{}
			for e, ep := range eps {
				all[e] = ep
			}
			mu.Unlock()
			for e := range all {
				log(liveEv{O: "left", E: e, N: len(all[e].GetTxChannel())})
			}
		case "run":
			log(base)
			u.Run()
			base.O = "ran"
			log(base)
		default:
			panic("no such operation " + o.O)
		}
	}
	lanes := map[int][]liveOp{}
	for _, o := range sc.Ops {
		lanes[o.G] = append(lanes[o.G], o)
	}
	var wg sync.WaitGroup
	for _, ops := range lanes {
		ops := ops
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, o := range ops {
				if d := o.T - now(); d > 0 {
					time.Sleep(time.Duration(d) * time.Millisecond)
				}
				do(o)
			}
		}()
	}
	wg.Wait()
	settled()
	mu.Lock()
	out := append([]liveEv{}, ev...)
	mu.Unlock()
	close(quit)
	for _, g := range gates {
		close(g)
	}
	for _, c := range conns {
		c.Close()
	}
	for _, tp := range tps {
		tp.Stop()
	}
	for _, ep := range eps {
		u.DeleteEndPoint(ep)
	}
	settled()
	hb := sc.Hb
	if hb == nil {
		hb = map[string]int{}
	}
	res := map[string]interface{}{"cfg": cfg, "hb": hb, "collect": sc.Collect, "ev": out}
	if sc.Sets != nil {
		cfg.Mtu, cfg.Cap = 0, 0
		res["cfg"], res["sets"], res["hb"], res["collect"] = cfg, sc.Sets, 0, 0
	}
	return res, ""
}
