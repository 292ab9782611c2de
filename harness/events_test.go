package vfharness

import (
	"encoding/json"
	"fmt"
	"io"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"ustack"
)

// events: who is told of what while components come and go, from several
// goroutines and from within handlers.

func init() {
	drivers["events"] = driver{true, runEvents}
}

type evNest struct {
	X   string `json:"x"`
	Ops []evOp `json:"ops"`
}
type evOp struct {
	T  int      `json:"t"`
	O  string   `json:"o"`
	A  string   `json:"a"`
	In []evNest `json:"in"`
}
type evEv struct {
	O  string   `json:"o"`
	ID int      `json:"id"`
	K  string   `json:"k"`
	A  string   `json:"a"`
	X  string   `json:"x"`
	R  []string `json:"r"`
}
type evScript struct {
	Listeners int      `json:"listeners"`
	Procs     int      `json:"procs"`
	Feats     int      `json:"feats"`
	Alike     bool     `json:"alike"` // all components have the same name and session
	Lanes     [][]evOp `json:"lanes"`
}

type evProc struct {
	ustack.DataProcessor
	tell func(ustack.Event)
}

func (p *evProc) OnEvent(e ustack.Event) { p.tell(e) }

type evFeat struct {
	ustack.FeatBase
	tell func(ustack.Event)
}

func (f *evFeat) OnEvent(e ustack.Event) { f.tell(e) }

func goid() string {
	var b [64]byte
	return strings.Fields(string(b[:runtime.Stack(b[:], false)]))[1]
}

func runEvents(script json.RawMessage) (interface{}, string) {
	var sc evScript
	must(json.Unmarshal(script, &sc))
	var mu sync.Mutex
	ev := []evEv{}
	log := func(e evEv) {
		atomic.AddInt64(&progress, 1)
		if e.R == nil {
			e.R = []string{}
		}
		mu.Lock()
		ev = append(ev, e)
		mu.Unlock()
	}
	ids := 0
	next := func() int {
		mu.Lock()
		defer mu.Unlock()
		ids++
		return ids
	}
	// what is to be done within handlers, per goroutine
	nests := map[string][]map[string][]evOp{}
	u := ustack.NewUStack()
	eps := map[string]ustack.EndPoint{}
	epn := map[ustack.EndPoint]string{}
	tps := map[string]*fakeTransport{}
	tpn := map[ustack.Transport]string{}
	name := func(a string) string {
		if sc.Alike {
			return "x"
		}
		return a
	}
	conns := map[string]*fakeConn{}
	var do func(o evOp)
	tell := func(x string) func(ustack.Event) {
		return func(e ustack.Event) {
			k, a := "", ""
			switch d := e.Data.(type) {
			case string:
				k, a = "pub", d
			case ustack.EndPoint:
				mu.Lock()
				a = epn[d]
				mu.Unlock()
				k = map[int]string{ustack.UStackEventEndpointAdded: "add", ustack.UStackEventEndpointDeleted: "del"}[e.Type]
			case *fakeTransport:
				mu.Lock()
				a = tpn[d]
				mu.Unlock()
				k = map[int]string{ustack.UStackEventTransportAdded: "addtp", ustack.UStackEventTransportDeleted: "deltp"}[e.Type]
			case *fakeConn:
				a = fmt.Sprintf("c%d", d.id)
				k = map[int]string{ustack.UStackEventNewConnection: "new", ustack.UStackEventConnectionClosed: "closed"}[e.Type]
			}
			log(evEv{O: "obs", X: x, K: k, A: a})
			g := goid()
			mu.Lock()
			var todo []evOp
			if st := nests[g]; len(st) > 0 {
				todo = st[len(st)-1][x]
				delete(st[len(st)-1], x)
			}
			mu.Unlock()
			for _, o := range todo {
				do(o)
			}
		}
	}
	endpoint := func(a string) ustack.EndPoint {
		mu.Lock()
		defer mu.Unlock()
		ep := eps[a]
		if ep == nil {
			n, _ := strconv.Atoi(a[1:])
			if sc.Alike {
				n = 1
			}
			ep = ustack.NewEndPoint(name(a), n)
			t := tell(a)
			ep.SetEventListener(func(_ ustack.EndPoint, e ustack.Event) { t(e) })
			eps[a] = ep
			epn[ep] = a
		}
		return ep
	}
	transport := func(a string) *fakeTransport {
		mu.Lock()
		defer mu.Unlock()
		tp := tps[a]
		if tp == nil {
			tp = newFakeTransport(name(a))
			tpn[tp] = a
			tp.closeOnStop = true
			tps[a] = tp
		}
		return tp
	}
	do = func(o evOp) {
		g := goid()
		nest := map[string][]evOp{}
		for _, n := range o.In {
			nest[n.X] = append(nest[n.X], n.Ops...)
		}
		mu.Lock()
		nests[g] = append(nests[g], nest)
		mu.Unlock()
		defer func() {
			mu.Lock()
			nests[g] = nests[g][:len(nests[g])-1]
			mu.Unlock()
		}()
		id := next()
		e := evEv{O: "beg", ID: id, K: o.O, A: o.A}
		switch o.O {
		case "add":
			log(e)
			u.AddEndPoint(endpoint(o.A))
		case "del":
			log(e)
			u.DeleteEndPoint(endpoint(o.A))
		case "addtp":
			log(e)
			u.AddTransport(transport(o.A))
		case "deltp":
			log(e)
			u.DeleteTransport(transport(o.A))
		case "pub":
			e.A = fmt.Sprintf("m%d", id)
			log(e)
			u.PublishEvent(ustack.Event{Type: 1000 + id, Source: u, Data: e.A})
		case "listen":
			log(e)
			u.SetEventListener(tell(o.A))
		case "list":
			log(e)
			for _, ep := range u.GetEndPoint() {
				mu.Lock()
				e.R = append(e.R, epn[ep])
				mu.Unlock()
			}
		case "listtp":
			log(e)
			for _, tp := range u.GetTransport() {
				mu.Lock()
				e.R = append(e.R, tpn[tp])
				mu.Unlock()
			}
		case "run":
			u.Run()
			return
		case "open": // a: connection@transport
			p := strings.Split(o.A, "@")
			n, _ := strconv.Atoi(p[0][1:])
			c := newFakeConn(n, false)
			mu.Lock()
			conns[p[0]] = c
			mu.Unlock()
			e.K, e.A = "new", p[0]
			log(e)
			transport(p[1]).yield(c)
			return
		case "eof":
			mu.Lock()
			c := conns[o.A]
			mu.Unlock()
			if c == nil {
				return
			}
			e.K = "closed"
			log(e)
			c.rx <- rxItem{err: io.EOF}
			return
		case "quiet":
			settled()
			log(evEv{O: "quiet"})
			return
		default:
			panic("no such operation " + o.O)
		}
		log(evEv{O: "end", ID: id, R: e.R})
	}
	fixed := []string{}
	for i := 1; i <= sc.Listeners; i++ {
		x := fmt.Sprintf("l%d", i)
		u.SetEventListener(tell(x))
		fixed = append(fixed, x)
	}
	for i := 1; i <= sc.Procs; i++ {
		x := fmt.Sprintf("p%d", i)
		u.AppendDataProcessor(&evProc{ustack.NewFlowController(), tell(x)})
		fixed = append(fixed, x)
	}
	for i := 1; i <= sc.Feats; i++ {
		x := fmt.Sprintf("f%d", i)
		f := &evFeat{ustack.NewFeatBaseInstance(name(x)), tell(x)}
		u.AddFeature(f.FeatBase.SetWhere(f))
		fixed = append(fixed, x)
	}
	start := time.Now()
	var wg sync.WaitGroup
	for _, lane := range sc.Lanes {
		lane := lane
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, o := range lane {
				if d := time.Duration(o.T)*time.Millisecond - time.Since(start); d > 0 {
					time.Sleep(d)
				}
				do(o)
			}
		}()
	}
	wg.Wait()
	settled()
	mu.Lock()
	out := append([]evEv{}, ev...)
	mu.Unlock()
	for _, tp := range tps {
		u.DeleteTransport(tp)
	}
	for _, c := range conns {
		c.Close()
	}
	for _, tp := range tps {
		tp.Stop()
	}
	for _, ep := range eps {
		u.DeleteEndPoint(ep)
	}
	settled()
	return map[string]interface{}{"fixed": fixed, "ev": out}, ""
}
