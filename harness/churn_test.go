package vfharness

// Connections, endpoints and transports come and go while a stack runs. At
// rest the number of goroutines and of closed connections that are still
// reachable is recorded.

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
	"weak"

	"ustack"
)

func init() {
	drivers["churn"] = driver{true, runChurn}
	drivers["churnreal"] = driver{false, runChurn}
}

// a connection nobody but the stack keeps
type chConn struct {
	mu     sync.Mutex
	rx     chan []byte
	done   chan struct{}
	end    error
	closed bool
	broken bool
	data   []byte // makes it worth while
}

func (c *chConn) GetName() string    { return "churn" }
func (c *chConn) UseReference() bool { return false }
func (c *chConn) GetReference() (interface{}, error) {
	return nil, errors.New("no")
}
func (c *chConn) SetReference(interface{}) error { return errors.New("no") }
func (c *chConn) Read(p []byte) (int, error) {
	select {
	case b, ok := <-c.rx:
		if !ok {
			return 0, c.end
		}
		return copy(p, b), nil
	case <-c.done:
		return 0, errors.New("closed")
	}
}
func (c *chConn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed || c.broken {
		return 0, errors.New("broken")
	}
	return len(p), nil
}
func (c *chConn) Close() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if !c.closed {
		c.closed = true
		close(c.done)
	}
}
func (c *chConn) Closed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

type chTrans struct {
	mu   sync.Mutex
	next chan ustack.TransportConnection
	done chan struct{}
	mine []weak.Pointer[chConn]
}

func newChTrans() *chTrans {
	return &chTrans{next: make(chan ustack.TransportConnection), done: make(chan struct{})}
}
func (t *chTrans) GetName() string                                    { return "churn" }
func (t *chTrans) SetOption(n string, v interface{}) ustack.Transport { return t }
func (t *chTrans) GetOption(n string) interface{}                     { return nil }
func (t *chTrans) ForServer(bool) ustack.Transport                    { return t }
func (t *chTrans) SetAddress(string) ustack.Transport                 { return t }
func (t *chTrans) GetAddress() string                                 { return "churn" }
func (t *chTrans) Run() ustack.Transport                              { return t }
func (t *chTrans) NextConnection() ustack.TransportConnection {
	select {
	case c := <-t.next:
		return c
	case <-t.done:
		return nil
	}
}
func (t *chTrans) Stop() ustack.Transport {
	t.mu.Lock()
	defer t.mu.Unlock()
	select {
	case <-t.done:
		return t
	default:
	}
	close(t.done)
	for _, w := range t.mine {
		if c := w.Value(); c != nil {
			c.Close()
		}
	}
	return t
}

type chOp struct {
	O string `json:"o"`
	C int    `json:"c"` // connection, endpoint or transport
	K string `json:"k"` // how a connection ends; kind of transport
	B bs     `json:"b"`
}
type chEvent struct {
	O    string `json:"o"`
	C    int    `json:"c"`
	Gor  int    `json:"gor"`
	Kept int    `json:"kept"`
	Mem  int    `json:"mem"` // KB
}

func runChurn(script json.RawMessage) (interface{}, string) {
	var sc struct {
		Procs []struct {
			K string `json:"k"`
			N int    `json:"n"`
		} `json:"procs"`
		Real     string `json:"real"` // tcp, unix or none
		Addr     string `json:"-"`
		Interval int    `json:"interval"`
		Big      bool   `json:"big"` // caches and queues of a megabyte
		Ops      []chOp `json:"ops"`
	}
	must(json.Unmarshal(script, &sc))
	rec := struct {
		List int       `json:"list"`
		Ev   []chEvent `json:"ev"`
	}{0, []chEvent{}}
	real := sc.Real == "tcp" || sc.Real == "unix"
	if real {
		rec.List = 1
		if sc.Real == "tcp" {
			sc.Addr = freePort()
		} else {
			sc.Addr = udsPath()
			defer os.Remove(sc.Addr)
		}
	}
	var mu sync.Mutex
	var alive []func() bool // of connections ever announced
	var closedOf []func() bool
	var born, ended, ends int64

	u := ustack.NewUStack().SetOption("MTU", 64)
	var gates sync.Map // connection -> chan: the reader waits in front of the reassembly
	var procs []ustack.DataProcessor
	add := func(p ustack.DataProcessor) {
		procs = append(procs, p)
		u.AppendDataProcessor(p)
	}
	for _, p := range sc.Procs {
		switch p.K {
		case "bytes":
			add(ustack.NewBytesCodec())
		case "session":
			add(ustack.NewSessionResolver())
		case "stat":
			add(ustack.NewStatCounter().SetOption("Collect.IntervalInSecond", sc.Interval*p.N))
		case "hb":
			timeout := 4
			if real {
				// the clients send no heartbeats: only the script ends a connection
				timeout = 3600
			}
			add(ustack.NewHeartbeat().SetOption("IntervalInSecond", sc.Interval).SetOption("TimeoutInSecond", timeout))
		case "frame":
			f := ustack.NewFrameDecoder()
			if sc.Big {
				f.SetOption("CacheCapacity", 1<<20)
			}
			add(f)
		case "lb":
			add(ustack.NewLoadBalancer())
		case "flow":
			add(ustack.NewFlowController())
		case "echo":
			add(ustack.NewEcho())
		case "filter":
			add(ustack.NewFilter(func(ustack.Context, bool) bool { return true }))
		case "gate":
			g := newProbe()
			g.onUp = func(x ustack.Context) {
				if c, ok := x.GetConnection().(*chConn); ok {
					if ch, ok := gates.Load(weak.Make(c)); ok {
						<-ch.(chan struct{})
					}
				}
			}
			add(g)
		}
	}
	u.SetEventListener(func(e ustack.Event) {
		switch e.Type {
		case ustack.UStackEventNewConnection:
			var a, cl func() bool
			switch c := e.Data.(type) {
			case *chConn:
				w := weak.Make(c)
				a = func() bool { return w.Value() != nil }
				cl = func() bool { c := w.Value(); return c == nil || c.Closed() }
			case *ustack.TCPTransportConnection:
				w := weak.Make(c)
				a = func() bool { return w.Value() != nil }
				cl = func() bool { c := w.Value(); return c == nil || c.Closed() }
			case *ustack.UDSTransportConnection:
				w := weak.Make(c)
				a = func() bool { return w.Value() != nil }
				cl = func() bool { c := w.Value(); return c == nil || c.Closed() }
			case *ustack.ReferenceTransportConnection:
				w := weak.Make(c)
				a = func() bool { return w.Value() != nil }
				cl = func() bool { c := w.Value(); return c == nil || c.Closed() }
			default:
				a = func() bool { return false }
				cl = func() bool { return true }
			}
			mu.Lock()
			alive = append(alive, a)
			closedOf = append(closedOf, cl)
			mu.Unlock()
			atomic.AddInt64(&born, 1)
		case ustack.UStackEventConnectionClosed:
			atomic.AddInt64(&ended, 1)
		}
	})
	here := 0 // as ChurnTrace counts
	log := func(o string, c int) {
		switch o {
		case "open", "add", "addtp":
			here++
		default:
			here--
		}
		rec.Ev = append(rec.Ev, chEvent{O: o, C: c})
	}

	conns := map[int]weak.Pointer[chConn]{}
	clients := map[int]net.Conn{}
	tps := map[int]ustack.Transport{}
	main := newChTrans()
	var server ustack.Transport
	if real {
		if sc.Real == "tcp" {
			server = ustack.NewTCPTransport("server")
		} else {
			server = ustack.NewUDSTransport("server")
		}
		u.AddTransport(server.ForServer(true).SetAddress(sc.Addr))
	} else {
		u.AddTransport(main)
	}
	ep := ustack.NewEndPoint("main", 0)
	u.AddEndPoint(ep)
	eps := map[int]ustack.EndPoint{}
	var gone []func() bool // of endpoints and transports that were removed
	watch := func(x interface{}) {
		var f func() bool
		switch x := x.(type) {
		case *ustack.DefaultEndPoint:
			w := weak.Make(x)
			f = func() bool { return w.Value() != nil }
		case *ustack.ReferenceTransport:
			w := weak.Make(x)
			f = func() bool { return w.Value() != nil }
		case *chTrans:
			w := weak.Make(x)
			f = func() bool { return w.Value() != nil }
		default:
			return
		}
		gone = append(gone, f)
	}
	drain := func() {
		for _, e := range eps {
			for len(e.GetRxChannel()) > 0 {
				<-e.GetRxChannel()
			}
		}
		for len(ep.GetRxChannel()) > 0 {
			<-ep.GetRxChannel()
		}
	}
	u.Run()

	// wait until f holds: exact in the bubble, with a generous limit outside of it
	until := func(f func() bool) {
		if !real {
			settled()
			return
		}
		for end := time.Now().Add(15 * time.Second); !f() && time.Now().Before(end); {
			atomic.AddInt64(&progress, 1)
			drain()
			time.Sleep(2 * time.Millisecond)
		}
	}
	measure := func() (int, int, int) {
		drain()
		runtime.GC()
		runtime.GC()
		n := 0
		mu.Lock()
		for i, a := range alive {
			if a() && closedOf[i]() {
				n++
			}
		}
		mu.Unlock()
		for _, f := range gone {
			if f() {
				n++
			}
		}
		mem := 0
		if sc.Big {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			mem = int(ms.HeapAlloc >> 10)
		}
		return runtime.NumGoroutine(), n, mem
	}
	var low [2]int
	took := false
	since := 0
	patience := 10 * time.Second
	rest := func() {
		if !real {
			settled()
			time.Sleep(time.Duration(3*sc.Interval+3) * time.Second)
			settled()
			drain()
			settled()
		} else {
			time.Sleep(20 * time.Millisecond)
		}
		g, k, mem := measure()
		if real && took {
			// goroutines and the kernel take their time: what is asked for is that it comes down
			limit := low[0] + 4 + 10*here
			for end := time.Now().Add(patience); (g > limit || k > since+4) && time.Now().Before(end); {
				atomic.AddInt64(&progress, 1)
				time.Sleep(10 * time.Millisecond)
				g, k, mem = measure()
			}
			if g > limit || k > since+4 {
				patience = 0
			}
		}
		if real && !took {
			for end := time.Now().Add(300 * time.Millisecond); time.Now().Before(end); {
				time.Sleep(10 * time.Millisecond)
				atomic.AddInt64(&progress, 1)
			}
			g, k, mem = measure()
			low = [2]int{g, k}
		}
		took = true
		rec.Ev = append(rec.Ev, chEvent{"rest", 0, g, k, mem})
	}
	endOf := func(id int, k string) {
		w, ok := conns[id]
		if !ok {
			return
		}
		c := w.Value()
		if c == nil {
			return
		}
		switch k {
		case "eof", "err":
			c.mu.Lock()
			c.end = io.EOF
			if k == "err" {
				c.end = errors.New("reset")
			}
			c.mu.Unlock()
			close(c.rx)
		case "app":
			c.Close()
		case "werr":
			c.mu.Lock()
			c.broken = true
			c.mu.Unlock()
			ep.GetTxChannel() <- ustack.NewEndPointData().SetConnection(c).SetData([]byte{1})
			settled()
			// nothing is written while the codec is off
			c.Close()
		}
	}
	for _, op := range sc.Ops {
		atomic.AddInt64(&progress, 1)
		switch op.O {
		case "open":
			log("open", op.C)
			since = 0
			if real {
				network, before := sc.Real, atomic.LoadInt64(&born)
				var c net.Conn
				until(func() bool {
					var err error
					c, err = net.Dial(network, sc.Addr)
					return err == nil
				})
				if c == nil {
					return nil, "harness: no connection"
				}
				clients[op.C] = c
				until(func() bool { return atomic.LoadInt64(&born) > before })
				continue
			}
			func() {
				c := &chConn{rx: make(chan []byte, 64), done: make(chan struct{}), data: make([]byte, 1024)}
				w := weak.Make(c)
				conns[op.C] = w
				main.mu.Lock()
				main.mine = append(main.mine, w)
				main.mu.Unlock()
				main.next <- c
			}()
			settled()
		case "hold":
			if w, ok := conns[op.C]; ok {
				gates.Store(w, make(chan struct{}))
			}
		case "go":
			if w, ok := conns[op.C]; ok {
				if ch, ok := gates.LoadAndDelete(w); ok {
					close(ch.(chan struct{}))
				}
			}
			settled()
		case "feed":
			if real {
				if c := clients[op.C]; c != nil {
					c.Write(op.B.bytes())
				}
				continue
			}
			if c := conns[op.C].Value(); c != nil && !c.Closed() {
				c.rx <- op.B.bytes()
			}
			settled()
		case "on", "off":
			procs[op.C-1].SetEnable(op.O == "on")
		case "put":
			if c := conns[op.C].Value(); c != nil {
				ep.GetTxChannel() <- ustack.NewEndPointData().SetConnection(c).SetData([]byte{1, 2})
			}
			settled()
		case "end":
			log("end", op.C)
			since++
			if real {
				if c := clients[op.C]; c != nil {
					if t, ok := c.(*net.TCPConn); ok && op.K == "err" {
						t.SetLinger(0)
					}
					c.Close()
					delete(clients, op.C)
				}
				ends++
				until(func() bool { return atomic.LoadInt64(&ended) >= ends })
				continue
			}
			endOf(op.C, op.K)
			settled()
		case "add":
			log("add", op.C)
			e := ustack.NewEndPoint(fmt.Sprint("ep", op.C), 100+op.C)
			eps[op.C] = e
			u.AddEndPoint(e)
			if !real {
				settled()
			}
		case "del":
			log("del", op.C)
			watch(eps[op.C])
			u.DeleteEndPoint(eps[op.C])
			delete(eps, op.C)
			if !real {
				settled()
			}
		case "addtp":
			log("addtp", op.C)
			var t ustack.Transport
			switch op.K {
			case "server", "client":
				t = ustack.NewReferenceTransport("ref").ForServer(op.K == "server").SetAddress("churn")
				if sc.Big {
					// every pair has an address of its own
					t.SetAddress(fmt.Sprint("churn", op.C/2)).SetOption("MaxQueueSize", 1<<15)
				}
			default:
				t = newChTrans()
			}
			tps[op.C] = t
			u.AddTransport(t)
			settled()
		case "deltp":
			log("deltp", op.C)
			watch(tps[op.C])
			u.DeleteTransport(tps[op.C])
			delete(tps, op.C)
			settled()
		case "rest":
			rest()
		}
	}
	// clean up for the next script
	for _, c := range clients {
		c.Close()
	}
	if real {
		u.DeleteTransport(server)
		time.Sleep(5 * time.Millisecond)
	} else {
		gates.Range(func(k, v interface{}) bool {
			close(v.(chan struct{}))
			return true
		})
		for _, t := range tps {
			u.DeleteTransport(t)
		}
		u.DeleteTransport(main)
		u.DeleteEndPoint(ep)
		settled()
		time.Sleep(time.Duration(2*sc.Interval+2) * time.Second)
		settled()
	}
	return rec, ""
}
