package vfharness

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"ustack"
)

// life: a transport with real sockets is run and stopped at any moment, by
// itself or by a stack, while peers connect.

func init() {
	drivers["life"] = driver{false, runLife}
}

type lfOp struct {
	D int    `json:"d"` // wait before, microseconds
	O string `json:"o"` // run stop dial
}
type lfScript struct {
	Kind    string     `json:"kind"`
	Server  bool       `json:"server"`
	Stack   bool       `json:"stack"`
	Nexters int        `json:"nexters"`
	Rounds  [][][]lfOp `json:"rounds"`
	Hint    []string   `json:"hint"` // what to wait for after each round; decides nothing
	Last    []string   `json:"last"` // a call after each round, before waiting
}
type lfEv struct {
	O    string `json:"o"` // beg end settle cs ps ann
	ID   int    `json:"id"`
	K    string `json:"k"` // run stop dial next
	C    int    `json:"c"` // connection or peer
	R    int    `json:"r"`
	E    int    `json:"e"` // peer: echoed
	N    int    `json:"n"` // pending calls
	Must int    `json:"must"`
}
type lfPeer struct {
	id          int
	conn        net.Conn
	echoed, eof int32
	old         bool
}

func (p *lfPeer) serve() {
	tok := []byte(fmt.Sprintf("%04d", p.id))
	p.conn.Write(tok)
	b := make([]byte, 4)
	if _, err := io.ReadFull(p.conn, b); err != nil {
		atomic.StoreInt32(&p.eof, 1)
		return
	}
	if string(b) == string(tok) {
		atomic.StoreInt32(&p.echoed, 1)
	} else {
		atomic.StoreInt32(&p.echoed, 9)
	}
	p.conn.Read(b)
	atomic.StoreInt32(&p.eof, 1)
}

func runLife(script json.RawMessage) (interface{}, string) {
	var sc lfScript
	must(json.Unmarshal(script, &sc))
	var mu sync.Mutex
	ev := []lfEv{}
	ids := 0
	log := func(e lfEv) int {
		atomic.AddInt64(&progress, 1)
		if e.O == "beg" {
			ids++
			e.ID = ids
		}
		ev = append(ev, e)
		return e.ID
	}
	put := func(e lfEv) int {
		mu.Lock()
		defer mu.Unlock()
		return log(e)
	}
	netw, addr := "tcp", ""
	var tp ustack.Transport
	if sc.Kind == "tcp" {
		addr = freePort()
		tp = ustack.NewTCPTransport("t")
	} else {
		netw = "unix"
		addr = udsPath()
		tp = ustack.NewUDSTransport("t")
		defer os.Remove(addr)
	}
	tp.ForServer(sc.Server).SetAddress(addr)

	peers := []*lfPeer{}
	conns := []ustack.TransportConnection{}
	oldConns := 0
	of := map[ustack.TransportConnection]int{}
	pending := 0
	runs := 0
	changed := sync.NewCond(&mu)
	over := false

	newPeer := func(c net.Conn) *lfPeer { // under mu
		p := &lfPeer{id: len(peers) + 1, conn: c}
		peers = append(peers, p)
		go p.serve()
		return p
	}
	dial := func(mustBe int) *lfPeer {
		id := put(lfEv{O: "beg", K: "dial", Must: mustBe})
		c, err := net.Dial(netw, addr)
		mu.Lock()
		defer mu.Unlock()
		var p *lfPeer
		e := lfEv{O: "end", ID: id, K: "dial", R: 0, Must: mustBe}
		if err == nil {
			p = newPeer(c)
			e.R, e.C = 1, p.id
		}
		log(e)
		return p
	}
	echo := func(c ustack.TransportConnection) {
		b := make([]byte, 64)
		for {
			n, err := c.Read(b)
			if err != nil || n == 0 && c.Closed() {
				return
			}
			c.Write(b[:n])
		}
	}
	var raw net.Listener
	if !sc.Server {
		l, err := net.Listen(netw, addr)
		must(err)
		raw = l
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				mu.Lock()
				p := newPeer(c)
				log(lfEv{O: "acc", C: p.id})
				mu.Unlock()
			}
		}()
	}
	var u ustack.UStack
	if sc.Stack {
		u = ustack.NewUStack().AppendDataProcessor(ustack.NewBytesCodec())
		ep := ustack.NewEndPoint("e", 0)
		ep.SetDataListener(func(_ ustack.EndPoint, d ustack.EndPointData) {
			ep.GetTxChannel() <- d
		})
		u.SetEventListener(func(e ustack.Event) {
			if e.Type != ustack.UStackEventNewConnection {
				return
			}
			c := e.Data.(ustack.TransportConnection)
			mu.Lock()
			defer mu.Unlock()
			if of[c] != 0 {
				log(lfEv{O: "ann", C: of[c], R: 1})
				return
			}
			conns = append(conns, c)
			of[c] = len(conns)
			log(lfEv{O: "ann", C: len(conns)})
		})
		u.AddEndPoint(ep)
		u.Run()
	}
	nexter := func() {
		nones, seen := 0, 0
		for {
			mu.Lock()
			for !over && (runs == 0 || nones >= 2 && seen == runs) {
				changed.Wait()
			}
			if over {
				mu.Unlock()
				return
			}
			seen = runs
			id := log(lfEv{O: "beg", K: "next"})
			pending++
			mu.Unlock()
			c := tp.NextConnection()
			mu.Lock()
			pending--
			e := lfEv{O: "end", ID: id, K: "next"}
			if c != nil {
				nones = 0
				if of[c] != 0 {
					e.R = 1 // not for the first time
				} else {
					conns = append(conns, c)
					of[c] = len(conns)
					go echo(c)
				}
				e.C = of[c]
			} else {
				nones++
			}
			log(e)
			mu.Unlock()
		}
	}
	if !sc.Stack {
		for i := 0; i < sc.Nexters; i++ {
			go nexter()
		}
	}
	do := func(o lfOp) {
		if o.D > 0 {
			time.Sleep(time.Duration(o.D) * time.Microsecond)
		}
		switch o.O {
		case "run":
			id := put(lfEv{O: "beg", K: "run"})
			if sc.Stack {
				u.AddTransport(tp)
			} else {
				tp.Run()
			}
			mu.Lock()
			log(lfEv{O: "end", K: "run", ID: id})
			runs++
			changed.Broadcast()
			mu.Unlock()
		case "stop":
			mu.Lock()
			for _, p := range peers {
				p.old = true
			}
			oldConns = len(conns)
			id := log(lfEv{O: "beg", K: "stop"})
			mu.Unlock()
			if sc.Stack {
				u.DeleteTransport(tp)
			} else {
				tp.Stop()
			}
			put(lfEv{O: "end", K: "stop", ID: id})
		case "dial":
			if sc.Server {
				dial(0)
			}
		default:
			panic("no such operation " + o.O)
		}
	}
	// is it as it should be when down (up)? only to know how long to wait
	down := func() bool {
		if pending > 0 {
			return false
		}
		for _, c := range conns {
			if !c.Closed() {
				return false
			}
		}
		for _, p := range peers {
			if atomic.LoadInt32(&p.eof) == 0 {
				return false
			}
		}
		return true
	}
	upNow := func() bool {
		for _, c := range conns[:oldConns] {
			if !c.Closed() {
				return false
			}
		}
		live := 0
		for _, p := range peers {
			if p.old && atomic.LoadInt32(&p.eof) == 0 {
				return false
			}
			if !p.old && sc.Nexters > 0 && atomic.LoadInt32(&p.eof) == 0 && atomic.LoadInt32(&p.echoed) == 0 {
				return false
			}
			if atomic.LoadInt32(&p.eof) == 0 && atomic.LoadInt32(&p.echoed) == 1 {
				live++
			}
		}
		return sc.Server || sc.Nexters == 0 || live == 1
	}
	settle := func(hint string) {
		ready := func() bool {
			switch hint {
			case "down":
				return down()
			case "up":
				return upNow()
			}
			return true
		}
		// the state must be reached, and last
		mu.Lock()
		for k, held := 0, 0; k < 5000 && held < 4; k++ {
			if ready() {
				held++
			} else {
				held = 0
			}
			mu.Unlock()
			time.Sleep(time.Millisecond)
			atomic.AddInt64(&progress, 1)
			mu.Lock()
		}
		for k := 0; k < 1000 && !ready(); k++ {
			mu.Unlock()
			time.Sleep(time.Millisecond)
			mu.Lock()
		}
		live := 0
		for _, p := range peers {
			if atomic.LoadInt32(&p.eof) == 0 && atomic.LoadInt32(&p.echoed) == 1 {
				live++
			}
		}
		log(lfEv{O: "settle", N: pending, R: live})
		for k, c := range conns {
			r := 0
			if c.Closed() {
				r = 1
			}
			log(lfEv{O: "cs", C: k + 1, R: r})
		}
		for _, p := range peers {
			log(lfEv{O: "ps", C: p.id, R: int(atomic.LoadInt32(&p.eof)), E: int(atomic.LoadInt32(&p.echoed))})
		}
		mu.Unlock()
		if !sc.Server {
			return
		}
		// can it be reached now, and is anybody there?
		p := dial(1)
		if p == nil && hint != "down" {
			// it may only just have started to listen
			for k := 0; k < 400 && p == nil; k++ {
				time.Sleep(10 * time.Millisecond)
				p = dial(0)
			}
		}
		if p == nil {
			put(lfEv{O: "probe", R: 0})
			return
		}
		for k := 0; k < 5000 && sc.Nexters > 0 && atomic.LoadInt32(&p.echoed) == 0 && atomic.LoadInt32(&p.eof) == 0; k++ {
			time.Sleep(time.Millisecond)
		}
		put(lfEv{O: "probe", R: 1, C: p.id, E: int(atomic.LoadInt32(&p.echoed))})
	}
	for k, round := range sc.Rounds {
		var wg sync.WaitGroup
		for _, lane := range round {
			lane := lane
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, o := range lane {
					do(o)
				}
			}()
		}
		wg.Wait()
		if k < len(sc.Last) && sc.Last[k] != "" {
			do(lfOp{O: sc.Last[k]})
		}
		settle(sc.Hint[k])
	}
	do(lfOp{O: "stop"})
	settle("down")
	mu.Lock()
	over = true
	changed.Broadcast()
	out := append([]lfEv{}, ev...)
	for _, p := range peers {
		p.conn.Close()
	}
	for _, c := range conns {
		c.Close()
	}
	mu.Unlock()
	if raw != nil {
		raw.Close()
	}
	n := sc.Nexters
	if sc.Stack {
		n = 1
	}
	return map[string]interface{}{"server": sc.Server, "stack": sc.Stack, "nexters": n, "ev": out}, ""
}
