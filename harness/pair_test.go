package vfharness

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"time"

	"ustack"
)

// pair: two stacks with the same pipeline, connected to each other. Every
// endpoint of both sends from a goroutine of its own.

func init() {
	drivers["pair"] = driver{true, func(s json.RawMessage) (interface{}, string) { return runPair(s, true) }}
	drivers["pairreal"] = driver{false, func(s json.RawMessage) (interface{}, string) { return runPair(s, false) }}
}

type pairSend struct {
	Side int  `json:"side"`
	E    int  `json:"e"`
	C    int  `json:"c"`
	M    vmsg `json:"m"`
	D    bs   `json:"d"`
	Gap  int  `json:"gap"` // virtual microseconds before it
	Bad  bool `json:"bad"` // do not wait for it
}
type pairEv struct {
	O    string `json:"o"`
	Side int    `json:"side"`
	E    int    `json:"e"`
	C    int    `json:"c"`
	M    vmsg   `json:"m"`
	D    bs     `json:"d"`
}
type pairScript struct {
	Cfg     stackCfg   `json:"cfg"`
	Seed    int64      `json:"seed"`
	Mode    string     `json:"mode"` // mem tcp uds
	Sess    []bs       `json:"sess"`
	Sends   []pairSend `json:"sends"`
	Hb      int        `json:"hb"`      // heartbeat interval
	Collect int        `json:"collect"` // statistics interval
	Slow    int        `json:"slow"`    // most virtual microseconds a write takes
	Cut     int        `json:"cut"`     // most bytes in a read
	Listen  bool       `json:"listen"`  // receive with data listeners
	Late    int        `json:"late"`    // microseconds until the applications start to read
	Hang    int        `json:"hang"`    // side + 1 that closes all connections in the end, its bytes arrive after that
	Big     bool       `json:"big"`     // messages are padded to the size in their last four bytes
}

// inflate pads a message to the size that its last four bytes name
func inflate(v interface{}) interface{} {
	pad := func(b []byte) []byte {
		n := int(b[len(b)-4])<<24 | int(b[len(b)-3])<<16 | int(b[len(b)-2])<<8 | int(b[len(b)-1])
		x := uint32(1)
		for _, c := range b {
			x = x*16777619 ^ uint32(c)
		}
		for len(b) < n {
			x = x*1664525 + 1013904223
			b = append(b, byte(x>>24)&0x7f)
		}
		return b
	}
	switch x := v.(type) {
	case []byte:
		return pad(append([]byte{}, x...))
	case string:
		return string(pad([]byte(x)))
	}
	return v
}

// deflate is the opposite; a message that was not padded like that stays as it is
func deflate(v interface{}) interface{} {
	var b []byte
	switch x := v.(type) {
	case []byte:
		b = x
	case string:
		b = []byte(x)
	}
	if len(b) >= bigHead {
		head := append([]byte{}, b[:bigHead]...)
		if string(inflate(head).([]byte)) == string(b) {
			if _, ok := v.(string); ok {
				return string(head)
			}
			return head
		}
	}
	return v
}

const bigHead = 12

// rnd is a random source for several goroutines
type rnd struct {
	mu sync.Mutex
	r  *rand.Rand
}

func (r *rnd) n(n int) int {
	if n <= 1 {
		return 0
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.r.Intn(n)
}

// duplex: a connection in memory between two stacks. Writes take their time and
// the bytes arrive in other pieces than they were written in.
type duplex struct {
	r     *rnd
	slow  int
	cut   int
	keep  bool // keep the boundaries
	ends  [2]*fakeConn
	pipes [2]chan []byte
}

func newDuplex(id int, r *rnd, slow, cut int, keep bool, hang int) *duplex {
	d := &duplex{r: r, slow: slow, cut: cut, keep: keep}
	for i := range d.ends {
		d.ends[i] = newFakeConn(id, false)
		d.pipes[i] = make(chan []byte, 100000)
	}
	for i := range d.ends {
		i := i
		var mu sync.Mutex
		d.ends[i].onWrite = func(c *fakeConn, p []byte) (int, error) {
			if d.slow > 0 {
				time.Sleep(time.Duration(r.n(d.slow)) * time.Microsecond)
			}
			// a real connection may look at the bytes as long as the write lasts
			b := append([]byte{}, p...)
			mu.Lock()
			d.pipes[i] <- b
			mu.Unlock()
			return len(p), nil
		}
		go func() {
			to := d.ends[1-i]
			var rest []byte
			ended := make(chan struct{})
			if hang == i+1 {
				select { // bytes under way
				case <-d.ends[i].done:
				case <-to.done:
					return
				}
				close(ended)
			}
			for {
				if len(rest) == 0 || (!d.keep && r.n(3) == 0) {
					var b []byte
					if len(rest) == 0 {
						select {
						case b = <-d.pipes[i]:
						case <-to.done:
							return
						case <-ended:
							select {
							case b = <-d.pipes[i]:
							default:
								to.rx <- rxItem{err: io.EOF}
								return
							}
						}
					} else {
						select {
						case b = <-d.pipes[i]:
						default:
						}
					}
					rest = append(rest, b...)
					if len(rest) == 0 {
						continue
					}
				}
				n := len(rest)
				if !d.keep {
					n = 1 + r.n(d.cut)
					if n > len(rest) {
						n = len(rest)
					}
				}
				if r.n(3) == 0 {
					time.Sleep(time.Duration(r.n(50)) * time.Microsecond)
				}
				it := rxItem{b: append([]byte{}, rest[:n]...)}
				rest = rest[n:]
				if hang == i+1 && len(rest) == 0 && len(d.pipes[i]) == 0 && r.n(2) == 0 {
					it.err = io.EOF // the end comes together with the last bytes
				}
				select {
				case to.rx <- it:
				case <-to.done:
					return
				}
				if it.err != nil {
					return
				}
			}
		}()
	}
	return d
}

var portCount int64

// an address that nobody else uses: loopback addresses by process, ports that
// the system does not hand out by itself
func freePort() string {
	p := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d:%d", 1+(p>>16)%250, (p>>8)&255, p&255, 20000+atomic.AddInt64(&portCount, 1)%12000)
}

var udsCount int64

func udsPath() string {
	d := os.Getenv("VF_SCRATCH")
	p := filepath.Join(d, fmt.Sprintf("s%d-%d", os.Getpid(), atomic.AddInt64(&udsCount, 1)))
	if len(p) > 100 {
		panic("path too long for a socket: " + p)
	}
	return p
}

// tables of the codecs that the specification does not define
func codecTables(cfg *stackCfg, sent []vmsg) {
	cfg.Enc, cfg.Dec = []encRow{}, []decRow{}
	for _, p := range cfg.Procs {
		if p.K != "json" && p.K != "gob" && p.K != "ggob" {
			continue
		}
		seen, got := map[string]bool{}, map[string]bool{}
		for _, m := range sent {
			key, _ := json.Marshal(m)
			if seen[string(key)] {
				continue
			}
			seen[string(key)] = true
			b, ok := codecEncode(p.K, m)
			cfg.Enc = append(cfg.Enc, encRow{m, ok, b})
			if ok && !got[string(b.bytes())] {
				got[string(b.bytes())] = true
				o, ok := codecDecode(p.K, b.bytes())
				cfg.Dec = append(cfg.Dec, decRow{b, ok, o})
			}
		}
	}
}

func runPair(script json.RawMessage, bubble bool) (interface{}, string) {
	var sc pairScript
	must(json.Unmarshal(script, &sc))
	r := &rnd{r: rand.New(rand.NewSource(sc.Seed))}
	cfg := sc.Cfg
	framed := false
	for _, p := range cfg.Procs {
		framed = framed || p.K == "frame"
	}
	if sc.Cut <= 0 || sc.Cut > cfg.Mtu {
		sc.Cut = cfg.Mtu
	}
	sent := []vmsg{}
	for i := range sc.Sends {
		sc.Sends[i].M = canon(sc.Sends[i].M.value())
		sent = append(sent, sc.Sends[i].M)
	}
	codecTables(&cfg, sent)

	var mu sync.Mutex
	ev := []pairEv{}
	ids := [2]map[ustack.TransportConnection]int{{}, {}}
	conns := [2]map[int]ustack.TransportConnection{{}, {}}
	fresh := [2]chan ustack.TransportConnection{make(chan ustack.TransportConnection, 64), make(chan ustack.TransportConnection, 64)}
	dlv := int64(0)
	kept := &keeper{}
	stop := make(chan struct{})
	var us [2]ustack.UStack
	var eps [2][]ustack.EndPoint
	for side := 0; side < 2; side++ {
		side := side
		u := ustack.NewUStack().SetName("u").SetOption("MTU", cfg.Mtu)
		for i, k := range cfg.Procs {
			p := makeProc(cfg, i+1, nil)
			switch k.K {
			case "hb":
				if sc.Hb > 0 {
					p.SetOption("IntervalInSecond", sc.Hb).SetOption("TimeoutInSecond", 1000000)
				}
			case "stat":
				if sc.Collect > 0 {
					p.SetOption("Collect.IntervalInSecond", sc.Collect)
				}
			case "lb":
				p.SetEnable(false)
			}
			u.AppendDataProcessor(p)
		}
		u.SetEventListener(func(e ustack.Event) {
			if e.Type == ustack.UStackEventNewConnection {
				fresh[side] <- e.Data.(ustack.TransportConnection)
			}
		})
		for i, s := range sc.Sess {
			ep := ustack.NewEndPoint("e", s.sess())
			e := i + 1
			take := func(d ustack.EndPointData) {
				mu.Lock()
				c, known := ids[side][d.GetConnection()]
				if !known {
					c = -1
				}
				data := d.GetData()
				if sc.Big {
					data = deflate(data)
				}
				ev = append(ev, pairEv{"dlv", side, e, c, canon(data), nil})
				kept.take(d.GetData())
				mu.Unlock()
				atomic.AddInt64(&dlv, 1)
				atomic.AddInt64(&progress, 1)
			}
			if sc.Listen && sc.Late == 0 {
				ep.SetDataListener(func(_ ustack.EndPoint, d ustack.EndPointData) { take(d) })
			} else {
				go func() {
					if sc.Late > 0 {
						time.Sleep(time.Duration(sc.Late) * time.Microsecond)
					}
					for {
						select {
						case d := <-ep.GetRxChannel():
							take(d)
						case <-stop:
							return
						}
					}
				}()
			}
			u.AddEndPoint(ep)
			eps[side] = append(eps[side], ep)
		}
		us[side] = u
	}
	know := func(id int) {
		a, b := <-fresh[0], <-fresh[1]
		mu.Lock()
		ids[0][a], ids[1][b] = id, id
		conns[0][id], conns[1][id] = a, b
		mu.Unlock()
		atomic.AddInt64(&progress, 1)
	}
	tps := [2][]ustack.Transport{}
	switch sc.Mode {
	case "mem":
		for side := range us {
			tp := newFakeTransport("t")
			us[side].AddTransport(tp)
			tps[side] = append(tps[side], tp)
			us[side].Run()
		}
		for id := 1; id <= cfg.Conns; id++ {
			d := newDuplex(id, r, sc.Slow, sc.Cut, !framed, sc.Hang)
			for side := range us {
				tps[side][0].(*fakeTransport).yield(d.ends[side])
			}
			know(id)
		}
	case "ref":
		us[0].Run()
		us[1].Run()
		for id := 1; id <= cfg.Conns; id++ {
			addr := fmt.Sprintf("pair-%d", atomic.AddInt64(&rfSerial, 1))
			first := r.n(2)
			for k := range us {
				side := (first + k) % 2
				tp := ustack.NewReferenceTransport("t").SetAddress(addr).ForServer(side == 0).SetOption("MaxQueueSize", 1+sc.Slow%7)
				us[side].AddTransport(tp)
				tps[side] = append(tps[side], tp)
			}
			know(id)
		}
	case "tcp", "uds":
		mk := func(name string) ustack.Transport {
			if sc.Mode == "tcp" {
				return ustack.NewTCPTransport(name)
			}
			return ustack.NewUDSTransport(name)
		}
		addr := ""
		if sc.Mode == "tcp" {
			addr = freePort()
		} else {
			addr = udsPath()
			defer os.Remove(addr)
		}
		srv := mk("server").ForServer(true).SetAddress(addr)
		us[0].AddTransport(srv)
		tps[0] = append(tps[0], srv)
		us[0].Run()
		us[1].Run()
		for id := 1; id <= cfg.Conns; id++ {
			c := mk("client").ForServer(false).SetAddress(addr)
			us[1].AddTransport(c)
			tps[1] = append(tps[1], c)
			know(id)
		}
	}

	// one goroutine per endpoint and side
	var wg sync.WaitGroup
	want := int64(0)
	for _, s := range sc.Sends {
		if !s.Bad {
			want++
		}
	}
	for side := 0; side < 2; side++ {
		for e := 1; e <= len(sc.Sess); e++ {
			side, e := side, e
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, s := range sc.Sends {
					if s.Side != side || s.E != e {
						continue
					}
					if s.Gap > 0 {
						time.Sleep(time.Duration(s.Gap) * time.Microsecond)
					}
					data := s.M.value()
					if sc.Big {
						data = inflate(data)
					}
					d := ustack.NewEndPointData().SetData(data)
					if s.C > 0 {
						d.SetConnection(conns[side][s.C])
					}
					if len(s.D) == 4 {
						d.SetDestinationSession(s.D.sess())
					}
					mu.Lock()
					ev = append(ev, pairEv{"send", side, e, s.C, s.M, s.D})
					mu.Unlock()
					eps[side][e-1].GetTxChannel() <- d
				}
			}()
		}
	}
	wg.Wait()
	if bubble {
		// beyond everything that takes time
		total := time.Duration(len(sc.Sends)*(sc.Slow+100)+1000000+sc.Late) * time.Microsecond
		time.Sleep(total)
		if sc.Hang > 0 {
			for _, c := range conns[sc.Hang-1] {
				c.Close()
			}
		}
		for last, n := int64(-1), 0; last != atomic.LoadInt64(&dlv) && n < 60; n++ {
			last = atomic.LoadInt64(&dlv)
			time.Sleep(time.Second)
			settled()
		}
	} else {
		// positive: as soon as everything is there; else nothing came for long
		idle, last := 0, int64(-1)
		for n := 0; n < 1200 && idle < 100 && (atomic.LoadInt64(&dlv) < want || idle < 3); {
			time.Sleep(50 * time.Millisecond)
			n++
			atomic.AddInt64(&progress, 1)
			if n := atomic.LoadInt64(&dlv); n != last {
				last, idle = n, 0
			} else {
				idle++
			}
		}
	}
	mu.Lock()
	if kept.changed() > 0 {
		ev = append(ev, pairEv{O: "changed", M: vmsg{"none", nil}})
	}
	ev = append(ev, pairEv{O: "quiet", M: vmsg{"none", nil}})
	out := append([]pairEv{}, ev...)
	mu.Unlock()
	close(stop)
	for side := range us {
		for _, tp := range tps[side] {
			us[side].DeleteTransport(tp)
		}
		for _, c := range conns[side] {
			c.Close()
		}
		for _, ep := range eps[side] {
			us[side].DeleteEndPoint(ep)
		}
	}
	if bubble {
		settled()
	}
	return map[string]interface{}{"cfg": cfg, "sess": sc.Sess, "ev": out}, ""
}
