package vfharness

import (
	"encoding/json"
	"errors"
	"io"
	"math/rand"
	"sync"
	"time"

	"ustack"
)

// par: many connections of one stack are fed at the same time. Processing takes
// its time between any two processors, so that the connections overlap there.

func init() {
	drivers["par"] = driver{true, runPar}
}

type parConn struct {
	Chunks []bs   `json:"chunks"`
	Gaps   []int  `json:"gaps"`
	End    string `json:"end"` // none eof close
	// from this chunk on writes fail, and something is written (0: never)
	Broken int  `json:"broken"`
	Put    vmsg `json:"put"`
}

func runPar(script json.RawMessage) (interface{}, string) {
	var sc struct {
		Cfg   stackCfg  `json:"cfg"`
		Seed  int64     `json:"seed"`
		Sess  []bs      `json:"sess"`
		Conns []parConn `json:"conns"`
		Pause int       `json:"pause"` // most virtual microseconds between two processors
	}
	must(json.Unmarshal(script, &sc))
	r := &rnd{r: rand.New(rand.NewSource(sc.Seed))}
	cfg := sc.Cfg
	cfg.Enc, cfg.Dec = []encRow{}, []decRow{}
	u := ustack.NewUStack().SetName(string(cfg.Name.bytes())).SetOption("MTU", cfg.Mtu)
	pause := func(ustack.Context) {
		if sc.Pause > 0 && r.n(2) == 0 {
			time.Sleep(time.Duration(r.n(sc.Pause)) * time.Microsecond)
		}
	}
	for i, k := range cfg.Procs {
		p := makeProc(cfg, i+1, nil)
		if k.K == "lb" {
			p.SetEnable(false)
		}
		u.AppendDataProcessor(p)
		pr := newProbe()
		pr.onUp = pause
		u.AppendDataProcessor(pr)
	}
	var mu sync.Mutex
	type rec struct {
		Reads []bs            `json:"reads"`
		Wire  []bs            `json:"wire"`
		Dlv   [][]interface{} `json:"dlv"`
		Dead  bool            `json:"dead"`
		End   string          `json:"end"`
	}
	recs := make([]*rec, len(sc.Conns))
	stray := 0
	kept := &keeper{}
	stop := make(chan struct{})
	eps := []ustack.EndPoint{}
	for i, s := range sc.Sess {
		ep := ustack.NewEndPoint("e", s.sess())
		eps = append(eps, ep)
		u.AddEndPoint(ep)
		go func() {
			for {
				select {
				case d := <-ep.GetRxChannel():
					mu.Lock()
					if c, ok := d.GetConnection().(*fakeConn); ok && c.id >= 1 && c.id <= len(recs) {
						recs[c.id-1].Dlv = append(recs[c.id-1].Dlv, []interface{}{i + 1, c.id, canon(d.GetData())})
						kept.take(d.GetData())
					} else {
						stray++
					}
					mu.Unlock()
				case <-stop:
					return
				}
			}
		}()
	}
	tp := newFakeTransport("t")
	u.AddTransport(tp)
	u.Run()
	var wg sync.WaitGroup
	conns := []*fakeConn{}
	for i, pc := range sc.Conns {
		x := &rec{Reads: []bs{}, Wire: []bs{}, Dlv: [][]interface{}{}, End: pc.End}
		recs[i] = x
		c := newFakeConn(i+1, false)
		conns = append(conns, c)
		mine, broken := false, false
		c.onRead = func(_ *fakeConn, b []byte, _ error) {
			if len(b) > 0 {
				mu.Lock()
				x.Reads = append(x.Reads, bints(b))
				mu.Unlock()
			}
		}
		c.onWrite = func(_ *fakeConn, b []byte) (int, error) {
			pause(nil)
			mu.Lock()
			defer mu.Unlock()
			if broken {
				return 0, errors.New("broken")
			}
			if len(b) > 0 {
				x.Wire = append(x.Wire, bints(b))
			}
			return len(b), nil
		}
		c.onClose = func(*fakeConn) {
			mu.Lock()
			x.Dead = x.Dead || !mine
			mu.Unlock()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			tp.yield(c)
			for j, b := range pc.Chunks {
				if pc.Gaps[j] > 0 {
					time.Sleep(time.Duration(pc.Gaps[j]) * time.Microsecond)
				}
				select {
				case c.rx <- rxItem{b: b.bytes()}:
				case <-c.done:
					return
				}
				if pc.Broken == j+1 {
					mu.Lock()
					mine, broken = true, true
					mu.Unlock()
					eps[0].GetTxChannel() <- ustack.NewEndPointData().SetConnection(c).SetData(pc.Put.value())
				}
			}
			switch pc.End {
			case "eof":
				mu.Lock()
				mine = true
				mu.Unlock()
				c.rx <- rxItem{err: io.EOF}
			case "close":
				mu.Lock()
				mine = true
				mu.Unlock()
				c.Close()
			}
		}()
	}
	wg.Wait()
	for last, n, k := -1, 0, 0; n != last && k < 60; k++ {
		last = n
		time.Sleep(time.Second)
		settled()
		mu.Lock()
		n = 0
		for _, x := range recs {
			n += len(x.Reads) + len(x.Wire) + len(x.Dlv)
		}
		mu.Unlock()
	}
	mu.Lock()
	out := []rec{}
	for _, x := range recs {
		out = append(out, *x)
	}
	res := map[string]interface{}{"cfg": cfg, "sess": sc.Sess, "conns": out, "stray": stray + kept.changed()}
	mu.Unlock()
	close(stop)
	u.DeleteTransport(tp)
	for _, c := range conns {
		c.Close()
	}
	for _, ep := range eps {
		u.DeleteEndPoint(ep)
	}
	settled()
	return res, ""
}
