package vfharness

import (
	"encoding/json"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"ustack"
)

// listen: data listeners of an endpoint are installed, replaced and removed
// while messages arrive.

func init() {
	drivers["listen"] = driver{true, runListen}
}

type lsOp struct {
	T int    `json:"t"`
	O string `json:"o"`
	A int    `json:"a"`
	C int    `json:"c"`
}
type lsScript struct {
	Stack bool              `json:"stack"` // messages arrive through a stack
	Conns int               `json:"conns"`
	Lanes [][]lsOp          `json:"lanes"`
	React map[string][]lsOp `json:"react"` // what the listener does when it gets message m
}
type lsEv struct {
	O  string `json:"o"`
	ID int    `json:"id"`
	K  string `json:"k"`
	A  int    `json:"a"`
	C  int    `json:"c"`
	M  int    `json:"m"`
	R  int    `json:"r"`
}

var spun int64

func runListen(script json.RawMessage) (interface{}, string) {
	var sc lsScript
	must(json.Unmarshal(script, &sc))
	var mu sync.Mutex
	ev := []lsEv{}
	ids := 0
	log := func(e lsEv) int {
		atomic.AddInt64(&progress, 1)
		mu.Lock()
		defer mu.Unlock()
		if e.O == "beg" {
			ids++
			e.ID = ids
		}
		ev = append(ev, e)
		return e.ID
	}
	ep := ustack.NewEndPoint("ep", 1)
	conns := []*fakeConn{}
	if sc.Stack {
		tp := newFakeTransport("tp")
		u := ustack.NewUStack()
		u.AppendDataProcessor(ustack.NewBytesCodec()).AppendDataProcessor(ustack.NewSessionResolver())
		u.AddEndPoint(ep).AddTransport(tp)
		u.Run()
		for k := 0; k < sc.Conns; k++ {
			c := newFakeConn(k, false)
			conns = append(conns, c)
			tp.yield(c)
		}
		settled()
	}
	number := func(d ustack.EndPointData) int {
		if d == nil {
			return -1
		}
		b, ok := d.GetData().([]byte)
		if !ok || len(b) != 2 {
			return -1
		}
		return int(b[0])<<8 + int(b[1])
	}
	var do func(o lsOp)
	listener := func(l int) func(ustack.EndPoint, ustack.EndPointData) {
		return func(e ustack.EndPoint, d ustack.EndPointData) {
			m := number(d)
			if e != ep {
				m = -1
			}
			log(lsEv{O: "call", A: l, M: m})
			for _, o := range sc.React[fmt.Sprint(m)] {
				do(o)
			}
			log(lsEv{O: "ret", A: l, M: m})
		}
	}
	do = func(o lsOp) {
		e := lsEv{O: "beg", K: o.O, A: o.A, C: o.C}
		switch o.O {
		case "set":
			id := log(e)
			if o.A == 0 {
				ep.SetDataListener(nil)
			} else {
				ep.SetDataListener(listener(o.A))
			}
			log(lsEv{O: "end", K: o.O, ID: id})
		case "put":
			id := log(e)
			b := []byte{byte(o.A >> 8), byte(o.A)}
			if sc.Stack {
				// session 1 in front; it arrives when it arrives
				conns[o.C].rx <- rxItem{b: append([]byte{0, 0, 0, 1}, b...)}
				return
			}
			ep.GetRxChannel() <- ustack.NewEndPointData().SetData(b)
			log(lsEv{O: "end", K: o.O, ID: id})
		case "take":
			id := log(e)
			r := 0
			select {
			case d := <-ep.GetRxChannel():
				r = number(d)
			default:
			}
			log(lsEv{O: "end", K: o.O, ID: id, R: r})
		case "spin":
			for n := 0; n < o.A; n++ {
				atomic.AddInt64(&spun, 1)
			}
		case "sleep":
			time.Sleep(time.Duration(o.A) * time.Millisecond)
		case "quiet":
			settled()
			log(lsEv{O: "quiet"})
		default:
			panic("no such operation " + o.O)
		}
	}
	start := time.Now()
	var wg sync.WaitGroup
	for _, lane := range sc.Lanes {
		lane := lane
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, o := range lane {
				if d := time.Duration(o.T)*time.Millisecond - time.Since(start); d > 0 {
					time.Sleep(d)
				}
				do(o)
			}
		}()
	}
	wg.Wait()
	time.Sleep(time.Hour)
	do(lsOp{O: "quiet"})
	// whatever is left is in the channel
	for n := len(ep.GetRxChannel()); n >= 0; n-- {
		do(lsOp{O: "take"})
	}
	mu.Lock()
	defer mu.Unlock()
	return map[string]interface{}{"ev": append([]lsEv{}, ev...)}, ""
}
