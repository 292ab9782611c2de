package vfharness

import (
	"encoding/json"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"ustack"
)

// refs: reference transports are run and stopped, their connections used from
// several goroutines.

func init() {
	drivers["refs"] = driver{true, runRefs}
}

type rfTp struct {
	A   int    `json:"a"`
	S   bool   `json:"s"`
	Cap int    `json:"cap"`
	C   string `json:"c"`
}
type rfOp struct {
	At  int    `json:"at"`
	O   string `json:"o"`
	T   int    `json:"t"`
	Old int    `json:"old"` // use an earlier connection of the transport

	Set setting `json:"set"`

	Sync bool `json:"sync"` // all lanes but the first meet before
	gate func()
}
type rfEv struct {
	O  string `json:"o"`
	ID int    `json:"id"`
	K  string `json:"k"`
	T  int    `json:"t"`
	C  int    `json:"c"`
	M  int    `json:"m"`
	R  int    `json:"r"`

	Set setting `json:"set"`
}
type rfScript struct {
	Tps   []rfTp   `json:"tps"`
	Lanes [][]rfOp `json:"lanes"`
}
type rfObj struct{ n int }

var rfSerial int64

func runRefs(script json.RawMessage) (interface{}, string) {
	var sc rfScript
	must(json.Unmarshal(script, &sc))
	run := atomic.AddInt64(&rfSerial, 1)
	var mu sync.Mutex
	ev := []rfEv{}
	ids := 0
	log := func(e rfEv) int {
		atomic.AddInt64(&progress, 1)
		mu.Lock()
		defer mu.Unlock()
		if e.O == "beg" {
			ids++
			e.ID = ids
		}
		ev = append(ev, e)
		return e.ID
	}
	tps := make([]ustack.Transport, len(sc.Tps)+1)
	for i, t := range sc.Tps {
		tps[i+1] = ustack.NewReferenceTransport(fmt.Sprintf("t%d", i+1)).
			SetAddress(fmt.Sprintf("vf-%d-%d", run, t.A)).ForServer(t.S)
		sc.Tps[i].C = fmt.Sprint(i + 1)
		if t.Cap > 0 {
			s := setting{sc.Tps[i].C, "MaxQueueSize", "int", t.Cap}
			tps[i+1].SetOption(s.N, s.value())
			log(rfEv{O: "set", Set: s})
		}
	}
	conns := []ustack.TransportConnection{nil}
	of := map[ustack.TransportConnection]int{}
	have := make([][]int, len(sc.Tps)+1) // transport -> its connections
	ran := map[int]bool{}
	objs := []interface{}{nil}
	number := map[interface{}]int{}
	pick := func(o rfOp) (ustack.TransportConnection, int) {
		mu.Lock()
		defer mu.Unlock()
		h := have[o.T]
		if len(h) <= o.Old {
			return nil, 0
		}
		c := h[len(h)-1-o.Old]
		return conns[c], c
	}
	fresh := func() (interface{}, int) {
		mu.Lock()
		defer mu.Unlock()
		n := len(objs)
		var x interface{}
		switch n % 4 {
		case 0: // not only pointers
			x = fmt.Sprintf("object %d", n)
		case 1:
			x = rfObj{n}
		default:
			x = &rfObj{n}
		}
		objs = append(objs, x)
		number[x] = n
		return x, n
	}
	do := func(o rfOp) {
		e := rfEv{O: "beg", K: o.O}
		end := rfEv{O: "end", K: o.O}
		if o.gate == nil {
			o.gate = func() {}
		}
		switch o.O {
		case "set":
			o.Set.C = fmt.Sprint(o.T)
			tps[o.T].SetOption(o.Set.N, o.Set.value())
			log(rfEv{O: "set", Set: o.Set})
			return
		case "run":
			e.T = o.T
			end.ID = log(e)
			tps[o.T].Run()
			mu.Lock()
			ran[o.T] = true
			mu.Unlock()
		case "stop":
			e.T = o.T
			end.ID = log(e)
			o.gate()
			tps[o.T].Stop()
		case "next":
			mu.Lock()
			known := ran[o.T]
			mu.Unlock()
			if !known { // nobody has asked for connections yet
				return
			}
			e.T = o.T
			end.ID = log(e)
			c := tps[o.T].NextConnection()
			mu.Lock()
			if c != nil {
				if of[c] == 0 {
					of[c] = len(conns)
					conns = append(conns, c)
				}
				end.C = of[c]
				have[o.T] = append(have[o.T], of[c])
			}
			ev = append(ev, end)
			mu.Unlock()
			return
		case "send":
			c, k := pick(o)
			if c == nil {
				return
			}
			x, n := fresh()
			e.C, e.M = k, n
			end.ID = log(e)
			o.gate()
			if c.SetReference(x) != nil {
				end.R = -1
			}
		case "recv":
			c, k := pick(o)
			if c == nil {
				return
			}
			e.C = k
			end.ID = log(e)
			o.gate()
			x, err := c.GetReference()
			if err != nil {
				end.R = -1
			} else if x == nil {
				end.R = -2
			} else {
				mu.Lock()
				end.R = number[x]
				mu.Unlock()
				if end.R == 0 {
					end.R = -2
				}
			}
		case "close":
			c, k := pick(o)
			if c == nil {
				return
			}
			e.C = k
			end.ID = log(e)
			o.gate()
			c.Close()
		case "quiet":
			settled()
			log(rfEv{O: "quiet"})
			mu.Lock()
			cs := append([]ustack.TransportConnection{}, conns...)
			mu.Unlock()
			for k, c := range cs {
				if c != nil {
					r := 0
					if !c.Closed() {
						r = 1
					}
					log(rfEv{O: "is", C: k, R: r})
				}
			}
			return
		default:
			panic("no such operation " + o.O)
		}
		log(end)
	}
	var lanes int32
	start := time.Now()
	meet := make([]int32, 100)
	for _, lane := range sc.Lanes {
		lane := lane
		atomic.AddInt32(&lanes, 1)
		go func() {
			defer atomic.AddInt32(&lanes, -1)
			round := 0
			for _, o := range lane {
				if d := time.Duration(o.At)*time.Millisecond - time.Since(start); d > 0 {
					time.Sleep(d)
				}
				if o.Sync {
					k := round
					round++
					o.gate = func() {
						atomic.AddInt32(&meet[k], 1)
						for n := 0; n < 200000 && atomic.LoadInt32(&meet[k]) < int32(len(sc.Lanes)-1); n++ {
						}
					}
				}
				do(o)
			}
		}()
	}
	time.Sleep(time.Hour)
	do(rfOp{O: "quiet"})
	for k := 0; k == 0 || k < 50 && atomic.LoadInt32(&lanes) > 0; k++ {
		for t := range sc.Tps {
			do(rfOp{O: "stop", T: t + 1})
		}
		do(rfOp{O: "quiet"})
		time.Sleep(time.Hour) // lanes that had been waiting go on
		do(rfOp{O: "quiet"})
	}
	for t := range sc.Tps {
		do(rfOp{O: "stop", T: t + 1})
	}
	// the addresses can be used afresh: nobody sees anything of the past
	for t := range sc.Tps {
		do(rfOp{O: "run", T: t + 1})
	}
	for t := range sc.Tps {
		go do(rfOp{O: "next", T: t + 1})
	}
	do(rfOp{O: "quiet"})
	for t := range sc.Tps {
		go do(rfOp{O: "recv", T: t + 1})
	}
	do(rfOp{O: "quiet"})
	for t := range sc.Tps {
		go do(rfOp{O: "send", T: t + 1})
	}
	do(rfOp{O: "quiet"})
	for t := range sc.Tps {
		do(rfOp{O: "stop", T: t + 1})
	}
	do(rfOp{O: "quiet"})
	mu.Lock()
	defer mu.Unlock()
	return map[string]interface{}{"tps": sc.Tps, "ev": append([]rfEv{}, ev...)}, ""
}
