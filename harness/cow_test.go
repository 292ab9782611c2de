package vfharness

import (
	"encoding/json"
	"math/rand"
	"runtime"
	"sync"

	"ustack"
)

func init() {
	drivers["cowconc"] = driver{false, runCowConc}
}

// one goroutine, one handle; log is private to the goroutine
type cowNode struct {
	u        *ustack.UBuf
	log      []ubEv
	children []*cowNode
	rng      *rand.Rand
}

func (n *cowNode) rec(o ubOp) {
	if o.B == nil {
		o.B = []int{}
	}
	o.H = 1
	s := &ubSys{hs: []*ustack.UBuf{n.u}, scratch: true}
	r := s.do(o)
	n.log = append(n.log, ubEv{Op: o, R: r, Lens: [][]int{}, Con: [][]int{}})
}

func runCowConc(script json.RawMessage) (interface{}, string) {
	var sc struct {
		Seed    int64 `json:"seed"`
		Cap     int   `json:"cap"`
		Res     int   `json:"res"`
		Steps   int   `json:"steps"`
		Handles int   `json:"handles"`
		Rounds  int   `json:"rounds"`
	}
	must(json.Unmarshal(script, &sc))
	var all []ubEv
	handles := 0
	for round := 0; round < sc.Rounds; round++ {
		rng := rand.New(rand.NewSource(sc.Seed + int64(round)*7919))
		var wg sync.WaitGroup
		left := sc.Handles - 1
		// how many snapshots a goroutine may take is decided when it starts
		var live func(n *cowNode, budget int)
		live = func(n *cowNode, budget int) {
			defer wg.Done()
			rb := func(k int) []int {
				b := make([]int, k)
				for i := range b {
					b[i] = n.rng.Intn(256)
				}
				return b
			}
			for i := 0; i < sc.Steps; i++ {
				switch n.rng.Intn(13) {
				case 0:
					n.rec(ubOp{O: "WriteByte", B: rb(1)})
				case 1:
					n.rec(ubOp{O: "WriteU", K: 2, M: n.rng.Intn(3), B: rb(2)})
				case 2:
					n.rec(ubOp{O: "HeadByte", B: rb(1)})
				case 3:
					n.rec(ubOp{O: "HeadU", K: 4, M: n.rng.Intn(3), B: rb(4)})
				case 4:
					n.rec(ubOp{O: "Write", B: rb(n.rng.Intn(4))})
				case 5:
					n.rec(ubOp{O: "ReadFrom", B: rb(n.rng.Intn(4))})
				case 6:
					n.rec(ubOp{O: "ReadByte"})
				case 7:
					n.rec(ubOp{O: "Peek", K: sc.Cap})
				case 8:
					n.rec(ubOp{O: "WriteTo", K: n.rng.Intn(4)})
				case 9:
					n.rec(ubOp{O: "PeekU", K: 4, M: n.rng.Intn(3)})
				case 10:
					runtime.Gosched()
				default:
					if budget > 0 {
						budget--
						give := 0
						if budget > 0 {
							give = n.rng.Intn(budget + 1)
							budget -= give
						}
						kind := 1
						if n.rng.Intn(8) == 0 {
							kind = 2
						}
						c := &cowNode{u: ustack.UBufMakeSnapshot(n.u, kind),
							rng: rand.New(rand.NewSource(n.rng.Int63()))}
						n.log = append(n.log, ubEv{Op: ubOp{O: "Snap", H: 1, T: kind, B: []int{}},
							R: ubRes{B: []int{}}, Lens: [][]int{}, Con: [][]int{}})
						n.children = append(n.children, c)
						wg.Add(1)
						go live(c, give)
					}
				}
			}
			n.rec(ubOp{O: "Peek", K: sc.Cap})
		}
		root := &cowNode{rng: rng}
		s := &ubSys{}
		r := s.do(ubOp{O: "New", K: sc.Cap, M: sc.Res})
		root.u = s.hs[0]
		fill := make([]int, sc.Cap/2)
		for i := range fill {
			fill[i] = rng.Intn(256)
		}
		root.log = append(root.log, ubEv{Op: ubOp{O: "New", H: 1, K: sc.Cap, M: sc.Res, B: []int{}}, R: r,
			Lens: [][]int{}, Con: [][]int{}})
		root.rec(ubOp{O: "Write", B: fill})
		wg.Add(1)
		go live(root, left)
		wg.Wait()

		// any order that respects each goroutine's order and puts a snapshot
		// before its use is as good as the real one for private copies
		var emit func(n *cowNode, h int)
		emit = func(n *cowNode, h int) {
			hs := []int{}
			for _, e := range n.log {
				e.Op.H = h
				if e.Op.O == "Snap" {
					handles++
					hs = append(hs, handles)
				}
				all = append(all, e)
			}
			for i, c := range n.children {
				emit(c, hs[i])
			}
		}
		handles++
		emit(root, handles)
	}
	return map[string]interface{}{"ev": all}, ""
}
