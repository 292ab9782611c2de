package vfharness

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"reflect"

	"ustack"
)

func init() {
	drivers["ubuf"] = driver{false, runUBufExpected}
	drivers["ubufrand"] = driver{false, runUBufRandom}
}

type ubOp struct {
	O string `json:"o"`
	H int    `json:"h"`
	K int    `json:"k"`
	M int    `json:"m"`
	B []int  `json:"b"`
	X bool   `json:"x"`
	T int    `json:"t"`
}

type ubRes struct {
	N int   `json:"n"`
	E bool  `json:"e"`
	B []int `json:"b"`
}

type ubEv struct {
	Op   ubOp    `json:"op"`
	R    ubRes   `json:"r"`
	Lens [][]int `json:"lens"`
	Con  [][]int `json:"con"`
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func toBytes(b []int) []byte {
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x)
	}
	return r
}

var errScripted = errors.New("scripted error")

// oneRead offers data in one read; it may use the rest of p as scratch space,
// as the contract of io.Reader allows
type oneRead struct {
	data    []byte
	fail    bool
	scratch bool
	calls   int
}

func (r *oneRead) Read(p []byte) (int, error) {
	r.calls++
	if r.calls > 1 {
		if r.fail {
			return 0, errScripted
		}
		return 0, nil
	}
	n := copy(p, r.data)
	if r.scratch {
		for i := n; i < len(p); i++ {
			p[i] = 0xEE
		}
	}
	if r.fail {
		return n, errScripted
	}
	return n, nil
}

// limWrite takes at most limit bytes
type limWrite struct {
	limit int
	got   []byte
}

func (w *limWrite) Write(p []byte) (int, error) {
	n := len(p)
	if n > w.limit {
		n = w.limit
	}
	w.got = append(w.got, p[:n]...)
	w.limit -= n
	if n < len(p) {
		return n, errScripted
	}
	return n, nil
}

type ubSys struct {
	hs      []*ustack.UBuf
	scratch bool
	from    bool // allocate over a caller supplied slice
}

func beValue(b []byte) uint64 {
	var v uint64
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v
}

func beBytes(v uint64, k int) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, v)
	return b[8-k:]
}

func (s *ubSys) do(o ubOp) ubRes {
	res := func(n int, err error, b []byte) ubRes { return ubRes{n, err != nil, ints(b)} }
	if o.O == "New" {
		var u *ustack.UBuf
		if s.from {
			// slice shorter than its capacity, dirty
			c := make([]byte, o.K)
			for i := range c {
				c[i] = 0xDD
			}
			c = c[: o.K/2 : o.K]
			if o.M == 0 {
				u = ustack.UBufFrom(c)
			} else {
				u = ustack.UBufFromWithHeadReserved(c, o.M)
			}
		} else if o.M == 0 {
			u = ustack.UBufAlloc(o.K)
		} else {
			u = ustack.UBufAllocWithHeadReserved(o.K, o.M)
		}
		s.hs = append(s.hs, u)
		return res(0, nil, nil)
	}
	u := s.hs[o.H-1]
	b := toBytes(o.B)
	v := beValue(b)
	integer := func(x uint64, err error) ubRes {
		if err != nil {
			return res(0, err, nil)
		}
		return res(0, nil, beBytes(x, o.K))
	}
	switch o.O {
	case "Snap":
		s.hs = append(s.hs, ustack.UBufMakeSnapshot(u, o.T))
		return res(0, nil, nil)
	case "WriteByte":
		return res(0, u.WriteByte(b[0]), nil)
	case "HeadByte":
		return res(0, u.WriteHeadByte(b[0]), nil)
	case "HeadBytes":
		return res(0, u.WriteHeadBytes(b), nil)
	case "ReadByte":
		x, err := u.ReadByte()
		if err != nil {
			return res(0, err, nil)
		}
		return res(0, nil, []byte{x})
	case "PeekByte":
		x, err := u.PeekByte()
		if err != nil {
			return res(0, err, nil)
		}
		return res(0, nil, []byte{x})
	case "Write":
		n, err := u.Write(b)
		return res(n, err, nil)
	case "Read":
		p := make([]byte, o.K)
		n, err := u.Read(p)
		return res(n, err, p[:n])
	case "Peek":
		p := make([]byte, o.K)
		n, err := u.Peek(p)
		return res(n, err, p[:n])
	case "ReadFrom":
		n, err := u.ReadFrom(&oneRead{data: b, fail: o.X, scratch: s.scratch})
		return res(int(n), err, nil)
	case "WriteTo":
		w := &limWrite{limit: o.K}
		n, err := u.WriteTo(w)
		return res(int(n), err, w.got)
	case "Reset":
		u.Reset()
		return res(0, nil, nil)
	case "WriteU":
		switch [2]int{o.K, o.M} {
		case [2]int{2, 0}:
			return res(0, u.WriteU16(uint16(v)), nil)
		case [2]int{2, 1}:
			return res(0, u.WriteU16BE(uint16(v)), nil)
		case [2]int{2, 2}:
			return res(0, u.WriteU16LE(uint16(v)), nil)
		case [2]int{4, 0}:
			return res(0, u.WriteU32(uint32(v)), nil)
		case [2]int{4, 1}:
			return res(0, u.WriteU32BE(uint32(v)), nil)
		case [2]int{4, 2}:
			return res(0, u.WriteU32LE(uint32(v)), nil)
		case [2]int{8, 0}:
			return res(0, u.WriteU64(v), nil)
		case [2]int{8, 1}:
			return res(0, u.WriteU64BE(v), nil)
		case [2]int{8, 2}:
			return res(0, u.WriteU64LE(v), nil)
		}
	case "HeadU":
		switch [2]int{o.K, o.M} {
		case [2]int{2, 0}:
			return res(0, u.WriteHeadU16(uint16(v)), nil)
		case [2]int{2, 1}:
			return res(0, u.WriteHeadU16BE(uint16(v)), nil)
		case [2]int{2, 2}:
			return res(0, u.WriteHeadU16LE(uint16(v)), nil)
		case [2]int{4, 0}:
			return res(0, u.WriteHeadU32(uint32(v)), nil)
		case [2]int{4, 1}:
			return res(0, u.WriteHeadU32BE(uint32(v)), nil)
		case [2]int{4, 2}:
			return res(0, u.WriteHeadU32LE(uint32(v)), nil)
		case [2]int{8, 0}:
			return res(0, u.WriteHeadU64(v), nil)
		case [2]int{8, 1}:
			return res(0, u.WriteHeadU64BE(v), nil)
		case [2]int{8, 2}:
			return res(0, u.WriteHeadU64LE(v), nil)
		}
	case "ReadU", "PeekU":
		r16 := map[string][3]func() (uint16, error){
			"ReadU": {u.ReadU16, u.ReadU16BE, u.ReadU16LE},
			"PeekU": {u.PeekU16, u.PeekU16BE, u.PeekU16LE}}
		r32 := map[string][3]func() (uint32, error){
			"ReadU": {u.ReadU32, u.ReadU32BE, u.ReadU32LE},
			"PeekU": {u.PeekU32, u.PeekU32BE, u.PeekU32LE}}
		r64 := map[string][3]func() (uint64, error){
			"ReadU": {u.ReadU64, u.ReadU64BE, u.ReadU64LE},
			"PeekU": {u.PeekU64, u.PeekU64BE, u.PeekU64LE}}
		switch o.K {
		case 2:
			x, err := r16[o.O][o.M]()
			return integer(uint64(x), err)
		case 4:
			x, err := r32[o.O][o.M]()
			return integer(uint64(x), err)
		case 8:
			x, err := r64[o.O][o.M]()
			return integer(x, err)
		}
	}
	panic("bad op " + o.O)
}

func (s *ubSys) lens() [][]int {
	r := [][]int{}
	for _, u := range s.hs {
		r = append(r, []int{u.ReadableLength(), u.HeadWritableLength(), u.TailWritableLength(), u.Capacity()})
	}
	return r
}

func content(u *ustack.UBuf) []int {
	n := u.ReadableLength()
	if n <= 0 {
		return []int{}
	}
	p := make([]byte, n)
	k, _ := u.Peek(p)
	return ints(p[:k])
}

func (s *ubSys) contents() [][]int {
	r := [][]int{}
	for _, u := range s.hs {
		r = append(r, content(u))
	}
	return r
}

func hasRef(fam []int) bool {
	for _, f := range fam {
		if f == 0 {
			return true
		}
	}
	return false
}

// a behaviour of UBufCow.tla with the results it gives: contents are looked at
// after the last operation only, so that looking cannot hide anything
func runUBufExpected(script json.RawMessage) (interface{}, string) {
	var sc struct {
		Fam  []int   `json:"fam"`
		Ev   []ubEv  `json:"ev"`
		Lens [][]int `json:"lens"`
		Con  [][]int `json:"con"`
	}
	must(json.Unmarshal(script, &sc))
	for _, from := range []bool{false, true} {
		s := &ubSys{scratch: !hasRef(sc.Fam), from: from}
		for i, ev := range sc.Ev {
			if got := s.do(ev.Op); !reflect.DeepEqual(got, ev.R) {
				return nil, fmt.Sprintf("step %d: %v: got %v want %v", i+1, ev.Op, got, ev.R)
			}
		}
		if got := s.lens(); !reflect.DeepEqual(got, sc.Lens) {
			return nil, fmt.Sprintf("lengths at the end: got %v want %v", got, sc.Lens)
		}
		if got := s.contents(); !reflect.DeepEqual(got, sc.Con) {
			return nil, fmt.Sprintf("contents at the end: got %v want %v", got, sc.Con)
		}
	}
	return nil, ""
}

// random histories, judged by UBufTrace.tla
func runUBufRandom(script json.RawMessage) (interface{}, string) {
	var sc struct {
		Seed    int64 `json:"seed"`
		Steps   int   `json:"steps"`
		Cap     int   `json:"cap"`
		Res     int   `json:"res"`
		Fam     []int `json:"fam"`
		Handles int   `json:"handles"`
		From    bool  `json:"from"`
	}
	must(json.Unmarshal(script, &sc))
	rng := rand.New(rand.NewSource(sc.Seed))
	s := &ubSys{scratch: !hasRef(sc.Fam), from: sc.From}
	evs := []ubEv{}
	rec := func(o ubOp) {
		if o.B == nil {
			o.B = []int{}
		}
		e := ubEv{Op: o, R: s.do(o), Lens: s.lens(), Con: [][]int{}}
		if rng.Intn(6) == 0 {
			e.Con = s.contents()
		}
		evs = append(evs, e)
	}
	rbytes := func(n int) []int {
		b := make([]int, n)
		for i := range b {
			b[i] = rng.Intn(256)
			if rng.Intn(6) == 0 {
				b[i] = []int{0, 255, 128, 127}[rng.Intn(4)]
			}
		}
		return b
	}
	rec(ubOp{O: "New", H: 1, K: sc.Cap, M: sc.Res})
	size := func(room int) int {
		switch rng.Intn(6) {
		case 0:
			return room
		case 1:
			return room + 1
		case 2:
			if room > 0 {
				return room - 1
			}
			return 0
		case 3:
			return rng.Intn(sc.Cap + 2)
		}
		return rng.Intn(5)
	}
	width := []int{2, 4, 8}
	for i := 0; i < sc.Steps; i++ {
		h := rng.Intn(len(s.hs)) + 1
		u := s.hs[h-1]
		readable, head, tail := u.ReadableLength(), u.HeadWritableLength(), u.TailWritableLength()
		if readable < 0 || tail < 0 {
			break // broken already, the trace shows it
		}
		k, m := width[rng.Intn(3)], rng.Intn(3)
		switch c := rng.Intn(34); {
		case c < 3:
			rec(ubOp{O: "WriteByte", H: h, B: rbytes(1)})
		case c < 6:
			rec(ubOp{O: "WriteU", H: h, K: k, M: m, B: rbytes(k)})
		case c < 8:
			rec(ubOp{O: "HeadByte", H: h, B: rbytes(1)})
		case c < 11:
			rec(ubOp{O: "HeadU", H: h, K: k, M: m, B: rbytes(k)})
		case c < 13:
			rec(ubOp{O: "HeadBytes", H: h, B: rbytes(size(head) + 1)})
		case c < 15:
			rec(ubOp{O: "ReadByte", H: h})
		case c < 18:
			rec(ubOp{O: "ReadU", H: h, K: k, M: m})
		case c < 19:
			rec(ubOp{O: "PeekByte", H: h})
		case c < 21:
			rec(ubOp{O: "PeekU", H: h, K: k, M: m})
		case c < 23:
			rec(ubOp{O: "Write", H: h, B: rbytes(size(tail))})
		case c < 25:
			rec(ubOp{O: "Read", H: h, K: size(readable)})
		case c < 26:
			rec(ubOp{O: "Peek", H: h, K: size(readable)})
		case c < 28:
			rec(ubOp{O: "ReadFrom", H: h, B: rbytes(size(tail)), X: rng.Intn(3) == 0})
		case c < 30:
			rec(ubOp{O: "WriteTo", H: h, K: size(readable)})
		case c < 31:
			rec(ubOp{O: "Reset", H: h})
		default:
			if len(s.hs) < sc.Handles {
				rec(ubOp{O: "Snap", H: h, T: sc.Fam[rng.Intn(len(sc.Fam))]})
			}
		}
	}
	e := ubEv{Op: ubOp{O: "PeekByte", H: 1, B: []int{}}}
	e.R, e.Lens, e.Con = s.do(e.Op), s.lens(), s.contents()
	evs = append(evs, e)
	return map[string]interface{}{"ev": evs}, ""
}
