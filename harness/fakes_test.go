package vfharness

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sync"

	"ustack"
)

type bs []int // bytes as JSON numbers

func bints(b []byte) bs {
	r := make(bs, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}
func (b bs) bytes() []byte {
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x)
	}
	return r
}
func (b bs) MarshalJSON() ([]byte, error) {
	if b == nil {
		return []byte("[]"), nil
	}
	return json.Marshal([]int(b))
}
func sess4(s int) bs {
	var x [4]byte
	binary.BigEndian.PutUint32(x[:], uint32(s))
	return bints(x[:])
}
func (b bs) sess() int { return int(binary.BigEndian.Uint32(b.bytes())) }

// ---- a connection under control of the harness ---------------------------

type rxItem struct {
	b   []byte
	ref interface{}
	err error
}

// fakeConn: chunks put into rx are what Read returns (a chunk that does not fit
// the reader's buffer takes several reads)
type fakeConn struct {
	id   int
	ref  bool
	rx   chan rxItem
	done chan struct{}

	mu     sync.Mutex
	closed bool
	rest   []byte
	rerr   error

	closeMu sync.Mutex

	onIdle  func(c *fakeConn)                    // Read is entered
	onRead  func(c *fakeConn, b []byte, e error) // Read is about to return
	onWrite func(c *fakeConn, b []byte) (int, error)
	onSet   func(c *fakeConn, p interface{}) error
	onClose func(c *fakeConn)
}

var errClosed = errors.New("fake connection is closed")
var errBroken = errors.New("fake connection is broken")

func newFakeConn(id int, ref bool) *fakeConn {
	return &fakeConn{id: id, ref: ref, rx: make(chan rxItem, 4096), done: make(chan struct{})}
}
func (c *fakeConn) GetName() string    { return "fake" }
func (c *fakeConn) UseReference() bool { return c.ref }
func (c *fakeConn) Read(p []byte) (int, error) {
	if c.ref {
		return 0, errors.New("not supported")
	}
	if c.onIdle != nil {
		c.onIdle(c)
	}
	if c.Closed() {
		return 0, errClosed
	}
	if len(c.rest) == 0 {
		select {
		case it := <-c.rx:
			c.rest, c.rerr = it.b, it.err
		case <-c.done:
			return 0, errClosed
		}
	}
	n := copy(p, c.rest)
	c.rest = c.rest[n:]
	var err error
	if len(c.rest) == 0 {
		err, c.rerr = c.rerr, nil
	}
	if c.onRead != nil {
		c.onRead(c, p[:n], err)
	}
	return n, err
}
func (c *fakeConn) Write(p []byte) (int, error) {
	if c.ref {
		return 0, errors.New("not supported")
	}
	if c.Closed() {
		return 0, errClosed
	}
	if c.onWrite != nil {
		return c.onWrite(c, p)
	}
	return len(p), nil
}
func (c *fakeConn) GetReference() (interface{}, error) {
	if !c.ref {
		return nil, errors.New("not supported")
	}
	if c.onIdle != nil {
		c.onIdle(c)
	}
	select {
	case it := <-c.rx:
		if c.onRead != nil {
			c.onRead(c, nil, it.err)
		}
		return it.ref, it.err
	case <-c.done:
		return nil, errClosed
	}
}
func (c *fakeConn) SetReference(p interface{}) error {
	if !c.ref {
		return errors.New("not supported")
	}
	if c.Closed() {
		return errClosed
	}
	if c.onSet != nil {
		return c.onSet(c, p)
	}
	return nil
}
func (c *fakeConn) Close() {
	c.closeMu.Lock()
	defer c.closeMu.Unlock()
	if c.Closed() {
		return
	}
	if c.onClose != nil { // first, so that no consequence can be logged before it
		c.onClose(c)
	}
	c.mu.Lock()
	c.closed = true
	c.mu.Unlock()
	close(c.done)
}
func (c *fakeConn) Closed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// ---- a transport under control of the harness ----------------------------

type fakeTransport struct {
	name    string
	options map[string]interface{}
	next    chan ustack.TransportConnection
	mu      sync.Mutex
	done    chan struct{}
	runs    int
	stops   int
	conns   []*fakeConn
	// closes what it yielded when stopped
	closeOnStop bool
}

func newFakeTransport(name string) *fakeTransport {
	return &fakeTransport{name: name, options: map[string]interface{}{},
		next: make(chan ustack.TransportConnection, 1024), done: make(chan struct{})}
}
func (t *fakeTransport) GetName() string { return t.name }
func (t *fakeTransport) SetOption(n string, v interface{}) ustack.Transport {
	t.options[n] = v
	return t
}
func (t *fakeTransport) GetOption(n string) interface{}       { return t.options[n] }
func (t *fakeTransport) ForServer(bool) ustack.Transport      { return t }
func (t *fakeTransport) SetAddress(a string) ustack.Transport { return t }
func (t *fakeTransport) GetAddress() string                   { return t.name }
func (t *fakeTransport) yield(c *fakeConn) {
	t.mu.Lock()
	t.conns = append(t.conns, c)
	t.mu.Unlock()
	t.next <- c
}
func (t *fakeTransport) NextConnection() ustack.TransportConnection {
	t.mu.Lock()
	done := t.done
	t.mu.Unlock()
	select {
	case <-done:
		return nil
	default:
	}
	select {
	case c := <-t.next:
		return c
	case <-done:
		return nil
	}
}
func (t *fakeTransport) Run() ustack.Transport {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.runs++
	select {
	case <-t.done:
		t.done = make(chan struct{})
	default:
	}
	return t
}
func (t *fakeTransport) Stop() ustack.Transport {
	t.mu.Lock()
	t.stops++
	select {
	case <-t.done:
	default:
		close(t.done)
	}
	conns := append([]*fakeConn{}, t.conns...)
	t.mu.Unlock()
	if t.closeOnStop {
		for _, c := range conns {
			c.Close()
		}
	}
	return t
}

// ---- messages and codecs ---------------------------------------------------

type vmsg struct {
	K string `json:"k"`
	B bs     `json:"b"`
}

// what JSON and gob codecs carry
type Obj struct {
	N int
	S string
	B []byte
	M map[string]int `json:",omitempty"`
}

func (m vmsg) value() interface{} {
	switch m.K {
	case "bytes":
		return m.B.bytes()
	case "string":
		return string(m.B.bytes())
	case "obj", "objp":
		o := &Obj{}
		must(json.Unmarshal(m.B.bytes(), o))
		if m.K == "objp" {
			return o
		}
		return *o
	case "chan":
		return make(chan int)
	case "int":
		return 4711
	}
	return nil
}

func canon(v interface{}) vmsg {
	switch x := v.(type) {
	case nil:
		return vmsg{"none", bs{}}
	case []byte:
		return vmsg{"bytes", bints(x)}
	case string:
		return vmsg{"string", bints([]byte(x))}
	case Obj:
		b, err := json.Marshal(x)
		must(err)
		return vmsg{"obj", bints(b)}
	case *Obj:
		b, err := json.Marshal(x)
		must(err)
		return vmsg{"objp", bints(b)}
	case chan int:
		return vmsg{"chan", bs{}}
	case int:
		return vmsg{"int", bs{}}
	}
	return vmsg{"unknown", bs{}}
}

func codecEncode(k string, m vmsg) (bs, bool) {
	var out bytes.Buffer
	var err error
	if k == "json" {
		var b []byte
		b, err = json.Marshal(m.value())
		out.Write(b)
	} else {
		err = gob.NewEncoder(&out).Encode(m.value())
	}
	return bints(out.Bytes()), err == nil && out.Len() > 0
}

func codecDecode(k string, b []byte) (vmsg, bool) {
	o := &Obj{}
	var err error
	if k == "json" {
		if len(b) == 0 {
			return vmsg{"none", bs{}}, false
		}
		err = json.Unmarshal(b, o)
	} else {
		err = gob.NewDecoder(bytes.NewReader(b)).Decode(o)
	}
	if err != nil {
		return vmsg{"none", bs{}}, false
	}
	return canon(o), true
}

func genericEncoder(message interface{}, w io.Writer) error {
	b, ok := message.([]byte)
	if !ok || (len(b) > 0 && b[0] == 255) {
		return errors.New("cannot encode")
	}
	if _, err := w.Write([]byte{126}); err != nil {
		return err
	}
	inv := make([]byte, len(b))
	for i := range b {
		inv[i] = 255 - b[i]
	}
	if len(inv) > 0 {
		n, err := w.Write(inv)
		if err != nil {
			return err
		}
		if n != len(inv) {
			return io.ErrShortWrite
		}
	}
	return nil
}

func genericDecoder(r io.Reader) (interface{}, error) {
	var out []byte
	var buf [512]byte
	for {
		n, err := r.Read(buf[:])
		out = append(out, buf[:n]...)
		if err != nil || n == 0 {
			break
		}
	}
	if len(out) == 0 || out[0] != 126 {
		return nil, errors.New("cannot decode")
	}
	res := make([]byte, len(out)-1)
	for i := range res {
		res[i] = 255 - out[i+1]
	}
	return res, nil
}

func gobEncoder(message interface{}, w io.Writer) error { return gob.NewEncoder(w).Encode(message) }
func gobDecoder(r io.Reader) (interface{}, error) {
	o := &Obj{}
	err := gob.NewDecoder(r).Decode(o)
	return o, err
}

// rawCodec carries []byte including the empty one
type rawCodec struct {
	ustack.ProcBase
	on   bool
	st   ustack.UStack
	up   ustack.DataProcessor
	down ustack.DataProcessor
}

func newRawCodec() ustack.DataProcessor {
	c := &rawCodec{ProcBase: ustack.NewProcBaseInstance("raw"), on: true}
	return c.ProcBase.SetWhere(c)
}
func (c *rawCodec) SetUStack(u ustack.UStack) ustack.DataProcessor       { c.st = u; return c }
func (c *rawCodec) SetUpper(u ustack.DataProcessor) ustack.DataProcessor { c.up = u; return c }
func (c *rawCodec) SetLower(u ustack.DataProcessor) ustack.DataProcessor { c.down = u; return c }
func (c *rawCodec) SetEnable(e bool) ustack.DataProcessor                { c.on = e; return c }
func (c *rawCodec) OnUpperData(x ustack.Context) {
	if c.on {
		b, ok := x.GetMessage().([]byte)
		if !ok || len(b) > c.st.GetMTU()-c.st.GetOverhead() {
			return
		}
		ub := ustack.UBufAllocWithHeadReserved(c.st.GetMTU(), c.st.GetOverhead())
		if len(b) > 0 {
			ub.Write(b)
		}
		x.SetBuffer(ub)
	}
	c.down.OnUpperData(x)
}
func (c *rawCodec) OnLowerData(x ustack.Context) {
	if c.on {
		ub := x.GetBuffer()
		if ub == nil {
			return
		}
		b := make([]byte, ub.ReadableLength())
		if len(b) > 0 {
			ub.Read(b)
		}
		x.SetMessage(b)
	}
	c.up.OnLowerData(x)
}

// probe passes everything on and shows it
type probe struct {
	ustack.ProcBase
	up, down ustack.DataProcessor
	onUp     func(ustack.Context)
	onDown   func(ustack.Context)
	onEvent  func(ustack.Event)
}

func newProbe() *probe {
	p := &probe{ProcBase: ustack.NewProcBaseInstance("probe")}
	p.ProcBase.SetWhere(p)
	return p
}
func (c *probe) SetUpper(u ustack.DataProcessor) ustack.DataProcessor { c.up = u; return c }
func (c *probe) SetLower(u ustack.DataProcessor) ustack.DataProcessor { c.down = u; return c }
func (c *probe) OnUpperData(x ustack.Context) {
	if c.onDown != nil {
		c.onDown(x)
	}
	c.down.OnUpperData(x)
}
func (c *probe) OnLowerData(x ustack.Context) {
	if c.onUp != nil {
		c.onUp(x)
	}
	c.up.OnLowerData(x)
}
func (c *probe) OnEvent(e ustack.Event) {
	if c.onEvent != nil {
		c.onEvent(e)
	}
}

func peekAll(ub *ustack.UBuf) []byte {
	if ub == nil || ub.ReadableLength() == 0 {
		return nil
	}
	b := make([]byte, ub.ReadableLength())
	n, _ := ub.Peek(b)
	return b[:n]
}

var objType = reflect.TypeOf(Obj{})

// keeper: received messages belong to the application. Every other one is
// overwritten at once, the others must not change any more.
type keeper struct {
	n    int
	kept []interface{}
	was  []string
}

func (k *keeper) take(v interface{}) {
	b, ok := v.([]byte)
	if !ok {
		return
	}
	if k.n++; k.n%2 == 0 {
		b = b[:cap(b)]
		for i := range b {
			b[i] ^= 0x5a
		}
		return
	}
	if len(b) <= 4096 && len(k.kept) < 2000 {
		k.kept = append(k.kept, v)
		k.was = append(k.was, string(b))
	}
}

// changed tells how many messages did change
func (k *keeper) changed() int {
	n := 0
	for i, v := range k.kept {
		if string(v.([]byte)) != k.was[i] {
			n++
		}
	}
	return n
}

// a setting of a component
type setting struct {
	C string `json:"c"` // component
	N string `json:"n"` // name
	T string `json:"t"` // int bool, or something no option has
	V int    `json:"v"`
}

func (s setting) value() interface{} {
	switch s.T {
	case "int":
		return s.V
	case "bool":
		return s.V == 1
	case "text":
		return fmt.Sprint(s.V)
	case "int64":
		return int64(s.V)
	case "uint32":
		return uint32(s.V)
	case "float":
		return float64(s.V)
	case "list":
		return []int{s.V}
	case "nil":
		return nil
	}
	panic("no such type " + s.T)
}

// what GetOption returned
func settingOf(c, n string, x interface{}) setting {
	s := setting{C: c, N: n}
	switch v := x.(type) {
	case nil:
		s.T = "nil"
	case int:
		s.T, s.V = "int", v
	case bool:
		s.T = "bool"
		if v {
			s.V = 1
		}
	case string:
		s.T = "text"
		fmt.Sscan(v, &s.V)
	case int64:
		s.T, s.V = "int64", int(v)
	case uint32:
		s.T, s.V = "uint32", int(v)
	case float64:
		s.T, s.V = "float", int(v)
	case []int:
		s.T, s.V = "list", v[0]
	default:
		s.T = "else"
	}
	return s
}

func applyProc(sets []setting, c string, p ustack.DataProcessor) {
	for _, s := range sets {
		if s.C == c {
			p.SetOption(s.N, s.value())
		}
	}
}

func applyStack(sets []setting, u ustack.UStack) {
	for _, s := range sets {
		if s.C == "stack" {
			u.SetOption(s.N, s.value())
		}
	}
}
