package main

import (
	"errors"
	"fmt"
	"os"
	"sync"
	"time"

	"ustack"
)

// a connection in memory
type conn struct {
	name   string
	rx     chan []byte
	done   chan struct{}
	mu     sync.Mutex
	closed bool
	out    [][]byte
	write  func(p []byte) (int, error)
	onIn   func() // before a read returns
}

func newConn(name string) *conn {
	return &conn{name: name, rx: make(chan []byte, 4096), done: make(chan struct{})}
}
func (c *conn) GetName() string { return c.name }
func (c *conn) Read(p []byte) (int, error) {
	if c.Closed() {
		return 0, errors.New("closed")
	}
	select {
	case b := <-c.rx:
		if c.onIn != nil {
			c.onIn()
		}
		if len(b) > len(p) {
			die("chunk larger than the read buffer")
		}
		return copy(p, b), nil
	case <-c.done:
		return 0, errors.New("closed")
	}
}
func (c *conn) Write(p []byte) (int, error) {
	if c.Closed() {
		return 0, errors.New("closed")
	}
	if c.write != nil {
		return c.write(p)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.out = append(c.out, append([]byte{}, p...))
	return len(p), nil
}
func (c *conn) UseReference() bool                 { return false }
func (c *conn) GetReference() (interface{}, error) { return nil, errors.New("no") }
func (c *conn) SetReference(p interface{}) error   { return errors.New("no") }
func (c *conn) Close() {
	c.mu.Lock()
	was := c.closed
	c.closed = true
	c.mu.Unlock()
	if !was {
		close(c.done)
	}
}
func (c *conn) Closed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}
func (c *conn) written() [][]byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([][]byte{}, c.out...)
}

// a transport that yields them
type trans struct {
	next chan ustack.TransportConnection
	done chan struct{}
	once sync.Once
}

func newTrans() *trans {
	return &trans{next: make(chan ustack.TransportConnection, 64), done: make(chan struct{})}
}
func (t *trans) GetName() string                                    { return "mem" }
func (t *trans) SetOption(n string, v interface{}) ustack.Transport { return t }
func (t *trans) GetOption(n string) interface{}                     { return nil }
func (t *trans) ForServer(bool) ustack.Transport                    { return t }
func (t *trans) SetAddress(a string) ustack.Transport               { return t }
func (t *trans) GetAddress() string                                 { return "mem" }
func (t *trans) NextConnection() ustack.TransportConnection {
	select {
	case c := <-t.next:
		return c
	case <-t.done:
		return nil
	}
}
func (t *trans) Run() ustack.Transport  { return t }
func (t *trans) Stop() ustack.Transport { t.once.Do(func() { close(t.done) }); return t }

func newStack(mtu int, procs ...ustack.DataProcessor) (ustack.UStack, *trans) {
	t := newTrans()
	u := ustack.NewUStack().SetOption("MTU", mtu)
	for _, p := range procs {
		u.AppendDataProcessor(p)
	}
	u.AddTransport(t)
	return u, t
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "FAIL: "+f+"\n", a...)
	os.Exit(1)
}

// what arrives at an endpoint within a while
func recv(ep ustack.EndPoint, n int, wait time.Duration) []interface{} {
	var out []interface{}
	end := time.After(wait)
	for len(out) < n {
		select {
		case d := <-ep.GetRxChannel():
			out = append(out, d.GetData())
		case <-end:
			return out
		}
	}
	return out
}

func send(ep ustack.EndPoint, c ustack.TransportConnection, v interface{}) {
	ep.GetTxChannel() <- ustack.NewEndPointData().SetConnection(c).SetData(v)
}

// within waits until f holds
func within(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for !f() {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(time.Millisecond)
	}
	return true
}

const short = 300 * time.Millisecond
const long = 5 * time.Second
