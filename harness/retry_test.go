package vfharness

import (
	"encoding/json"
	"net"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"ustack"
)

// retry: a client transport, in virtual time, and a server that is there at
// times. The server is a bare socket: a goroutine that waits for the network
// would stop virtual time.

func init() {
	drivers["retry"] = driver{true, runRetry}
}

type ryOp struct {
	T int    `json:"t"` // milliseconds
	O string `json:"o"` // run stop on off set

	Set setting `json:"set"`
}
type ryScript struct {
	Kind     string `json:"kind"`     // tcp, uds
	Budget   int    `json:"budget"`   // -1: default
	Interval int    `json:"interval"` // -1: default
	Ops      []ryOp `json:"ops"`
}
type ryEv struct {
	O string `json:"o"`
	T int    `json:"t"`
	N int    `json:"n"`

	Set setting `json:"set"`
}

// bareServer is a listening socket
type bareServer struct {
	kind, addr string
	fd         int
}

func (s *bareServer) on() {
	var sa syscall.Sockaddr
	dom := syscall.AF_UNIX
	if s.kind == "tcp" {
		dom = syscall.AF_INET
		host, port, err := net.SplitHostPort(s.addr)
		must(err)
		a := &syscall.SockaddrInet4{}
		a.Port, _ = strconv.Atoi(port)
		copy(a.Addr[:], net.ParseIP(host).To4())
		sa = a
	} else {
		os.Remove(s.addr)
		sa = &syscall.SockaddrUnix{Name: s.addr}
	}
	fd, err := syscall.Socket(dom, syscall.SOCK_STREAM|syscall.SOCK_NONBLOCK|syscall.SOCK_CLOEXEC, 0)
	must(err)
	if s.kind == "tcp" {
		must(syscall.SetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1))
	}
	must(syscall.Bind(fd, sa))
	must(syscall.Listen(fd, 64))
	s.fd = fd
}

// accepted counts the connections that were made since the last call
func (s *bareServer) accepted() int {
	n := 0
	for {
		c, _, err := syscall.Accept4(s.fd, syscall.SOCK_CLOEXEC)
		if err == syscall.EINTR || err == syscall.ECONNABORTED {
			continue
		}
		if err != nil {
			return n
		}
		n++
		syscall.Close(c)
	}
}
func (s *bareServer) off() {
	syscall.Close(s.fd)
	if s.kind == "uds" {
		os.Remove(s.addr)
	}
}

func runRetry(script json.RawMessage) (interface{}, string) {
	var sc ryScript
	must(json.Unmarshal(script, &sc))
	var mu sync.Mutex
	ev := []ryEv{}
	start := time.Now()
	log := func(o string, n int) {
		atomic.AddInt64(&progress, 1)
		mu.Lock()
		defer mu.Unlock()
		ev = append(ev, ryEv{o, int(time.Since(start) / time.Millisecond), n, setting{}})
	}
	var tp ustack.Transport
	srv := &bareServer{kind: sc.Kind}
	if sc.Kind == "tcp" {
		srv.addr = freePort()
		tp = ustack.NewTCPTransport("t")
	} else {
		srv.addr = udsPath()
		tp = ustack.NewUDSTransport("t")
	}
	tp.ForServer(false).SetAddress(srv.addr)
	set := func(s setting) {
		s.C = "tp"
		tp.SetOption(s.N, s.value())
		mu.Lock()
		ev = append(ev, ryEv{"set", int(time.Since(start) / time.Millisecond), 0, s})
		mu.Unlock()
	}
	if sc.Budget >= 0 {
		set(setting{N: "MaxRetryCount", T: "int", V: sc.Budget})
	}
	if sc.Interval >= 0 {
		set(setting{N: "RetryIntervalInSecond", T: "int", V: sc.Interval})
	}
	on := false
	var conns []ustack.TransportConnection
	for _, o := range sc.Ops {
		if d := time.Duration(o.T)*time.Millisecond - time.Since(start); d > 0 {
			time.Sleep(d)
		}
		settled()
		switch o.O {
		case "set":
			set(o.Set)
		case "run":
			log("run", 0)
			tp.Run()
			go func() {
				for {
					c := tp.NextConnection()
					if c == nil {
						log("none", 0)
						return
					}
					n := 0
					if c.Closed() {
						n = 1
					}
					mu.Lock()
					conns = append(conns, c)
					mu.Unlock()
					log("got", n)
				}
			}()
		case "stop":
			log("stop", 0)
			tp.Stop()
		case "on":
			srv.on()
			on = true
			log("on", 0)
		case "off":
			n := srv.accepted()
			srv.off()
			on = false
			log("off", n)
		case "end":
			if on {
				log("off", srv.accepted())
				srv.off()
			}
			log("end", 0)
		}
		settled()
	}
	mu.Lock()
	out := append([]ryEv{}, ev...)
	mu.Unlock()
	tp.Stop()
	settled()
	mu.Lock()
	defer mu.Unlock()
	for _, c := range conns {
		c.Close()
	}
	return map[string]interface{}{"ev": out}, ""
}
