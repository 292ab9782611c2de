// Harness: executes scripts against ustack through its public interface and
// records what can be observed. It decides nothing that the specification
// does not say: either a script carries the results the specification expects,
// or the recorded trace is judged by TLC.
package vfharness

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"
)

// a driver runs one script; fail != "" means that the observed behaviour is not
// the one the script expects
type driver struct {
	bubble bool // run in a synctest bubble (virtual time, exact quiescence)
	run    func(script json.RawMessage) (trace interface{}, fail string)
}

var drivers = map[string]driver{}

var raceBuild = os.Getenv("VF_RACE") == "1"

// progress for the watchdog
var progress int64

// number of the script that is run
var current int64

// resident memory in bytes
func resident() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var size, res int64
	fmt.Sscan(string(b), &size, &res)
	return res * int64(os.Getpagesize())
}

// watchdog ends the process when a script makes no progress or no end of it
func watchdog(seconds int) {
	last, since := int64(-1), time.Now()
	script, begun := int64(-1), time.Now()
	limit := int64(3) << 30
	if raceBuild {
		limit *= 2
	}
	for {
		time.Sleep(200 * time.Millisecond)
		if c := atomic.LoadInt64(&current); c != script {
			script, begun = c, time.Now()
		} else if mem := resident(); mem > limit || time.Since(begun) > 6*time.Duration(seconds)*time.Second {
			fmt.Fprintf(os.Stderr, "VF WATCHDOG: no end of it after %v with %d MB\n", time.Since(begun), mem>>20)
			syscall.Exit(67)
		}
		p := atomic.LoadInt64(&progress)
		if p != last {
			last, since = p, time.Now()
			continue
		}
		if time.Since(since) > time.Duration(seconds)*time.Second {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "VF WATCHDOG: no progress for %d s\n%s\n", seconds, buf[:n])
			syscall.Exit(67)
		}
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func TestJob(t *testing.T) {
	in := os.Getenv("VF_JOB")
	if in == "" {
		t.Skip("no job")
	}
	d, ok := drivers[os.Getenv("VF_DRIVER")]
	if !ok {
		t.Fatal("no such driver")
	}
	// the code under test prints a lot; a nil file fails at once and, unlike
	// /dev/null, has no lock that would order goroutines
	os.Stdout = nil

	data, err := os.ReadFile(in)
	must(err)
	var scripts []json.RawMessage
	for _, line := range bytes.Split(data, []byte("\n")) {
		if len(bytes.TrimSpace(line)) > 0 {
			scripts = append(scripts, json.RawMessage(line))
		}
	}
	of, err := os.Create(os.Getenv("VF_OUT"))
	must(err)
	w := bufio.NewWriterSize(of, 1<<20)
	put := func(v interface{}) {
		b, err := json.Marshal(v)
		must(err)
		w.Write(b)
		w.WriteByte('\n')
	}
	wd, _ := strconv.Atoi(os.Getenv("VF_WATCHDOG"))
	if wd == 0 {
		wd = 30
	}
	go watchdog(wd)

	all := func() {
		for k, s := range scripts {
			put(map[string]int{"start": k})
			w.Flush()
			atomic.AddInt64(&progress, 1)
			atomic.AddInt64(&current, 1)
			trace, fail := d.run(s)
			r := map[string]interface{}{"k": k}
			if trace != nil {
				r["trace"] = trace
			}
			if fail != "" {
				r["fail"] = fail
			}
			put(r)
		}
		put(map[string]bool{"done": true})
		w.Flush()
		of.Close()
		// the code under test leaves goroutines behind, do not wait for them
		if raceBuild {
			time.Sleep(time.Millisecond)
		}
		syscall.Exit(0)
	}
	if d.bubble {
		synctest.Test(t, func(t *testing.T) {
			turn = make(chan struct{}, 1)
			all()
		})
	} else {
		all()
	}
}
