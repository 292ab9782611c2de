package vfharness

// Several scripts at the same time in one process and one bubble: every part
// has its own stack and is recorded as if it were alone (multireal: over real
// sockets, without a bubble).

import (
	"encoding/json"
	"sync"
	"testing/synctest"
)

func init() {
	drivers["multi"] = driver{true, runMulti}
	drivers["multireal"] = driver{false, runMulti}
}

// only one goroutine of a bubble may wait for the others to come to rest
var turn chan struct{}

func settled() {
	turn <- struct{}{}
	synctest.Wait()
	<-turn
}

func runMulti(script json.RawMessage) (interface{}, string) {
	var sc struct {
		Parts []struct {
			Driver string          `json:"driver"`
			Script json.RawMessage `json:"script"`
		} `json:"parts"`
	}
	must(json.Unmarshal(script, &sc))
	out := make([]interface{}, len(sc.Parts))
	why := make([]string, len(sc.Parts))
	var wg sync.WaitGroup
	for k := range sc.Parts {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			out[k], why[k] = drivers[sc.Parts[k].Driver].run(sc.Parts[k].Script)
		}()
	}
	wg.Wait()
	for _, w := range why {
		if w != "" {
			return out, w
		}
	}
	return out, ""
}
