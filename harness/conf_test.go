package vfharness

// Settings, names and parts of several stacks in one process: everything that
// was put in is asked back.

import (
	"encoding/json"
	"fmt"
	"strings"
	"sync/atomic"

	"ustack"
)

func init() {
	drivers["conf"] = driver{true, runConf}
}

type cfOp struct {
	O string `json:"o"` // set get run mtu over name rename addfeat feat feats addep delep eps addtp deltp tps
	U int    `json:"u"` // stack
	K int    `json:"k"` // feature, endpoint or transport
	S string `json:"s"`

	Set setting `json:"set"`
}
type cfEv struct {
	cfOp
	R  int     `json:"r"`
	L  []int   `json:"l"`
	St string  `json:"st"`
	G  setting `json:"got"`
}
type cfScript struct {
	Procs [][]string `json:"procs"` // of each stack
	Feats []string   `json:"feats"` // their names
	Eps   int        `json:"eps"`
	Tps   int        `json:"tps"`
	Ops   []cfOp     `json:"ops"`
}

func runConf(script json.RawMessage) (interface{}, string) {
	var sc cfScript
	must(json.Unmarshal(script, &sc))
	ev := []cfEv{}
	type comp struct {
		set func(string, interface{})
		get func(string) interface{}
	}
	comps := map[string]comp{}
	us := []ustack.UStack{nil}
	proc := func(p ustack.DataProcessor) comp {
		return comp{func(n string, v interface{}) { p.SetOption(n, v) }, p.GetOption}
	}
	tran := func(t ustack.Transport) comp {
		return comp{func(n string, v interface{}) { t.SetOption(n, v) }, t.GetOption}
	}
	for i, names := range sc.Procs {
		u := ustack.NewUStack()
		us = append(us, u)
		id := fmt.Sprint(i + 1)
		comps["stack"+id] = comp{func(n string, v interface{}) { u.SetOption(n, v) }, u.GetOption}
		for _, k := range names {
			p := newProc(stackCfg{Procs: []procCfg{{K: k}}}, 1, nil)
			if k == "hb" {
				p = ustack.NewHeartbeat()
			}
			u.AppendDataProcessor(p)
			comps[k+id] = proc(p)
		}
		comps["tcp"+id] = tran(ustack.NewTCPTransport("t"))
		comps["uds"+id] = tran(ustack.NewUDSTransport("t"))
		comps["ref"+id] = tran(ustack.NewReferenceTransport("t"))
		x := ustack.NewUStackContext()
		comps["context"+id] = comp{func(n string, v interface{}) { x.SetOption(n, v) }, x.GetOption}
	}
	feats := []ustack.Feature{nil}
	for i, n := range sc.Feats {
		f := ustack.NewFeatBase().SetName(n)
		feats = append(feats, f)
		comps["feature"+fmt.Sprint(i+1)] = comp{func(n string, v interface{}) { f.SetOption(n, v) }, f.GetOption}
	}
	eps := []ustack.EndPoint{nil}
	for i := 0; i < sc.Eps; i++ {
		eps = append(eps, ustack.NewEndPoint("e", i))
	}
	tps := []ustack.Transport{nil}
	for i := 0; i < sc.Tps; i++ {
		tps = append(tps, newFakeTransport("t"))
	}
	for _, o := range sc.Ops {
		atomic.AddInt64(&progress, 1)
		e := cfEv{cfOp: o, L: []int{}}
		var u ustack.UStack
		if o.U > 0 {
			u = us[o.U]
		}
		switch o.O {
		case "set":
			comps[o.Set.C].set(o.Set.N, o.Set.value())
		case "get":
			e.G = settingOf(o.Set.C, o.Set.N, comps[o.Set.C].get(o.Set.N))
		case "run":
			u.Run()
		case "mtu":
			e.R = u.GetMTU()
		case "over":
			e.R = u.GetOverhead()
		case "rename":
			u.SetName(o.S)
		case "name":
			e.St = u.GetName()
		case "addfeat":
			u.AddFeature(feats[o.K])
		case "feat":
			f := u.GetFeature(o.S)
			for k := range feats {
				if k > 0 && f != nil && f == feats[k] {
					e.R = k
				}
			}
			if e.R == 0 && f != nil {
				e.R = -1
			}
		case "feats":
			for _, f := range u.GetFeatures() {
				e.L = append(e.L, find(len(feats), func(k int) bool { return feats[k] == f }))
			}
		case "addep":
			u.AddEndPoint(eps[o.K])
		case "delep":
			u.DeleteEndPoint(eps[o.K])
		case "eps":
			for _, x := range u.GetEndPoint() {
				e.L = append(e.L, find(len(eps), func(k int) bool { return eps[k] == x }))
			}
		case "addtp":
			u.AddTransport(tps[o.K])
		case "deltp":
			u.DeleteTransport(tps[o.K])
		case "tps":
			for _, x := range u.GetTransport() {
				e.L = append(e.L, find(len(tps), func(k int) bool { return tps[k] == x }))
			}
		default:
			panic("no such operation " + o.O)
		}
		if strings.HasPrefix(o.O, "add") {
			e.S = ""
		}
		ev = append(ev, e)
	}
	for _, u := range us[1:] {
		for _, x := range eps[1:] {
			u.DeleteEndPoint(x)
		}
		for _, x := range tps[1:] {
			u.DeleteTransport(x)
		}
	}
	return map[string]interface{}{"procs": sc.Procs, "feats": sc.Feats, "ev": ev}, ""
}

func find(n int, is func(int) bool) int {
	for k := 1; k < n; k++ {
		if is(k) {
			return k
		}
	}
	return -1
}
