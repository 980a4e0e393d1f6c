package main

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// fork gives a goroutine its own names for the objects that exist; the objects are shared.
func (w *world) fork() *world {
	f := newWorld()
	for n, v := range w.k {
		f.k[n] = v
	}
	for n, v := range w.b {
		f.b[n], f.full[n] = v, w.full[n]
	}
	for n, v := range w.g {
		f.g[n] = v
	}
	for n, v := range w.l {
		f.l[n] = v
	}
	for n, v := range w.vals {
		f.vals[n] = v
	}
	return f
}

// content shows an object, or nothing if there is none of that name.
func (w *world) content(n string) string {
	if k := w.k[n]; k != nil {
		return hx(k[:])
	}
	if b, ok := w.full[n]; ok {
		return hx(b)
	}
	if l, ok := w.l[n]; ok {
		return listStr(l)
	}
	if v, ok := w.vals[n]; ok {
		return fmt.Sprint(v)
	}
	return ""
}

// together makes the calls of l: those with the same w by one goroutine, in order, all goroutines at the same time
// (or, with VERIF_SEQ, one after another).  A goroutine repeats its calls rep times; what a later round yields that
// differs from what the first did is kept in alts.  With fan, that many more goroutines do the same, on as many
// processors as there are goroutines; what yields something else for them is kept there too.
func together(w *world, l []ev) (hung bool) {
	by := map[int][]ev{}
	var ids []int
	for _, e := range l {
		n := num(e, "w")
		if by[n] == nil {
			ids = append(ids, n)
		}
		by[n] = append(by[n], e)
	}
	sort.Ints(ids)
	seq := os.Getenv("VERIF_SEQ") != ""
	outs := map[int][][]ev{}
	worlds := map[int]*world{}
	width := 0
	for _, n := range ids {
		fan := 1
		if !seq {
			fan += num(by[n][0], "fan")
		}
		outs[n] = make([][]ev, fan)
		width += fan
	}
	if width > 2*runtime.GOMAXPROCS(0) && !seq {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(width))
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, n := range ids {
		for c := range outs[n] {
			f, ops, res := w.fork(), by[n], make([]ev, len(by[n]))
			outs[n][c] = res
			if c == 0 {
				worlds[n] = f
			}
			work := func() {
				rounds := 1
				if !seq {
					rounds += num(ops[0], "rep")
				}
				for r := 0; r < rounds; r++ {
					for i, e := range ops {
						o := one(f, e)
						if r == 0 {
							o["at"] = f.content(str(e, "dst"))
							o["alts"] = []any{}
							res[i] = o
						} else {
							other(res[i], o)
						}
					}
				}
			}
			if seq {
				work()
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				work()
			}()
		}
	}
	close(start)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	t := time.NewTimer(opTimeout)
	defer t.Stop()
	select {
	case <-done:
	case <-t.C:
		for _, e := range l {
			e["o"], e["d"] = "hang", ev{}
		}
		return true
	}
	for _, n := range ids {
		for i, e := range by[n] {
			for _, res := range outs[n][1:] {
				alts := res[i]["alts"].([]any)
				delete(res[i], "alts")
				other(outs[n][0][i], res[i])
				for _, a := range alts {
					other(outs[n][0][i], a.(ev))
				}
			}
			for k, v := range outs[n][0][i] {
				e[k] = v
			}
			e["end"], e["d"] = worlds[n].content(str(e, "dst")), ev{}
		}
	}
	return false
}

func one(f *world, e ev) (out ev) {
	out = ev{}
	defer func() {
		if r := recover(); r != nil {
			out["o"], out["msg"] = "panic", fmt.Sprint(r)
		}
	}()
	f.exec(e, out)
	return
}

// other keeps in a what b, another result of the same call, shows.
func other(a, b ev) {
	if alts := a["alts"].([]any); len(alts) < 4 {
		if d := differs(a, b); d != nil {
			a["alts"] = append(alts, d)
		}
	}
}

// differs shows a later result that is not the first one; random results always differ and are not compared.
func differs(a, b ev) ev {
	for k, v := range b {
		if !reflect.DeepEqual(a[k], v) {
			return b
		}
	}
	return nil
}

// races returns what the race detector reported since the last call.
var racesSeen int

func races() string {
	p := os.Getenv("VERIF_RACELOG")
	if p == "" {
		return ""
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
	if err != nil || len(b) <= racesSeen {
		return ""
	}
	s := string(b[racesSeen:])
	racesSeen = len(b)
	if len(s) > 1500 {
		s = s[:1500]
	}
	return strings.TrimSpace(s)
}
