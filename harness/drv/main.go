// Command drv executes plans against the real packages and records what happened.
//
//	drv PLAN TRACE PROGRESS
//
// PLAN and TRACE hold one session per line.  A session is a list of operations on a small world of caller-owned
// objects (see world.go).  Each operation is recorded with its arguments, its outcome and the objects that changed.
// The driver judges nothing: TLC does, from the trace.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"time"
)

type ev = map[string]any

type session struct {
	Id int  `json:"id"`
	Ev []ev `json:"ev"`
}

var progress *os.File

func mark(id, n int) {
	if progress != nil {
		_, _ = progress.WriteAt([]byte(fmt.Sprintf("%10d %10d\n", id, n)), 0)
	}
}

const opTimeout = 60 * time.Second

// run executes one operation with a watchdog; the outcome field o is ok, err, panic or hang.
func run(w *world, e ev) (hung bool) {
	done := make(chan struct{})
	out := ev{}
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				out["o"] = "panic"
				out["msg"] = fmt.Sprint(r)
			}
		}()
		w.exec(e, out)
	}()
	t := time.NewTimer(opTimeout)
	defer t.Stop()
	select {
	case <-done:
		for k, v := range out {
			e[k] = v
		}
		return false
	case <-t.C:
		e["o"] = "hang"
		return true
	}
}

func main() {
	debug.SetMaxStack(1 << 28)
	debug.SetMemoryLimit(6 << 30)
	in, err := os.Open(os.Args[1])
	check(err)
	out, err := os.Create(os.Args[2])
	check(err)
	progress, err = os.Create(os.Args[3])
	check(err)
	bw := bufio.NewWriterSize(out, 1<<20)
	enc := json.NewEncoder(bw)
	enc.SetEscapeHTML(false)
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var s session
		check(json.Unmarshal(sc.Bytes(), &s))
		w := newWorld()
		hung := false
		for i := 0; i < len(s.Ev); i++ {
			e := s.Ev[i]
			mark(s.Id, i)
			if e["w"] != nil { // calls up to the join are made by goroutines
				j := i
				for j < len(s.Ev) && s.Ev[j]["w"] != nil {
					j++
				}
				if hung = together(w, s.Ev[i:j]); hung {
					s.Ev = s.Ev[:j]
					break
				}
				i = j - 1
				continue
			}
			if hung = run(w, e); hung {
				e["d"] = ev{}
				s.Ev = s.Ev[:i+1]
				break
			}
			e["d"] = w.delta()
		}
		w.close()
		check(enc.Encode(s))
		check(bw.Flush())
		if hung {
			os.Exit(3)
		}
	}
	check(sc.Err())
	mark(-1, -1)
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "drv:", err)
		os.Exit(4)
	}
}
