// Package events drives the real registry of named events.
package events

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	em "github.com/hrygo/gosms/event_manager"
	"github.com/hrygo/log"
	"verif.local/harness/vsync"
)

type M = map[string]any

type Call struct {
	Op  string   `json:"op"`
	P   string   `json:"p"`
	K   string   `json:"k"`
	H   []string `json:"h"`
	A   []string `json:"a"`
	Via string   `json:"via"`
}

type Case struct {
	Tid     int               `json:"tid"`
	Threads [][]Call          `json:"threads"`
	Do      map[string][]Call `json:"do"` // calls a handler makes when it runs
	Rounds  int               `json:"rounds"`
	Jitter  int               `json:"jitter"`
}

type round struct {
	sync.Mutex
	c     *Case
	ev    []M
	n     int
	stack map[string][]string // goroutine -> the calls it is in
	chans []chanOf
	depth int
}

type chanOf struct {
	id string
	ch <-chan bool
}

func goid() string {
	b := make([]byte, 40)
	return strings.Fields(string(b[:runtime.Stack(b, false)]))[1]
}

func nn(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

func (r *round) handler(name string) em.Event {
	return func(args ...any) {
		g := goid()
		a := []string{}
		for _, x := range args {
			a = append(a, fmt.Sprint(x))
		}
		r.Lock()
		id := "?"
		if s := r.stack[g]; len(s) > 0 {
			id = s[len(s)-1]
		}
		r.ev = append(r.ev, M{"t": "run", "id": id, "h": name, "a": a})
		deep := len(r.stack[g]) > 2
		r.Unlock()
		if !deep {
			for _, c := range r.c.Do[name] {
				r.call(g, c)
			}
		}
	}
}

func (r *round) call(g string, c Call) {
	if c.Op == "poll" {
		r.poll()
		return
	}
	var hs []em.Event
	for _, h := range c.H {
		hs = append(hs, r.handler(h))
	}
	var as []any
	for _, a := range c.A {
		as = append(as, a)
	}
	r.Lock()
	r.n++
	id := fmt.Sprintf("o%d", r.n)
	r.stack[g] = append(r.stack[g], id)
	r.ev = append(r.ev, M{"t": "inv", "id": id, "c": M{"op": c.Op, "p": c.P, "k": c.K, "h": nn(c.H), "a": nn(c.A)}})
	r.Unlock()
	m := em.CreateEventManage(c.P)
	res := false
	var ch <-chan bool
	switch c.Op {
	case "register":
		if c.Via == "hook" {
			res = em.RegisterShutdownHooker(c.K, hs...)
		} else {
			res = m.Register(c.K, hs...)
		}
	case "hookchan":
		ch = em.RegisterShutdownHookerAddChan(c.K, hs...)
		res = ch != nil
	case "get":
		var e em.Event
		e, res = m.Get(c.K)
		res = res && e != nil
	case "call":
		if c.Via == "get" {
			if e, ok := m.Get(c.K); ok {
				e(as...)
			}
		} else {
			m.Call(c.K, as...)
		}
	case "delete":
		m.Delete(c.K)
	case "fuzzy":
		if c.Via == "shutdown" {
			em.GracefullyShutdown()
		} else {
			m.FuzzyCall()
		}
	}
	r.Lock()
	r.ev = append(r.ev, M{"t": "ret", "id": id, "r": res})
	s := r.stack[g]
	r.stack[g] = s[:len(s)-1]
	if ch != nil {
		r.chans = append(r.chans, chanOf{id, ch})
	}
	r.Unlock()
}

func (r *round) poll() {
	r.Lock()
	defer r.Unlock()
	for _, c := range r.chans {
		got := false
		select {
		case got = <-c.ch:
		default:
		}
		r.ev = append(r.ev, M{"t": "poll", "id": c.id, "r": got})
	}
}

func one(c *Case) []M {
	r := &round{c: c, stack: map[string][]string{}}
	var start, done sync.WaitGroup
	start.Add(1)
	for _, cs := range c.Threads {
		cs := cs
		done.Add(1)
		go func() {
			defer done.Done()
			g := goid()
			start.Wait()
			for _, x := range cs {
				r.call(g, x)
			}
		}()
	}
	start.Done()
	done.Wait()
	r.poll()
	// leave nothing behind
	m := em.CreateEventManage("")
	drop := func(x Call) {
		m.Delete(x.K)
		if !strings.HasPrefix(x.K, x.P) {
			m.Delete(x.P + x.K)
		}
	}
	for _, cs := range c.Threads {
		for _, x := range cs {
			drop(x)
		}
	}
	for _, cs := range c.Do {
		for _, x := range cs {
			drop(x)
		}
	}
	return r.ev
}

func TestDrive(t *testing.T) {
	log.ResetDefault(log.New(devnull{}, log.FatalLevel))
	fin, err := os.Open(os.Getenv("VERIF_IN"))
	if err != nil {
		t.Fatal(err)
	}
	fout, err := os.Create(os.Getenv("VERIF_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	w := bufio.NewWriter(fout)
	sc := bufio.NewScanner(fin)
	sc.Buffer(nil, 1<<28)
	for sc.Scan() {
		var c Case
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			t.Fatal(err)
		}
		vsync.Jitter = c.Jitter
		dog := time.AfterFunc(60*time.Second, func() { println("fatal: stuck"); os.Exit(3) })
		seen, out := map[string]bool{}, [][]M{}
		for k := 0; k < max(1, c.Rounds); k++ {
			ev := one(&c)
			b, _ := json.Marshal(ev)
			if !seen[string(b)] {
				seen[string(b)] = true
				out = append(out, ev)
			}
		}
		dog.Stop()
		b, err := json.Marshal(M{"tid": c.Tid, "out": out})
		if err != nil {
			t.Fatal(err)
		}
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
}

type devnull struct{}

func (devnull) Write(b []byte) (int, error) { return len(b), nil }
