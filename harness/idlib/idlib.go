// Package idlib draws identifiers from the real generators as a script says and records what was returned.
package idlib

import (
	"bufio"
	"encoding/json"
	"os"
	"sort"
	"sync"
	"time"

	"verif.local/harness/vtime"
)

type Step struct {
	Op     string     `json:"op"`
	N      int        `json:"n"`
	P      int        `json:"p"`
	D      int64      `json:"d"` // ms
	Shifts [][2]int64 `json:"shifts"`
}

type Script struct {
	Tid    int    `json:"tid"`
	Kind   string `json:"kind"`
	Dc     int64  `json:"dc"`
	W      int64  `json:"w"`
	Code   string `json:"code"`
	Start  int64  `json:"start"`
	Jitter int    `json:"jitter"`
	Steps  []Step `json:"steps"`
}

// Val is an identifier as a sequence of numbers small enough for TLC, most significant first.
type Val [5]int64

func (a Val) less(b Val) bool {
	for k := range a {
		if a[k] != b[k] {
			return a[k] < b[k]
		}
	}
	return false
}

func V64(v int64) Val {
	if v < 0 {
		return Val{-1, v & 0xfffff, 0, 0, 0}
	}
	return Val{v >> 42, v >> 22 & 0xfffff, v & 0x3fffff}
}
func V32(v int32) Val { return Val{int64(v)} }
func VBcd(o []byte) Val {
	if len(o) != 10 {
		return Val{-1, int64(len(o))}
	}
	return Val{int64(o[0])<<16 | int64(o[1])<<8 | int64(o[2]), int64(o[3])<<8 | int64(o[4]), int64(o[5])<<8 | int64(o[6]),
		int64(o[7])<<16 | int64(o[8])<<8 | int64(o[9])}
}
func VSgip(w []uint32) Val {
	if len(w) != 3 {
		return Val{-1, int64(len(w))}
	}
	t := int64(w[1])
	if t > 1<<30*2-1 {
		t = -1
	}
	return Val{int64(w[0] >> 16), int64(w[0] & 0xffff), t, int64(w[2] >> 16), int64(w[2] & 0xffff)}
}

// num is the running number of an identifier, with ok false if it has no readable one.
func num(kind string, v Val) (pre Val, n int64, ok bool) {
	pre, ok = v, true
	switch kind {
	case "sf64":
		pre[2], n = 0, v[2]
	case "sf32", "cyc":
		pre[0], n = 0, v[0]
	case "bcd":
		m := int64(1)
		for s := 0; s < 24; s += 4 {
			d := v[3] >> s & 15
			if d > 9 {
				ok = false
			}
			n += d * m
			m *= 10
		}
		pre[3] = 0
	case "sgip":
		n = v[3]<<16 | v[4]
		pre[3], pre[4] = 0, 0
	}
	return
}

func unit(kind string) time.Duration {
	switch kind {
	case "sf64":
		return time.Millisecond
	case "bcd":
		return time.Minute
	}
	return time.Second
}

func code(kind string, ts []time.Time) []int64 {
	r := []int64{}
	for _, t := range ts {
		switch kind {
		case "bcd":
			r = append(r, int64(t.Month())*1000000+int64(t.Day())*10000+int64(t.Hour())*100+int64(t.Minute()))
		case "sgip":
			r = append(r, int64(t.Month())*100000000+int64(t.Day())*1000000+int64(t.Hour())*10000+int64(t.Minute())*100+int64(t.Second()))
		}
	}
	if len(r) > 1 {
		sort.Slice(r, func(a, b int) bool { return r[a] < r[b] })
		k := 1
		for _, x := range r[1:] {
			if x != r[k-1] {
				r[k] = x
				k++
			}
		}
		r = r[:k]
	}
	return r
}

type rec struct {
	v    Val
	p, i int
}

// M is one event.
type M = map[string]any

func tup(v Val) []int64 { return append([]int64(nil), v[:]...) }

// runs compresses a sorted list: runs of one caller with a constant difference.
func runs(kind string, l []rec, who bool) []M {
	out := []M{}
	last := map[int]int{}
	for k := 0; k < len(l); {
		pre, n0, ok := num(kind, l[k].v)
		j, d := k+1, int64(0)
		for ok && j < len(l) {
			pre2, n2, ok2 := num(kind, l[j].v)
			if !ok2 || pre2 != pre || who && (l[j].p != l[k].p || l[j].i != l[k].i+j-k) {
				break
			}
			if j == k+1 {
				if d = n2 - n0; d < 1 {
					break
				}
			} else if n2-n0 != d*int64(j-k) {
				break
			}
			j++
		}
		if j == k+1 {
			d = 0
		}
		e := M{"a": tup(l[k].v), "z": tup(l[j-1].v), "n": j - k, "d": d}
		if who {
			e["p"], e["i"], e["prev"] = l[k].p, l[k].i, last[l[k].p]
			last[l[k].p] = len(out) + 1
		}
		out = append(out, e)
		if k = j; k < len(l) && l[k].v == l[k-1].v { // a repeat: the rest can only add more of them
			l = l[:k+1]
		}
	}
	return out
}

func Run(s Script, raw func() Val) M {
	draw := func() (v Val) {
		defer func() {
			if e := recover(); e != nil {
				v = Val{-2}
			}
		}()
		return raw()
	}
	time.Local = time.FixedZone("east", 8*3600)
	u := unit(s.Kind)
	vtime.Set(time.UnixMilli(s.Start), u, s.Jitter)
	defer vtime.Off()
	timed := s.Kind != "cyc"
	var all []rec
	ev := []M{}
	for _, st := range s.Steps {
		var sh []vtime.Shift
		for _, x := range st.Shifts {
			sh = append(sh, vtime.Shift{At: int(x[0]), D: time.Duration(x[1]) * time.Millisecond})
		}
		vtime.Arm(sh)
		switch st.Op {
		case "clk":
			vtime.Step(time.Duration(st.D) * time.Millisecond)
		case "big": // very many calls by one caller, compressed on the fly
			rs := []M{}
			var a, z Val
			var na, nz, d, cnt int64
			var pre Val
			flush := func() {
				if cnt > 0 {
					rs = append(rs, M{"a": tup(a), "z": tup(z), "n": cnt, "d": d})
				}
			}
			for k := 0; k < st.N; k++ {
				v := draw()
				pv, n, ok := num(s.Kind, v)
				if cnt > 0 && ok && pv == pre && (cnt == 1 && n > na || cnt > 1 && n-nz == d) {
					if cnt == 1 {
						d = n - na
					}
					z, nz = v, n
					cnt++
					continue
				}
				flush()
				a, z, na, nz, d, cnt, pre = v, v, n, n, 0, 1, pv
			}
			flush()
			sort.SliceStable(rs, func(x, y int) bool {
				u, v := rs[x]["a"].([]int64), rs[y]["a"].([]int64)
				return Val(u).less(Val(v))
			})
			if len(rs) > 5000 {
				rs = rs[:5000]
			}
			ev = append(ev, M{"e": "all", "runs": rs, "n": st.N})
		case "skip":
			for k := 0; k < st.N; k++ {
				draw()
			}
		case "seq", "par":
			at := vtime.Cur()
			np := max(st.P, 1)
			got := make([][]rec, np)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for p := 0; p < np; p++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					r := make([]rec, st.N)
					<-start
					for k := range r {
						r[k] = rec{draw(), p + 1, k}
						if timed {
							vtime.Mark()
						}
					}
					got[p] = r
				}()
			}
			close(start)
			wg.Wait()
			var l []rec
			for _, r := range got {
				l = append(l, r...)
			}
			less := func(a, b int) bool { return l[a].v.less(l[b].v) }
			if !sort.SliceIsSorted(l, less) {
				sort.SliceStable(l, less)
			}
			ev = append(ev, M{"e": "batch", "runs": runs(s.Kind, l, true), "clk": code(s.Kind, vtime.Between(at))})
			all = append(all, l...)
		case "hist":
			var mu sync.Mutex
			var wg sync.WaitGroup
			for p := 1; p <= st.P; p++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < st.N; k++ {
						mu.Lock()
						ev = append(ev, M{"e": "call", "p": p})
						at := vtime.Cur()
						mu.Unlock()
						v := draw()
						vtime.Mark()
						mu.Lock()
						ev = append(ev, M{"e": "ret", "p": p, "a": tup(v), "clk": code(s.Kind, vtime.Between(at))})
						all = append(all, rec{v, 0, 0})
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
		}
	}
	less := func(a, b int) bool { return all[a].v.less(all[b].v) }
	if !sort.SliceIsSorted(all, less) {
		sort.SliceStable(all, less)
	}
	ev = append(ev, M{"e": "all", "runs": runs(s.Kind, all, false), "n": len(all)})
	return M{"tid": s.Tid, "ev": ev}
}

// Main runs every script of VERIF_IN and writes the traces to VERIF_OUT.
func Main(gen func(Script) func() Val) {
	in, err := os.Open(os.Getenv("VERIF_IN"))
	if err != nil {
		panic(err)
	}
	out, err := os.Create(os.Getenv("VERIF_OUT"))
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(out)
	dec := json.NewDecoder(in)
	enc := json.NewEncoder(w)
	for dec.More() {
		var s Script
		if err := dec.Decode(&s); err != nil {
			panic(err)
		}
		done := make(chan M, 1)
		go func() { done <- Run(s, gen(s)) }()
		select {
		case m := <-done:
			enc.Encode(m)
			w.Flush()
		case <-time.After(100 * time.Second):
			println("fatal: stuck")
			os.Exit(3)
		}
	}
	w.Flush()
	out.Close()
}
