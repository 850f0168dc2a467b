// Drives real client sessions over connections the driver plays the gateway on, in bubbles of virtual time.
package clisess

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/codec/sgip"
	"github.com/hrygo/gosms/smc_client/session"
	"github.com/hrygo/gosms/utils"
	"github.com/hrygo/log"
	"verif.local/harness/clilib"
	"verif.local/harness/wire"
)

type M = map[string]any

// Oct is a sequence of octets, written as a list of numbers.
type Oct []byte

func (b Oct) MarshalJSON() ([]byte, error) {
	s := make([]string, len(b))
	for k, x := range b {
		s[k] = fmt.Sprint(x)
	}
	return []byte("[" + strings.Join(s, ",") + "]"), nil
}

func (b *Oct) UnmarshalJSON(j []byte) error {
	var v []int
	if err := json.Unmarshal(j, &v); err != nil {
		return err
	}
	*b = make(Oct, len(v))
	for k, x := range v {
		(*b)[k] = byte(x)
	}
	return nil
}

type Op struct {
	O    string `json:"o"`
	D    Oct    `json:"d"`
	To   string `json:"to"`
	Text string `json:"text"`
	N    int    `json:"n"`
	Gap  int    `json:"gap"` // pause before the operation, in jitter units
}

type Case struct {
	Tid    int    `json:"tid"`
	Isp    string `json:"isp"`
	Ver    int    `json:"ver"`
	Acct   string `json:"acct"`
	Secret string `json:"secret"`
	Ans    []Oct  `json:"ans"`   // the answer to the login, in segments
	Patch  bool   `json:"patch"` // it carries the request's sequence number
	Eof    bool   `json:"eof"`
	Wfail  bool   `json:"wfail"` // the login request cannot be written
	Ev     [][][]Op
	Rounds int `json:"rounds"`
	Jitter int `json:"jitter"`
	Keep   int `json:"keep"`
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}

type run struct {
	c    *Case
	conn *clilib.Conn
	s    *session.Session
	ev   []M
	left []byte
}

// packets cuts what the client wrote; a packet of the client's own is known by its sequence number.
func (r *run) packets() []M {
	r.left = append(r.left, r.conn.Taken()...)
	out := []M{}
	for len(r.left) >= 12 {
		n := int(binary.BigEndian.Uint32(r.left))
		if n < 12 || n > len(r.left) {
			break
		}
		p := r.left[:n]
		r.left = r.left[n:]
		out = append(out, r.packet(p))
	}
	if len(r.left) > 0 {
		out = append(out, M{"k": "bad", "to": "", "d": Oct(r.left)})
		r.left = nil
	}
	return out
}

func (r *run) packet(p []byte) M {
	cmd := binary.BigEndian.Uint32(p[4:])
	seq := Oct(p[8:12])
	if r.c.Isp == wire.SGIP && len(p) >= 20 {
		seq = Oct(p[12:20])
	}
	switch wire.KindOf(r.c.Isp, cmd) {
	case "submit":
		m := wire.Up(r.c.Isp, r.c.Ver, p, func(string) (string, bool) { return "", false })
		if m["k"] == "submit" {
			return M{"k": "sub", "to": m["to"], "d": seq}
		}
	case "active":
		if len(p) == 12 {
			return M{"k": "hb", "to": "", "d": seq}
		}
	}
	return M{"k": "pkt", "to": "", "d": Oct(p)}
}

func (r *run) login() {
	c := r.c
	ac := &codec.AuthConf{ISP: c.Isp, ClientId: c.Acct, LoginName: c.Acct, SharedSecret: c.Secret, Version: byte(c.Ver), SmsDisplayNo: "10690001",
		ServiceId: "svc", MtValidDuration: time.Hour, FeeType: "01", FeeCode: "0"}
	var req []byte
	r.conn.OnWrite = func(p []byte) { req = append(req, p...) }
	if c.Wfail {
		r.conn.BreakWrites()
	}
	done := false
	go func() {
		r.s = session.NewSession(c.Isp, ac, r.conn)
		done = true
	}()
	synctest.Wait()
	seq := []byte{}
	if len(req) >= 20 {
		seq = req[8:12]
		if c.Isp == wire.SGIP {
			seq = req[8:20]
		}
	}
	ans := []byte{}
	for _, s := range c.Ans {
		ans = append(ans, s...)
	}
	if c.Patch && len(ans) > 8 {
		copy(ans[8:], seq)
	}
	same := len(seq) > 0 && len(ans) >= 8+len(seq) && string(ans[8:8+len(seq)]) == string(seq)
	k := 0
	for _, s := range c.Ans {
		r.conn.Feed(ans[k : k+len(s)])
		k += len(s)
		if len(c.Ans) > 1 {
			synctest.Wait()
		}
	}
	eof := c.Eof
	if eof {
		r.conn.End()
	}
	synctest.Wait()
	if !done && !eof {
		time.Sleep(200 * time.Millisecond)
		synctest.Wait()
		if !done {
			eof = true
			r.conn.End()
			synctest.Wait()
		}
	}
	r.conn.OnWrite = nil
	if !done {
		r.ev = append(r.ev, M{"e": "crash", "why": "NewSession does not return although the gateway closed the connection"})
		r.conn.Close()
		return
	}
	reqs := []M{}
	all := r.packets()
	rest := []M{}
	for _, p := range all {
		d, _ := p["d"].(Oct)
		if p["k"] == "pkt" && len(d) >= 12 && wire.KindOf(c.Isp, binary.BigEndian.Uint32(d[4:])) == "login" {
			m := wire.Up(c.Isp, c.Ver, d, func(a string) (string, bool) { return c.Secret, a == c.Acct })
			delete(m, "seq")
			reqs = append(reqs, m)
		} else {
			rest = append(rest, p)
		}
	}
	r.ev = append(r.ev, M{"e": "login", "reqs": reqs, "ans": Oct(ans), "same": same, "eof": eof, "wfail": c.Wfail, "ok": r.s != nil, "out": rest, "closed": r.conn.Closed()})
}

func (r *run) op(o Op, rec M) {
	switch o.O {
	case "feed":
		r.conn.Feed(o.D)
	case "eof":
		r.conn.End()
	case "brk":
		r.conn.BreakWrites()
	case "close":
		r.s.Close()
	case "live":
		rec["r"] = r.s.HealthCheck()
	case "active":
		_ = r.s.ActiveTest()
	case "send":
		res := []M{}
		for _, x := range r.s.Send(o.To, o.Text) {
			q := x.(*session.Result)
			b := make([]byte, 8)
			binary.BigEndian.PutUint64(b, q.SequenceId)
			if r.c.Isp != wire.SGIP {
				b = b[4:]
			}
			res = append(res, M{"s": Oct(b), "to": q.Phone})
		}
		rec["res"] = res
	default:
		panic(o.O)
	}
}

func (r *run) event(th [][]Op, rnd *rand.Rand) {
	rec := make([][]M, len(th))
	var over []*atomic.Int32
	start := make(chan struct{})
	spin := func(n int) {
		for ; n > 0; n-- {
			runtime.Gosched()
		}
	}
	for t, ops := range th {
		n := &atomic.Int32{}
		over = append(over, n)
		rec[t] = []M{}
		for _, o := range ops {
			d := o.D
			if d == nil {
				d = Oct{}
			}
			rec[t] = append(rec[t], M{"o": o.O, "d": d, "to": o.To, "n": o.N, "res": []M{}, "r": false, "b": true})
		}
		gaps := make([]int, len(ops))
		if r.c.Jitter > 0 {
			for k := range gaps {
				gaps[k] = rnd.Intn(1 + r.c.Jitter*(1+ops[k].Gap))
			}
		}
		go func() {
			<-start
			for k, o := range ops {
				if o.O == "idle" {
					time.Sleep(time.Duration(o.N) * time.Millisecond)
				} else {
					spin(gaps[k])
					r.op(o, rec[t][k])
				}
				n.Add(1)
			}
		}()
	}
	close(start)
	wait := time.Duration(0)
	for _, ops := range th {
		w := time.Duration(0)
		for _, o := range ops {
			if o.O == "idle" {
				w += time.Duration(o.N) * time.Millisecond
			}
		}
		wait = max(wait, w)
	}
	if wait > 0 {
		time.Sleep(wait + time.Millisecond)
	}
	synctest.Wait()
	all := make([][]M, len(th))
	for t := range th {
		all[t] = []M{}
		n := int(over[t].Load())
		for k, m := range rec[t] {
			if k < n {
				m["b"] = false
				all[t] = append(all[t], m)
			} else { // still in it
				all[t] = append(all[t], M{"o": m["o"], "d": m["d"], "to": m["to"], "n": m["n"], "res": []M{}, "r": false, "b": true})
			}
		}
	}
	r.ev = append(r.ev, M{"e": "par", "th": all, "out": r.packets(), "closed": r.conn.Closed()})
}

var seeds atomic.Int64

func Run(t *testing.T, c *Case) [][]M {
	count := map[string]int{}
	by := map[string][]M{}
	var order []string
	for n := 0; n < max(c.Rounds, 1); n++ {
		var ev []M
		rnd := rand.New(rand.NewSource(int64(c.Tid)*1000003 + int64(n)))
		codec.B32Seq = utils.NewCycleSequence(0, 1)
		sgip.NewSequencer(3037196688, 7)
		session.SequenceIdResultCacheMap.Range(func(k, v any) bool { session.SequenceIdResultCacheMap.Delete(k); return true })
		session.MsgIdResultCacheMap.Range(func(k, v any) bool { session.MsgIdResultCacheMap.Delete(k); return true })
		synctest.Test(t, func(t *testing.T) {
			r := &run{c: c, conn: clilib.NewConn("")}
			if c.Jitter > 0 {
				var mu sync.Mutex
				r.conn.Pause = func() {
					mu.Lock()
					k := rnd.Intn(1 + c.Jitter)
					mu.Unlock()
					for ; k > 0; k-- {
						runtime.Gosched()
					}
				}
			}
			r.login()
			if r.s != nil && r.ev[len(r.ev)-1]["e"] != "crash" {
				for _, th := range c.Ev {
					r.event(th, rnd)
				}
			}
			ev = r.ev
			// end it all: whatever still runs of the client must end with its connection
			r.conn.End()
			r.conn.Close()
			synctest.Wait()
		})
		b, err := json.Marshal(ev)
		check(err)
		if count[string(b)]++; count[string(b)] == 1 {
			order = append(order, string(b))
			by[string(b)] = ev
		}
		if ev[len(ev)-1]["e"] == "crash" {
			break
		}
	}
	// the rarest outcomes
	sort.SliceStable(order, func(i, j int) bool { return count[order[i]] < count[order[j]] })
	res := [][]M{}
	for _, x := range order[:min(len(order), max(c.Keep, 1))] {
		res = append(res, by[x])
	}
	return res
}

type devnull struct{}

func (devnull) Write(b []byte) (int, error) { return len(b), nil }

func TestDrive(t *testing.T) {
	log.ResetDefault(log.New(devnull{}, log.FatalLevel))
	fin, err := os.Open(os.Getenv("VERIF_IN"))
	check(err)
	fout, err := os.Create(os.Getenv("VERIF_OUT"))
	check(err)
	in := bufio.NewScanner(fin)
	in.Buffer(make([]byte, 1<<20), 1<<28)
	for in.Scan() {
		var c Case
		check(json.Unmarshal(in.Bytes(), &c))
		dog := time.AfterFunc(20*time.Second, func() {
			buf := make([]byte, 1<<16)
			fmt.Fprintf(os.Stderr, "fatal: stuck\n%s\n", buf[:runtime.Stack(buf, true)])
			os.Exit(3)
		})
		got := Run(t, &c)
		dog.Stop()
		b, err := json.Marshal(M{"tid": c.Tid, "ev": got})
		check(err)
		fout.Write(append(b, '\n'))
	}
}
