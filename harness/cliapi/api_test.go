// Drives the real client through its API in a bubble of virtual time; the driver plays the gateways. One case per process.
package cliapi

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/hrygo/gosms/auth"
	"github.com/hrygo/gosms/event_manager"
	sms "github.com/hrygo/gosms/smc_client"
	"github.com/hrygo/gosms/smc_client/session"
	"github.com/hrygo/log"
	"github.com/hrygo/yaml_config"
	"github.com/spf13/viper"
	"verif.local/harness/clilib"
	"verif.local/harness/vlock"
	"verif.local/harness/vnet"
	"verif.local/harness/wire"
)

type M = map[string]any

type OpCfg struct {
	Acct string `json:"acct"`
	Ver  int    `json:"ver"`
	Conf bool   `json:"conf"`
	Addr string `json:"addr"`
	Seg  string `json:"seg"`
	Max  int    `json:"max"`
	Win  int    `json:"win"`
	Thr  int    `json:"thr"`
	Tick int    `json:"tick"`
	Mode string `json:"mode"`
}

type Send struct {
	Phones []string `json:"phones"`
	N      int      `json:"n"`
	Text   string   `json:"text"`
	One    bool     `json:"one"` // through Send
}

type Step struct {
	O    string   `json:"o"`
	Ms   int      `json:"ms"`
	Th   [][]Send `json:"th"`
	Op   string   `json:"op"`
	M    string   `json:"m"`
	I    int      `json:"i"`
	Via  int      `json:"via"`
	St   int      `json:"st"`
	Rep  string   `json:"rep"`
	Qid  int64    `json:"qid"`
	Alt  int      `json:"alt"`  // another message id
	Part int      `json:"part"` // brk: after so many more parts
}

type Case struct {
	Tid    int              `json:"tid"`
	Ops    map[string]OpCfg `json:"ops"`
	Exp    int              `json:"exp"`
	Chk    int              `json:"chk"`
	Hand   string           `json:"hand"` // "yes", "nil", "no"
	Auto   string           `json:"auto"`
	Slow   int              `json:"slow"`
	Jitter int              `json:"jitter"`
	Steps  []Step           `json:"steps"`
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}

type conf struct{ c *Case }

func (c *conf) op(k string) (OpCfg, string) {
	a, b, _ := strings.Cut(strings.ToLower(k), ".")
	o, ok := c.c.Ops[a]
	if !ok || !o.Conf {
		return OpCfg{}, b
	}
	return o, b
}
func (c *conf) ConfigFileChangeListen()                     {}
func (c *conf) Clone(fileName string) yaml_config.YmlConfig { return c }
func (c *conf) Get(k string) interface{}                    { return nil }
func (c *conf) GetString(k string) string {
	o, f := c.op(k)
	switch f {
	case "client-id":
		return o.Acct
	case "address":
		return o.Addr
	case "segment":
		return o.Seg
	case "bcd":
		return "010203"
	}
	return ""
}
func (c *conf) GetBool(k string) bool { return false }
func (c *conf) GetInt(k string) int {
	o, f := c.op(k)
	switch f {
	case "max-conns":
		return o.Max
	case "mt-window-size":
		return o.Win
	case "throughput":
		return o.Thr
	case "sgip":
		return 3037196688
	}
	return 0
}
func (c *conf) GetInt32(k string) int32 {
	if strings.EqualFold(k, "snowflake.sgip") {
		n := uint32(3037196688)
		return int32(n)
	}
	return int32(c.GetInt(k))
}
func (c *conf) GetInt64(k string) int64     { return int64(c.GetInt(k)) }
func (c *conf) GetFloat64(k string) float64 { return float64(c.GetInt(k)) }
func (c *conf) GetDuration(k string) time.Duration {
	switch strings.ToLower(k) {
	case "cache.expire-time":
		return time.Duration(c.c.Exp) * time.Millisecond
	case "cache.expire-check-duration":
		return time.Duration(c.c.Chk) * time.Millisecond
	}
	if o, f := c.op(k); f == "tick-duration" {
		return time.Duration(o.Tick) * time.Millisecond
	}
	return 0
}
func (c *conf) GetStringSlice(k string) []string { return nil }
func (c *conf) Viper() *viper.Viper              { return viper.New() }
func (c *conf) BasePath() string                 { return "" }

type store struct{ c *Case }

func (s *store) Load() {}
func (s *store) FindByCid(isp, cid string) *auth.Client {
	o := s.c.Ops[strings.ToLower(isp)]
	if !o.Conf || o.Acct != cid {
		return nil
	}
	return &auth.Client{ISP: isp, ClientId: cid, LoginName: cid, SharedSecret: "pw", Version: byte(o.Ver), NeedReport: 1, SmsDisplayNo: "10690001", ServiceId: "svc",
		FeeType: "01", FeeCode: "0", MtValidDuration: time.Hour}
}

type gw struct {
	*clilib.Conn
	id   int
	op   string
	cfg  OpCfg
	deaf bool // whatever is written from now on is lost
}

type part struct {
	g   *gw
	seq string // on the wire
	key string
}

type run struct {
	sync.Mutex
	c     *Case
	base  time.Time
	ev    []M
	conns []*gw
	mode  map[string]string
	parts []*part
	sends int
	qids  []string
	brk   int  // parts until the connection breaks
	quiet bool // heartbeats are not answered
	over  bool
}

func (r *run) rec(m M) {
	r.Lock()
	defer r.Unlock()
	r.put(m)
}

func (r *run) put(m M) {
	if r.over {
		return
	}
	m["t"] = int(time.Since(r.base)/time.Millisecond) + 1000
	r.ev = append(r.ev, m)
}

func (r *run) dial(addr string) (net.Conn, error) {
	var op string
	for k, o := range r.c.Ops {
		if o.Addr == addr {
			op = k
		}
	}
	r.Lock()
	m := r.mode[op]
	r.Unlock()
	if strings.HasPrefix(m, "slow") {
		time.Sleep(time.Duration(r.c.Slow) * time.Millisecond)
	}
	r.Lock()
	defer r.Unlock()
	m = r.mode[op]
	if op == "" || m == "refuse" {
		r.put(M{"e": "refused", "op": op})
		return nil, errors.New("connection refused")
	}
	g := &gw{Conn: clilib.NewConn(""), id: len(r.conns) + 1, op: op, cfg: r.c.Ops[op]}
	r.conns = append(r.conns, g)
	r.put(M{"e": "conn", "op": op, "c": g.id, "ok": m != "bad"})
	bad := m == "bad"
	g.OnClose = func() { r.leave(g, "gone") }
	g.OnWrite = func(p []byte) { r.got(g, p, bad, strings.HasSuffix(m, "login")) }
	return g, nil
}

func (r *run) got(g *gw, p []byte, bad, slow bool) {
	for len(p) >= 12 {
		n := int(binary.BigEndian.Uint32(p))
		if n < 12 || n > len(p) {
			break
		}
		r.packet(g, p[:n], bad, slow)
		p = p[n:]
	}
	if len(p) > 0 {
		r.rec(M{"e": "garbage", "c": g.id})
	}
}

func (r *run) packet(g *gw, p []byte, bad, slow bool) {
	m := wire.Up(g.op, g.cfg.Ver, p, func(a string) (string, bool) { return "pw", a == g.cfg.Acct })
	seq, _ := m["seq"].(string)
	switch m["k"] {
	case "login":
		if m["cred"] != true || m["acct"] != g.cfg.Acct {
			r.rec(M{"e": "garbage", "c": g.id})
		}
		st := 0
		if bad {
			st = 1
		}
		a := wire.LoginResp(g.op, seq, g.cfg.Ver, st)
		if slow {
			time.AfterFunc(time.Duration(r.c.Slow)*time.Millisecond, func() { r.feed(g, a) })
		} else {
			r.feed(g, a)
		}
	case "active":
		r.rec(M{"e": "beat", "c": g.id})
		r.Lock()
		q := r.quiet || g.deaf
		r.Unlock()
		if !q {
			r.feed(g, wire.Simple(g.op, "aresp", seq, g.cfg.Ver, "", 0))
		}
	case "submit":
		key := seq
		if g.op == wire.SGIP {
			var a, b, c uint64
			fmt.Sscanf(seq, "%d.%d.%d", &a, &b, &c)
			key = fmt.Sprint(b<<32 | c)
		}
		r.Lock()
		r.parts = append(r.parts, &part{g, seq, key})
		k := len(r.parts) - 1
		r.put(M{"e": "sub", "c": g.id, "to": m["to"], "key": key})
		if g.deaf {
			r.Unlock()
			return
		}
		cut, mute := false, r.brk > 0 // no answers a broken connection may swallow
		if r.brk > 0 {
			r.brk--
			if cut = r.brk == 0; cut {
				g.deaf = true
				r.put(M{"e": "down", "c": g.id})
			}
		}
		r.Unlock()
		if cut {
			g.End()
			return
		}
		if r.c.Jitter > 0 {
			for n := rand.Intn(1 + r.c.Jitter); n > 0; n-- {
				runtime.Gosched()
			}
		}
		auto := r.auto(k)
		if mute {
			auto = ""
		}
		switch auto {
		case "now":
			r.answer(k, k%7, 0)
		case "nowrpt":
			r.answer(k, 0, 0)
			r.report(k, "DELIVRD", 0, 0)
		case "rptfirst":
			r.report(k, "UNDELIV", 0, 0)
			r.answer(k, 0, 0)
		}
	case "tresp", "dresp", "aresp", "amb":
	default:
		r.rec(M{"e": "garbage", "c": g.id})
	}
}

func (r *run) auto(k int) string {
	if r.c.Auto == "mix" {
		return []string{"now", "nowrpt", "rptfirst", ""}[(k*7+k/3)%4]
	}
	return r.c.Auto
}

// mids: on the wire, and as shown to the user. They differ in few digits.
func (r *run) mid(k, alt int) (string, string) {
	p := r.parts[k]
	if p.g.op != wire.SGIP {
		return mid(p.g.op, k+1000*alt)
	}
	var a, b, c uint64
	fmt.Sscanf(p.seq, "%d.%d.%d", &a, &b, &c)
	return "", fmt.Sprintf("%010d%010d%08x", a, b, c)
}

func mid(op string, k int) (string, string) {
	n := uint64(k + 1)
	if op == wire.CMPP {
		if k%2 == 1 {
			n <<= 40
		}
		return fmt.Sprint(n), fmt.Sprintf("%016x", n)
	}
	s := fmt.Sprintf("%020x", n)
	if k%2 == 1 {
		s = fmt.Sprintf("%016x%04x", uint64(0x3100000000000000), n)
	}
	return s, s
}

func (r *run) answer(k, st, alt int) {
	r.Lock()
	p := r.parts[k]
	if p.g.Gone() {
		r.Unlock()
		return
	}
	w, shown := r.mid(k, alt)
	r.put(M{"e": "ans", "key": p.key, "res": fmt.Sprint(st), "mid": shown})
	r.Unlock()
	r.feed(p.g, wire.SubmitResp(p.g.op, p.seq, p.g.cfg.Ver, st, w))
}

func (r *run) report(k int, stat string, via, alt int) {
	r.Lock()
	p := r.parts[k]
	g := p.g
	if via > 0 || g.Gone() { // on another connection of the same operator
		var open []*gw
		for _, x := range r.conns {
			if x.op == g.op && !x.Gone() {
				open = append(open, x)
			}
		}
		if len(open) == 0 || g.op == wire.SGIP {
			r.Unlock()
			return
		}
		g = open[via%len(open)]
	}
	if g.op == wire.SGIP {
		r.Unlock()
		return
	}
	w, shown := r.mid(k, alt)
	r.put(M{"e": "rpt", "mid": shown, "rep": stat})
	r.Unlock()
	own, _ := mid(g.op, k+70000)
	r.feed(g, wire.Report(g.op, fmt.Sprint(1000+k), g.cfg.Ver, wire.ReportF{Mid: w, Stat: stat, From: "13800000000", To: "10690001", Own: own}))
}

// feed sends the client something from the gateway.
func (r *run) feed(g *gw, p []byte) {
	r.rec(M{"e": "word", "c": g.id})
	g.Feed(p)
}

func (r *run) leave(g *gw, e string) {
	r.Lock()
	defer r.Unlock()
	g.deaf = true
	r.put(M{"e": e, "c": g.id})
}

func (r *run) down(g *gw) {
	r.leave(g, "down")
	g.End()
}

var base time.Time

// ms is a time as the trace counts it, 0 if there is none.
func ms(t time.Time) int {
	if t.IsZero() {
		return 0
	}
	return int(t.Sub(base)/time.Millisecond) + 1000
}

func show(x any) M {
	q, ok := x.(*session.Result)
	if !ok {
		v := x.(session.Result)
		q = &v
	}
	return M{"qid": fmt.Sprint(q.QueryId), "to": q.Phone, "key": fmt.Sprint(q.SequenceId), "res": fmt.Sprint(q.Result), "mid": q.MsgId, "rep": q.Report, "st": ms(q.SendTime), "at": ms(q.ResponseTime), "rt": ms(q.ReportTime)}
}

func shows(l []any) []M {
	out := []M{}
	for _, x := range l {
		out = append(out, show(x))
	}
	return out
}

func (r *run) send(s Send) {
	r.Lock()
	r.sends++
	id := r.sends
	r.qids = append(r.qids, "")
	r.put(M{"e": "call", "s": id, "ph": s.Phones, "n": s.N})
	r.Unlock()
	var q int64
	if s.One {
		q = sms.Send(s.Text, s.Phones[0])
	} else {
		q = sms.SendN(s.Text, s.Phones)
	}
	r.Lock()
	r.qids[id-1] = fmt.Sprint(q)
	r.put(M{"e": "back", "s": id, "qid": fmt.Sprint(q)})
	r.Unlock()
}

func size(m interface{ Range(func(k, v any) bool) }) int {
	n := 0
	m.Range(func(k, v any) bool { n++; return true })
	return n
}

func (r *run) step(s Step) {
	switch s.O {
	case "adv":
		time.Sleep(time.Duration(s.Ms) * time.Millisecond)
	case "send":
		start := make(chan struct{})
		for _, l := range s.Th {
			go func() {
				<-start
				for _, x := range l {
					r.send(x)
				}
			}()
		}
		close(start)
	case "mode":
		r.Lock()
		r.mode[s.Op] = s.M
		r.put(M{"e": "mode", "op": s.Op, "m": s.M})
		r.Unlock()
	case "brk":
		r.Lock()
		r.brk = s.Part
		r.Unlock()
	case "quiet":
		r.Lock()
		r.quiet = s.I > 0
		r.Unlock()
	case "down", "bye", "cut", "ping":
		r.Lock()
		var open []*gw
		for _, x := range r.conns {
			if x.op == s.Op && !x.Gone() {
				open = append(open, x)
			}
		}
		r.Unlock()
		if len(open) == 0 {
			return
		}
		g := open[s.I%len(open)]
		if s.O == "ping" { // the gateway's own heartbeat
			r.feed(g, wire.Simple(g.op, "active", "78", g.cfg.Ver, "", 0))
		} else if s.O == "cut" { // writes fail from now on
			g.OnFail = func() {
				r.Lock()
				defer r.Unlock()
				if !g.deaf {
					g.deaf = true
					r.put(M{"e": "down", "c": g.id})
				}
			}
			g.BreakWrites()
		} else if s.O == "bye" { // the gateway ends the session politely
			r.leave(g, "down")
			g.Feed(wire.Simple(g.op, "term", "77", g.cfg.Ver, "", 0))
		} else {
			r.down(g)
		}
	case "ans":
		if len(r.parts) > s.I {
			r.answer(s.I, s.St, s.Alt)
		}
	case "rpt":
		if len(r.parts) > s.I {
			r.report(s.I, s.Rep, s.Via, s.Alt)
		}
	case "stray": // a report that comes long before its message, or never belongs to one
		r.Lock()
		var g *gw
		for _, x := range r.conns {
			if x.op == s.Op && !x.Gone() {
				g = x
			}
		}
		k := len(r.parts) + s.I
		r.Unlock()
		if g != nil {
			w, shown := mid(s.Op, k)
			r.rec(M{"e": "rpt", "mid": shown, "rep": s.Rep})
			own, _ := mid(s.Op, k+70000)
			r.feed(g, wire.Report(g.op, fmt.Sprint(1000+k), g.cfg.Ver, wire.ReportF{Mid: w, Stat: s.Rep, From: "13800000000", To: "10690001", Own: own}))
		}
	case "create": // several callers set the pools up by hand
		start := make(chan struct{})
		for k := range s.I {
			go func() {
				<-start
				for range k % 3 {
					runtime.Gosched()
				}
				sms.CreateSessionFactory(s.Op)
			}()
		}
		close(start)
	case "query":
		q := s.Qid
		if s.I > 0 {
			if len(r.qids) < s.I || r.qids[s.I-1] == "" {
				return
			}
			fmt.Sscan(r.qids[s.I-1], &q)
		}
		r.rec(M{"e": "query", "qid": fmt.Sprint(q), "got": shows(sms.Query(q))})
	case "shut":
		r.rec(M{"e": "shut"})
		event_manager.GracefullyShutdown()
	default:
		panic(s.O)
	}
	synctest.Wait()
}

func Run(t *testing.T, c *Case, done func([]M)) {
	synctest.Test(t, func(t *testing.T) {
		time.Sleep(time.Until(time.Date(2031, 1, 1, 0, 0, 0, 0, time.UTC)))
		cf := &conf{c}
		sms.ConfigYml = cf
		auth.Cache = &store{c}
		sms.SeqInit()
		r := &run{c: c, base: time.Now(), mode: map[string]string{}}
		base = r.base
		for k, o := range c.Ops {
			r.mode[k] = o.Mode
		}
		vnet.OnDial = r.dial
		vlock.Jitter = c.Jitter
		switch c.Hand {
		case "yes":
			sms.StartCacheExpireTicker(func(l []any) {
				go func() { // looked at when the client has gone on
					for range 300 {
						runtime.Gosched()
					}
					r.rec(M{"e": "batch", "got": shows(l)})
				}()
			})
		case "nil":
			sms.StartCacheExpireTicker(nil)
		}
		for _, s := range c.Steps {
			r.step(s)
			r.rec(M{"e": "at"})
		}
		r.Lock()
		r.put(M{"e": "end", "seqs": size(&session.SequenceIdResultCacheMap), "mids": size(&session.MsgIdResultCacheMap)})
		r.over = true
		r.Unlock()
		done(r.ev)
		os.Exit(0)
	})
}

type devnull struct{}

func (devnull) Write(b []byte) (int, error) { return len(b), nil }

func TestDrive(t *testing.T) {
	log.ResetDefault(log.New(devnull{}, log.FatalLevel))
	fin, err := os.Open(os.Getenv("VERIF_IN"))
	check(err)
	fout, err := os.Create(os.Getenv("VERIF_OUT"))
	check(err)
	in := bufio.NewScanner(fin)
	in.Buffer(make([]byte, 1<<20), 1<<28)
	in.Scan()
	var c Case
	check(json.Unmarshal(in.Bytes(), &c))
	time.AfterFunc(30*time.Second, func() {
		buf := make([]byte, 1<<16)
		fmt.Fprintf(os.Stderr, "fatal: stuck\n%s\n", buf[:runtime.Stack(buf, true)])
		os.Exit(3)
	})
	Run(t, &c, func(ev []M) {
		b, err := json.Marshal(M{"tid": c.Tid, "ev": ev})
		check(err)
		fout.Write(append(b, '\n'))
		fout.Close()
	})
}
