// Package srv drives the real gateway server (msc_server/server) through its gnet
// event interface inside a synctest bubble, replaying scenarios and recording what
// was observable as a trace for spec/GatewayTrace.tla.
package srv

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/hrygo/log"
	"github.com/hrygo/yaml_config"
	"github.com/panjf2000/gnet/v2"
	"github.com/spf13/viper"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"

	"github.com/hrygo/gosms/auth"
	msc "github.com/hrygo/gosms/msc_server"
	"github.com/hrygo/gosms/msc_server/server"

	"verif.local/harness/wire"
)

type M = map[string]any

// ---------------------------------------------------------------- scenarios

type Acct struct {
	Secret string `json:"secret"`
	Max    int    `json:"max"`
	W      int    `json:"w"`
	Tput   int    `json:"tput"`
	Ver    int    `json:"ver"`
	No     string `json:"no"`
	Svc    string `json:"svc"`
}

type Mo struct {
	Enable   bool     `json:"enable"`
	Rate     float64  `json:"rate"`
	Contents []string `json:"contents"`
}

type PkSpec struct {
	K    string   `json:"k"`
	Seq  string   `json:"seq"`
	Acct string   `json:"acct"`
	Bad  bool     `json:"bad"`
	How  int      `json:"how"` // in which way the credentials are bad
	Ts   uint32   `json:"ts"`
	Ver  int      `json:"ver"`
	From string   `json:"from"`
	To   []string `json:"to"`
	Len  int      `json:"len"`
	Cmd  uint32   `json:"cmd"`
	Cut  int      `json:"cut"` // body octets kept (mal)
	Of   string   `json:"of"`
	Wide bool     `json:"wide"`
	Seed int64    `json:"seed"` // fuzz
	Any  int64    `json:"any"`  // if not 0: what the request's remaining fields hold
}

type Step struct {
	Op    string   `json:"op"`
	C     int      `json:"c"`
	Pk    []PkSpec `json:"pk"`
	Cut   []int    `json:"cut"`
	Nw    bool     `json:"nw"`
	Ms    int      `json:"ms"`
	N     int      `json:"n"`
	A     string   `json:"a"`
	Steps []Step   `json:"steps"`
}

type Scenario struct {
	Tid    int             `json:"tid"`
	Fam    string          `json:"fam"`
	Proto  string          `json:"proto"`
	Cap    int             `json:"cap"`
	Accts  map[string]Acct `json:"accounts"`
	Dmin   int             `json:"dmin"`
	Dmax   int             `json:"dmax"`
	Rdelay int             `json:"rdelay"`
	Rate   float64         `json:"rate"`
	Force  int             `json:"force"` // ms
	Mo     Mo              `json:"mo"`
	Hold   bool            `json:"hold"`
	Timed  bool            `json:"timed"`
	Jit    bool            `json:"jit"`
	Loops  int             `json:"loops"`
	Seed   int64           `json:"seed"`
	Steps  []Step          `json:"steps"`
}

// ---------------------------------------------------------------- configuration stand-in

type conf struct{ m map[string]any }

func (c *conf) get(k string) any { return c.m[strings.ToLower(k)] }

func (c *conf) ConfigFileChangeListen()                     {}
func (c *conf) Clone(fileName string) yaml_config.YmlConfig { return c }
func (c *conf) Get(k string) interface{}                    { return c.get(k) }
func (c *conf) GetString(k string) string {
	if v, ok := c.get(k).(string); ok {
		return v
	}
	return ""
}
func (c *conf) GetBool(k string) bool {
	v, _ := c.get(k).(bool)
	return v
}
func (c *conf) GetInt(k string) int {
	v, _ := c.get(k).(int)
	return v
}
func (c *conf) GetInt32(k string) int32 { return int32(c.GetInt(k)) }
func (c *conf) GetInt64(k string) int64 { return int64(c.GetInt(k)) }
func (c *conf) GetFloat64(k string) float64 {
	v, _ := c.get(k).(float64)
	return v
}
func (c *conf) GetDuration(k string) time.Duration {
	v, _ := c.get(k).(time.Duration)
	return v
}
func (c *conf) GetStringSlice(k string) []string {
	v, _ := c.get(k).([]string)
	return v
}
func (c *conf) Viper() *viper.Viper { return viper.New() }
func (c *conf) BasePath() string    { return msc.BasePath }

func mkConf(sc *Scenario) *conf {
	m := map[string]any{}
	set := func(k string, v any) { m[strings.ToLower(k)] = v }
	set("Server.TickDuration", 10*time.Second)
	set("Server.ForceCloseConnTime", time.Duration(sc.Force)*time.Millisecond)
	for _, p := range []string{"CMPP", "SMGP", "SGIP"} {
		set("Server."+p+".Port", 10000)
		set("Server."+p+".Multicore", true)
		set("Server."+p+".MaxSessions", sc.Cap)
	}
	set("Server.Mock.SuccessRate", sc.Rate)
	set("Server.Mock.MinSubmitRespMs", sc.Dmin)
	set("Server.Mock.MaxSubmitRespMs", sc.Dmax)
	set("Server.Mock.FixReportRespMs", sc.Rdelay)
	set("Server.Mock.Delivery.Enable", sc.Mo.Enable)
	set("Server.Mock.Delivery.Rate", sc.Mo.Rate)
	set("Server.Mock.Delivery.Contents", sc.Mo.Contents)
	set("Snowflake.B64.DC", 1)
	set("Snowflake.B64.worker", 3)
	set("Snowflake.B32.DC", 2)
	set("Snowflake.B32.worker", 5)
	set("Snowflake.BCD", "123456")
	set("Snowflake.SGIP", 37196)
	return &conf{m}
}

type store struct {
	mu  sync.Mutex
	m   map[string]*auth.Client
	rnd *rand.Rand
	jit bool
}

func (s *store) Load() {}
func (s *store) FindByCid(isp, cid string) *auth.Client {
	s.mu.Lock()
	c := s.m[cid]
	var d int
	if s.jit {
		d = s.rnd.Intn(4)
	}
	s.mu.Unlock()
	if d > 0 {
		time.Sleep(time.Duration(d)) // schedule perturbation, nanoseconds of bubble time
	}
	return c
}

func mkClient(proto, id string, a Acct) *auth.Client {
	return &auth.Client{ISP: proto, ClientId: id, LoginName: id, SharedSecret: a.Secret, Version: byte(a.Ver),
		NeedReport: 1, SmsDisplayNo: a.No, ServiceId: a.Svc, DefaultMsgLevel: 2, MtValidDuration: time.Hour,
		MaxConns: a.Max, MtWindowSize: a.W, Throughput: a.Tput}
}

// ---------------------------------------------------------------- log capture

var curRun atomic.Pointer[run]

type logCore struct{}

func (logCore) Enabled(zapcore.Level) bool          { return true }
func (l logCore) With([]zapcore.Field) zapcore.Core { return l }
func (l logCore) Sync() error                       { return nil }
func (l logCore) Check(e zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	r := curRun.Load()
	if r != nil && r.sc.Jit && atomic.AddUint32(&r.jn, 2654435761)&7 == 0 {
		runtime.Gosched()
	}
	if e.Level >= zapcore.ErrorLevel {
		if r != nil {
			for _, s := range []string{"runtime error", "closed channel", "invalid memory", "nil pointer"} {
				if strings.Contains(e.Message, s) {
					r.ev(M{"e": "panic", "msg": e.Message})
					break
				}
			}
		}
	}
	return ce
}
func (l logCore) Write(zapcore.Entry, []zapcore.Field) error { return nil }

// ---------------------------------------------------------------- event loops and connections

type loop struct {
	r      *run
	mu     sync.Mutex
	now    []func() // events read from sockets
	async  []func() // queued writes and closes
	tokens int
	dead   bool
	busy   bool // inside an event handler or a write
	wake   chan struct{}
	stop   bool
}

func (l *loop) kick() {
	select {
	case l.wake <- struct{}{}:
	default:
	}
}

func (l *loop) run() {
	for range l.wake {
		for {
			l.mu.Lock()
			if l.stop {
				l.mu.Unlock()
				return
			}
			var f func()
			if len(l.now) > 0 {
				f, l.now = l.now[0], l.now[1:]
			} else if len(l.async) > 0 && (!l.r.hold || l.tokens > 0) {
				f, l.async = l.async[0], l.async[1:]
				if l.r.hold {
					l.tokens--
				}
			}
			dead := l.dead
			l.busy = f != nil && !dead
			l.mu.Unlock()
			if f == nil {
				break
			}
			if !dead {
				l.exec(f)
			}
			l.mu.Lock()
			l.busy = false
			l.mu.Unlock()
		}
	}
}

func (l *loop) exec(f func()) {
	defer func() {
		if e := recover(); e != nil {
			l.mu.Lock()
			l.dead = true
			l.mu.Unlock()
			buf := make([]byte, 4096)
			l.r.ev(M{"e": "crash", "msg": fmt.Sprint(e), "stack": string(buf[:runtime.Stack(buf, false)])})
		}
	}()
	f()
}

func (l *loop) event(f func()) {
	l.mu.Lock()
	l.now = append(l.now, f)
	l.mu.Unlock()
	l.kick()
}

func (l *loop) queue(f func()) {
	l.mu.Lock()
	l.async = append(l.async, f)
	l.mu.Unlock()
	l.kick()
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

type conn struct {
	r          *run
	id         int
	l          *loop
	mu         sync.Mutex
	ctx        any
	remote     net.Addr
	opened     bool
	wasRefused bool
	in         []byte
	wrfail     bool
	ver        int
	// independent framing of the inbound stream
	stream []byte
	ended  bool
	out    []byte
}

func (c *conn) Read(p []byte) (int, error) {
	n := copy(p, c.in)
	c.in = c.in[n:]
	return n, nil
}
func (c *conn) WriteTo(w io.Writer) (int64, error) {
	n, err := w.Write(c.in)
	c.in = c.in[n:]
	return int64(n), err
}
func (c *conn) Next(n int) ([]byte, error) {
	if n > len(c.in) {
		return nil, errShort
	}
	if n <= 0 {
		n = len(c.in)
	}
	b := c.in[:n]
	c.in = c.in[n:]
	return b, nil
}
func (c *conn) Peek(n int) ([]byte, error) {
	if n > len(c.in) {
		return nil, errShort
	}
	if n <= 0 {
		n = len(c.in)
	}
	return c.in[:n], nil
}
func (c *conn) Discard(n int) (int, error) {
	if n <= 0 || n > len(c.in) {
		n = len(c.in)
	}
	// the buffer is reused by the loop: poison what was handed out
	for i := 0; i < n; i++ {
		c.in[i] = 0xEE
	}
	c.in = c.in[n:]
	return n, nil
}
func (c *conn) InboundBuffered() int { return len(c.in) }

func (c *conn) ReadFrom(rd io.Reader) (int64, error) { return 0, errShort }
func (c *conn) Write(p []byte) (int, error) {
	c.doWrite(p)
	return len(p), nil
}
func (c *conn) Writev(bs [][]byte) (int, error) {
	p := bytes.Join(bs, nil)
	return c.Write(p)
}
func (c *conn) Flush() error          { return nil }
func (c *conn) OutboundBuffered() int { return 0 }
func (c *conn) AsyncWrite(buf []byte, cb gnet.AsyncCallback) error {
	c.jit()
	c.l.queue(func() {
		if !c.opened {
			return
		}
		c.doWrite(buf)
		if cb != nil {
			_ = cb(c)
		}
	})
	return nil
}
func (c *conn) AsyncWritev(bs [][]byte, cb gnet.AsyncCallback) error {
	return c.AsyncWrite(bytes.Join(bs, nil), cb)
}
func (c *conn) Fd() int                                { return -1 }
func (c *conn) Dup() (int, error)                      { return -1, errShort }
func (c *conn) SetReadBuffer(int) error                { return nil }
func (c *conn) SetWriteBuffer(int) error               { return nil }
func (c *conn) SetLinger(int) error                    { return nil }
func (c *conn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *conn) SetNoDelay(bool) error                  { return nil }
func (c *conn) Context() any {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.ctx
}
func (c *conn) SetContext(x any) {
	c.mu.Lock()
	c.ctx = x
	c.mu.Unlock()
	c.jit()
}
func (c *conn) LocalAddr() net.Addr { return addr("127.0.0.1:10086") }
func (c *conn) RemoteAddr() net.Addr {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.remote
}
func (c *conn) SetDeadline(time.Time) error                   { return nil }
func (c *conn) SetReadDeadline(time.Time) error               { return nil }
func (c *conn) SetWriteDeadline(time.Time) error              { return nil }
func (c *conn) Wake(cb gnet.AsyncCallback) error              { return nil }
func (c *conn) CloseWithCallback(cb gnet.AsyncCallback) error { return c.Close() }
func (c *conn) Close() error {
	c.l.queue(func() { c.closeConn() })
	return nil
}

func (c *conn) jit() {
	if c.r.sc.Jit && atomic.AddUint32(&c.r.jn, 2654435761)&3 == 0 {
		runtime.Gosched()
	}
}

var errShort = fmt.Errorf("short buffer")

// on the loop
func (c *conn) closeConn() {
	if !c.opened {
		return
	}
	if !c.wasRefused {
		c.r.ev(M{"e": "closing", "c": c.id})
	}
	c.r.srv.OnClose(c, nil)
	c.opened = false
	c.mu.Lock()
	c.ctx = nil
	c.remote = nil
	c.mu.Unlock()
	c.r.ev(M{"e": "closed", "c": c.id})
}

// on the loop
func (c *conn) doWrite(p []byte) {
	if !c.opened {
		return
	}
	if c.wrfail {
		c.r.ev(M{"e": "fail", "c": c.id})
		c.closeConn()
		return
	}
	// one AsyncWrite may carry part of a packet or several: reassemble
	c.out = append(c.out, p...)
	for {
		n := len(c.out)
		if n >= 4 {
			l := int(binary.BigEndian.Uint32(c.out))
			if l < 12 || l > 100000 {
				c.r.ev(M{"e": "wr", "c": c.id, "p": M{"k": "garbage"}})
				c.out = nil
				return
			}
			if n >= l {
				c.r.ev(M{"e": "wr", "c": c.id, "p": wire.Down(c.r.sc.Proto, c.ver, c.out[:l])})
				c.out = c.out[l:]
				continue
			}
		}
		return
	}
}

// on the loop: one segment arrives
func (c *conn) segment(b []byte) {
	if !c.opened {
		return
	}
	pk := c.track(b)
	c.r.ev(M{"e": "recv", "c": c.id, "pk": pk})
	c.in = append(append([]byte{}, c.in...), b...)
	if c.r.srv.OnTraffic(c) == gnet.Close {
		c.closeConn()
	}
}

// track frames the stream independently of the code under test and decodes what this
// segment completed.
func (c *conn) track(b []byte) []M {
	pk := []M{}
	c.stream = append(c.stream, b...)
	for !c.ended && len(c.stream) >= 12 {
		n := binary.BigEndian.Uint32(c.stream)
		cmd := binary.BigEndian.Uint32(c.stream[4:])
		if n < 12 || n > 5120 {
			pk = append(pk, M{"k": "badlen"})
			c.ended = true
			break
		}
		if !wire.Known(c.r.sc.Proto, cmd) {
			pk = append(pk, M{"k": "badcmd"})
			c.ended = true
			break
		}
		if len(c.stream) < int(n) {
			break
		}
		p := wire.Up(c.r.sc.Proto, c.ver, c.stream[:n], c.r.secret)
		if p["k"] == "login" && c.r.sc.Proto == wire.CMPP {
			c.ver = p["ver"].(int) << 4
		}
		pk = append(pk, p)
		c.stream = c.stream[n:]
		if p["k"] == "mal" {
			c.ended = true
		}
	}
	return pk
}

// ---------------------------------------------------------------- a run

type run struct {
	sc    *Scenario
	srv   *server.Server
	hold  bool
	t0    time.Time
	mu    sync.Mutex
	evs   []M
	jn    uint32
	loops []*loop
	conns map[int]*conn
	addr  map[string]int
	store *store
}

func (r *run) secret(acct string) (string, bool) {
	r.store.mu.Lock()
	defer r.store.mu.Unlock()
	if a, ok := r.store.m[acct]; ok {
		return a.SharedSecret, true
	}
	return "", false
}

func (r *run) ev(m M) {
	r.mu.Lock()
	m["t"] = int(time.Since(r.t0) / time.Microsecond)
	r.evs = append(r.evs, m)
	r.mu.Unlock()
}

func (r *run) build(c *conn, s PkSpec) []byte {
	p := r.sc.Proto
	ver := s.Ver
	if ver == 0 {
		ver = c.ver
	}
	if ver == 0 {
		ver = 0x30
	}
	switch s.K {
	case "login":
		sec, _ := r.secret(s.Acct)
		ts := s.Ts
		if ts == 0 {
			ts = uint32(1 + s.Len)
		}
		if !s.Bad {
			return wire.Login(p, s.Seq, s.Acct, sec, ver, ts)
		}
		return wire.BadLogin(p, s.Seq, s.Acct, sec, ver, ts, s.How)
	case "submit":
		f := wire.SubmitF{From: s.From, To: s.To, Content: bytes.Repeat([]byte("a"), s.Len),
			Report: 1, Level: 1, Total: 1, Number: 1, Service: "svc"}
		if s.Any != 0 {
			r := rand.New(rand.NewSource(s.Any))
			r.Read(f.Content)
			f.Level, f.Fmt, f.Rnd = r.Intn(10), []int{0, 3, 4, 8, 15}[r.Intn(5)], r
			if p == wire.SMGP {
				f.Level = r.Intn(4)
			}
			f.Service = "0123456789"[:r.Intn(11)]
			if r.Intn(2) == 0 {
				f.Valid, f.At = "991231235959032+", "991231235958032+"
			}
			if r.Intn(3) == 0 && len(f.Content) > 7 { // one part of a long message
				f.Udhi, f.Total = 1, 1+r.Intn(9)
				f.Number = 1 + r.Intn(f.Total)
				copy(f.Content, []byte{5, 0, 3, byte(r.Intn(256)), byte(f.Total), byte(f.Number)})
			}
			if p == wire.SMGP && r.Intn(2) == 0 {
				f.TLVs = wire.Tlvs(r)
			}
		}
		return wire.Submit(p, s.Seq, ver, f)
	case "active", "aresp", "term", "tresp", "dresp":
		mid, st := "77", 0
		if s.Any != 0 {
			r := rand.New(rand.NewSource(s.Any))
			mid, st = strconv.FormatUint(r.Uint64(), 10), []int{r.Intn(256), r.Intn(1 << 31), 1, 0}[r.Intn(4)]
			if p == wire.SMGP {
				x := make([]byte, 10)
				r.Read(x)
				mid = hex.EncodeToString(x)
			}
		}
		return wire.Simple(p, s.K, s.Seq, ver, mid, st)
	case "cmd": // any command id with a body of zeros
		return wire.Frame(s.Cmd, 7, make([]byte, s.Len))
	case "len": // an illegal length field
		b := wire.Frame(wire.Cmds[p]["active"], 7, nil)
		if p == wire.SGIP {
			b = wire.Frame(wire.Cmds[p]["term"], 7, nil)
		}
		binary.BigEndian.PutUint32(b, s.Cmd)
		return b
	case "mal": // the packet `of`, its body cut to `cut` octets, with a consistent length field
		o := s
		o.K = s.Of
		b := r.build(c, o)
		n := 12 + s.Cut
		if n > len(b)-1 {
			n = len(b) - 1
		}
		if n < 12 {
			n = 12
		}
		b = b[:n]
		binary.BigEndian.PutUint32(b, uint32(n))
		return b
	case "lie": // the packet `of` with some octets of its body replaced: counts and lengths that lie
		o := s
		o.K = s.Of
		put := []byte{255}
		if s.Wide {
			put = binary.BigEndian.AppendUint32(nil, uint32(0xffffffff-s.Seed))
		}
		for at := s.Cut; ; at++ {
			b := r.build(c, o)
			if 12+at+len(put) > len(b) {
				return b
			}
			copy(b[12+at:], put)
			u := wire.Up(p, ver, b, r.secret)
			if u["k"] != "amb" && !(u["k"] == "submit" && (u["to"] == "" || u["from"] == "")) {
				return b
			}
		}
	case "fuzz": // a known command with a random body
		rnd := rand.New(rand.NewSource(s.Seed))
		for {
			ks := wire.Handled[p]
			k := ks[rnd.Intn(len(ks))]
			n := rnd.Intn(200)
			b := make([]byte, n)
			switch rnd.Intn(3) {
			case 0:
				rnd.Read(b)
			case 1:
				for i := range b {
					b[i] = 0xFF
				}
			case 2: // a valid packet with some octets changed
				o := PkSpec{K: k, Seq: "9.9.9", Acct: "nobody", From: "1", To: []string{"2"}, Len: 10}
				b = r.build(c, o)[12:]
				for j := 0; j < 4 && len(b) > 0; j++ {
					b[rnd.Intn(len(b))] = byte(rnd.Intn(256))
				}
			}
			f := wire.Frame(wire.Cmds[p][k], rnd.Uint32(), b)
			u := wire.Up(p, ver, f, r.secret)
			if u["k"] == "amb" {
				continue
			}
			if u["k"] == "submit" && (u["to"] == "" || u["from"] == "") {
				continue
			}
			return f
		}
	case "noise": // random octets
		rnd := rand.New(rand.NewSource(s.Seed))
		b := make([]byte, 12+rnd.Intn(60))
		rnd.Read(b)
		return b
	}
	panic("unknown packet spec " + s.K)
}

func (r *run) step(s Step, settle bool) {
	wait := func() {
		if settle && !s.Nw {
			r.settle()
		}
	}
	switch s.Op {
	case "open":
		c := &conn{r: r, id: s.C, l: r.loops[s.C%len(r.loops)], remote: addr(fmt.Sprintf("10.0.%d.%d:%d", r.sc.Tid/250, r.sc.Tid%250+1, 1000+s.C))}
		if r.sc.Proto != wire.CMPP {
			c.ver = 0x30
		}
		r.mu.Lock()
		r.conns[s.C] = c
		r.addr[string(c.remote.(addr))] = s.C
		r.mu.Unlock()
		c.l.event(func() {
			r.ev(M{"e": "opening", "c": c.id})
			c.opened = true
			_, a := r.srv.OnOpen(c)
			if a == gnet.Close {
				c.wasRefused = true
				r.ev(M{"e": "opened", "c": c.id, "ok": false})
				c.closeConn()
			} else {
				r.ev(M{"e": "opened", "c": c.id, "ok": true})
			}
		})
		wait()
	case "data":
		c := r.conns[s.C]
		var all []byte
		for _, p := range s.Pk {
			all = append(all, r.build(c, p)...)
		}
		cuts := append([]int{}, s.Cut...)
		last := 0
		for _, q := range append(cuts, len(all)) {
			if q < 0 { // from the end
				q = len(all) + q
			}
			if q <= last || q > len(all) {
				continue
			}
			seg := all[last:q]
			last = q
			c.l.event(func() { c.segment(seg) })
			wait()
		}
	case "peer":
		c := r.conns[s.C]
		c.l.event(func() {
			if c.opened {
				r.ev(M{"e": "peer", "c": c.id})
				c.closeConn()
			}
		})
		wait()
	case "wrfail":
		c := r.conns[s.C]
		c.l.event(func() { c.wrfail = true })
		wait()
	case "run":
		l := r.conns[s.C].l
		n := s.N
		if n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			l.mu.Lock()
			if len(l.async) > 0 {
				l.tokens++
			}
			l.mu.Unlock()
			l.kick()
			wait()
		}
	case "hold":
		r.hold = true
	case "release":
		r.release()
		wait()
	case "tick":
		r.ev(M{"e": "tick"})
		r.guard(func() { r.srv.OnTick() })
		wait()
	case "adv":
		time.Sleep(time.Duration(s.Ms) * time.Millisecond)
		wait()
	case "rm":
		r.store.mu.Lock()
		delete(r.store.m, s.A)
		r.store.mu.Unlock()
		r.ev(M{"e": "rm", "a": s.A})
	case "add":
		r.store.mu.Lock()
		r.store.m[s.A] = mkClient(r.sc.Proto, s.A, r.sc.Accts[s.A])
		r.store.mu.Unlock()
		r.ev(M{"e": "add", "a": s.A})
	case "par":
		for _, x := range s.Steps {
			r.step(x, false)
		}
		wait()
	default:
		panic("unknown op " + s.Op)
	}
}

func (r *run) guard(f func()) {
	defer func() {
		if e := recover(); e != nil {
			r.ev(M{"e": "crash", "msg": fmt.Sprint(e)})
		}
	}()
	f()
}

func (r *run) release() {
	r.hold = false
	for _, l := range r.loops {
		l.kick()
	}
}

func (r *run) settle() {
	if r.sc.Jit {
		time.Sleep(200 * time.Nanosecond)
	}
	synctest.Wait()
	cnt := map[string]any{}
	for a := range r.sc.Accts {
		cnt[a] = r.srv.CountSessionByClientId(a)
	}
	// loops that are waiting inside a handler, with their connections
	blk := [][]int{}
	for _, l := range r.loops {
		l.mu.Lock()
		busy := l.busy
		l.mu.Unlock()
		if busy {
			cs := []int{}
			for _, c := range r.conns {
				if c.l == l {
					cs = append(cs, c.id)
				}
			}
			sort.Ints(cs)
			blk = append(blk, cs)
		}
	}
	r.ev(M{"e": "q", "act": r.srv.ActiveSessions(), "cnt": cnt, "full": !r.hold, "blk": blk})
}

func (r *run) exec() {
	sc := r.sc
	// a date the id generators accept, and a second with no simulated SMGP failure
	time.Sleep(time.Date(2026, 3, 1, 0, 0, 0, 0, time.UTC).Sub(time.Now()))
	for time.Now().Unix()%1000 != 20 {
		time.Sleep(time.Second)
	}
	r.store = &store{m: map[string]*auth.Client{}, rnd: rand.New(rand.NewSource(sc.Seed)), jit: sc.Jit}
	for id, a := range sc.Accts {
		r.store.m[id] = mkClient(sc.Proto, id, a)
	}
	auth.Cache = r.store
	msc.ConfigYml = mkConf(sc)
	msc.SeqInit()
	r.srv = server.New(sc.Proto)
	r.conns = map[int]*conn{}
	r.addr = map[string]int{}
	r.hold = sc.Hold
	nl := sc.Loops
	if nl == 0 {
		nl = 16
	}
	for i := 0; i < nl; i++ {
		l := &loop{r: r, wake: make(chan struct{}, 1)}
		r.loops = append(r.loops, l)
		go l.run()
	}
	r.t0 = time.Now()
	curRun.Store(r)
	for _, s := range sc.Steps {
		r.step(s, true)
	}
	// the end: everything in progress may finish, then every connection goes away
	r.release()
	r.settle()
	for i := 0; i < 4; i++ {
		time.Sleep(time.Duration(sc.Dmax+sc.Rdelay+1500) * time.Millisecond)
		r.settle()
	}
	r.ev(M{"e": "end"})
	for _, c := range r.conns {
		c := c
		c.l.event(func() {
			if c.opened {
				r.ev(M{"e": "peer", "c": c.id})
				c.closeConn()
			}
		})
	}
	r.settle()
	time.Sleep(time.Duration(4*(sc.Dmax+sc.Rdelay))*time.Millisecond + 5*time.Second)
	synctest.Wait()
	curRun.Store(nil)
	r.srv.GoPool().Release()
	time.Sleep(3 * time.Minute)
	synctest.Wait()
	for _, l := range r.loops {
		l.mu.Lock()
		l.stop = true
		l.mu.Unlock()
		l.kick()
	}
	synctest.Wait()
	if n, where := leaked(); n > 0 {
		r.ev(M{"e": "leak", "n": n, "where": where})
	}
}

// leaked counts goroutines still inside the code under test.
func leaked() (int, string) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	n, where := 0, ""
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "synctest bubble") && strings.Contains(g, "msc_server/server.") && !strings.Contains(g, "srv.(*run).exec") {
			n++
			where = g
		}
	}
	return n, where
}

// ---------------------------------------------------------------- driver

func dbRecords(path string, off *int64) []M {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	_, _ = f.Seek(*off, 0)
	var rs []M
	br := bufio.NewReader(f)
	for {
		line, err := br.ReadBytes('\n')
		if err != nil {
			break
		}
		*off += int64(len(line))
		m := M{}
		d := json.NewDecoder(bytes.NewReader(line))
		d.UseNumber()
		if d.Decode(&m) == nil {
			rs = append(rs, m)
		}
	}
	return rs
}

func num(x any) int {
	if n, ok := x.(json.Number); ok {
		v, _ := n.Int64()
		return int(v)
	}
	return -1
}

func TestDrive(t *testing.T) {
	in, out := os.Getenv("VERIF_IN"), os.Getenv("VERIF_OUT")
	if in == "" {
		t.Skip("no scenarios")
	}
	raw, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	of, err := os.OpenFile(out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	log.ResetDefault(zap.New(logCore{}))
	db := msc.BasePath + "logs/counter/db.json"
	var off int64
	// first write of the counter file, outside any bubble
	{
		sc := &Scenario{Proto: "cmpp", Cap: 1}
		auth.Cache = &store{m: map[string]*auth.Client{}}
		msc.ConfigYml = mkConf(sc)
		s := server.New("cmpp")
		c := &conn{r: &run{sc: sc, srv: s}, remote: addr("warm")}
		c.opened = true
		s.OnOpen(c)
		s.OnClose(c, nil)
		s.GoPool().Release()
	}
	dbRecords(db, &off)
	var beat atomic.Int64
	cur := new(atomic.Int64)
	go func() { // watchdog in real time
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(200 * time.Millisecond)
			if b := beat.Load(); b != last {
				last, since = b, time.Now()
			} else if time.Since(since) > 40*time.Second {
				buf := make([]byte, 1<<20)
				fmt.Fprintf(os.Stderr, "STUCK tid=%d\n%s\n", cur.Load(), buf[:runtime.Stack(buf, true)])
				os.Exit(4)
			}
		}
	}()
	for _, line := range bytes.Split(raw, []byte("\n")) {
		if len(bytes.TrimSpace(line)) == 0 {
			continue
		}
		sc := &Scenario{}
		if err := json.Unmarshal(line, sc); err != nil {
			t.Fatal(err)
		}
		cur.Store(int64(sc.Tid))
		beat.Add(1)
		fmt.Fprintf(os.Stderr, "BEGIN %d\n", sc.Tid)
		r := &run{sc: sc}
		write := func() {
			saved := map[int][][]int{}
			stray := 0
			for _, m := range dbRecords(db, &off) {
				rm, _ := m["remote"].(string)
				id, ok := r.addr[rm]
				if !ok {
					stray++
					continue
				}
				saved[id] = append(saved[id], []int{num(m["s_mt_num"]), num(m["s_dlv_num"]), num(m["s_rpt_num"])})
			}
			if stray > 0 {
				r.evs = append(r.evs, M{"e": "stray", "t": 0, "n": stray})
			}
			for _, e := range r.evs {
				if e["e"] == "closed" {
					e["saved"] = [][]int{}
					if s := saved[e["c"].(int)]; s != nil {
						e["saved"] = s
					}
				}
			}
			b, err := json.Marshal(M{"tid": sc.Tid, "ev": r.evs})
			if err != nil {
				t.Fatal(err)
			}
			_, _ = of.Write(append(b, '\n'))
		}
		leak := false
		synctest.Test(t, func(t *testing.T) {
			r.exec()
			for _, e := range r.evs {
				if e["e"] == "leak" {
					leak = true
				}
			}
			if leak {
				write()
				os.Exit(3)
			}
		})
		curRun.Store(nil)
		write()
	}
	fmt.Fprintln(os.Stderr, "DONE")
}
