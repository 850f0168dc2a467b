// Sends through the real client's API, with any account, text and options, and keeps the octets the gateways got.
package clisend

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/hrygo/gosms/auth"
	"github.com/hrygo/gosms/codec"
	sms "github.com/hrygo/gosms/smc_client"
	"github.com/hrygo/log"
	"github.com/hrygo/yaml_config"
	"github.com/spf13/viper"
	"verif.local/harness/clilib"
	"verif.local/harness/mtopts"
	"verif.local/harness/vnet"
	"verif.local/harness/wire"
)

type M = map[string]any
type B = mtopts.B

type Op struct {
	V   int          `json:"v"`
	Dur int64        `json:"dur"`
	Ac  map[string]B `json:"ac"`
	Seg string       `json:"seg"`
	Max int          `json:"max"`
}

type Send struct {
	Phones []B           `json:"phones"`
	Text   []mtopts.Char `json:"text"`
	Opts   []mtopts.Opt  `json:"opts"`
	One    bool          `json:"one"`  // through Send
	Same   int           `json:"same"` // the very options of an earlier send, counted from 1
}

type Step struct {
	Ms int      `json:"ms"`
	Th [][]Send `json:"th"`
}

type Case struct {
	Tid   int           `json:"tid"`
	Now   int64         `json:"now"`
	Ops   map[string]Op `json:"ops"`
	Steps []Step        `json:"steps"`
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}

type conf struct{ c *Case }

func (c *conf) op(k string) (Op, string) {
	a, b, _ := strings.Cut(strings.ToLower(k), ".")
	return c.c.Ops[a], b
}
func (c *conf) ConfigFileChangeListen()                     {}
func (c *conf) Clone(fileName string) yaml_config.YmlConfig { return c }
func (c *conf) Get(k string) interface{}                    { return nil }
func (c *conf) GetString(k string) string {
	o, f := c.op(k)
	switch f {
	case "client-id":
		return string(o.Ac["ClientId"])
	case "address":
		return strings.ToLower(strings.Split(k, ".")[0])
	case "segment":
		return o.Seg
	case "bcd":
		return "010203"
	}
	return ""
}
func (c *conf) GetBool(k string) bool { return false }
func (c *conf) GetInt(k string) int {
	o, f := c.op(k)
	switch f {
	case "max-conns":
		return o.Max
	case "mt-window-size":
		return 1000
	case "throughput":
		return 1000
	case "sgip":
		return 3037196688
	}
	return 0
}
func (c *conf) GetInt32(k string) int32 {
	n := uint32(c.GetInt(k))
	return int32(n)
}
func (c *conf) GetInt64(k string) int64     { return int64(c.GetInt(k)) }
func (c *conf) GetFloat64(k string) float64 { return float64(c.GetInt(k)) }
func (c *conf) GetDuration(k string) time.Duration {
	return 0
}
func (c *conf) GetStringSlice(k string) []string { return nil }
func (c *conf) Viper() *viper.Viper              { return viper.New() }
func (c *conf) BasePath() string                 { return "" }

type store struct{ c *Case }

func (s *store) Load() {}
func (s *store) FindByCid(isp, cid string) *auth.Client {
	o, ok := s.c.Ops[isp]
	if !ok || string(o.Ac["ClientId"]) != cid {
		return nil
	}
	a := mtopts.Account(isp, o.V, time.Duration(o.Dur)*time.Millisecond, o.Ac)
	return &auth.Client{ISP: a.ISP, ClientId: a.ClientId, LoginName: a.LoginName, SharedSecret: a.SharedSecret, Version: a.Version, NeedReport: a.NeedReport,
		SmsDisplayNo: a.SmsDisplayNo, ServiceId: a.ServiceId, DefaultMsgLevel: a.DefaultMsgLevel, FeeUserType: a.FeeUserType, FeeTerminalType: a.FeeTerminalType,
		FeeTerminalId: a.FeeTerminalId, FeeType: a.FeeType, FeeCode: a.FeeCode, FixedFee: a.FixedFee, LinkId: a.LinkId, MtValidDuration: a.MtValidDuration}
}

type pk struct {
	P string `json:"p"`
	B B      `json:"b"`
	T int64  `json:"t"`
	L bool   `json:"l"` // the first one on its connection
	W string `json:"w"` // what is wrong with it as a packet
}

type run struct {
	sync.Mutex
	c    *Case
	got  []pk
	opts [][]codec.OptionFunc
}

func (r *run) dial(addr string) (net.Conn, error) {
	o, ok := r.c.Ops[addr]
	if !ok {
		return nil, errors.New("connection refused")
	}
	g := clilib.NewConn("")
	first := true
	g.OnWrite = func(p []byte) {
		r.Lock()
		defer r.Unlock()
		for len(p) > 0 {
			n := len(p)
			if n < 12 || int(binary.BigEndian.Uint32(p)) > n || binary.BigEndian.Uint32(p) < 12 {
				r.got = append(r.got, pk{P: addr, B: append(B{}, p...), T: time.Now().UnixMilli(), W: "not a packet"})
				return
			}
			n = int(binary.BigEndian.Uint32(p))
			b := append(B{}, p[:n]...)
			p = p[n:]
			m := wire.Up(addr, o.V, b, func(string) (string, bool) { return "", false })
			seq, _ := m["seq"].(string)
			switch {
			case first:
				r.got = append(r.got, pk{P: addr, B: b, T: time.Now().UnixMilli(), L: true})
				g.Feed(wire.LoginResp(addr, seq, o.V, 0))
				first = false
			case m["k"] == "active":
				g.Feed(wire.Simple(addr, "aresp", seq, o.V, "", 0))
			default:
				r.got = append(r.got, pk{P: addr, B: b, T: time.Now().UnixMilli()})
				if m["k"] == "submit" && len(r.got)%3 > 0 {
					mid := fmt.Sprint(len(r.got))
					if addr == wire.SMGP {
						mid = fmt.Sprintf("%020x", len(r.got))
					}
					g.Feed(wire.SubmitResp(addr, seq, o.V, 0, mid))
				}
			}
		}
	}
	return g, nil
}

func (r *run) send(s Send, k int) {
	var ph []string
	for _, p := range s.Phones {
		ph = append(ph, string(p))
	}
	if s.One {
		sms.Send(mtopts.Text(s.Text), ph[0], r.opts[k]...)
	} else {
		sms.SendN(mtopts.Text(s.Text), ph, r.opts[k]...)
	}
}

func TestDrive(t *testing.T) {
	log.ResetDefault(log.New(devnull{}, log.FatalLevel))
	fin, err := os.Open(os.Getenv("VERIF_IN"))
	check(err)
	fout, err := os.Create(os.Getenv("VERIF_OUT"))
	check(err)
	in := bufio.NewScanner(fin)
	in.Buffer(make([]byte, 1<<20), 1<<28)
	in.Scan()
	var c Case
	check(json.Unmarshal(in.Bytes(), &c))
	time.AfterFunc(30*time.Second, func() {
		buf := make([]byte, 1<<16)
		fmt.Fprintf(os.Stderr, "fatal: stuck\n%s\n", buf[:runtime.Stack(buf, true)])
		os.Exit(3)
	})
	synctest.Test(t, func(t *testing.T) {
		time.Sleep(time.Until(time.UnixMilli(c.Now)))
		sms.ConfigYml = &conf{&c}
		auth.Cache = &store{&c}
		sms.SeqInit()
		r := &run{c: &c}
		vnet.OnDial = r.dial
		out := []M{}
		n := 0
		for _, s := range c.Steps {
			time.Sleep(time.Duration(s.Ms) * time.Millisecond)
			synctest.Wait()
			start := make(chan struct{})
			for _, l := range s.Th {
				first := n
				for _, x := range l {
					if x.Same > 0 {
						r.opts = append(r.opts, r.opts[x.Same-1])
					} else {
						r.opts = append(r.opts, mtopts.Options(x.Opts))
					}
					n++
				}
				go func() {
					<-start
					for k, x := range l {
						r.send(x, first+k)
					}
				}()
			}
			close(start)
			synctest.Wait()
			r.Lock()
			out = append(out, M{"now": time.Now().UnixMilli(), "pk": r.got})
			r.got = nil
			r.Unlock()
		}
		b, err := json.Marshal(M{"tid": c.Tid, "out": out})
		check(err)
		fout.Write(append(b, '\n'))
		fout.Close()
		os.Exit(0)
	})
}

type devnull struct{}

func (devnull) Write(b []byte) (int, error) { return len(b), nil }
