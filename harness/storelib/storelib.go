// Package storelib drives the real account store over a scratch directory.
package storelib

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/hrygo/gosms/auth"
	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/log"
	"github.com/hrygo/yaml_config"
	"github.com/spf13/viper"
	"verif.local/harness/vsync"
)

type M = map[string]any
type B []byte

func (b B) MarshalJSON() ([]byte, error) {
	s := make([]string, len(b))
	for k, x := range b {
		s[k] = fmt.Sprint(x)
	}
	return []byte("[" + strings.Join(s, ",") + "]"), nil
}

func (b *B) UnmarshalJSON(j []byte) error {
	var v []int
	if err := json.Unmarshal(j, &v); err != nil {
		return err
	}
	*b = make(B, len(v))
	for k, x := range v {
		(*b)[k] = byte(x)
	}
	return nil
}

type Op struct {
	Op   string         `json:"op"`
	F    B              `json:"f"`
	St   string         `json:"st"`
	C    map[string]any `json:"c"`
	Text string         `json:"text"`
	How  string         `json:"how"`
	Isp  string         `json:"isp"`
	Cid  B              `json:"cid"`
	H    string         `json:"h"`
	Asks []Op           `json:"asks"`
	Mk   bool           `json:"mk"` // wait until this account's new contents are seen (automatic reload)
	Want string         `json:"want"`
}

type Case struct {
	Tid    int    `json:"tid"`
	Dir    string `json:"dir"` // as configured
	Virtual bool `json:"virtual"`
	Every  int    `json:"every"`
	Jitter int    `json:"jitter"`
	Ops    []Op   `json:"ops"`
}

type conf struct {
	base, dir string
	every     time.Duration
}

func (c *conf) ConfigFileChangeListen()                     {}
func (c *conf) Clone(fileName string) yaml_config.YmlConfig { return c }
func (c *conf) Get(k string) interface{}                    { return nil }
func (c *conf) GetString(k string) string {
	switch strings.ToLower(k) {
	case "authclient.storetype":
		return "yaml"
	case "authclient.yamlfilepath":
		return c.dir
	}
	return ""
}
func (c *conf) GetBool(k string) bool       { return false }
func (c *conf) GetInt(k string) int         { return 0 }
func (c *conf) GetInt32(k string) int32     { return 0 }
func (c *conf) GetInt64(k string) int64     { return 0 }
func (c *conf) GetFloat64(k string) float64 { return 0 }
func (c *conf) GetDuration(k string) time.Duration {
	if strings.ToLower(k) == "authclient.reloadticker" {
		return c.every
	}
	return 0
}
func (c *conf) GetStringSlice(k string) []string { return nil }
func (c *conf) Viper() *viper.Viper              { return viper.New() }
func (c *conf) BasePath() string                 { return c.base }

// show renders an account of either type: texts as octets, numbers as digits.
func show(p any) []M {
	v := reflect.ValueOf(p)
	if v.IsNil() {
		return []M{}
	}
	v = v.Elem()
	m := M{}
	for k := 0; k < v.NumField(); k++ {
		f := v.Field(k)
		if f.Kind() == reflect.String {
			m[v.Type().Field(k).Name] = B(f.String())
		} else if f.CanInt() {
			m[v.Type().Field(k).Name] = B(fmt.Sprint(f.Int()))
		} else {
			m[v.Type().Field(k).Name] = B(fmt.Sprint(f.Uint()))
		}
	}
	return []M{m}
}

type run struct {
	sync.Mutex
	ev    []M
	n     int
	store auth.Store
	find  func(isp, cid string) *codec.AuthConf
	held  map[string]*codec.AuthConf
	dir   string
}

func (r *run) add(m M) { r.Lock(); r.ev = append(r.ev, m); r.Unlock() }

func (r *run) ask(o Op) any {
	r.Lock()
	r.n++
	n := fmt.Sprint(r.n)
	r.ev = append(r.ev, M{"e": "ask", "n": n, "isp": B(o.Isp), "cid": o.Cid})
	r.Unlock()
	if o.Op == "hold" {
		a := r.find(o.Isp, string(o.Cid))
		got := show(a)
		r.Lock()
		r.held[o.H] = a
		r.ev = append(r.ev, M{"e": "hold", "n": n, "got": got, "h": o.H})
		r.Unlock()
		return nil
	}
	got := show(r.store.FindByCid(o.Isp, string(o.Cid)))
	r.add(M{"e": "ans", "n": n, "got": got})
	return got
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}

func (r *run) put(o Op) {
	p := r.dir + "/" + string(o.F)
	tmp := r.dir + "/new.tmp"
	os.RemoveAll(tmp)
	switch o.How {
	case "dir":
		os.RemoveAll(p)
		check(os.Mkdir(p, 0o755))
		check(os.WriteFile(p+"/cmpp_inside.yaml", []byte("client-id: inside"), 0o644))
	case "loop":
		check(os.Symlink(string(o.F), tmp))
		os.RemoveAll(p)
		check(os.Rename(tmp, p))
	case "dangling":
		check(os.Symlink("nowhere", tmp))
		os.RemoveAll(p)
		check(os.Rename(tmp, p))
	case "link":
		check(os.WriteFile(r.dir+"/target."+string(o.F)+".txt", []byte(o.Text), 0o644))
		check(os.Symlink("target."+string(o.F)+".txt", tmp))
		os.RemoveAll(p)
		check(os.Rename(tmp, p))
	case "fifo":
		os.RemoveAll(p)
		check(syscall.Mkfifo(p, 0o644))
	default:
		if st, err := os.Lstat(p); err == nil && st.IsDir() {
			os.RemoveAll(p)
		}
		check(os.WriteFile(tmp, []byte(o.Text), 0o644))
		check(os.Rename(tmp, p))
	}
	r.add(M{"e": "put", "f": o.F, "st": o.St, "c": o.C})
}

// load lets the store load.  Lookups go on meanwhile: from other goroutines, and, where a file is a pipe, while the load
// is in the middle of the directory.
func (r *run) load(o Op, pipe *Op) {
	r.add(M{"e": "begin"})
	done := make(chan struct{})
	go func() { r.store.Load(); close(done) }()
	var others sync.WaitGroup
	if pipe != nil {
		p := r.dir + "/" + string(pipe.F)
		var w *os.File
	open:
		for {
			f, err := os.OpenFile(p, os.O_WRONLY|syscall.O_NONBLOCK, 0)
			if err == nil {
				w = f
				break
			}
			select {
			case <-done:
				break open
			case <-time.After(200 * time.Microsecond):
			}
		}
		asked := make(chan struct{})
		go func() {
			for _, a := range o.Asks {
				r.ask(a)
			}
			close(asked)
		}()
		select {
		case <-asked:
		case <-time.After(100 * time.Millisecond): // the store makes lookups wait for the load
		}
		if w != nil {
			w.Write([]byte(pipe.Text))
			w.Close()
		}
		<-done
		<-asked
		r.add(M{"e": "end"})
		os.RemoveAll(p)
		check(os.WriteFile(p, []byte(pipe.Text), 0o644))
		return
	}
	for _, a := range o.Asks {
		a := a
		others.Add(1)
		go func() { defer others.Done(); r.ask(a); r.ask(a) }()
	}
	<-done
	r.add(M{"e": "end"})
	others.Wait()
}

func Run(c *Case, find func(isp, cid string) *codec.AuthConf) []M {
	base, err := os.MkdirTemp(".", "accounts")
	check(err)
	base, err = filepath.Abs(base) // removed with the scratch directory: the store's timer goes on reading it
	check(err)
	r := &run{find: find, held: map[string]*codec.AuthConf{}, dir: filepath.Clean(base + "/" + c.Dir)}
	check(os.MkdirAll(r.dir, 0o755))
	var pipe *Op
	for k := range c.Ops {
		o := c.Ops[k]
		switch o.Op {
		case "put":
			r.put(o)
			if o.How == "fifo" {
				pipe = &c.Ops[k]
			}
		case "rm":
			os.RemoveAll(r.dir + "/" + string(o.F))
			r.add(M{"e": "rm", "f": o.F})
		case "new":
			r.add(M{"e": "begin"})
			d := time.Duration(c.Every) * time.Millisecond
			r.store = auth.New(&conf{base: base + "/", dir: c.Dir, every: d})
			auth.Cache = r.store
			r.add(M{"e": "end"})
			if c.Virtual {
				if d == 0 {
					d = 5 * time.Minute
				}
				time.Sleep(d / 2)
			}
		case "load":
			r.load(o, pipe)
			pipe = nil
		case "auto": // the periodic reload
			r.add(M{"e": "begin"})
			for t := time.Now(); time.Since(t) < 20*time.Second; time.Sleep(5 * time.Millisecond) {
				a := r.store.FindByCid(o.Isp, string(o.Cid))
				if (a == nil && o.Want == "") || (a != nil && a.ServiceId == o.Want) {
					break
				}
			}
			r.add(M{"e": "end"})
		case "tick": // in virtual time: the next reload is due half a period after the change
			d := time.Duration(c.Every) * time.Millisecond
			if d == 0 {
				d = 5 * time.Minute
			}
			r.add(M{"e": "begin"})
			time.Sleep(d)
			synctest.Wait()
			r.add(M{"e": "end"})
		case "away":
			check(os.Rename(r.dir, base+"/away"))
			r.add(M{"e": "dir", "ok": false})
		case "back":
			check(os.Rename(base+"/away", r.dir))
			r.add(M{"e": "dir", "ok": true})
		case "find", "hold":
			r.ask(o)
		case "held":
			if a, ok := r.held[o.H]; ok {
				r.add(M{"e": "held", "h": o.H, "got": show(a)})
			}
		case "spoil":
			if a := r.held[o.H]; a != nil {
				a.SharedSecret, a.MaxConns, a.ISP, a.MtValidDuration = "spoiled", 4711, "x", 0
				r.add(M{"e": "spoil", "h": o.H, "got": show(a)})
			}
		default:
			panic(o.Op)
		}
	}
	return r.ev
}

type devnull struct{}

func (devnull) Write(b []byte) (int, error) { return len(b), nil }

func Main(t *testing.T, find func(isp, cid string) *codec.AuthConf) {
	log.ResetDefault(log.New(devnull{}, log.FatalLevel))
	fin, err := os.Open(os.Getenv("VERIF_IN"))
	check(err)
	fout, err := os.Create(os.Getenv("VERIF_OUT"))
	check(err)
	w := bufio.NewWriter(fout)
	sc := bufio.NewScanner(fin)
	sc.Buffer(nil, 1<<28)
	one := func(c *Case) {
		vsync.Jitter = c.Jitter
		b, err := json.Marshal(M{"tid": c.Tid, "out": Run(c, find)})
		check(err)
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
	dogged := func(f func()) {
		dog := time.AfterFunc(60*time.Second, func() { println("fatal: stuck"); os.Exit(3) })
		f()
		dog.Stop()
	}
	var later []*Case
	for sc.Scan() {
		c := &Case{}
		check(json.Unmarshal(sc.Bytes(), c))
		if c.Virtual {
			later = append(later, c)
			continue
		}
		dogged(func() { one(c) })
	}
	// the stores made before keep reloading while a later one is asked: the longest period comes first
	every := func(c *Case) int64 {
		if c.Every == 0 {
			return 300000
		}
		return int64(c.Every)
	}
	sort.SliceStable(later, func(i, j int) bool { return every(later[i]) > every(later[j]) })
	if later != nil { // a store reloads for ever: the process ends with the bubble
		dogged(func() {
			synctest.Test(t, func(*testing.T) {
				for _, c := range later {
					one(c)
				}
				os.Exit(0)
			})
		})
	}
}
