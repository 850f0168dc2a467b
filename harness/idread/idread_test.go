// Package idread draws identifiers from the real generators, reads them back, and writes numbers and times with the real helpers.
package idread

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/hrygo/gosms/codec/sgip"
	"github.com/hrygo/gosms/utils"
	"github.com/hrygo/gosms/utils/snowflake"
	"github.com/hrygo/gosms/utils/snowflake32"
	"verif.local/harness/vtime"
)

type M = map[string]any

type Op struct {
	E   string  `json:"e"`
	Day int64   `json:"day"`
	Ms  int64   `json:"ms"`
	N   int     `json:"n"`
	X   []int   `json:"x"`
	W   [][]int `json:"w"`
	S   string  `json:"s"`
}

type Case struct {
	Tid  int    `json:"tid"`
	Kind string `json:"kind"`
	Dc   int64  `json:"dc"`
	Wk   int64  `json:"wk"`
	Ops  []Op   `json:"ops"`
}

func oct(b []byte) []int {
	r := make([]int, len(b))
	for k, x := range b {
		r[k] = int(x)
	}
	return r
}
func bytesOf(x []int) []byte {
	b := make([]byte, len(x))
	for k := range x {
		b[k] = byte(x[k])
	}
	return b
}
func o8(x uint64) []int  { return oct(binary.BigEndian.AppendUint64(nil, x)) }
func o4(x uint32) []int  { return oct(binary.BigEndian.AppendUint32(nil, x)) }
func str(s string) []int { return oct([]byte(s)) }
func u64(x []int) uint64 { return binary.BigEndian.Uint64(bytesOf(x)) }
func u32(x []int) uint32 { return binary.BigEndian.Uint32(bytesOf(x)) }
func words(w []uint32) [][]int {
	r := [][]int{}
	for _, x := range w {
		r = append(r, o4(x))
	}
	return r
}

func r64(s *snowflake.Snowflake) M {
	return M{"t": o8(uint64(s.Timestamp())), "dc": s.DatacenterId(), "wk": s.WorkerId(), "n": s.Sequence(), "s": str(s.String())}
}
func r32(s *snowflake32.Snowflake) M {
	return M{"t": o4(uint32(s.Seconds())), "dc": s.Datacenter(), "wk": s.Worker(), "n": s.Sequence(), "s": str(s.String())}
}

func run(c Case, node uint32) (ev []M) {
	g64 := snowflake.NewSnowflake(c.Dc, c.Wk)
	g32 := snowflake32.NewSnowflake(int32(c.Dc), int32(c.Wk))
	for _, o := range c.Ops {
		at := time.UnixMilli(o.Day*86400000 + o.Ms)
		u := at.UTC()
		vtime.Set(at, time.Second, 0)
		if c.Kind == "sf64" {
			vtime.Set(at, time.Millisecond, 0)
		}
		switch o.E {
		case "draw":
			for k := 0; k < o.N; k++ {
				vtime.Set(at, time.Second, 0)
				if c.Kind == "sf64" {
					vtime.Set(at, time.Millisecond, 0)
					v := g64.NextVal()
					if k > 2 && k < o.N-2 && k%97 != 0 {
						continue
					}
					ev = append(ev, M{"e": "draw64", "dc": c.Dc, "wk": c.Wk, "day": o.Day, "ms": o.Ms, "val": o8(uint64(v)), "own": r64(g64), "parsed": r64(snowflake.Parse(v))})
				} else {
					v := g32.NextVal()
					if k > 2 && k < o.N-2 && k%97 != 0 {
						continue
					}
					ev = append(ev, M{"e": "draw32", "dc": c.Dc, "wk": c.Wk, "day": o.Day, "ms": o.Ms, "val": o4(uint32(v)), "own": r32(g32), "parsed": r32(snowflake32.Parse(v))})
				}
			}
		case "parse":
			if len(o.X) == 8 {
				ev = append(ev, M{"e": "parse", "x": o.X, "parsed": r64(snowflake.Parse(int64(u64(o.X))))})
			} else {
				ev = append(ev, M{"e": "parse", "x": o.X, "parsed": r32(snowflake32.Parse(int32(u32(o.X))))})
			}
		case "sgip":
			v := sgip.Sequencer.NextVal()
			ev = append(ev, M{"e": "sgip", "node": o4(node), "val": words(v), "cur": words(sgip.Sequencer.CurVal()), "s": str(sgip.Sequencer.String()),
				"clk": []int{int(u.Month()), u.Day(), u.Hour(), u.Minute(), u.Second()}})
		case "words":
			h := sgip.MessageHeader{PacketLength: 20, CommandId: sgip.SGIP_BIND, SequenceNumber: []uint32{u32(o.W[0]), u32(o.W[1]), u32(o.W[2])}}
			ev = append(ev, M{"e": "words", "x": o.W, "s": str(h.Sequence2String()), "u": o8(h.Sequence2Uint64())})
		case "hex":
			if len(o.X) == 8 {
				ev = append(ev, M{"e": "hex", "x": o.X, "s": str(utils.Uint64HexString(u64(o.X)))})
			} else {
				ev = append(ev, M{"e": "hex", "x": o.X, "s": str(utils.Uint32HexString(u32(o.X)))})
			}
		case "ten":
			ev = append(ev, M{"e": "ten", "x": o.X, "s": str(utils.TimeStamp2Str(u32(o.X)))})
		case "fix":
			ev = append(ev, M{"e": "fix", "x": o.X, "n": o.N, "s": str(utils.IntToFixStr(int64(u64(o.X)), o.N))})
		case "bcd":
			b := utils.StoBcd(o.S)
			ev = append(ev, M{"e": "bcd", "s": str(o.S), "o": oct(b), "back": str(utils.BcdToString(b))})
		case "unbcd":
			s := utils.BcdToString(bytesOf(o.X))
			ev = append(ev, M{"e": "unbcd", "o": o.X, "s": str(s), "back": oct(utils.StoBcd(s))})
		case "now":
			s, n := utils.Now()
			ev = append(ev, M{"e": "now", "clk": []int{int(u.Month()), u.Day(), u.Hour(), u.Minute(), u.Second()}, "s": str(s), "x": o4(n), "back": str(utils.TimeStamp2Str(n))})
		case "fmt":
			ev = append(ev, M{"e": "fmt", "clk": []int{u.Year() % 100, int(u.Month()), u.Day(), u.Hour(), u.Minute(), u.Second()}, "s": str(utils.FormatTime(u))})
		default:
			panic("unknown operation " + o.E)
		}
	}
	return
}

func TestDrive(t *testing.T) {
	node, _ := strconv.ParseUint(os.Getenv("VERIF_NODE"), 10, 32)
	sgip.NewSequencer(uint32(node), uint32(node>>7))
	in, err := os.Open(os.Getenv("VERIF_IN"))
	if err != nil {
		t.Fatal(err)
	}
	out, err := os.Create(os.Getenv("VERIF_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		var c Case
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			t.Fatal(err)
		}
		b, err := json.Marshal(M{"tid": c.Tid, "out": run(c, uint32(node))})
		if err != nil {
			t.Fatal(err)
		}
		out.Write(append(b, '\n'))
	}
}
