// Package wire is an independent implementation of the three protocols' packet
// layouts, written from the protocol documents. It imports nothing from the
// code under test.
package wire

import (
	"bytes"
	"crypto/md5"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"unicode/utf16"

	"golang.org/x/text/encoding/simplifiedchinese"
)

type M = map[string]any

const (
	CMPP = "cmpp"
	SMGP = "smgp"
	SGIP = "sgip"
)

// Commands of the packets named by kind.
var Cmds = map[string]map[string]uint32{
	CMPP: {"login": 1, "loginr": 0x80000001, "term": 2, "tresp": 0x80000002, "submit": 4, "submitr": 0x80000004,
		"deliver": 5, "dresp": 0x80000005, "active": 8, "aresp": 0x80000008},
	SMGP: {"login": 1, "loginr": 0x80000001, "submit": 2, "submitr": 0x80000002, "deliver": 3, "dresp": 0x80000003,
		"active": 4, "aresp": 0x80000004, "term": 6, "tresp": 0x80000006},
	SGIP: {"login": 1, "loginr": 0x80000001, "term": 2, "tresp": 0x80000002, "submit": 3, "submitr": 0x80000003,
		"deliver": 4, "dresp": 0x80000004, "report": 5, "reportr": 0x80000005},
}

// Known tells whether a command id is one of the protocol's (handled or not).
func Known(proto string, cmd uint32) bool {
	id := cmd &^ 0x80000000
	if id != cmd && cmd&0x80000000 == 0 {
		return false
	}
	switch proto {
	case CMPP:
		return id >= 1 && id <= 9 && id != 3
	case SMGP:
		return id >= 1 && id <= 6 && id != 5
	case SGIP:
		return id >= 1 && id <= 5
	}
	return false
}

// handled by the gateway
var Handled = map[string][]string{
	CMPP: {"login", "term", "tresp", "submit", "dresp", "active", "aresp"},
	SMGP: {"login", "term", "tresp", "submit", "dresp", "active", "aresp"},
	SGIP: {"login", "term", "tresp", "submit"},
}

func IsHandled(proto, k string) bool {
	for _, h := range Handled[proto] {
		if h == k {
			return true
		}
	}
	return false
}

func KindOf(proto string, cmd uint32) string {
	for k, v := range Cmds[proto] {
		if v == cmd {
			return k
		}
	}
	return ""
}

type B struct{ bytes.Buffer }

func (b *B) U8(v int)     { b.WriteByte(byte(v)) }
func (b *B) U16(v int)    { _ = binary.Write(b, binary.BigEndian, uint16(v)) }
func (b *B) U32(v uint32) { _ = binary.Write(b, binary.BigEndian, v) }
func (b *B) U64(v uint64) { _ = binary.Write(b, binary.BigEndian, v) }
func (b *B) S(s string, n int) {
	x := make([]byte, n)
	copy(x, s)
	b.Write(x)
}
func (b *B) Z(n int) { b.Write(make([]byte, n)) }

func Frame(cmd, seq uint32, body []byte) []byte {
	var b B
	b.U32(uint32(12 + len(body)))
	b.U32(cmd)
	b.U32(seq)
	b.Write(body)
	return b.Bytes()
}

// Sequence numbers travel as text; an SGIP one has three words "a.b.c".
func seqWords(s string) [3]uint32 {
	var w [3]uint32
	for i, p := range strings.SplitN(s, ".", 3) {
		v, _ := strconv.ParseUint(p, 10, 32)
		w[i] = uint32(v)
	}
	return w
}

func Pack(proto, kind, seq string, body []byte) []byte {
	w := seqWords(seq)
	if proto == SGIP {
		var b B
		b.U32(w[1])
		b.U32(w[2])
		b.Write(body)
		body = b.Bytes()
	}
	return Frame(Cmds[proto][kind], w[0], body)
}

func Auth(proto, acct, secret string, ts uint32) []byte {
	z := 9
	if proto == SMGP {
		z = 7
	}
	h := md5.Sum([]byte(acct + string(make([]byte, z)) + secret + fmt.Sprintf("%010d", ts)))
	return h[:]
}

func Login(proto, seq, acct, secret string, ver int, ts uint32) []byte {
	var b B
	switch proto {
	case CMPP:
		b.S(acct, 6)
		b.Write(Auth(proto, acct, secret, ts))
		b.U8(ver)
		b.U32(ts)
	case SMGP:
		b.S(acct, 8)
		b.Write(Auth(proto, acct, secret, ts))
		b.U8(2)
		b.U32(ts)
		b.U8(ver)
	case SGIP:
		b.U8(1)
		b.S(acct, 16)
		b.S(secret, 16)
		b.Z(8)
	}
	return Pack(proto, "login", seq, b.Bytes())
}

// BadLogin is a login whose credentials are wrong, in one of many ways; sec may be any (also unknown: empty) secret.
func BadLogin(proto, seq, acct, sec string, ver int, ts uint32, how int) []byte {
	flip := func(s string, k int) string { // one character changed
		if s == "" {
			return "q"
		}
		b := []byte(s)
		b[(k+len(b))%len(b)] ^= 1
		return string(b)
	}
	wrong := []string{sec + "x", sec[:max(len(sec)-1, 0)], "", strings.ToUpper(sec), flip(sec, 0), flip(sec, -1), " " + sec, sec[:min(len(sec), 1)]}
	x := wrong[how%len(wrong)]
	if x == sec {
		x = sec + "x"
	}
	if proto == SGIP || how < len(wrong) {
		return Login(proto, seq, acct, x, ver, ts)
	}
	p := Login(proto, seq, acct, sec, ver, ts)
	at := 12 + 6
	if proto == SMGP {
		at = 12 + 8
	}
	a := p[at : at+16]
	switch how - len(wrong) {
	case 0: // no authenticator
		copy(a, make([]byte, 16))
	case 1: // only its first half
		copy(a[8:], make([]byte, 8))
	case 2:
		a[15] ^= 1
	case 3:
		a[0] ^= 0x80
	case 4: // of another time
		copy(a, Auth(proto, acct, sec, ts+1))
	case 5: // of another account
		copy(a, Auth(proto, acct+"1", sec, ts))
	case 6: // of the other protocol
		o := CMPP
		if proto == CMPP {
			o = SMGP
		}
		copy(a, Auth(o, acct, sec, ts))
	default: // only its last half
		copy(a[:8], make([]byte, 8))
	}
	return p
}

// Hows is the number of ways credentials can be wrong.
const Hows = 16

func LoginResp(proto, seq string, ver, status int) []byte {
	var b B
	switch proto {
	case CMPP:
		if ver>>4 == 3 {
			b.U32(uint32(status))
		} else {
			b.U8(status)
		}
		b.Z(16)
		b.U8(ver)
	case SMGP:
		b.U32(uint32(status))
		b.Z(16)
		b.U8(ver)
	case SGIP:
		b.U8(status)
	}
	return Pack(proto, "loginr", seq, b.Bytes())
}

// SubmitF holds the fields of a submit the drivers vary.
type SubmitF struct {
	From    string
	To      []string
	Content []byte
	Fmt     int
	Report  int
	Level   int
	Udhi    int
	Total   int
	Number  int
	TLVs    []byte
	Service string
	Valid   string
	At      string
	Rnd     *rand.Rand // fills what else there is with anything legal
}

// any is b's remaining legal choices: a text of at most n characters, or a number below n.
func (f *SubmitF) text(def string, n int) string {
	if f.Rnd == nil {
		return def
	}
	x := make([]byte, f.Rnd.Intn(n+1))
	for i := range x {
		x[i] = byte(33 + f.Rnd.Intn(94))
	}
	return string(x)
}
func (f *SubmitF) num(def, n int) int {
	if f.Rnd == nil {
		return def
	}
	return f.Rnd.Intn(n)
}

func Submit(proto, seq string, ver int, f SubmitF) []byte {
	var b B
	switch proto {
	case CMPP:
		v3 := ver>>4 == 3
		b.U64(uint64(f.num(0, 1<<62)))
		b.U8(f.Total)
		b.U8(f.Number)
		b.U8(f.Report)
		b.U8(f.Level)
		b.S(f.Service, 10)
		b.U8(f.num(2, 4))
		if v3 {
			b.S(f.text("", 32), 32)
			b.U8(f.num(0, 2))
		} else {
			b.S(f.text("", 21), 21)
		}
		b.U8(f.num(0, 256))
		b.U8(f.Udhi)
		b.U8(f.Fmt)
		b.S(f.text("901234", 6), 6)
		b.S(f.text("02", 2), 2)
		b.S(f.text("5", 6), 6)
		b.S(f.Valid, 17)
		b.S(f.At, 17)
		b.S(f.From, 21)
		b.U8(len(f.To))
		for _, t := range f.To {
			if v3 {
				b.S(t, 32)
			} else {
				b.S(t, 21)
			}
		}
		if v3 {
			b.U8(f.num(0, 2))
		}
		b.U8(len(f.Content))
		b.Write(f.Content)
		if v3 {
			b.S(f.text("", 20), 20)
		} else {
			b.S(f.text("", 8), 8)
		}
	case SMGP:
		b.U8(6)
		b.U8(f.Report)
		b.U8(f.Level)
		b.S(f.Service, 10)
		b.S(f.text("00", 2), 2)
		b.S(f.text("0", 6), 6)
		b.S(f.text("0", 6), 6)
		b.U8(f.Fmt)
		b.S(f.Valid, 17)
		b.S(f.At, 17)
		b.S(f.From, 21)
		b.S(f.text("", 21), 21)
		b.U8(len(f.To))
		for _, t := range f.To {
			b.S(t, 21)
		}
		b.U8(len(f.Content))
		b.Write(f.Content)
		b.S(f.text("", 8), 8)
		b.Write(f.TLVs)
	case SGIP:
		b.S(f.From, 21)
		b.S(f.text("", 21), 21)
		b.U8(len(f.To))
		for _, t := range f.To {
			b.S(t, 21)
		}
		b.S(f.text("12345", 5), 5)
		b.S(f.Service, 10)
		b.U8(f.num(1, 8))
		b.S(f.text("0", 6), 6)
		b.S(f.text("0", 6), 6)
		b.U8(f.num(0, 3))
		b.U8(f.num(0, 4))
		b.U8(f.Level)
		b.S(f.Valid, 16)
		b.S(f.At, 16)
		b.U8(f.Report)
		b.U8(f.num(0, 256))
		b.U8(f.Udhi)
		b.U8(f.Fmt)
		b.U8(0)
		b.U32(uint32(len(f.Content)))
		b.Write(f.Content)
		b.S(f.text("", 8), 8)
	}
	return Pack(proto, "submit", seq, b.Bytes())
}

// SubmitResp builds the gateway's answer to a submit; mid is hex (SMGP) or decimal (CMPP).
func SubmitResp(proto, seq string, ver, status int, mid string) []byte {
	var b B
	switch proto {
	case CMPP:
		v, _ := strconv.ParseUint(mid, 10, 64)
		b.U64(v)
		if ver>>4 == 3 {
			b.U32(uint32(status))
		} else {
			b.U8(status)
		}
	case SMGP:
		x, _ := hex.DecodeString(mid)
		b.S(string(x), 10)
		b.U32(uint32(status))
	case SGIP:
		b.U8(status)
		b.Z(8)
	}
	return Pack(proto, "submitr", seq, b.Bytes())
}

// Simple builds a packet whose body is fixed: active, aresp, term, tresp, dresp.
func Simple(proto, kind, seq string, ver int, mid string, status int) []byte {
	var b B
	switch kind {
	case "aresp":
		if proto == CMPP {
			b.U8(status)
		}
	case "dresp":
		switch proto {
		case CMPP:
			v, _ := strconv.ParseUint(mid, 10, 64)
			b.U64(v)
			if ver>>4 == 3 {
				b.U32(uint32(status))
			} else {
				b.U8(status)
			}
		case SMGP:
			x, _ := hex.DecodeString(mid)
			b.S(string(x), 10)
			b.U32(uint32(status))
		case SGIP:
			b.U8(status)
			b.Z(8)
		}
	}
	return Pack(proto, kind, seq, b.Bytes())
}

// ReportF holds the fields of a status report.
type ReportF struct {
	Mid        string // id of the message reported on
	Stat       string
	From, To   string // as in the deliver: from = handset, to = the service number
	Own        string // the deliver's own message id
	Sub, Done  string
	SmscSeq    uint32
	ReportType int
	State, Err int
}

func smgpReport(f ReportF) []byte {
	x, _ := hex.DecodeString(f.Mid)
	id := make([]byte, 10)
	copy(id, x)
	sub, done := f.Sub, f.Done
	if sub == "" {
		sub, done = "2601010000", "2601010001"
	}
	e := "000"
	if f.Stat != "DELIVRD" {
		e = "001"
	}
	s := fmt.Sprintf("id:%s sub:001 dlvrd:001 submit date:%s done date:%s stat:%-7s err:%s text:", id, sub, done, f.Stat, e)
	r := make([]byte, 122)
	copy(r, s)
	return r
}

func Report(proto, seq string, ver int, f ReportF) []byte {
	var b B
	switch proto {
	case CMPP:
		var c B
		v, _ := strconv.ParseUint(f.Mid, 10, 64)
		c.U64(v)
		c.S(f.Stat, 7)
		c.S("2601010000", 10)
		c.S("2601010001", 10)
		c.S(f.From, 21)
		c.U32(f.SmscSeq)
		return deliver(proto, seq, ver, f.Own, f.From, f.To, "", 0, 1, c.Bytes())
	case SMGP:
		return deliver(proto, seq, ver, f.Own, f.From, f.To, "", 0, 1, smgpReport(f))
	case SGIP:
		w := seqWords(f.Mid)
		b.U32(w[0])
		b.U32(w[1])
		b.U32(w[2])
		b.U8(f.ReportType)
		b.S(f.From, 21)
		b.U8(f.State)
		b.U8(f.Err)
		b.Z(8)
		return Pack(proto, "report", seq, b.Bytes())
	}
	return nil
}

func Deliver(proto, seq string, ver int, own, from, to, svc string, fmt_ int, content []byte) []byte {
	return deliver(proto, seq, ver, own, from, to, svc, fmt_, 0, content)
}

func deliver(proto, seq string, ver int, own, from, to, svc string, fmt_, isReport int, content []byte) []byte {
	var b B
	switch proto {
	case CMPP:
		v, _ := strconv.ParseUint(own, 10, 64)
		b.U64(v)
		b.S(to, 21)
		b.S(svc, 10)
		b.U8(0)
		b.U8(0)
		b.U8(fmt_)
		if ver>>4 == 3 {
			b.S(from, 32)
			b.U8(0)
		} else {
			b.S(from, 21)
		}
		b.U8(isReport)
		b.U8(len(content))
		b.Write(content)
		if ver>>4 == 3 {
			b.Z(20)
		} else {
			b.Z(8)
		}
	case SMGP:
		x, _ := hex.DecodeString(own)
		b.S(string(x), 10)
		b.U8(isReport)
		b.U8(fmt_)
		b.S("20260101000000", 14)
		b.S(from, 21)
		b.S(to, 21)
		b.U8(len(content))
		b.Write(content)
		b.Z(8)
	case SGIP:
		b.S(from, 21)
		b.S(to, 21)
		b.U8(0)
		b.U8(0)
		b.U8(fmt_)
		b.U32(uint32(len(content)))
		b.Write(content)
		b.Z(8)
	}
	return Pack(proto, "deliver", seq, b.Bytes())
}

func Ucs2(s string) []byte {
	var b B
	for _, u := range utf16.Encode([]rune(s)) {
		b.U16(int(u))
	}
	return b.Bytes()
}

func UnUcs2(x []byte) string {
	var u []uint16
	for i := 0; i+1 < len(x); i += 2 {
		u = append(u, binary.BigEndian.Uint16(x[i:]))
	}
	return string(utf16.Decode(u))
}

func UnGb(x []byte) string {
	r, err := simplifiedchinese.GB18030.NewDecoder().Bytes(x)
	if err != nil {
		return "!gb:" + hex.EncodeToString(x)
	}
	return string(r)
}

func Gb(s string) []byte {
	r, _ := simplifiedchinese.GB18030.NewEncoder().Bytes([]byte(s))
	return r
}

func text(proto string, f int, x []byte) string {
	switch {
	case f == 8:
		return UnUcs2(x)
	case f == 15:
		return UnGb(x)
	case proto == SMGP:
		return UnGb(x)
	}
	return string(x)
}

type rd struct {
	b   []byte
	bad bool
}

func (r *rd) take(n int) []byte {
	if n < 0 || len(r.b) < n {
		r.bad = true
		return make([]byte, min(max(n, 0), 8192))
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}
func (r *rd) u8() int     { return int(r.take(1)[0]) }
func (r *rd) u16() int    { return int(binary.BigEndian.Uint16(r.take(2))) }
func (r *rd) u32() uint32 { return binary.BigEndian.Uint32(r.take(4)) }
func (r *rd) u64() uint64 { return binary.BigEndian.Uint64(r.take(8)) }
func (r *rd) s(n int) string {
	x := r.take(n)
	if i := bytes.IndexByte(x, 0); i >= 0 {
		x = x[:i]
	}
	return string(x)
}

// Up decodes one packet a client sends to the gateway (kind, fields). The kind is
// "mal" if a handled packet's body is too short, "amb" if only its trailing
// reserved octets are missing (both readings are tolerated), "other" if the
// gateway has no handler for it, "badlen"/"badcmd" for an illegal header.
func Up(proto string, ver int, p []byte, secretOf func(acct string) (string, bool)) M {
	h := rd{b: p}
	h.u32()
	cmd := h.u32()
	seq := fmt.Sprint(h.u32())
	k := KindOf(proto, cmd)
	if !IsHandled(proto, k) {
		return M{"k": "other"}
	}
	r := &rd{b: h.b}
	if proto == SGIP {
		a, b := r.u32(), r.u32()
		seq = fmt.Sprintf("%s.%d.%d", seq, a, b)
	}
	m := M{"k": k, "seq": seq}
	tail := 0
	switch k {
	case "login":
		switch proto {
		case CMPP:
			acct := r.s(6)
			auth := r.take(16)
			v := r.u8()
			ts := r.u32()
			sec, ok := secretOf(acct)
			m["acct"], m["ver"], m["cred"] = acct, v>>4, ok && bytes.Equal(auth, Auth(proto, acct, sec, ts))
		case SMGP:
			acct := r.s(8)
			auth := r.take(16)
			r.u8()
			ts := r.u32()
			v := r.u8()
			sec, ok := secretOf(acct)
			m["acct"], m["ver"], m["cred"] = acct, v>>4, ok && bytes.Equal(auth, Auth(proto, acct, sec, ts))
		case SGIP:
			r.u8()
			acct := r.s(16)
			pass := r.s(16)
			sec, ok := secretOf(acct)
			m["acct"], m["ver"], m["cred"] = acct, 0, ok && pass == sec
			tail = 8
		}
	case "submit":
		var from string
		var to []string
		switch proto {
		case CMPP:
			v3 := ver>>4 == 3
			r.take(8 + 4 + 10 + 1)
			if v3 {
				r.take(33)
			} else {
				r.take(21)
			}
			r.take(3 + 6 + 2 + 6 + 17 + 17)
			from = r.s(21)
			n := r.u8()
			for i := 0; i < n && !r.bad; i++ {
				if v3 {
					to = append(to, r.s(32))
				} else {
					to = append(to, r.s(21))
				}
			}
			if v3 {
				r.u8()
			}
			r.take(r.u8())
			if v3 {
				r.take(20)
			} else {
				tail = 8
			}
		case SMGP:
			r.take(3 + 10 + 2 + 6 + 6 + 1 + 17 + 17)
			from = r.s(21)
			r.take(21)
			n := r.u8()
			for i := 0; i < n && !r.bad; i++ {
				to = append(to, r.s(21))
			}
			r.take(r.u8())
			r.take(8)
		case SGIP:
			from = r.s(21)
			r.take(21)
			n := r.u8()
			for i := 0; i < n && !r.bad; i++ {
				to = append(to, r.s(21))
			}
			r.take(5 + 10 + 1 + 6 + 6 + 3 + 16 + 16 + 5)
			r.take(int(r.u32()))
			tail = 8
		}
		m["from"] = from
		if len(to) > 0 {
			m["to"] = to[0]
		} else {
			m["to"] = ""
		}
	case "aresp":
		tail = 1 // one reserved octet (CMPP), which some gateways leave out
		if proto != CMPP {
			tail = 0
		}
	case "dresp":
		if proto == CMPP {
			r.u64()
			if ver>>4 == 3 {
				r.u32()
			} else {
				r.u8()
			}
		} else {
			r.take(14)
		}
	case "tresp", "term", "active":
	}
	if r.bad {
		return M{"k": "mal", "of": k}
	}
	if len(r.b) < tail {
		return M{"k": "amb", "of": k}
	}
	return m
}

// Down decodes one packet the gateway sends to a client. Anything that does not have
// exactly the layout of its kind and version is "garbage".
func Down(proto string, ver int, p []byte) M {
	garbage := M{"k": "garbage", "hex": hex.EncodeToString(p)}
	if len(p) < 12 || int(binary.BigEndian.Uint32(p)) != len(p) {
		return garbage
	}
	h := rd{b: p}
	h.u32()
	cmd := h.u32()
	seq := fmt.Sprint(h.u32())
	k := KindOf(proto, cmd)
	r := &rd{b: h.b}
	if proto == SGIP {
		a, b := r.u32(), r.u32()
		seq = fmt.Sprintf("%s.%d.%d", seq, a, b)
	}
	m := M{"k": k, "seq": seq}
	v3 := ver>>4 == 3
	switch k {
	case "loginr":
		switch proto {
		case CMPP:
			if v3 {
				m["st"] = int(r.u32())
			} else {
				m["st"] = r.u8()
			}
			r.take(16)
			r.u8()
		case SMGP:
			m["st"] = int(r.u32())
			r.take(17)
		case SGIP:
			m["st"] = r.u8()
		}
	case "submitr":
		switch proto {
		case CMPP:
			m["mid"] = fmt.Sprint(r.u64())
			if v3 {
				m["st"] = int(r.u32())
			} else {
				m["st"] = r.u8()
			}
		case SMGP:
			m["mid"] = hex.EncodeToString(r.take(10))
			m["st"] = int(r.u32())
		case SGIP:
			m["mid"] = ""
			m["st"] = r.u8()
			r.take(8)
		}
	case "deliver":
		var rep, f int
		var c []byte
		switch proto {
		case CMPP:
			m["own"] = fmt.Sprint(r.u64())
			m["to"] = r.s(21)
			m["svc"] = r.s(10)
			r.take(2)
			f = r.u8()
			if v3 {
				m["from"] = r.s(32)
				r.u8()
			} else {
				m["from"] = r.s(21)
			}
			rep = r.u8()
			c = r.take(r.u8())
			if v3 {
				r.take(20)
			} else {
				r.take(8)
			}
		case SMGP:
			m["own"] = hex.EncodeToString(r.take(10))
			rep = r.u8()
			f = r.u8()
			r.take(14)
			m["from"] = r.s(21)
			m["to"] = r.s(21)
			m["svc"] = ""
			c = r.take(r.u8())
			r.take(8)
		default:
			return garbage
		}
		if rep == 1 {
			m["k"] = "report"
			q := &rd{b: c}
			if proto == CMPP {
				m["mid"] = fmt.Sprint(q.u64())
				m["stat"] = q.s(7)
				q.take(20)
				m["dest"] = q.s(21)
				m["sm"] = int(q.u32() % 100)
				if q.bad || len(q.b) > 11 {
					return garbage
				}
			} else {
				if len(c) != 122 || string(c[:3]) != "id:" || string(c[13:18]) != " sub:" || string(c[75:81]) != " stat:" {
					return garbage
				}
				m["mid"] = hex.EncodeToString(c[3:13])
				m["stat"] = string(c[81:88])
				m["dest"] = m["from"]
				m["sm"] = 0
			}
		} else {
			m["k"] = "mo"
			m["text"] = text(proto, f, c)
		}
	case "aresp":
		if proto == CMPP {
			r.u8()
		}
	case "active", "term", "tresp":
		if proto == SGIP && k == "tresp" && len(r.b) > 0 {
			r.take(len(r.b))
		}
	default:
		return garbage
	}
	if r.bad || len(r.b) > 0 {
		return garbage
	}
	return m
}

// Tlvs is a well-formed list of optional parameters.
func Tlvs(r *rand.Rand) []byte {
	var b B
	for n := 1 + r.Intn(5); n > 0; n-- {
		tag, w := 1+r.Intn(16), 1
		if tag == 3 || tag == 6 || tag == 8 || tag == 14 || r.Intn(8) == 0 {
			w = r.Intn(22)
		}
		b.U16(tag)
		b.U16(w)
		x := make([]byte, w)
		r.Read(x)
		b.Write(x)
	}
	return b.Bytes()
}
