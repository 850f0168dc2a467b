// Package mtopts turns cases into accounts, texts and submit options.
package mtopts

import (
	"encoding/json"
	"fmt"
	"time"

	"github.com/hrygo/gosms/codec"
)

// B is octets, written as a JSON array of numbers.
type B []byte

func (b B) MarshalJSON() ([]byte, error) {
	o := []byte{'['}
	for k, x := range b {
		if k > 0 {
			o = append(o, ',')
		}
		o = append(o, fmt.Sprint(x)...)
	}
	return append(o, ']'), nil
}
func (b *B) UnmarshalJSON(d []byte) error {
	var x []int
	if err := json.Unmarshal(d, &x); err != nil {
		return err
	}
	*b = make([]byte, len(x))
	for k := range x {
		(*b)[k] = byte(x[k])
	}
	return nil
}

type Char struct {
	C rune `json:"c"`
}
type Opt struct {
	O string          `json:"o"`
	V json.RawMessage `json:"v"`
	T int64           `json:"t"`
}

func u32(b B) (r uint32) {
	for _, x := range b {
		r = r<<8 | uint32(x)
	}
	return
}

func Account(p string, v int, dur time.Duration, ac map[string]B) *codec.AuthConf {
	s := func(n string) string { return string(ac[n]) }
	n := func(n string) byte { return byte(u32(ac[n])) }
	return &codec.AuthConf{ISP: p, ClientId: s("ClientId"), LoginName: s("LoginName"), SharedSecret: s("SharedSecret"), Version: byte(v),
		NeedReport: n("NeedReport"), SmsDisplayNo: s("SmsDisplayNo"), ServiceId: s("ServiceId"), DefaultMsgLevel: n("DefaultMsgLevel"),
		FeeUserType: n("FeeUserType"), FeeTerminalType: n("FeeTerminalType"), FeeTerminalId: s("FeeTerminalId"), FeeType: s("FeeType"),
		FeeCode: s("FeeCode"), FixedFee: s("FixedFee"), LinkId: s("LinkId"), MtValidDuration: dur}
}

func Text(l []Char) string {
	r := make([]rune, len(l))
	for k := range l {
		r[k] = l[k].C
	}
	return string(r)
}

func Options(l []Opt) (r []codec.OptionFunc) {
	for _, o := range l {
		var b B
		if o.O != "all" {
			if err := json.Unmarshal(o.V, &b); err != nil {
				panic(err)
			}
		}
		switch o.O {
		case "NeedReport":
			r = append(r, codec.MtNeedReport(b[0]))
		case "MsgLevel":
			r = append(r, codec.MtMsgLevel(b[0]))
		case "FeeUsertype":
			r = append(r, codec.MtFeeUsertype(b[0]))
		case "FeeTerminalType":
			r = append(r, codec.MtFeeTerminalType(b[0]))
		case "ServiceId":
			r = append(r, codec.MtServiceId(string(b)))
		case "FeeTerminalId":
			r = append(r, codec.MtFeeTerminalId(string(b)))
		case "FeeType":
			r = append(r, codec.MtFeeType(string(b)))
		case "FeeCode":
			r = append(r, codec.MtFeeCode(string(b)))
		case "ValidTime":
			r = append(r, codec.MtValidTime(string(b)))
		case "AtTime":
			r = append(r, codec.MtAtTime(time.UnixMilli(o.T).UTC()))
		case "AtTimeStr":
			r = append(r, codec.MtAtTimeStr(string(b)))
		case "SpSubNo":
			r = append(r, codec.MtSpSubNo(string(b)))
		case "LinkID":
			r = append(r, codec.MtLinkID(string(b)))
		case "all":
			m := map[string]B{}
			if err := json.Unmarshal(o.V, &m); err != nil {
				panic(err)
			}
			num := func(n string) uint8 {
				if x, ok := m[n]; ok {
					return x[0]
				}
				return 0xf
			}
			s := func(n string) string { return string(m[n]) }
			r = append(r, codec.WithMtOptions(&codec.MtOptions{NeedReport: num("NeedReport"), MsgLevel: num("MsgLevel"), FeeUsertype: num("FeeUsertype"),
				FeeTerminalType: num("FeeTerminalType"), ServiceId: s("ServiceId"), FeeTerminalId: s("FeeTerminalId"), FeeType: s("FeeType"),
				FeeCode: s("FeeCode"), ValidTime: s("ValidTime"), AtTime: s("AtTime"), SpSubNo: s("SpSubNo"), LinkID: s("LinkID")}))
		default:
			panic(o.O)
		}
	}
	return
}
