// Package codec drives the real packet types: any octets into decoders, any account, options and text into constructors.
package codec

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"testing"
	"time"

	"github.com/hrygo/log"

	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/codec/cmpp"
	"github.com/hrygo/gosms/codec/sgip"
	"github.com/hrygo/gosms/codec/smgp"
	"github.com/hrygo/gosms/utils"
	"verif.local/harness/mtopts"
	"verif.local/harness/vtime"
)

type (
	B    = mtopts.B
	Char = mtopts.Char
	Opt  = mtopts.Opt
)

type Op struct {
	O string `json:"o"`
	T B      `json:"t"`
	V B      `json:"v"`
	B B      `json:"b"`
}
type Case struct {
	Tid     int                        `json:"tid"`
	K       string                     `json:"k"`
	P       string                     `json:"p"`
	Kind    string                     `json:"kind"`
	V       int                        `json:"v"`
	Seq     B                          `json:"seq"`
	Body    B                          `json:"body"`
	Code    B                          `json:"code"`
	Ac      map[string]B               `json:"ac"`
	Text    []Char                     `json:"text"`
	Opts    []Opt                      `json:"opts"`
	Phones  []B                        `json:"phones"`
	Phone   B                          `json:"phone"`
	Dest    B                          `json:"dest"`
	Service B                          `json:"service"`
	Msgid   B                          `json:"msgid"`
	Mt      B                          `json:"mt"`
	Mtseq   B                          `json:"mtseq"`
	State   B                          `json:"state"`
	Errcode B                          `json:"errcode"`
	R       map[string]json.RawMessage `json:"r"`
	Ops     []Op                       `json:"ops"`
	Limit   int                        `json:"limit"`
	Content B                          `json:"content"`
	Now     int64                      `json:"now"`
	Dur     int64                      `json:"dur"`
	Type    int                        `json:"type"`
	Pre     int                        `json:"pre"`
}

type M map[string]any

func n8(x uint8) B   { return B{x} }
func n32(x uint32) B { return binary.BigEndian.AppendUint32(nil, x) }
func n64(x uint64) B { return binary.BigEndian.AppendUint64(nil, x) }
func str(x string) B { return B([]byte(x)) }
func strs(x []string) []B {
	r := make([]B, 0)
	for _, s := range x {
		r = append(r, str(s))
	}
	return r
}
func u32(b B) (r uint32) {
	for _, x := range b {
		r = r<<8 | uint32(x)
	}
	return
}
func u64(b B) (r uint64) {
	for _, x := range b {
		r = r<<8 | uint64(x)
	}
	return
}
func words(b B) (r []uint32) {
	for k := 0; k+4 <= len(b); k += 4 {
		r = append(r, u32(b[k:k+4]))
	}
	return
}
func wordsOct(w []uint32) (r B) {
	r = B{}
	for _, x := range w {
		r = append(r, n32(x)...)
	}
	return
}
func tlvs(l []utils.TLV) []M {
	r := make([]M, 0)
	for _, t := range l {
		r = append(r, M{"t": B{byte(t.Type() >> 8), byte(t.Type())}, "v": B(t.Value())})
	}
	return r
}

// listed reads a list through its own encoding (its elements are not exported)
func listed(l *utils.TlvList) []M {
	r := make([]M, 0)
	if l == nil {
		return r
	}
	var buf bytes.Buffer
	if err := l.Write(&buf); err != nil {
		return []M{{"t": B{}, "v": str(err.Error())}}
	}
	b := buf.Bytes()
	for len(b) >= 4 {
		n := int(binary.BigEndian.Uint16(b[2:4]))
		r = append(r, M{"t": B(b[:2]), "v": B(b[4 : 4+n])})
		b = b[4+n:]
	}
	return r
}

// pdu makes an empty packet of the kind; show lists what its accessors say
func pdu(p, kind string, v int) (codec.Pdu, func() M) {
	switch p {
	case "cmpp":
		ver := cmpp.Version(v)
		hdr := func(h *cmpp.MessageHeader) M { return M{"Seq": n32(h.SequenceId), "Cmd": n32(uint32(h.CommandId))} }
		with := func(h *cmpp.MessageHeader, m M) M {
			for k, x := range hdr(h) {
				m[k] = x
			}
			return m
		}
		switch kind {
		case "connect":
			o := &cmpp.Connect{}
			return o, func() M {
				return with(&o.MessageHeader, M{"SourceAddr": str(o.SourceAddr()), "Auth": B(o.AuthenticatorSource()), "Version": n8(uint8(o.Version)),
					"Timestamp": n32(o.Timestamp())})
			}
		case "connect_resp":
			o := &cmpp.ConnectResp{Version: ver}
			return o, func() M {
				return with(&o.MessageHeader, M{"Status": n32(uint32(o.Status())), "Auth": B(o.AuthenticatorISMG()), "Version": n8(uint8(o.Version))})
			}
		case "submit":
			o := &cmpp.Submit{Version: ver}
			return o, func() M {
				m := M{"PkTotal": n8(o.PkTotal()), "PkNumber": n8(o.PkNumber()), "RegisteredDel": n8(o.RegisteredDel()), "MsgLevel": n8(o.MsgLevel()),
					"ServiceId": str(o.ServiceId()), "FeeUsertype": n8(o.FeeUsertype()), "FeeTerminalId": str(o.FeeTerminalId()),
					"TpPid": n8(o.TpPid()), "TpUdhi": n8(o.TpUdhi()), "MsgFmt": n8(o.MsgFmt()), "MsgSrc": str(o.MsgSrc()), "FeeType": str(o.FeeType()),
					"FeeCode": str(o.FeeCode()), "ValidTime": str(o.ValidTime()), "AtTime": str(o.AtTime()), "SrcId": str(o.SrcId()),
					"DestUsrTl": n8(o.DestUsrTl()), "TermIdsRaw": B(o.TermIds()), "DestTerminalId": str(o.DestTerminalId()),
					"MsgLength": n8(o.MsgLength()), "MsgContent": B(o.MsgContent())}
				if v>>4 == 3 {
					m["FeeTerminalType"] = n8(o.FeeTerminalType())
					m["DestTerminalType"] = n8(o.DestTerminalType())
					m["LinkID"] = str(o.LinkID())
				}
				return with(&o.MessageHeader, m)
			}
		case "submit_resp":
			o := &cmpp.SubmitRsp{Version: ver}
			return o, func() M { return with(&o.MessageHeader, M{"MsgId": n64(o.MsgId()), "Result": n32(o.Result())}) }
		case "deliver":
			o := &cmpp.Delivery{Version: ver}
			return o, func() M {
				m := M{"MsgId": n64(o.MsgId()), "DestId": str(o.DestId()), "ServiceId": str(o.ServiceId()), "TpPid": n8(o.TpPid()), "TpUdhi": n8(o.TpUdhi()),
					"MsgFmt": n8(o.MsgFmt()), "SrcTerminalId": str(o.SrcTerminalId()), "MsgLength": n8(o.MsgLength()), "MsgContent": str(o.MsgContent()),
					"IsRep": o.IsReport()}
				if v>>4 == 3 {
					m["SrcTerminalType"] = n8(o.SrcTerminalType())
					m["LinkID"] = str(o.LinkID())
				}
				if r := o.Report(); r != nil {
					m["RMsgId"], m["RStat"], m["RSubmitTime"], m["RDoneTime"] = n64(r.MsgId()), str(r.Stat()), str(r.SubmitTime()), str(r.DoneTime())
					m["RDestTerminalId"], m["RSmscSequence"] = str(r.DestTerminalId()), n32(r.SmscSequence())
				} else if o.IsReport() {
					m["no report"] = true
				}
				return with(&o.MessageHeader, m)
			}
		case "deliver_resp":
			o := &cmpp.DeliveryRsp{Version: ver}
			return o, func() M { return hdr(&o.MessageHeader) }
		case "active_test":
			o := &cmpp.ActiveTest{}
			return o, func() M { return hdr((*cmpp.MessageHeader)(o)) }
		case "active_test_resp":
			o := &cmpp.ActiveTestRsp{}
			return o, func() M { return hdr((*cmpp.MessageHeader)(o)) }
		case "terminate":
			o := &cmpp.Terminate{}
			return o, func() M { return hdr((*cmpp.MessageHeader)(o)) }
		case "terminate_resp":
			o := &cmpp.TerminateRsp{}
			return o, func() M { return hdr((*cmpp.MessageHeader)(o)) }
		}
	case "smgp":
		ver := smgp.Version(v)
		hdr := func(h *smgp.MessageHeader) M { return M{"Seq": n32(h.SequenceId), "Cmd": n32(uint32(h.RequestId))} }
		with := func(h *smgp.MessageHeader, m M) M {
			for k, x := range hdr(h) {
				m[k] = x
			}
			return m
		}
		switch kind {
		case "login":
			o := &smgp.Login{}
			return o, func() M {
				return with(&o.MessageHeader, M{"ClientID": str(o.ClientID()), "Auth": B(o.AuthenticatorClient()), "LoginMode": n8(o.LoginMode()),
					"Timestamp": n32(o.Timestamp()), "Version": n8(uint8(o.Version))})
			}
		case "login_resp":
			o := &smgp.LoginRsp{}
			return o, func() M {
				return with(&o.MessageHeader, M{"Status": n32(uint32(o.Status())), "Auth": B(o.AuthenticatorServer()), "Version": n8(uint8(o.Version))})
			}
		case "submit":
			o := &smgp.Submit{Version: ver}
			return o, func() M {
				return with(&o.MessageHeader, M{"MsgType": n8(o.MsgType()), "NeedReport": n8(o.NeedReport()), "Priority": n8(o.Priority()),
					"ServiceID": str(o.ServiceID()), "FeeType": str(o.FeeType()), "FeeCode": str(o.FeeCode()), "FixedFee": str(o.FixedFee()),
					"MsgFormat": n8(o.MsgFormat()), "ValidTime": str(o.ValidTime()), "AtTime": str(o.AtTime()), "SrcTermID": str(o.SrcTermID()),
					"ChargeTermID": str(o.ChargeTermID()), "DestTermIDCount": n8(o.DestTermIDCount()), "DestTermID": strs(o.DestTermID()),
					"MsgLength": n8(o.MsgLength()), "MsgContent": B(o.MsgContent()), "Reserve": str(o.Reserve()), "Tlvs": listed(o.TlvList())})
			}
		case "submit_resp":
			o := &smgp.SubmitRsp{Version: ver}
			return o, func() M { return with(&o.MessageHeader, M{"MsgId": B(o.MsgId()), "Status": n32(uint32(o.Status()))}) }
		case "deliver":
			o := &smgp.Delivery{Version: ver}
			return o, func() M {
				m := M{"MsgId": B(o.MsgId()), "MsgFormat": n8(o.MsgFormat()), "RecvTime": str(o.RecvTime()), "SrcTermID": str(o.SrcTermID()),
					"DestTermID": str(o.DestTermID()), "MsgLength": n8(o.MsgLength()), "MsgContent": str(o.MsgContent()), "IsRep": o.IsReport()}
				if r := o.Report(); r != nil {
					m["RId"], m["RSub"], m["RDlvrd"], m["RSubmitDate"] = B(r.Id()), str(r.Sub()), str(r.Dlvrd()), str(r.SubmitDate())
					m["RDoneDate"], m["RStat"] = str(r.DoneDate()), str(r.Stat())
				} else if o.IsReport() {
					m["no report"] = true
				}
				return with(&o.MessageHeader, m)
			}
		case "deliver_resp":
			o := &smgp.DeliverRsp{Version: ver}
			return o, func() M {
				b := B{}
				fmt.Sscanf(o.MsgId(), "%x", (*[]byte)(&b))
				return with(&o.MessageHeader, M{"MsgId": b, "Status": n32(uint32(o.Status()))})
			}
		case "active_test":
			o := &smgp.ActiveTest{}
			return o, func() M { return hdr((*smgp.MessageHeader)(o)) }
		case "active_test_resp":
			o := &smgp.ActiveTestRsp{}
			return o, func() M { return hdr((*smgp.MessageHeader)(o)) }
		case "exit":
			o := &smgp.Exit{}
			return o, func() M { return hdr((*smgp.MessageHeader)(o)) }
		case "exit_resp":
			o := &smgp.ExitRsp{}
			return o, func() M { return hdr((*smgp.MessageHeader)(o)) }
		}
	case "sgip":
		hdr := func(h *sgip.MessageHeader) M {
			return M{"Seq": wordsOct(h.SequenceNumber), "Cmd": n32(uint32(h.CommandId))}
		}
		with := func(h *sgip.MessageHeader, m M) M {
			for k, x := range hdr(h) {
				m[k] = x
			}
			return m
		}
		switch kind {
		case "bind":
			o := &sgip.Bind{}
			return o, func() M {
				return with(&o.MessageHeader, M{"LoginType": n8(o.LoginType), "LoginName": str(o.LoginName), "LoginPassword": str(o.LoginPassword)})
			}
		case "bind_resp":
			o := &sgip.BindRsp{}
			return o, func() M { return with(&o.MessageHeader, M{"Status": n8(uint8(o.Status))}) }
		case "submit":
			o := &sgip.Submit{}
			return o, func() M {
				return with(&o.MessageHeader, M{"SPNumber": str(o.SPNumber), "ChargeNumber": str(o.ChargeNumber), "UserCount": n8(o.UserCount),
					"UserNumber": strs(o.UserNumber), "CorpId": str(o.CorpId), "ServiceType": str(o.ServiceType), "FeeType": n8(o.FeeType),
					"FeeValue": str(o.FeeValue), "GivenValue": str(o.GivenValue), "AgentFlag": n8(o.AgentFlag), "MorelatetoMTFlag": n8(o.MorelatetoMTFlag),
					"Priority": n8(o.Priority), "ExpireTime": str(o.ExpireTime), "ScheduleTime": str(o.ScheduleTime), "ReportFlag": n8(o.ReportFlag),
					"TpPid": n8(o.TpPid), "TpUdhi": n8(o.TpUdhi), "MessageCoding": n8(o.MessageCoding), "MessageType": n8(o.MessageType),
					"MessageLength": n32(o.MessageLength), "MessageContent": B(o.MessageContent)})
			}
		case "submit_resp":
			o := &sgip.SubmitRsp{}
			return o, func() M { return with(&o.MessageHeader, M{"Status": n8(uint8(o.Status))}) }
		case "deliver":
			o := &sgip.Deliver{}
			return o, func() M {
				return with(&o.MessageHeader, M{"UserNumber": str(o.UserNumber), "SPNumber": str(o.SPNumber), "TpPid": n8(o.TpPid), "TpUdhi": n8(o.TpUdhi),
					"MessageCoding": n8(o.MessageCoding), "MessageLength": n32(o.MessageLength), "MessageContent": B(o.MessageContent)})
			}
		case "deliver_resp":
			o := &sgip.DeliverRsp{}
			return o, func() M { return with(&o.MessageHeader, M{"Status": n8(uint8(o.Status))}) }
		case "report":
			o := &sgip.Report{}
			return o, func() M {
				return with(&o.MessageHeader, M{"MtSequence": wordsOct(o.MtSequence), "ReportType": n8(o.ReportType), "UserNumber": str(o.UserNumber),
					"State": n8(uint8(o.State)), "ErrorCode": n8(o.ErrorCode)})
			}
		case "report_resp":
			o := &sgip.ReportRsp{}
			return o, func() M { return with(&o.MessageHeader, M{"Status": n8(uint8(o.Status))}) }
		case "unbind":
			o := &sgip.Unbind{}
			return o, func() M { return hdr((*sgip.MessageHeader)(o)) }
		case "unbind_resp":
			o := &sgip.UnbindRsp{}
			return o, func() M { return hdr((*sgip.MessageHeader)(o)) }
		}
	}
	panic(p + kind)
}

// logs renders a packet the way the server's logging does: it must survive whatever was decoded
func logs(p codec.Pdu) {
	for range p.Log() {
	}
	if s, ok := p.(fmt.Stringer); ok {
		_ = s.String()
	}
}

func decode(p, kind string, v int, seq uint32, body B, code uint32) (out M) {
	out = M{"panic": false, "err": false, "got": M{}, "resp": B{}, "re": B{}}
	defer func() {
		if e := recover(); e != nil {
			out["panic"] = true
			out["why"] = fmt.Sprint(e)
		}
	}()
	o, show := pdu(p, kind, v)
	b := make([]byte, len(body)) // exactly as long as the packet: reading beyond its end panics
	copy(b, body)
	if err := o.Decode(seq, b); err != nil {
		out["err"] = true
		return
	}
	out["got"] = show()
	logs(o)
	if r, ok := o.(codec.RequestPdu); ok {
		x := r.ToResponse(code)
		out["resp"] = B(x.Encode())
		logs(x)
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				out["re"] = str("panic")
				out["why"] = fmt.Sprint("encoding again: ", e)
			}
		}()
		out["re"] = B(o.Encode())
	}()
	return
}

func account(c *Case) *codec.AuthConf {
	return mtopts.Account(c.P, c.V, time.Duration(c.Dur)*time.Millisecond, c.Ac)
}

func options(c *Case) []codec.OptionFunc { return mtopts.Options(c.Opts) }

func packet(c *Case, kind string, p codec.Pdu) M {
	logs(p)
	f := p.Encode()
	again := p.Encode() // encoding has no memory
	if !bytes.Equal(f, again) {
		f = append(f, again...)
	}
	var o M
	if len(f) >= 12 {
		o = decode(c.P, kind, c.V, binary.BigEndian.Uint32(f[8:12]), f[12:], 0)
	} else {
		o = M{"panic": false, "err": true, "got": M{}, "resp": B{}, "re": B{}}
	}
	return M{"b": B(f), "o": o}
}

func text(c *Case) string { return mtopts.Text(c.Text) }

func run(c *Case) (out M) {
	if c.Now > 0 {
		vtime.Set(time.UnixMilli(c.Now).UTC(), time.Second, 0)
	}
	code := u32(c.Code)
	seq := u32(c.Seq)
	if c.K == "dec" {
		return decode(c.P, c.Kind, c.V, seq, c.Body, code)
	}
	out = M{"panic": false, "pk": []M{}}
	defer func() {
		if e := recover(); e != nil {
			out["panic"] = true
			out["why"] = fmt.Sprint(e)
		}
	}()
	for k := 0; k < c.Pre; k++ { // the shared sequences move on between packets
		codec.B32Seq.NextVal()
		codec.B64Seq.NextVal()
		codec.BcdSeq.NextVal()
		sgip.Sequencer.NextVal()
	}
	ac := account(c)
	var phones []string
	for _, p := range c.Phones {
		phones = append(phones, string(p))
	}
	one := func(kind string, p codec.Pdu) { out["pk"] = []M{packet(c, kind, p)} }
	switch c.K {
	case "simple":
		switch c.P + c.Kind {
		case "cmppconnect":
			one(c.Kind, cmpp.NewConnect(ac, seq))
		case "cmppactive_test":
			one(c.Kind, cmpp.NewActiveTest(seq))
		case "cmppterminate":
			one(c.Kind, cmpp.NewTerminate(seq))
		case "smgplogin":
			one(c.Kind, smgp.NewLogin(ac, seq))
		case "smgpactive_test":
			one(c.Kind, smgp.NewActiveTest(seq))
		case "smgpexit":
			one(c.Kind, smgp.NewExit(seq))
		case "sgipbind":
			one(c.Kind, sgip.NewBind(ac, byte(c.Type)))
		case "sgipunbind":
			one(c.Kind, sgip.NewUnbind())
		}
	case "submit":
		var ps []codec.RequestPdu
		switch c.P {
		case "cmpp":
			ps = cmpp.NewSubmit(ac, phones, text(c), seq, options(c)...)
		case "smgp":
			ps = smgp.NewSubmit(ac, phones, text(c), seq, options(c)...)
		case "sgip":
			ps = sgip.NewSubmit(ac, phones, text(c), options(c)...)
		}
		l := []M{}
		for _, p := range ps {
			l = append(l, packet(c, "submit", p))
		}
		out["pk"] = l
	case "deliver":
		switch c.P {
		case "cmpp":
			one("deliver", cmpp.NewDelivery(ac, string(c.Phone), text(c), string(c.Dest), string(c.Service), seq))
		case "smgp":
			one("deliver", smgp.NewDeliver(ac, string(c.Phone), string(c.Dest), text(c), seq))
		case "sgip":
			one("deliver", sgip.NewDeliver(ac, string(c.Phone), text(c), string(c.Dest)))
		}
	case "report":
		switch c.P {
		case "cmpp":
			mt := &cmpp.Submit{Version: cmpp.Version(c.V)}
			if err := mt.Decode(seq, c.Mt); err != nil {
				panic(err)
			}
			one(c.Kind, mt.ToDeliveryReport(u64(c.Msgid)))
		case "smgp":
			mt := &smgp.Submit{Version: smgp.Version(c.V)}
			if err := mt.Decode(seq, c.Mt); err != nil {
				panic(err)
			}
			one(c.Kind, smgp.NewDeliveryReport(ac, mt, seq, c.Msgid))
		case "sgip":
			one(c.Kind, sgip.NewReport(string(c.Phone), words(c.Mtseq), sgip.Status(c.State[0]), c.Errcode[0]))
		}
	case "enc":
		out["b"] = B(byHand(c).Encode())
	case "split":
		out["parts"] = octets(utils.ToTPUDHISlices(c.Content, c.Limit))
	case "slices":
		t := text(c)
		out["parts"] = octets(utils.MsgSlices(utils.MsgFmt(t), t))
	case "tlv":
		out["a"] = script(c.Ops)
	}
	return
}

func octets(x [][]byte) []B {
	r := make([]B, 0)
	for _, b := range x {
		r = append(r, B(b))
	}
	return r
}

// byHand fills the exported fields of an SGIP packet
func byHand(c *Case) codec.Pdu {
	b := func(n string) (x B) {
		if v, ok := c.R[n]; ok {
			if err := json.Unmarshal(v, &x); err != nil {
				panic(err)
			}
		}
		return
	}
	s := func(n string) string { return string(b(n)) }
	n := func(n string) byte { return byte(u32(b(n))) }
	list := func(n string) (r []string) {
		var x []B
		json.Unmarshal(c.R[n], &x)
		for _, y := range x {
			r = append(r, string(y))
		}
		return
	}
	h := sgip.MessageHeader{PacketLength: uint32(c.Limit), SequenceNumber: append([]uint32{u32(c.Seq)}, words(b("Seq23"))...)}
	cmd := map[string]sgip.CommandId{"bind": sgip.SGIP_BIND, "bind_resp": sgip.SGIP_BIND_RESP, "submit": sgip.SGIP_SUBMIT, "submit_resp": sgip.SGIP_SUBMIT_RESP,
		"deliver": sgip.SGIP_DELIVER, "deliver_resp": sgip.SGIP_DELIVER_RESP, "report": sgip.SGIP_REPORT, "report_resp": sgip.SGIP_REPORT_RESP,
		"unbind": sgip.SGIP_UNBIND, "unbind_resp": sgip.SGIP_UNBIND_RESP}
	h.CommandId = cmd[c.Kind]
	switch c.Kind {
	case "bind":
		return &sgip.Bind{MessageHeader: h, LoginType: n("LoginType"), LoginName: s("LoginName"), LoginPassword: s("LoginPassword")}
	case "bind_resp":
		h.PacketLength = 21
		return &sgip.BindRsp{MessageHeader: h, Status: sgip.Status(n("Status"))}
	case "submit":
		return &sgip.Submit{MessageHeader: h, SPNumber: s("SPNumber"), ChargeNumber: s("ChargeNumber"), UserCount: byte(len(list("UserNumber"))),
			UserNumber: list("UserNumber"), CorpId: s("CorpId"), ServiceType: s("ServiceType"), FeeType: n("FeeType"), FeeValue: s("FeeValue"),
			GivenValue: s("GivenValue"), AgentFlag: n("AgentFlag"), MorelatetoMTFlag: n("MorelatetoMTFlag"), Priority: n("Priority"),
			ExpireTime: s("ExpireTime"), ScheduleTime: s("ScheduleTime"), ReportFlag: n("ReportFlag"), TpPid: n("TpPid"), TpUdhi: n("TpUdhi"),
			MessageCoding: n("MessageCoding"), MessageType: n("MessageType"), MessageLength: uint32(len(b("MessageContent"))),
			MessageContent: b("MessageContent"), Reserve: s("Reserve")}
	case "submit_resp":
		return &sgip.SubmitRsp{MessageHeader: h, Status: sgip.Status(n("Status"))}
	case "deliver":
		return &sgip.Deliver{MessageHeader: h, UserNumber: s("UserNumber"), SPNumber: s("SPNumber"), TpPid: n("TpPid"), TpUdhi: n("TpUdhi"),
			MessageCoding: n("MessageCoding"), MessageLength: uint32(len(b("MessageContent"))), MessageContent: b("MessageContent"), Reserve: s("Reserve")}
	case "deliver_resp":
		return &sgip.DeliverRsp{MessageHeader: h, Status: sgip.Status(n("Status"))}
	case "report":
		return &sgip.Report{MessageHeader: h, MtSequence: words(b("MtSequence")), ReportType: n("ReportType"), UserNumber: s("UserNumber"),
			State: sgip.Status(n("State")), ErrorCode: n("ErrorCode"), Reserve: s("Reserve")}
	case "report_resp":
		return &sgip.ReportRsp{MessageHeader: h, Status: sgip.Status(n("Status"))}
	case "unbind":
		u := sgip.Unbind(h)
		return &u
	case "unbind_resp":
		u := sgip.UnbindRsp(h)
		return &u
	}
	panic(c.Kind)
}

func script(ops []Op) []M {
	l := utils.NewTlvList()
	r := []M{}
	for _, o := range ops {
		a := M{"n": 0, "err": false, "os": []M{}, "b": B{}}
		tag := uint16(u32(o.T))
		switch o.O {
		case "add":
			v := append([]byte{}, o.V...)
			l.Add(tag, v)
			for k := range v { // the caller may reuse its buffer
				v[k] ^= 0xff
			}
		case "addobj":
			l.AddObject(utils.New(tag, o.V))
		case "rm":
			a["n"] = l.Remove(tag)
		case "rmobj":
			a["n"] = l.RemoveObject(utils.New(tag, o.V))
		case "len":
			a["n"] = int(l.Length())
		case "get":
			x, err := l.Get(tag)
			a["err"] = err != nil
			if err == nil {
				a["os"] = tlvs([]utils.TLV{x})
			}
		case "all":
			a["os"] = tlvs(l.GetAll(tag))
		case "write":
			var b bytes.Buffer
			a["err"] = l.Write(&b) != nil
			a["b"] = B(b.Bytes())
			_ = l.String()
		case "read":
			n, err := utils.Read(bytes.NewReader(append([]byte{}, o.B...)))
			a["err"] = err != nil
			if err == nil {
				l = n
				a["os"] = listed(l)
			}
		case "from":
			x, err := utils.FromBytes(o.B)
			a["err"] = err != nil
			if err == nil {
				a["os"] = tlvs([]utils.TLV{x})
			}
		case "to":
			b, err := utils.ToBytes(utils.New(tag, o.V))
			a["err"] = err != nil
			a["b"] = B(b)
		}
		r = append(r, a)
	}
	return r
}

type ctr struct{ n int64 }

func (c *ctr) next() int64 { c.n++; return c.n }

type s32 struct{ ctr }
type s64 struct{ ctr }
type sbcd struct{ ctr }

func (s *s32) NextVal() int32 { return int32(s.next()) }
func (s *s64) NextVal() int64 { return s.next() }
func (s *sbcd) NextVal() []byte {
	return append([]byte{1, 2, 3, 4, 5, 6}, n32(uint32(s.next()))...)
}

func TestDrive(t *testing.T) {
	log.ResetDefault(log.New(bytes.NewBuffer(nil), log.FatalLevel))
	codec.B32Seq, codec.B64Seq, codec.BcdSeq = &s32{ctr{0x5fff0000}}, &s64{ctr{0x0102030405060708}}, &sbcd{}
	sgip.NewSequencer(3037196688, 31)
	fin, err := os.Open(os.Getenv("VERIF_IN"))
	if err != nil {
		t.Fatal(err)
	}
	fout, err := os.Create(os.Getenv("VERIF_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	w := bufio.NewWriter(fout)
	sc := bufio.NewScanner(fin)
	sc.Buffer(nil, 1<<28)
	for sc.Scan() {
		var c Case
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			t.Fatal(err)
		}
		dog := time.AfterFunc(60*time.Second, func() { println("fatal: stuck"); os.Exit(3) })
		b, err := json.Marshal(M{"tid": c.Tid, "out": run(&c)})
		dog.Stop()
		if err != nil {
			t.Fatal(err)
		}
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
	w.Flush()
	fout.Close()
}
