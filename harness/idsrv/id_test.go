package idsrv

import (
	"testing"

	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/codec/sgip"
	_ "github.com/hrygo/gosms/msc_server"
	. "verif.local/harness/idlib"
)

// The generators of the process as its start-up code configured them.
func TestDrive(t *testing.T) {
	Main(func(s Script) func() Val {
		switch s.Kind {
		case "sf64":
			return func() Val { return V64(codec.B64Seq.NextVal()) }
		case "cyc":
			return func() Val { return V32(codec.B32Seq.NextVal()) }
		case "bcd":
			return func() Val { return VBcd(codec.BcdSeq.NextVal()) }
		case "sgip":
			return func() Val { return VSgip(sgip.Sequencer.NextVal()) }
		}
		panic(s.Kind)
	})
}
