package ids

import (
	"os"
	"strconv"
	"testing"

	"github.com/hrygo/gosms/codec/sgip"
	"github.com/hrygo/gosms/utils"
	"github.com/hrygo/gosms/utils/snowflake"
	"github.com/hrygo/gosms/utils/snowflake32"
	. "verif.local/harness/idlib"
)

func TestDrive(t *testing.T) {
	node, _ := strconv.ParseUint(os.Getenv("VERIF_NODE"), 10, 32)
	worker, _ := strconv.ParseUint(os.Getenv("VERIF_WORKER"), 10, 32)
	sg := sgip.NewSequencer(uint32(node), uint32(worker))
	Main(func(s Script) func() Val {
		switch s.Kind {
		case "sf64":
			g := snowflake.NewSnowflake(s.Dc, s.W)
			return func() Val { return V64(g.NextVal()) }
		case "sf32":
			g := snowflake32.NewSnowflake(int32(s.Dc), int32(s.W))
			return func() Val { return V32(g.NextVal()) }
		case "cyc":
			g := utils.NewCycleSequence(int32(s.Dc), int32(s.W))
			return func() Val { return V32(g.NextVal()) }
		case "bcd":
			g := utils.NewBcdSequence(s.Code)
			return func() Val { return VBcd(g.NextVal()) }
		case "sgip":
			return func() Val { return VSgip(sg.NextVal()) }
		}
		panic(s.Kind)
	})
}
