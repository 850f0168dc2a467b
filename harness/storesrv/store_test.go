package storesrv

import (
	"testing"

	msc "github.com/hrygo/gosms/msc_server"
	"verif.local/harness/storelib"
)

func TestDrive(t *testing.T) { storelib.Main(t, msc.FindAuthConf) }
