package storecli

import (
	"testing"

	sms "github.com/hrygo/gosms/smc_client"
	"verif.local/harness/storelib"
)

func TestDrive(t *testing.T) { storelib.Main(t, sms.FindAuthConf) }
