package zzsim

import (
	"encoding/json"
	"os"
)

var booted bool

// boot installs the fault plan from ZZSIM_FAULTS before any package that loads data
// is initialised.
func boot() {
	if booted {
		return
	}
	booted = true
	s := os.Getenv("ZZSIM_FAULTS")
	if s == "" {
		return
	}
	if s[0] == '@' {
		b, err := os.ReadFile(s[1:])
		if err != nil {
			Fatal("usage", err.Error())
		}
		s = string(b)
	}
	var p FaultPlan
	if err := json.Unmarshal([]byte(s), &p); err != nil {
		Fatal("usage", "bad ZZSIM_FAULTS: "+err.Error())
	}
	SetFaults(p.Faults, p.Seed)
	replaced = p.Replace
}

func init() { boot() }
