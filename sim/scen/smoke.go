package scen

import (
	"github.com/philhofer/seth/tevm"
)

func init() {
	Register(&Scenario{Prop: "SMOKE", Name: "chain", Body: func(t *T) {
		c := tevm.NewChain()
		a := c.NewAccount(3)
		b := c.NewAccount(3)
		_ = a
		_ = b
		t.Logf("%s %s", a.String(), b.String())
	}})
}
