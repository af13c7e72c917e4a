package scen

import (
	"encoding/json"
	"fmt"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
	"verif.sim/simrt"
)

// T02-T07: chains executed step by step next to their model, and chains used
// by several goroutines at a time.

func init() {
	Register(&Scenario{Prop: "T02", Name: "chain-value", Weight: 2, NoPreempt: true, Body: valueSeq})
	Register(&Scenario{Prop: "T02", Name: "chain-value-concurrent", Body: valueConc})
	Register(&Scenario{Prop: "T03", Name: "chain-failures", Weight: 2, NoPreempt: true, Body: failSeq})
	Register(&Scenario{Prop: "T03", Name: "chain-gas-sweep", NoPreempt: true, Body: gasSweep})
	Register(&Scenario{Prop: "T04", Name: "chain-copies", Weight: 2, NoPreempt: true, Body: copySeq})
	Register(&Scenario{Prop: "T04", Name: "chain-copies-concurrent", Body: copyConc})
	Register(&Scenario{Prop: "T05", Name: "chain-history", Weight: 2, NoPreempt: true, Body: historySeq})
	Register(&Scenario{Prop: "T05", Name: "chain-history-concurrent", Body: historyConc})
	Register(&Scenario{Prop: "T06", Name: "chain-reads", Weight: 2, NoPreempt: true, Body: readSeq})
	Register(&Scenario{Prop: "T06", Name: "chain-reads-concurrent", Body: readConc})
	Register(&Scenario{Prop: "T07", Name: "chain-records", Weight: 2, NoPreempt: true, Body: recordSeq})
	Register(&Scenario{Prop: "T07", Name: "chain-records-concurrent", Body: recordConc})
}

// setupContracts deploys a few contracts and gives them ether.
func (w *cw) setupContracts(n int) {
	for i := 0; i < n; i++ {
		w.run(w.e.create())
	}
	for i := 0; i < 2; i++ {
		w.run(w.e.credit())
	}
}

func (t *T) ops(n int) int {
	if t.Deep {
		n *= 3
	}
	return 2 + t.Choose(n)
}

// sumBalances adds up all accounts of a chain.
func sumBalances(c *tevm.Chain) *big.Int {
	s := new(big.Int)
	c.State.Accounts.Iterate(func(k, v []byte) bool {
		var a tevm.Account
		copy(a[:], v)
		b := a.Balance()
		s.Add(s, b.Big())
		return true
	})
	return s
}

func balancesText(c *tevm.Chain, addrs []common.Address) string {
	s := ""
	for _, a := range addrs {
		s += fmt.Sprintf("%s %s\n", short(a), c.BalanceOf(s2p(a)))
	}
	return s
}

func (s *refState) balancesText(addrs []common.Address) string {
	o := ""
	for _, a := range addrs {
		o += fmt.Sprintf("%s %s\n", short(a), s.GetBalance(a))
	}
	return o
}

// ledger applies what is credited and debited by an operation.
type ledger struct{ total *big.Int }

func (l *ledger) run(w *cw, o *cop, delta *big.Int) {
	w.run(o)
	l.total.Add(l.total, delta)
}

func valueSeq(t *T) {
	e := newChainEnv(t, mixValue)
	w := newWorld(t, e)
	w.setupContracts(1 + t.Choose(4))
	total := sumBalances(w.c)
	if want := w.r.st.total(); total.Cmp(want) != 0 {
		t.Failf("ether-not-conserved", "after setup all accounts hold %s, expected %s", total, want)
	}
	for i := t.ops(30); i > 0; i-- {
		o := w.draw("ssSSccnNmmmmrr+-a|tE")
		before := w.r.st.total()
		g := w.run(o)
		sum := sumBalances(w.c)
		delta := new(big.Int)
		if o.fund { // explicit credit, debit or funded account
			delta.Sub(w.r.st.total(), before)
		}
		total.Add(total, delta)
		if sum.Cmp(total) != 0 {
			t.Failf("ether-not-conserved", "after %s (%s) all accounts hold %s, expected %s (difference %s)", o.name, g, sum, total, new(big.Int).Sub(sum, total))
		}
		if g.err != nil {
			t.Count("reach:failed-with-value")
		}
		aa := w.r.st.addrs()
		if d := diffLines(balancesText(w.c, aa), w.r.st.balancesText(aa)); d != "" {
			t.Failf("wrong-balance", "after %s (%s): %s", o.name, g, d)
		}
	}
}

func valueConc(t *T) {
	c := tevm.NewChain()
	const n = 5
	var addr []seth.Address
	for i := 0; i < n; i++ {
		addr = append(addr, c.NewAccount(i))
	}
	// contracts that pass ether on, keep it, send it back and destroy themselves
	e := newChainEnv(t, mixValue)
	for i := range addr {
		e.eoa = append(e.eoa, common.Address(addr[i]))
	}
	for i := 1 + t.Choose(3); i > 0; i-- {
		if a, err := c.Create(&addr[0], e.initcode()); err == nil {
			e.learn(common.Address(a))
			c.AddBalance(&a, big.NewInt(int64(1+t.Choose(10000))))
		}
	}
	start := sumBalances(c)
	lo, hi := new(big.Int).Set(start), new(big.Int).Set(start) // credits completed, started
	plain := t.Choose(2) == 1                                  // only transfers between ordinary accounts
	exp := map[seth.Address]*big.Int{}
	for _, a := range addr {
		a := a
		exp[a] = c.BalanceOf(&a)
	}
	var gs []*simrt.G
	cl := c.Client()
	for k := 2 + t.Choose(3); k > 0; k-- {
		k := k
		gs = append(gs, t.Go(fmt.Sprint("user", k), func() {
			for i := t.ops(6); i > 0; i-- {
				from, to := addr[t.Choose(n)], addr[t.Choose(n)]
				switch kind := t.Choose(8); {
				case kind == 0:
					v := e.value()
					hi.Add(hi, v)
					c.AddBalance(&to, new(big.Int).Set(v))
					lo.Add(lo, v)
					exp[to].Add(exp[to], v)
				case kind == 1:
					cp := c.Copy()
					l0 := lo.String()
					_ = l0
					t.Count("reach:copy-sum")
					s := sumBalances(cp)
					// no debits here: only credits in flight may or may not be in it
					if s.Cmp(start) < 0 || s.Cmp(hi) > 0 {
						t.Failf("ether-not-conserved", "a copy taken during concurrent operations holds %s, expected between %s and %s", s, start, hi)
					}
				case plain || kind < 5:
					v := e.value()
					if t.Choose(3) == 2 {
						v = c.BalanceOf(&from)
					}
					var err error
					if t.Choose(2) == 1 {
						err = c.Send(&from, &to, new(big.Int).Set(v))
					} else {
						x := &refTx{from: common.Address(from), gas: 100000, price: new(big.Int), value: v}
						a := common.Address(to)
						x.to = &a
						_, err = cl.Call(x.opts())
					}
					t.Logf("send %s->%s %s: %v", short(common.Address(from)), short(common.Address(to)), v, err)
					if err == nil {
						exp[from].Sub(exp[from], v)
						exp[to].Add(exp[to], v)
						t.Count("reach:transfer")
					} else {
						t.Count("fault:refused-transfer")
					}
				default:
					x := e.newTx()
					_, err := cl.Call(x.opts())
					t.Logf("%s: %v", x, err)
					if err != nil {
						t.Count(faultKind(err))
					}
				}
			}
		}))
	}
	t.Join(gs...)
	if s := sumBalances(c); s.Cmp(hi) != 0 {
		t.Failf("ether-not-conserved", "all accounts hold %s, expected %s", s, hi)
	}
	if plain && len(e.ctr) == 0 || plain {
		for _, a := range addr {
			a := a
			if b := c.BalanceOf(&a); b.Cmp(exp[a]) != 0 {
				t.Failf("wrong-balance", "account %s holds %s after transfers that left it %s", short(common.Address(a)), b, exp[a])
			}
		}
	}
}

// failSeq: whatever fails leaves everything as it was.
func failSeq(t *T) {
	mix := mixAll
	mix.fail, mix.burn = 6, 2
	e := newChainEnv(t, mix)
	w := newWorld(t, e)
	w.setupContracts(1 + t.Choose(3))
	for i := t.ops(25); i > 0; i-- {
		o := w.draw("sSccccnnnNmmmmmmrrr|+")
		var nonce string
		before := w.stateText(false)
		logs := len(w.c.Logs())
		g := w.run(o)
		_ = nonce
		if g.err != nil {
			if d := diffLines(w.stateText(false), before); d != "" {
				t.Failf("failure-left-traces", "%s failed (%v) but changed the state: %s", o.name, g.err, d)
			}
			if n := len(w.c.Logs()); n != logs {
				t.Failf("failure-left-traces", "%s failed (%v) but there are %d logs, before it %d", o.name, g.err, n, logs)
			}
		}
		w.checkState("after " + o.name)
	}
	w.run(e.seal())
	w.checkRecords("at the end")
	if d := diffLines(historyText(w.c, w.r), w.r.historyText()); d != "" {
		t.Failf("wrong-history", "state of sealed blocks: %s", d)
	}
}

// gasSweep runs one transaction out of gas at many points before it succeeds.
func gasSweep(t *T) {
	e := newChainEnv(t, mixAll)
	w := newWorld(t, e)
	w.setupContracts(2 + t.Choose(3))
	for i := t.Choose(4); i > 0; i-- {
		w.run(w.draw("ccs+mr"))
	}
	x := e.newTx()
	x.gas = 1000000
	used := w.r.clone().mineProbe(x.clone())
	t.Logf("%s uses %d gas", x, used)
	n := 12
	if t.Deep {
		n = 60
	}
	for i := 0; i < n; i++ {
		gas := uint64(t.Choose(int(used) + 2))
		if i == n-1 {
			gas = used
		}
		y := x.clone()
		y.gas = gas
		before := w.stateText(false)
		logs := len(w.c.Logs())
		g := w.run(e.mineTx(y))
		if g.err != nil {
			t.Count("reach:stopped-midway")
			if d := diffLines(w.stateText(false), before); d != "" {
				t.Failf("failure-left-traces", "%s failed (%v) but changed the state: %s", y, g.err, d)
			}
			if n := len(w.c.Logs()); n != logs {
				t.Failf("failure-left-traces", "%s failed (%v) but there are %d logs, before it %d", y, g.err, n, logs)
			}
		}
		w.checkState("after " + y.String())
		if t.Choose(8) == 7 {
			w.run(e.seal())
		}
	}
	w.run(e.seal())
	w.checkRecords("after a sweep over gas")
}

// mineProbe finds out how much gas a transaction uses on a throw-away model.
func (r *refChain) mineProbe(x *refTx) uint64 {
	r.mine(x)
	return x.used
}

const writes = "ssSccnNmmmrr||+a"
const reads = "tbBCE#lkxp"

// copySeq: copies of copies, each next to its own model.
func copySeq(t *T) {
	e := newChainEnv(t, mixAll)
	all := []*cw{newWorld(t, e)}
	all[0].setupContracts(1 + t.Choose(3))
	for i := t.ops(40); i > 0; i-- {
		w := all[t.Choose(len(all))]
		switch t.Choose(6) {
		case 0:
			if len(all) < 5 {
				n := w.copyOf(len(all))
				n.checkAll("right after the copy")
				w.checkAll("right after being copied")
				all = append(all, n)
				t.Count("reach:copy")
				break
			}
			fallthrough
		case 1:
			w.run(w.draw(reads))
		default:
			w.run(w.draw(writes))
		}
		if t.Choose(4) == 3 {
			v := all[t.Choose(len(all))]
			v.checkState("after operations on other chains")
		}
	}
	for _, w := range all {
		w.checkAll("at the end")
	}
	if t.Choose(2) == 1 { // everything is still usable
		for _, w := range all {
			for i := 0; i < 3; i++ {
				w.run(w.draw(writes))
			}
			w.run(e.seal())
			w.checkAll("after going on")
		}
		all[0].checkAll("after going on with all copies")
	}
}

// copyConc: each goroutine works on a chain of its own, all of them copies
// of one another; one is copied while it is used.
func copyConc(t *T) {
	e := newChainEnv(t, mixAll)
	w0 := newWorld(t, e)
	w0.setupContracts(1 + t.Choose(3))
	for i := t.Choose(6); i > 0; i-- {
		w0.run(w0.draw(writes))
	}
	worlds := []*cw{w0}
	for i := 1 + t.Choose(2); i > 0; i-- {
		worlds = append(worlds, worlds[t.Choose(len(worlds))].copyOf(len(worlds)))
	}
	// states of the first chain, one after each of its operations
	hist := []*refChain{w0.r.clone()}
	started := 0 // operations on the first chain that have begun
	done := false
	var gs []*simrt.G
	for i, w := range worlds {
		i, w := i, w
		gs = append(gs, t.Go(w.name, func() {
			for k := t.ops(8); k > 0; k-- {
				// what an operation does may refer to contracts known elsewhere: harmless
				var o *cop
				t.Atomic(func() { o = w.draw(writes + "tbl") })
				if i == 0 {
					started++
				}
				w.run(o)
				if i == 0 {
					hist = append(hist, w.r.clone())
				}
			}
			if i == 0 {
				done = true
			}
			if i > 0 && t.Choose(2) == 1 {
				v := w.copyOf(9)
				v.run(v.draw(writes))
				v.checkAll("in use")
			}
			w.checkAll("after its last operation")
		}))
	}
	gs = append(gs, t.Go("copier", func() {
		for k := 1 + t.Choose(3); k > 0 && !done; k-- {
			lo := len(hist) - 1
			c := w0.c.Copy()
			hi := started
			t.Count("reach:copy-while-used")
			simrt.WaitUntil("model", func() bool { return len(hist) > hi || done })
			cl := c.Client()
			var d string
			var v *cw
			for j := hi; j >= lo; j-- {
				v = &cw{t: t, e: e, c: c, cl: cl, r: hist[j].clone(), name: "copy of the running chain"}
				if d = v.diffAll(); d == "" {
					break
				}
			}
			if d != "" {
				t.Failf("copy-matches-no-instant", "a copy taken during operations %d to %d matches the chain at none of these times: %s", lo, hi, d)
			}
			// the copy can be used on its own
			for i := 0; i < 3; i++ {
				var o *cop
				t.Atomic(func() { o = v.draw(writes) })
				v.run(o)
			}
			v.checkAll("after operations on the copy")
		}
	}))
	t.Join(gs...)
	for _, w := range worlds {
		w.checkAll("at the end")
	}
}

// historySeq: sealed blocks and views of them.
func historySeq(t *T) {
	e := newChainEnv(t, mixAll)
	w := newWorld(t, e)
	w.setupContracts(1 + t.Choose(3))
	w.run(e.seal())
	var views []*cw
	for i := t.ops(30); i > 0; i-- {
		switch t.Choose(8) {
		case 0, 1:
			w.run(w.draw("BCEkxp"))
		case 2:
			if len(views) < 4 {
				n := w.r.first + uint64(t.Choose(int(w.r.pend.num-w.r.first)+1))
				if n == w.r.pend.num {
					n++ // unknown
				}
				if v := w.viewAt(n, len(views)); v != nil {
					v.checkAll("right after it was made")
					views = append(views, v)
					t.Count("reach:view")
				}
				break
			}
			fallthrough
		case 3:
			if len(views) > 0 {
				v := views[t.Choose(len(views))]
				v.run(v.draw(writes + reads))
				v.checkState("after its own operation")
				t.Count("reach:view-changed")
				break
			}
			fallthrough
		case 4:
			w.run(e.seal())
		default:
			w.run(w.draw(writes))
		}
		if t.Choose(3) == 0 {
			if d := diffLines(historyText(w.c, w.r), w.r.historyText()); d != "" {
				t.Failf("history-changed", "state of sealed blocks: %s", d)
			}
		}
	}
	w.checkAll("at the end")
	for _, v := range views {
		v.checkAll("at the end")
	}
}

// historyConc: readers of sealed blocks while the chain goes on.
func historyConc(t *T) {
	e := newChainEnv(t, mixAll)
	w := newWorld(t, e)
	w.setupContracts(1 + t.Choose(3))
	for i := t.Choose(5); i > 0; i-- {
		w.run(w.draw(writes))
	}
	w.run(e.seal())
	var gs []*simrt.G
	done := false
	gs = append(gs, t.Go("writer", func() {
		for k := 2 + t.Choose(10); k > 0; k-- {
			var o *cop
			t.Atomic(func() { o = w.draw(writes + "|") })
			w.run(o)
		}
		done = true
	}))
	for i := 1 + t.Choose(3); i > 0; i-- {
		gs = append(gs, t.Go(fmt.Sprint("reader", i), func() {
			cl := w.c.Client()
			for k := 2 + t.Choose(6); k > 0; k-- {
				n := int64(w.r.first) + int64(t.Choose(int(w.r.pend.num-w.r.first)))
				b := w.r.blocks[uint64(n)]
				if b == nil {
					continue
				}
				t.Count("reach:concurrent-history-query")
				switch t.Choose(4) {
				case 0:
					a := e.any()
					v, err := cl.GetBalanceAt(s2p(a), n)
					t.Logf("balance of %s at %d: %v %v", short(a), n, v.Big(), err)
					if want := b.st.clone().GetBalance(a); err != nil || want.Cmp(v.Big()) != 0 {
						t.Failf("history-changed", "balance of %s at block %d is %s (%v), expected %s", short(a), n, v.Big(), err, want)
					}
				case 1:
					from, to := e.sender(), e.any()
					word := e.word()
					var out seth.Data
					err := cl.ConstCallAt(&seth.CallOpts{From: s2p(from), To: s2p(to), Data: seth.ABIEncode("f(uint256)", word)}, &out, n)
					var ret []byte
					var rerr error
					t.Atomic(func() { ret, _, rerr = w.r.constCall(from, to, seth.ABIEncode("f(uint256)", word), 0, n) })
					if (err == nil) != (rerr == nil) || err == nil && string(ret) != string(out) {
						t.Failf("history-changed", "eth_call to %s at block %d gives %x %v, expected %x %v", short(to), n, []byte(out), err, ret, rerr)
					}
				case 2:
					full := t.Choose(2) == 1
					blk, err := cl.GetBlock(n, full)
					if err != nil {
						t.Failf("history-changed", "block %d: %v", n, err)
					}
					s, err := blockText(blk, full)
					if err != nil {
						t.Failf("history-changed", "block %d: %v", n, err)
					}
					if d := b.compare(s, full, w.r.first, w.r.limit); d != "" {
						t.Failf("history-changed", "block %d: %s", n, d)
					}
				case 3:
					v := w.c.AtBlock(n)
					if v == nil {
						t.Failf("history-changed", "block %d has no state", n)
					}
					st := b.st.clone()
					x := &cw{t: t, e: e, c: v, cl: v.Client(), r: &refChain{st: st, pend: b.clone(), blocks: map[uint64]*refBlock{}, first: uint64(n), limit: w.r.limit, params: refParams(), filt: map[string]*refFilter{}}, name: fmt.Sprint("view at ", n)}
					x.checkState("while the chain goes on")
					for j := t.Choose(3); j > 0; j-- {
						var o *cop
						t.Atomic(func() { o = x.draw("sccnm+") })
						x.run(o)
					}
					x.checkState("after changes to it")
					t.Count("reach:view-changed")
				}
			}
		}))
	}
	t.Join(gs...)
	_ = done
	w.checkAll("at the end")
}

// readSeq: reads leave everything as it was.
func readSeq(t *T) {
	mix := mixAll
	e := newChainEnv(t, mix)
	w := newWorld(t, e)
	w.setupContracts(1 + t.Choose(3))
	for round := t.ops(5); round > 0; round-- {
		for i := 1 + t.Choose(5); i > 0; i-- {
			w.run(w.draw(writes))
		}
		before := w.dump()
		for i := 1 + t.Choose(5); i > 0; i-- {
			o := w.draw("tttbBCCCEEEE#lkkxpM")
			g := w.run(o)
			if t.Choose(2) == 1 {
				g2 := w.run(o)
				if g.same(g2) != "" {
					t.Failf("read-not-repeatable", "%s gave %s and then %s", o.name, g, g2)
				}
			}
			if g.err != nil {
				t.Count("reach:failing-read")
			}
			if d := diffLines(w.dump(), before); d != "" {
				t.Failf("read-changed-chain", "%s (%s) changed the chain: %s", o.name, g, d)
			}
		}
	}
	w.checkAll("at the end")
}

func (g cres) same(h cres) string {
	if a, b := fmt.Sprintf("%v|%x|%d|%x|%x|%v|%s", g.err, g.ret, g.n, g.h, g.addr, g.big, g.text), fmt.Sprintf("%v|%x|%d|%x|%x|%v|%s", h.err, h.ret, h.n, h.h, h.addr, h.big, h.text); a != b {
		return a + " vs " + b
	}
	return ""
}

// marshal is a read, too.
func (e *chainEnv) save() *cop {
	return &cop{name: "MarshalJSON", read: true,
		do: func(c *tevm.Chain, cl *seth.Client) cres {
			_, err := json.Marshal(c)
			return cres{err: err}
		},
		ref: func(r *refChain, g cres) string { return sameErr(g.err, nil) }}
}

// readConc: reads that run at the same time do not disturb each other or the
// chain.
func readConc(t *T) {
	e := newChainEnv(t, mixAll)
	w := newWorld(t, e)
	w.setupContracts(1 + t.Choose(3))
	for i := 1 + t.Choose(8); i > 0; i-- {
		w.run(w.draw(writes))
	}
	before := w.dump()
	var gs []*simrt.G
	for i := 2 + t.Choose(3); i > 0; i-- {
		v := *w
		v.name = fmt.Sprint("reader", i)
		v.cl = w.c.Client()
		gs = append(gs, t.Go(v.name, func() {
			for k := 1 + t.Choose(5); k > 0; k-- {
				var o *cop
				t.Atomic(func() { o = v.draw("ttbBCCEE#lkxpM") })
				g := o.do(v.c, v.cl)
				t.Logf("%s: %s = %s", v.name, o.name, g)
				var d string
				t.Atomic(func() { d = o.ref(v.r, g) })
				if d != "" {
					t.Failf("wrong-outcome", "%s during other reads: %s", o.name, d)
				}
				t.Count("reach:concurrent-read")
			}
		}))
	}
	t.Join(gs...)
	w.r.st.snaps = nil
	if d := diffLines(w.dump(), before); d != "" {
		t.Failf("read-changed-chain", "concurrent reads changed the chain: %s", d)
	}
}

// recordSeq: what is recorded about transactions.
func recordSeq(t *T) {
	mix := mixLogs
	if t.Choose(2) == 1 {
		mix = mixAll
	}
	e := newChainEnv(t, mix)
	w := newWorld(t, e)
	w.setupContracts(1 + t.Choose(3))
	for i := t.ops(30); i > 0; i-- {
		w.run(w.draw("mmmmmrrrr|cnkxp"))
		if t.Choose(6) == 5 {
			w.checkRecords("so far")
			checkLinks(t, w.c, w.cl, nil)
		}
	}
	w.checkRecords("at the end")
	checkLinks(t, w.c, w.cl, nil)
	w.run(e.seal())
	w.checkRecords("after sealing")
	checkLinks(t, w.c, w.cl, nil)
}

// checkLinks verifies the records of a chain against each other, without the
// model. sent are the hashes of transactions that were mined.
func checkLinks(t *T, c *tevm.Chain, cl *seth.Client, sent []seth.Hash) {
	bad := func(f string, a ...interface{}) { t.Failf("records-disagree", f, a...) }
	pend, err := cl.GetBlock(seth.Pending, false)
	if err != nil {
		bad("pending block: %v", err)
	}
	last := uint64(*pend.Number)
	seen := map[seth.Hash]uint64{}
	var parent seth.Hash
	var logs []string
	for n := uint64(100); n <= last; n++ {
		b, err := cl.GetBlock(int64(n), false)
		if err != nil {
			bad("block %d of 100 to %d: %v", n, last, err)
		}
		if uint64(*b.Number) != n {
			bad("block %d has number %d", n, uint64(*b.Number))
		}
		if n > 100 && b.Parent != parent {
			bad("parent of block %d is %x, its hash %x", n, b.Parent[:], parent[:])
		}
		parent = *b.Hash
		full, err := cl.GetBlock(int64(n), true)
		if err != nil {
			bad("block %d: %v", n, err)
		}
		ftx, err := full.ParseTransactions()
		if err != nil || len(ftx) != len(b.Transactions) {
			bad("block %d: %d transactions, in full %d (%v)", n, len(b.Transactions), len(ftx), err)
		}
		cum := uint64(0)
		logix := -1
		for i, m := range b.Transactions {
			var h seth.Hash
			if err := json.Unmarshal(m, &h); err != nil {
				bad("block %d transaction %d: %v", n, i, err)
			}
			if o, ok := seen[h]; ok {
				bad("transaction %x is in block %d and in block %d", h[:], o, n)
			}
			seen[h] = n
			x, err := cl.GetTransaction(&h)
			if err != nil {
				bad("transaction %x: %v", h[:], err)
			}
			if txText(x) != txText(&ftx[i]) {
				bad("transaction by hash and in its block differ: %s", diffLines(txText(x), txText(&ftx[i])))
			}
			if x.Hash != h || uint64(x.BlockNumber) != n || x.Block != *b.Hash || x.TxIndex == nil || int(*x.TxIndex) != i {
				bad("transaction %d of block %d says: %s", i, n, txText(x))
			}
			rx, err := cl.GetReceipt(&h)
			if n == last {
				if err == nil {
					bad("receipt of pending transaction %x", h[:])
				}
				continue
			}
			if err != nil {
				bad("receipt of %x in block %d: %v", h[:], n, err)
			}
			cum += uint64(rx.GasUsed)
			if rx.Hash != h || uint64(rx.BlockNumber) != n || rx.BlockHash != *b.Hash || int(rx.Index) != i || uint64(rx.Cumulative) != cum {
				bad("receipt of transaction %d of block %d (gas so far %d): %s", i, n, cum, receiptText(rx))
			}
			if rx.Status == 0 && len(rx.Logs) > 0 {
				bad("receipt of a failed transaction has logs: %s", receiptText(rx))
			}
			for k := range rx.Logs {
				l := &rx.Logs[k]
				if l.TxHash == nil || *l.TxHash != h || l.BlockHash == nil || *l.BlockHash != *b.Hash || l.BlockNumber == nil || uint64(*l.BlockNumber) != n ||
					l.TxIndex == nil || int(*l.TxIndex) != i || l.LogIndex == nil || int(*l.LogIndex) <= logix {
					bad("log %d of transaction %d of block %d after log index %d: %s", k, i, n, logix, receiptText(rx))
				}
				logix = int(*l.LogIndex)
				logs = append(logs, slogText(l)+logPos(l))
			}
		}
		if n < last && cum != uint64(b.GasUsed) {
			bad("block %d used %d gas, its transactions %d", n, uint64(b.GasUsed), cum)
		}
	}
	for _, h := range sent {
		if _, ok := seen[h]; !ok {
			bad("transaction %x is in no block", h[:])
		}
	}
	// the logs of the chain that belong to sealed transactions, in order
	k := 0
	ll := c.Logs()
	for i := range ll {
		l := &ll[i]
		if l.TxHash == nil || *l.TxHash == (seth.Hash{}) {
			continue // emitted outside of transactions
		}
		if seen[*l.TxHash] == last {
			continue
		}
		if k >= len(logs) || slogText(l)+logPos(l) != logs[k] {
			bad("log %d of the chain is %s %s, receipts have another one at this place", i, slogText(l), logPos(l))
		}
		k++
	}
	if k != len(logs) {
		bad("%d logs in receipts, %d in the chain", len(logs), k)
	}
}

// recordConc: transactions from several goroutines.
func recordConc(t *T) {
	e := newChainEnv(t, mixLogs)
	w := newWorld(t, e)
	w.setupContracts(1 + t.Choose(3))
	var sent []seth.Hash
	var gs []*simrt.G
	for i := 2 + t.Choose(3); i > 0; i-- {
		i := i
		gs = append(gs, t.Go(fmt.Sprint("user", i), func() {
			cl := w.c.Client()
			for k := 1 + t.Choose(6); k > 0; k-- {
				switch t.Choose(6) {
				case 0:
					w.c.Seal()
				case 1:
					var x *refTx
					t.Atomic(func() { x = e.newTx() })
					_, h, err := w.c.Mine(x.seth())
					t.Logf("user%d: Mine %s: %x %v", i, x, h[:3], err)
					sent = append(sent, h)
				case 2:
					from, to := e.sender(), e.any()
					_, err := w.c.Call(s2p(from), s2p(to), "f(uint256)", e.word())
					t.Logf("user%d: Call %s: %v", i, short(to), err)
				default:
					var x *refTx
					t.Atomic(func() { x = e.newTx() })
					h, err := cl.Call(x.opts())
					t.Logf("user%d: eth_sendTransaction %s: %x %v", i, x, h[:3], err)
					if err != nil {
						t.Count(faultKind(err))
						break
					}
					sent = append(sent, h)
					t.Count("reach:concurrent-transaction")
					// mined, sealed and recorded at once
					rx, err := cl.GetReceipt(&h)
					if err != nil || rx.Hash != h || rx.Status != 1 {
						t.Failf("records-disagree", "receipt of %x right after it was sent: %v %v", h[:], rx, err)
					}
					y, err := cl.GetTransaction(&h)
					if err != nil || y.Hash != h || y.BlockNumber != rx.BlockNumber || common.Address(*y.From) != x.from {
						t.Failf("records-disagree", "transaction %x right after it was sent: %v %v", h[:], y, err)
					}
				}
			}
		}))
	}
	t.Join(gs...)
	checkLinks(t, w.c, w.c.Client(), sent)
	w.c.Seal()
	checkLinks(t, w.c, w.c.Client(), sent)
}
