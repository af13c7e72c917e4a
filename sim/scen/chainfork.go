package scen

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
	"verif.sim/simrt"
)

// T09, T10: chains forked from a simulated upstream node.

func init() {
	Register(&Scenario{Prop: "T09", Name: "fork-overlay", Weight: 3, NoPreempt: true, Body: forkSeq})
	Register(&Scenario{Prop: "T09", Name: "fork-concurrent", Body: forkConc})
	Register(&Scenario{Prop: "T10", Name: "fork-upstream-failure", Weight: 2, NoPreempt: true, Body: forkFailSeq})
	Register(&Scenario{Prop: "T10", Name: "fork-upstream-failure-concurrent", Body: forkFailConc})
}

// upstream is the chain behind the node that forks read from.
type upstream struct {
	t     *T
	n     *Node
	block int64
	head  int64
	st    *refState // at the fork block
	// failing decides about the next request
	failing func(r *Req) (Ans, bool)
	failed  int // requests that failed
	asked   int
	prop    string
}

func (u *upstream) acct(a common.Address) (*big.Int, uint64, []byte) {
	x := u.st.a[a]
	if x == nil {
		return new(big.Int), 0, nil
	}
	return x.bal, x.nonce, x.code
}

func (u *upstream) slot(a common.Address, k common.Hash) common.Hash {
	if x := u.st.a[a]; x != nil {
		return x.st[k]
	}
	return common.Hash{}
}

func (u *upstream) handle(r *Req) Ans {
	t := u.t
	u.asked++
	if u.failing != nil {
		if a, bad := u.failing(r); bad {
			u.failed++
			return a
		}
	}
	t.Count("reach:upstream-read")
	if t.Choose(3) == 0 {
		u.head++ // the chain goes on
	}
	var a common.Address
	arg := func(i int, v interface{}) {
		if json.Unmarshal([]byte(r.P(i)), v) != nil {
			t.Failf("upstream-request", "malformed request %s %s", r.Method, r.Params)
		}
	}
	blk := func(i int) {
		var s string
		arg(i, &s)
		n, err := strconv.ParseInt(s, 0, 64)
		if err != nil || n != u.block {
			t.Failf("upstream-request", "the fork at block %d asked its upstream about block %s (%s)", u.block, s, r.Method)
		}
	}
	switch r.Method {
	case "eth_getBalance":
		arg(0, &a)
		blk(1)
		b, _, _ := u.acct(a)
		return okAns(`"0x%x"`, b)
	case "eth_getTransactionCount":
		arg(0, &a)
		blk(1)
		_, n, _ := u.acct(a)
		return okAns(`"0x%x"`, n)
	case "eth_getCode":
		arg(0, &a)
		blk(1)
		_, _, c := u.acct(a)
		return okAns(`"0x%x"`, c)
	case "eth_getStorageAt":
		var k common.Hash
		arg(0, &a)
		arg(1, &k)
		blk(2)
		v := u.slot(a, k)
		return okAns(`"0x%x"`, v[:])
	}
	t.Failf("upstream-request", "the fork asked its upstream for %s", r.Method)
	return nullAns()
}

// newFork makes an upstream chain with some accounts, and a fork of it.
func newFork(t *T, mix progMix) (*cw, *upstream) {
	e := newChainEnv(t, mix)
	e.fork = true
	u := &upstream{t: t, st: newRefState()}
	u.block = []int64{1, 99, 100, 4000, 9000000}[t.Choose(5)]
	u.head = u.block + int64(t.Choose(3))
	for i := 0; i < 3; i++ {
		a := common.Address{0xe0, byte(i)}
		x := u.st.get(a)
		x.bal = e.value()
		x.nonce = uint64(t.Choose(3))
		e.eoa = append(e.eoa, a)
	}
	for i := 1 + t.Choose(4); i > 0; i-- {
		a := common.Address{0xc0, byte(i)}
		e.ctr = append(e.ctr, a)
	}
	for _, a := range e.ctr {
		x := u.st.get(a)
		x.code = e.gen().runtime()
		if t.Choose(2) == 1 {
			x.nonce = uint64(1 + t.Choose(2))
		}
		if t.Choose(2) == 1 {
			x.bal = e.value()
		}
		for k := 0; k < 4; k++ {
			if t.Choose(2) == 1 {
				key := common.Hash{31: byte(k)}
				if e.slots != nil {
					key = e.slots[k]
				}
				v := common.Hash{31: byte(1 + t.Choose(5))}
				if t.Choose(5) == 4 {
					copy(v[:], t.Bytes(32))
				}
				x.st[key] = v
			}
		}
	}
	// somebody has paid addresses before contracts are created there
	for _, l := range [][]common.Address{e.eoa, e.ctr} {
		for _, a := range l {
			if t.Choose(3) == 2 {
				n := u.st.get(a).nonce + uint64(t.Choose(2))
				u.st.get(crypto.CreateAddress(a, n)).bal = e.value()
			}
		}
	}
	u.n = NewNode(t, u.handle)
	e.first = uint64(u.block) + 1
	c := tevm.NewFork(u.n.Client(), u.block)
	r := newRefChain(e.first, 0)
	r.st.base = u
	w := &cw{t: t, e: e, c: c, cl: c.Client(), r: r, name: "fork"}
	w.otherLimit()
	return w, u
}

func forkSeq(t *T) {
	w, u := newFork(t, mixAll)
	var others []*cw
	for i := t.ops(30); i > 0; i-- {
		x := w
		if len(others) > 0 && t.Choose(4) == 3 {
			x = others[t.Choose(len(others))]
		}
		switch k := t.Choose(12); {
		case k == 0 && len(others) < 2:
			others = append(others, w.copyOf(len(others)))
			t.Count("reach:copy")
		case k == 1 && len(others) < 2 && w.r.pend.num > w.r.first:
			if v := w.viewAt(w.r.first+uint64(t.Choose(int(w.r.pend.num-w.r.first))), len(others)); v != nil {
				others = append(others, v)
				t.Count("reach:view")
			}
		case k < 4:
			x.run(x.draw(reads))
		default:
			x.run(x.draw(writes))
		}
		if t.Choose(3) == 0 {
			x.checkState("on the way")
		}
	}
	w.checkAll("at the end")
	for _, x := range others {
		x.checkAll("at the end")
	}
	_ = u
}

func forkConc(t *T) {
	w, _ := newFork(t, mixAll)
	linRun(t, w, nil)
}

var upErr = errors.New("simulated: upstream failure")

func (u *upstream) badAnswer() (Ans, bool) {
	t := u.t
	switch t.Choose(6) {
	case 5:
		t.Count("fault:upstream-null")
		return nullAns(), true
	case 0:
		t.Count("fault:upstream-rpc-error")
		return errAns(-32000, "upstream failure: missing trie node"), true
	case 1:
		t.Count("fault:upstream-lost")
		return Ans{Fail: upErr}, true
	case 2:
		t.Count("fault:upstream-bad-value")
		return Ans{Result: []string{`"0xzz"`, `{}`, `"0x"`, `"zz"`, `[1]`, `true`}[[]int{0, 1, 3, 4, 5}[t.Choose(5)]]}, true
	case 3:
		if u.n.Kind == kHTTP {
			t.Count("fault:upstream-http-error")
			return Ans{Status: []int{500, 502, 404, 429}[t.Choose(4)], Raw: []byte("<html>upstream failure</html>")}, true
		}
		t.Count("fault:upstream-garbage")
		return Ans{Raw: []byte("upstream failure")}, true
	}
	t.Count("fault:upstream-slow")
	return Ans{Fail: upErr, Delay: 30e9}, true
}

// guard turns the panic of a method without error result into an error.
func (o *cop) guard() *cop {
	if !strings.HasPrefix(o.name, "BalanceOf") && !strings.HasPrefix(o.name, "AddBalance") && !strings.HasPrefix(o.name, "SubBalance") {
		return o
	}
	p := *o
	p.do = func(c *tevm.Chain, cl *seth.Client) (g cres) {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(runtimeError); ok {
					panic(e)
				}
				if strings.HasPrefix(fmt.Sprint(e), "simrt:") {
					panic(e)
				}
				g.err = fmt.Errorf("panic: %v", e)
			}
		}()
		return o.do(c, cl)
	}
	return &p
}

type runtimeError interface{ RuntimeError() }

// forkFailSeq: an upstream request fails at some point of an operation.
func forkFailSeq(t *T) {
	w, u := newFork(t, mixAll)
	forkFail(t, w, u, nil)
}

func forkFail(t *T, w *cw, u *upstream, between func()) {
	for i := t.ops(15); i > 0; i-- {
		if between != nil && t.Choose(2) == 1 {
			between()
			continue
		}
		o := w.draw("sScctnNmmmrr+-bBCE|lkxp").guard()
		tries := 1 + t.Choose(3)
		done := false
		for k := 0; k < tries && !done; k++ {
			after := t.Choose(8) // fail the n-th request from now
			until := after + 1 + t.Choose(3)*10
			asked := 0
			u.failed = 0
			u.failing = func(r *Req) (Ans, bool) {
				asked++
				if asked > after && asked <= until {
					return u.badAnswer()
				}
				return Ans{}, false
			}
			txs, ctr, eoa := len(w.e.txs), append([]common.Address{}, w.e.ctr...), len(w.e.eoa)
			g := o.do(w.c, w.cl)
			u.failing = nil
			if u.failed == 0 {
				done = true
				t.Logf("fork: %s = %s", o.name, g)
				d := o.ref(w.r, g)
				w.r.st.snaps = nil
				if d != "" {
					t.Failf("wrong-outcome", "%s on the fork: %s", o.name, d)
				}
				break
			}
			t.Logf("fork with failing upstream: %s = %s", o.name, g)
			if g.err == nil {
				t.Failf("failure-hidden", "%s succeeded (%s) although %d of its upstream requests failed", o.name, g, u.failed)
			}
			t.Count("reach:operation-failed-upstream")
			w.e.txs, w.e.ctr, w.e.eoa = w.e.txs[:txs], ctr, w.e.eoa[:eoa]
			if d := w.diffAll(); d != "" {
				t.Failf("failure-left-traces", "%s failed with its upstream (%v) but changed the fork: %s", o.name, g.err, d)
			}
		}
		if !done {
			t.Count("reach:retried-after-recovery")
			w.run(o)
		}
		w.checkState("after " + o.name)
	}
	w.checkAll("at the end")
}

// forkFailConc: the upstream fails now and then while several goroutines use
// the fork; in the end it works again.
func forkFailConc(t *T) {
	w, u := newFork(t, mixAll)
	linRun(t, w, u.faults())
}

// faults makes the upstream fail now and then.
func (u *upstream) faults() *linFaults {
	t := u.t
	p := []int{2, 10, 30}[t.Choose(3)]
	fails := 0
	return &linFaults{
		start: func() {
			u.failing = func(r *Req) (Ans, bool) {
				if t.Chance(p, 100) {
					fails++
					return u.badAnswer()
				}
				return Ans{}, false
			}
		},
		stop:  func() { u.failing = nil },
		fails: func() int { return fails },
	}
}

var _ = simrt.Yield
