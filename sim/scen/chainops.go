package scen

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"

	"verif.sim/simrt"
)

// cres is what one operation on a chain returned.
type cres struct {
	err  error
	ret  []byte
	n    uint64
	h    seth.Hash
	addr seth.Address
	big  *big.Int
	text string
}

func (g cres) String() string {
	s := ""
	if g.err != nil {
		s = fmt.Sprintf("error %q ", trunc(g.err.Error(), 90))
	}
	if g.ret != nil {
		s += fmt.Sprintf("%x ", trunc(string(g.ret), 40))
	}
	if g.n != 0 {
		s += fmt.Sprint(g.n, " ")
	}
	if g.h != (seth.Hash{}) {
		s += fmt.Sprintf("hash %x ", g.h[:3])
	}
	if g.addr != (seth.Address{}) {
		s += fmt.Sprintf("addr %x ", g.addr[:3])
	}
	if g.big != nil {
		s += g.big.String() + " "
	}
	return s + trunc(g.text, 120)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + ".."
	}
	return s
}

// cop is one operation: do runs it on a chain, ref applies it to the model and
// says how the outcome differs from what the model expects ("" if it agrees).
type cop struct {
	name string
	read bool
	fund bool // changes the amount of ether
	do   func(c *tevm.Chain, cl *seth.Client) cres
	ref  func(r *refChain, g cres) string
}

func sameErr(got, want error) string {
	if (got == nil) != (want == nil) {
		return fmt.Sprintf("error %v, expected %v", got, want)
	}
	return ""
}

// chainEnv is what operations may refer to.
type chainEnv struct {
	t       *T
	eoa     []common.Address
	ctr     []common.Address
	odd     []common.Address
	txs     []seth.Hash
	filters []string // ids as sent
	first   uint64
	blocks  int // sealed so far at most, for drawing block numbers
	mix     progMix
	fork    bool
	slots   []common.Hash // unusual storage keys for contracts
}

func newChainEnv(t *T, mix progMix) *chainEnv {
	e := &chainEnv{t: t, mix: mix, first: 100}
	for i := 0; i < 3; i++ {
		a := common.Address{0xdd, byte(i)}
		a[19] = 0x77
		e.odd = append(e.odd, a)
	}
	if t.Choose(4) == 3 {
		e.slots = oddKeys(t)
	}
	return e
}

func (e *chainEnv) all() []common.Address {
	var out []common.Address
	out = append(append(append(out, e.eoa...), e.ctr...), e.odd...)
	return out
}

func (e *chainEnv) any() common.Address {
	t := e.t
	switch {
	case len(e.ctr) > 0 && t.Choose(2) == 1:
		return e.ctr[t.Choose(len(e.ctr))]
	case t.Choose(8) == 7:
		return e.odd[t.Choose(len(e.odd))]
	case t.Choose(24) == 23:
		return common.Address{19: byte(1 + t.Choose(4))}
	}
	return e.eoa[t.Choose(len(e.eoa))]
}

func (e *chainEnv) sender() common.Address { return e.eoa[e.t.Choose(len(e.eoa))] }

func (e *chainEnv) gen() *progGen {
	a := e.all()
	// contracts mostly call those deployed before, so recursion stays rare
	return &progGen{t: e.t, addrs: a, mix: e.mix, slots: e.slots}
}

func (e *chainEnv) initcode() []byte {
	g := e.gen()
	if e.t.Choose(10) == 9 {
		return g.body(3)
	}
	if e.t.Choose(10) == 9 {
		return g.initcode(g.probe())
	}
	return g.initcode(g.runtime())
}

var ether = new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil)

func (e *chainEnv) value() *big.Int {
	t := e.t
	switch t.Choose(6) {
	case 0, 1:
		return new(big.Int)
	case 2, 3:
		return big.NewInt(int64(1 + t.Choose(5000)))
	case 4:
		return new(big.Int).Mul(ether, big.NewInt(int64(t.Choose(4))))
	}
	return new(big.Int).Set(ether)
}

func (e *chainEnv) gas() uint64 {
	t := e.t
	switch t.Choose(16) {
	case 0, 8:
		return uint64(t.Choose(3000))
	case 9:
		return refGasLimit + uint64(t.Choose(200000))
	case 1:
		return uint64(t.Choose(30000))
	case 2, 3:
		return uint64(t.Choose(120000))
	case 4:
		return refGasLimit
	case 10:
		return uint64(t.Choose(30000))
	case 11, 12:
		return uint64(t.Choose(120000))
	}
	return 400000
}

// s2p makes an address to pass to the code under test.
func s2p(a common.Address) *seth.Address {
	x := seth.Address(a)
	if len(lent) < 64 {
		lent = append(lent, &x)
	}
	return &x
}

// lent are the variables whose addresses were passed to the code under test.
var lent []*seth.Address

// reuse changes them, as a caller may when the call is over.
func (e *chainEnv) reuse() {
	for _, p := range lent {
		*p = seth.Address(e.any())
	}
	lent = lent[:0]
}

func (e *chainEnv) word() *seth.Int { return seth.NewInt(int64(e.t.Choose(3))) }

func short(a common.Address) string { return fmt.Sprintf("%x", a[:3]) }

// value transfer through the Go API
func (e *chainEnv) send() *cop {
	from, to, v := e.sender(), e.any(), e.value()
	if e.t.Choose(4) == 3 {
		to = from
	}
	return &cop{name: fmt.Sprintf("Send %s->%s %s", short(from), short(to), v),
		do: func(c *tevm.Chain, cl *seth.Client) cres {
			return cres{err: c.Send(s2p(from), s2p(to), new(big.Int).Set(v))}
		},
		ref: func(r *refChain, g cres) string {
			_, err := r.call(from, to, nil, v)
			return sameErr(g.err, err)
		}}
}

// sendAll sends the whole balance or one wei more.
func (e *chainEnv) sendAll(c *tevm.Chain) *cop {
	from, to := e.sender(), e.any()
	v := c.BalanceOf(s2p(from))
	if e.t.Choose(3) == 2 {
		v.Add(v, big.NewInt(1))
	}
	return &cop{name: fmt.Sprintf("Send %s->%s all %s", short(from), short(to), v),
		do: func(c *tevm.Chain, cl *seth.Client) cres {
			return cres{err: c.Send(s2p(from), s2p(to), new(big.Int).Set(v))}
		},
		ref: func(r *refChain, g cres) string {
			_, err := r.call(from, to, nil, v)
			return sameErr(g.err, err)
		}}
}

func (e *chainEnv) call() *cop {
	from, to, w := e.sender(), e.any(), e.word()
	return &cop{name: fmt.Sprintf("Call %s->%s(%s)", short(from), short(to), w),
		do: func(c *tevm.Chain, cl *seth.Client) cres {
			ret, err := c.Call(s2p(from), s2p(to), "f(uint256)", w)
			return cres{ret: ret, err: err}
		},
		ref: func(r *refChain, g cres) string {
			ret, err := r.call(from, to, seth.ABIEncode("f(uint256)", w), new(big.Int))
			if d := sameErr(g.err, err); d != "" {
				return d
			}
			if !bytes.Equal(ret, g.ret) {
				return fmt.Sprintf("returned %x, expected %x", g.ret, ret)
			}
			return ""
		}}
}

func (e *chainEnv) static() *cop {
	from, to, w := e.sender(), e.any(), e.word()
	est := e.t.Choose(2) == 1
	return &cop{name: fmt.Sprintf("StaticCall %s->%s(%s) gas=%v", short(from), short(to), w, est), read: true,
		do: func(c *tevm.Chain, cl *seth.Client) cres {
			if est {
				n, err := c.EstimateGas(s2p(from), s2p(to), "f(uint256)", w)
				return cres{n: n, err: err}
			}
			ret, err := c.StaticCall(s2p(from), s2p(to), "f(uint256)", w)
			return cres{ret: ret, err: err}
		},
		ref: func(r *refChain, g cres) string {
			ret, used, err := r.staticCall(from, to, seth.ABIEncode("f(uint256)", w), refGasLimit, -1)
			if d := sameErr(g.err, err); d != "" {
				return d
			}
			if est {
				if err == nil && g.n != used {
					return fmt.Sprintf("estimated %d gas, expected %d", g.n, used)
				}
			} else if !bytes.Equal(ret, g.ret) {
				return fmt.Sprintf("returned %x, expected %x", g.ret, ret)
			}
			return ""
		}}
}

func (e *chainEnv) create() *cop {
	from, code := e.sender(), e.initcode()
	return &cop{name: fmt.Sprintf("Create from %s %d bytes", short(from), len(code)),
		do: func(c *tevm.Chain, cl *seth.Client) cres {
			a, err := c.Create(s2p(from), append([]byte{}, code...))
			if err == nil {
				e.learn(common.Address(a))
			}
			return cres{addr: a, err: err}
		},
		ref: func(r *refChain, g cres) string {
			a, err := r.create(from, code)
			if d := sameErr(g.err, err); d != "" {
				return d
			}
			if err == nil && a != common.Address(g.addr) {
				return fmt.Sprintf("created %x, expected %x", g.addr, a)
			}
			return ""
		}}
}

func (e *chainEnv) learn(a common.Address) {
	for _, x := range e.ctr {
		if x == a {
			return
		}
	}
	if len(e.ctr) < 8 {
		e.ctr = append(e.ctr, a)
	} else {
		e.ctr[e.t.Choose(8)] = a
	}
}

func (e *chainEnv) createAt() *cop {
	from, code, at := e.sender(), e.initcode(), e.odd[e.t.Choose(len(e.odd))]
	return &cop{name: fmt.Sprintf("CreateAt %s from %s %d bytes", short(at), short(from), len(code)),
		do: func(c *tevm.Chain, cl *seth.Client) cres {
			return cres{err: c.CreateAt(s2p(at), s2p(from), append([]byte{}, code...))}
		},
		ref: func(r *refChain, g cres) string { return sameErr(g.err, r.createAt(at, from, code)) }}
}

func (e *chainEnv) credit() *cop {
	a, v := e.any(), e.value()
	return &cop{name: fmt.Sprintf("AddBalance %s %s", short(a), v), fund: true,
		do: func(c *tevm.Chain, cl *seth.Client) cres {
			c.AddBalance(s2p(a), new(big.Int).Set(v))
			return cres{}
		},
		ref: func(r *refChain, g cres) string { r.st.AddBalance(a, v); return "" }}
}

// debit takes at most the balance of an account.
func (e *chainEnv) debit(c *tevm.Chain) *cop {
	a := e.any()
	v := c.BalanceOf(s2p(a))
	if e.t.Choose(2) == 1 {
		v.Rsh(v, 1)
	}
	return &cop{name: fmt.Sprintf("SubBalance %s %s", short(a), v), fund: true,
		do: func(c *tevm.Chain, cl *seth.Client) cres {
			c.SubBalance(s2p(a), new(big.Int).Set(v))
			return cres{}
		},
		ref: func(r *refChain, g cres) string { r.st.SubBalance(a, v); return "" }}
}

func (e *chainEnv) newAccount() *cop {
	n := e.t.Choose(4)
	return &cop{name: fmt.Sprintf("NewAccount %d", n), fund: true,
		do: func(c *tevm.Chain, cl *seth.Client) cres {
			a := c.NewAccount(n)
			if len(e.eoa) < 8 {
				e.eoa = append(e.eoa, common.Address(a))
			}
			return cres{addr: a}
		},
		ref: func(r *refChain, g cres) string {
			a := common.Address(g.addr)
			if x := r.st.a[a]; x != nil && (x.exist || x.bal.Sign() != 0) {
				return "the address of a new account is in use"
			}
			if r.st.base != nil { // a new account hides what upstream has there
				x := r.st.get(a)
				x.bal.SetInt64(0)
				x.nonce = 0
			}
			r.st.AddBalance(a, new(big.Int).Mul(ether, big.NewInt(int64(n))))
			return ""
		}}
}

func (e *chainEnv) balanceOf() *cop {
	a := e.any()
	return &cop{name: "BalanceOf " + short(a), read: true,
		do: func(c *tevm.Chain, cl *seth.Client) cres { return cres{big: c.BalanceOf(s2p(a))} },
		ref: func(r *refChain, g cres) string {
			if g.err != nil {
				return sameErr(g.err, nil)
			}
			st, _ := r.at(-1)
			if w := st.GetBalance(a); w.Cmp(g.big) != 0 {
				return fmt.Sprintf("balance %s, expected %s", g.big, w)
			}
			return ""
		}}
}

func (e *chainEnv) newTx() *refTx {
	t := e.t
	x := &refTx{from: e.sender(), gas: e.gas(), price: big.NewInt(int64(t.Choose(3) * 7)), value: e.value()}
	if t.Choose(4) == 3 {
		x.data = e.initcode()
	} else {
		a := e.any()
		x.to = &a
		switch t.Choose(6) {
		case 4:
		case 5:
			x.data = t.Bytes(t.Choose(70))
		default:
			x.data = seth.ABIEncode("f(uint256)", e.word())
		}
	}
	return x
}

func (x *refTx) String() string {
	to := "create"
	if x.to != nil {
		to = short(*x.to)
	}
	return fmt.Sprintf("%s->%s v=%s gas=%d %d bytes", short(x.from), to, x.value, x.gas, len(x.data))
}

func (x *refTx) seth() *seth.Transaction {
	f := seth.Address(x.from)
	tx := &seth.Transaction{From: &f, Gas: seth.Uint64(x.gas), Input: append(seth.Data{}, x.data...)}
	tx.GasPrice = seth.Int(*new(big.Int).Set(x.price))
	tx.Value = seth.Int(*new(big.Int).Set(x.value))
	if x.to != nil {
		tx.To = s2p(*x.to)
	}
	return tx
}

func (r *refChain) knows(h seth.Hash) bool {
	for _, x := range r.pend.txs {
		if x.hashed && x.hash == h {
			return true
		}
	}
	for _, b := range r.blocks {
		for _, x := range b.txs {
			if x.hashed && x.hash == h {
				return true
			}
		}
	}
	return false
}

// cloneTx is needed because the model records outcomes in the transaction.
// scribble changes the transaction and the result of a call to Mine, as
// the caller may do when it is over, and returns a copy of the result.
func (e *chainEnv) scribble(tx *seth.Transaction, ret []byte) []byte {
	if !e.t.alone {
		return ret
	}
	cp := append([]byte{}, ret...)
	for i := range ret {
		ret[i] ^= 0xff
	}
	for i := range tx.Input {
		tx.Input[i] ^= 0xff
	}
	tx.Hash = seth.Hash{1}
	if tx.To != nil {
		*tx.To = seth.Address{1}
	}
	if tx.From != nil {
		*tx.From = seth.Address{2}
	}
	if tx.TxIndex != nil {
		*tx.TxIndex += 3
	}
	tx.Value.Big().SetInt64(77)
	tx.GasPrice.Big().SetInt64(78)
	return cp
}

// scribbleLogs changes logs that a chain handed out.
func (e *chainEnv) scribbleLogs(ll []seth.Log) {
	if !e.t.alone {
		return
	}
	for i := range ll {
		l := &ll[i]
		for _, d := range append(append([]seth.Data{}, l.Topics...), l.Data) {
			for j := range d {
				d[j] ^= 0xff
			}
		}
		if l.BlockHash != nil {
			l.BlockHash[0] ^= 0xff
		}
		if l.TxHash != nil {
			l.TxHash[0] ^= 0xff
		}
		for _, n := range []*seth.Uint64{l.LogIndex, l.TxIndex, l.BlockNumber} {
			if n != nil {
				*n += 5
			}
		}
	}
}

func (x *refTx) clone() *refTx { y := *x; y.logs = nil; return &y }

func (e *chainEnv) mine() *cop { return e.mineTx(e.newTx()) }

func (e *chainEnv) mineTx(x *refTx) *cop {
	return &cop{name: "Mine " + x.String(),
		do: func(c *tevm.Chain, cl *seth.Client) cres {
			tx := x.seth()
			ret, h, err := c.Mine(tx)
			e.txs = append(e.txs, h)
			ret = e.scribble(tx, ret)
			if err == nil && x.to == nil {
				e.learnCreated(c, x)
			}
			return cres{ret: ret, h: h, err: err}
		},
		ref: func(r *refChain, g cres) string {
			y := x.clone()
			ret, err := r.mine(y)
			if d := sameErr(g.err, err); d != "" {
				return d
			}
			if !bytes.Equal(ret, g.ret) {
				return fmt.Sprintf("returned %x, expected %x", g.ret, ret)
			}
			y.hash, y.hashed = g.h, false
			if r.knows(g.h) {
				return fmt.Sprintf("transaction hash %x used twice", g.h)
			}
			y.hashed = true
			return ""
		}}
}

// learnCreated finds out where a transaction deployed its contract.
func (e *chainEnv) learnCreated(c *tevm.Chain, x *refTx) {
	if simrt.RaceMode {
		// the state may not be looked at while others use the chain
		e.learn(createAddr(x.from, uint64(e.t.Choose(4))))
		return
	}
	// the creation used the nonce before the current one
	n := c.State.StateDB().GetNonce(x.from)
	if n > 0 {
		e.learn(createAddr(x.from, n-1))
	}
}

func (e *chainEnv) seal() *cop {
	e.blocks++
	return &cop{name: "Seal",
		do:  func(c *tevm.Chain, cl *seth.Client) cres { c.Seal(); return cres{} },
		ref: func(r *refChain, g cres) string { r.seal(0); return "" }}
}

// transaction over RPC: mined and sealed at once
func (e *chainEnv) rpcSend() *cop {
	x := e.newTx()
	if e.t.Choose(20) == 19 {
		x.gas = refGasLimit + uint64(e.t.Choose(2))*1 + uint64(e.t.Choose(3))<<40
	}
	e.blocks++
	return &cop{name: "eth_sendTransaction " + x.String(),
		do: func(c *tevm.Chain, cl *seth.Client) cres {
			h, err := cl.Call(x.opts())
			if err == nil {
				e.txs = append(e.txs, h)
			}
			return cres{h: h, err: err}
		},
		ref: func(r *refChain, g cres) string {
			y := x.clone()
			if y.gas > r.limit {
				return sameErr(g.err, errNoBlock)
			}
			_, err := r.mine(y)
			if d := sameErr(g.err, err); d != "" {
				return d
			}
			if err != nil {
				return "" // stays in the pending block
			}
			if r.knows(g.h) {
				return fmt.Sprintf("transaction hash %x used twice", g.h)
			}
			y.hash, y.hashed = g.h, true
			r.seal(0)
			return ""
		}}
}

func (x *refTx) opts() *seth.CallOpts {
	gas, price, value := new(big.Int).SetUint64(x.gas), x.price, x.value
	o := &seth.CallOpts{From: s2p(x.from), Gas: (*seth.Int)(gas), GasPrice: (*seth.Int)(new(big.Int).Set(price)), Value: (*seth.Int)(new(big.Int).Set(value)), Data: append(seth.Data{}, x.data...)}
	if x.to != nil {
		o.To = s2p(*x.to)
	}
	return o
}

// blockArg draws a block for a query: the client's number and the chain's.
func (e *chainEnv) blockArg() (client, chain int64) {
	t := e.t
	switch t.Choose(5) {
	case 0:
		return seth.Latest, -2
	case 1:
		return seth.Pending, -1
	case 2:
		n := int64(e.first) + int64(e.blocks) - int64(t.Choose(3))
		if n < int64(e.first) {
			n = int64(e.first)
		}
		return n, n
	}
	n := int64(e.first) + int64(t.Choose(e.blocks+2))
	return n, n
}

func blockName(n int64) string {
	switch n {
	case -2:
		return "latest"
	case -1:
		return "pending"
	}
	return fmt.Sprint(n)
}

func (e *chainEnv) rpcBalance() *cop {
	a := e.any()
	cn, n := e.blockArg()
	return &cop{name: fmt.Sprintf("eth_getBalance %s at %s", short(a), blockName(n)), read: true,
		do: func(c *tevm.Chain, cl *seth.Client) cres {
			v, err := cl.GetBalanceAt(s2p(a), cn)
			return cres{big: v.Big(), err: err}
		},
		ref: func(r *refChain, g cres) string {
			st, _ := r.at(n)
			if st == nil {
				return sameErr(g.err, errNoBlock)
			}
			if g.err != nil {
				return fmt.Sprintf("error %v", g.err)
			}
			if w := st.GetBalance(a); w.Cmp(g.big) != 0 {
				return fmt.Sprintf("balance %s, expected %s", g.big, w)
			}
			return ""
		}}
}

// rawText receives a result as it is.
type rawText struct{ b []byte }

func (r *rawText) UnmarshalJSON(b []byte) error { r.b = append([]byte{}, b...); return nil }

func (e *chainEnv) rpcCall() *cop {
	from, to, w := e.sender(), e.any(), e.word()
	cn, n := e.blockArg()
	gas := uint64(0)
	switch e.t.Choose(6) {
	case 2, 5:
		gas = e.gas()
	case 4:
		gas = uint64(40000 + e.t.Choose(20000)) // about the lowest limit
	}
	data := seth.ABIEncode("f(uint256)", w)
	return &cop{name: fmt.Sprintf("eth_call %s->%s(%s) at %s", short(from), short(to), w, blockName(n)), read: true,
		do: func(c *tevm.Chain, cl *seth.Client) cres {
			o := &seth.CallOpts{From: s2p(from), To: s2p(to), Data: append(seth.Data{}, data...)}
			if gas > 0 {
				o.Gas = seth.NewInt(int64(gas))
			}
			var out seth.Data
			err := cl.ConstCallAt(o, &out, cn)
			return cres{ret: out, err: err}
		},
		ref: func(r *refChain, g cres) string {
			ret, _, err := r.constCall(from, to, data, gas, n)
			if d := sameErr(g.err, err); d != "" {
				return d
			}
			if err == nil && !bytes.Equal(ret, g.ret) {
				return fmt.Sprintf("returned %x, expected %x", g.ret, ret)
			}
			return ""
		}}
}

func (e *chainEnv) rpcEstimate() *cop {
	x := e.newTx()
	cn, n := e.blockArg()
	return &cop{name: fmt.Sprintf("eth_estimateGas %s at %s", x, blockName(n)), read: true,
		do: func(c *tevm.Chain, cl *seth.Client) cres {
			buf, _ := json.Marshal(x.opts())
			var v seth.Int
			err := cl.Do("eth_estimateGas", []json.RawMessage{buf, blockJSON(cn)}, &v)
			return cres{n: v.Uint64(), err: err}
		},
		ref: func(r *refChain, g cres) string {
			used, err := r.estimate(x.from, x.to, x.data, x.gas, x.value, n)
			if d := sameErr(g.err, err); d != "" {
				return d
			}
			if err == nil && used != g.n {
				return fmt.Sprintf("estimated %d, expected %d", g.n, used)
			}
			return ""
		}}
}

func blockJSON(n int64) json.RawMessage {
	switch n {
	case seth.Latest:
		return json.RawMessage(`"latest"`)
	case seth.Pending:
		return json.RawMessage(`"pending"`)
	}
	return json.RawMessage(fmt.Sprintf(`"0x%x"`, n))
}

func (e *chainEnv) rpcNumber() *cop {
	return &cop{name: "eth_blockNumber", read: true,
		do: func(c *tevm.Chain, cl *seth.Client) cres {
			n, err := cl.BlockNumber()
			return cres{n: uint64(n), err: err}
		},
		ref: func(r *refChain, g cres) string {
			if g.err != nil {
				return g.err.Error()
			}
			if g.n != r.pend.num && g.n != r.pend.num-1 {
				return fmt.Sprintf("block number %d with block %d pending", g.n, r.pend.num)
			}
			return ""
		}}
}

func (e *chainEnv) logs() *cop {
	return &cop{name: "Logs", read: true,
		do: func(c *tevm.Chain, cl *seth.Client) cres {
			ll := c.Logs()
			s := ""
			for i := range ll {
				s += slogText(&ll[i]) + "\n"
			}
			e.scribbleLogs(ll)
			return cres{text: s}
		},
		ref: func(r *refChain, g cres) string {
			s := ""
			for _, l := range r.st.logs {
				s += rlogText(l) + "\n"
			}
			if s != g.text {
				return fmt.Sprintf("logs\n%sexpected\n%s", g.text, s)
			}
			return ""
		}}
}

func (e *chainEnv) rpcBlock() *cop {
	cn, n := e.blockArg()
	full := e.t.Choose(2) == 1
	return &cop{name: fmt.Sprintf("eth_getBlockByNumber %s %v", blockName(n), full), read: true,
		do: func(c *tevm.Chain, cl *seth.Client) cres {
			b, err := cl.GetBlock(cn, full)
			if err != nil {
				return cres{err: err}
			}
			if b == nil {
				return cres{err: seth.ErrNotFound}
			}
			s, err := blockText(b, full)
			return cres{text: s, err: err}
		},
		ref: func(r *refChain, g cres) string {
			k := n
			if k == -2 {
				k = int64(r.pend.num) - 1
				if r.blocks[uint64(k)] == nil {
					k = -1
				}
			}
			b := r.blocks[uint64(k)]
			if k == -1 || k == int64(r.pend.num) {
				b = r.pend
			}
			if b == nil {
				return sameErr(g.err, errNoBlock)
			}
			if g.err != nil {
				return fmt.Sprintf("error %v", g.err)
			}
			return b.compare(g.text, full, r.first, r.limit)
		}}
}

// blockText renders the parts of a block the model knows.
func blockText(b *seth.Block, full bool) (string, error) {
	if b.Number == nil || b.Hash == nil {
		return "", fmt.Errorf("block without number or hash: %+v", b)
	}
	s := fmt.Sprintf("block %d parent %x gas %d limit %d\n", uint64(*b.Number), b.Parent[:], uint64(b.GasUsed), uint64(b.GasLimit))
	if full {
		txs, err := b.ParseTransactions()
		if err != nil {
			return "", err
		}
		for i := range txs {
			s += txText(&txs[i]) + "\n"
		}
		return s, nil
	}
	for _, m := range b.Transactions {
		var h seth.Hash
		if err := json.Unmarshal(m, &h); err != nil {
			return "", fmt.Errorf("block lists transaction %s: %v", m, err)
		}
		s += fmt.Sprintf("%x\n", h[:])
	}
	return s, nil
}

func txText(x *seth.Transaction) string {
	to, from := "create", "nobody"
	if x.To != nil {
		to = short(common.Address(*x.To))
	}
	if x.From != nil {
		from = short(common.Address(*x.From))
	}
	idx := -1
	if x.TxIndex != nil {
		idx = int(*x.TxIndex)
	}
	return fmt.Sprintf("%x block %d %x index %d %s->%s value %s gas %d price %s data %x", x.Hash[:], uint64(x.BlockNumber), x.Block[:], idx, from, to,
		x.Value.Big(), uint64(x.Gas), x.GasPrice.Big(), []byte(x.Input))
}

func (x *refTx) text(b *refBlock, i int, h seth.Hash) string {
	to := "create"
	if x.to != nil {
		to = short(*x.to)
	}
	bh := refHash(b.num)
	return fmt.Sprintf("%x block %d %x index %d %s->%s value %s gas %d price %s data %x", h[:], b.num, bh[:], i, short(x.from), to, x.value, x.gas, x.price, x.data)
}

// compare matches a rendered block, in which hashes of transactions that were
// refused over RPC are not known to the model.
func (b *refBlock) compare(text string, full bool, first, limit uint64) string {
	var parent common.Hash
	if b.num > first {
		parent = refHash(b.num - 1)
	}
	lines := splitLines(text)
	want := fmt.Sprintf("block %d parent %x gas %d limit %d", b.num, parent[:], b.gasUsed, limit)
	if len(lines) == 0 || lines[0] != want {
		return fmt.Sprintf("%s, expected %s", text, want)
	}
	lines = lines[1:]
	if len(lines) != len(b.txs) {
		return fmt.Sprintf("%d transactions in block %d, expected %d", len(lines), b.num, len(b.txs))
	}
	for i, l := range lines {
		var h seth.Hash
		if len(l) < 64 {
			return "bad line " + l
		}
		for k := range h {
			fmt.Sscanf(l[2*k:2*k+2], "%02x", &h[k])
		}
		x := b.txs[i]
		if x.hashed && x.hash != h {
			return fmt.Sprintf("transaction %d of block %d has hash %x, expected %x", i, b.num, h[:], x.hash[:])
		}
		if !x.hashed { // refused over RPC: learnt here
			x.hash, x.hashed = h, true
		}
		if full {
			if w := x.text(b, i, h); w != l {
				return fmt.Sprintf("transaction\n%s\nexpected\n%s", l, w)
			}
		}
	}
	return ""
}

func splitLines(s string) []string {
	var out []string
	for len(s) > 0 {
		i := 0
		for i < len(s) && s[i] != '\n' {
			i++
		}
		out = append(out, s[:i])
		if i < len(s) {
			i++
		}
		s = s[i:]
	}
	return out
}

func (e *chainEnv) txHash() seth.Hash {
	if len(e.txs) == 0 || e.t.Choose(8) == 7 {
		return seth.Hash{1, 2, 3}
	}
	return e.txs[e.t.Choose(len(e.txs))]
}

func (r *refChain) find(h seth.Hash) (*refTx, *refBlock, int) {
	for i, x := range r.pend.txs {
		if x.hashed && x.hash == h {
			return x, r.pend, i
		}
	}
	for _, b := range r.blocks {
		for i, x := range b.txs {
			if x.hashed && x.hash == h {
				return x, b, i
			}
		}
	}
	return nil, nil, 0
}

func (e *chainEnv) rpcTx() *cop {
	h := e.txHash()
	return &cop{name: fmt.Sprintf("eth_getTransactionByHash %x", h[:3]), read: true,
		do: func(c *tevm.Chain, cl *seth.Client) cres {
			x, err := cl.GetTransaction(&h)
			if err != nil {
				return cres{err: err}
			}
			return cres{text: txText(x)}
		},
		ref: func(r *refChain, g cres) string {
			x, b, i := r.find(h)
			if x == nil {
				if g.err == nil && r.unhashed() {
					return "" // may be one of those
				}
				return sameErr(g.err, errNoBlock)
			}
			if g.err != nil {
				return fmt.Sprintf("error %v", g.err)
			}
			if w := x.text(b, i, h); w != g.text {
				return fmt.Sprintf("%s\nexpected\n%s", g.text, w)
			}
			return ""
		}}
}

func (r *refChain) unhashed() bool {
	for _, x := range r.pend.txs {
		if !x.hashed {
			return true
		}
	}
	for _, b := range r.blocks {
		for _, x := range b.txs {
			if !x.hashed {
				return true
			}
		}
	}
	return false
}

func receiptText(x *seth.Receipt) string {
	s := fmt.Sprintf("%x block %d %x index %d gas %d cumulative %d status %d", x.Hash[:], uint64(x.BlockNumber), x.BlockHash[:], uint64(x.Index), uint64(x.GasUsed),
		uint64(x.Cumulative), uint64(x.Status))
	if x.Address != nil && x.Status != 0 {
		s += " created " + short(common.Address(*x.Address))
	}
	for i := range x.Logs {
		l := &x.Logs[i]
		s += "\n" + slogText(l) + " " + logPos(l)
	}
	return s
}

func logPos(l *seth.Log) string {
	if l.BlockHash == nil || l.TxHash == nil || l.TxIndex == nil {
		return "no position"
	}
	return fmt.Sprintf("in %x of %x at %d", l.TxHash[:], l.BlockHash[:], uint64(*l.TxIndex))
}

func (x *refTx) receipt(b *refBlock, i int, h seth.Hash) string {
	bh := refHash(b.num)
	cum := uint64(0)
	for _, y := range b.txs[:i+1] {
		cum += y.used
	}
	s := fmt.Sprintf("%x block %d %x index %d gas %d cumulative %d status %d", h[:], b.num, bh[:], i, x.used, cum, x.status)
	if x.to == nil && x.status != 0 {
		s += " created " + short(x.addr)
	}
	for _, l := range x.logs {
		s += "\n" + rlogText(l) + " " + fmt.Sprintf("in %x of %x at %d", h[:], bh[:], i)
	}
	return s
}

func (e *chainEnv) rpcReceipt() *cop {
	h := e.txHash()
	return &cop{name: fmt.Sprintf("eth_getTransactionReceipt %x", h[:3]), read: true,
		do: func(c *tevm.Chain, cl *seth.Client) cres {
			x, err := cl.GetReceipt(&h)
			if err != nil {
				return cres{err: err}
			}
			return cres{text: receiptText(x)}
		},
		ref: func(r *refChain, g cres) string {
			x, b, i := r.find(h)
			if x == nil || b == r.pend && i >= b.sealed {
				if g.err == nil && r.unhashed() {
					return ""
				}
				return sameErr(g.err, errNoBlock)
			}
			if g.err != nil {
				return fmt.Sprintf("error %v", g.err)
			}
			if w := x.receipt(b, i, h); w != g.text {
				return fmt.Sprintf("%s\nexpected\n%s", g.text, w)
			}
			return ""
		}}
}

// cw is a chain together with its model.
type cw struct {
	t      *T
	e      *chainEnv
	c      *tevm.Chain
	cl     *seth.Client
	r      *refChain
	name   string
	dial   func() *seth.Client // how others connect to the chain
	settle func()              // ends what else uses the chain
}

func (w *cw) client() *seth.Client {
	if w.dial != nil {
		return w.dial()
	}
	return w.c.Client()
}

// otherLimit gives the chain another block gas limit, which its blocks keep.
func (w *cw) otherLimit() {
	if w.t.Choose(5) == 4 {
		w.r.limit = []uint64{400000, 50000, 8000029, 6000001}[w.t.Choose(4)]
		w.c.State.Pending.GasLimit = seth.Uint64(w.r.limit)
	}
}

func newWorld(t *T, e *chainEnv) *cw {
	c := tevm.NewChain()
	w := &cw{t: t, e: e, c: c, cl: c.Client(), r: newRefChain(100, 0), name: "chain"}
	w.otherLimit()
	for i := 0; i < 3; i++ {
		w.run(e.newAccount())
	}
	if t.Choose(25) == 24 {
		for i := 5 + t.Choose(40); i > 0; i-- {
			w.run(e.seal())
		}
	}
	return w
}

// run executes one operation and compares it with the model.
func (w *cw) run(o *cop) cres {
	if w.t.alone {
		lent = lent[:0]
	}
	g := o.do(w.c, w.cl)
	if w.t.alone {
		w.e.reuse()
	}
	w.t.Logf("%s: %s = %s", w.name, o.name, g)
	d := o.ref(w.r, g)
	w.r.st.snaps = nil
	if d != "" {
		w.t.Failf("wrong-outcome", "%s on the %s: %s", o.name, w.name, d)
	}
	if g.err != nil {
		w.t.Count(faultKind(g.err))
	} else if !o.read {
		w.t.Count("reach:write")
	} else {
		w.t.Count("reach:read")
	}
	return g
}

// faultKind names the way an execution failed.
func faultKind(err error) string {
	for _, k := range []string{"out of gas", "reverted", "insufficient balance", "invalid opcode", "stack", "call depth", "write protection", "unknown block", "upstream"} {
		if strings.Contains(err.Error(), k) {
			return "fault:evm-" + strings.ReplaceAll(k, " ", "-")
		}
	}
	return "fault:evm-other"
}

// draw makes an operation of one of the kinds given by letters.
func (w *cw) draw(kinds string) *cop {
	e := w.e
	switch kinds[w.t.Choose(len(kinds))] {
	case 's':
		return e.send()
	case 'S':
		return e.sendAll(w.c)
	case 'c':
		return e.call()
	case 't':
		return e.static()
	case 'n':
		return e.create()
	case 'N':
		return e.createAt()
	case '+':
		return e.credit()
	case '-':
		return e.debit(w.c)
	case 'a':
		return e.newAccount()
	case 'b':
		return e.balanceOf()
	case 'm':
		return e.mine()
	case '|':
		return e.seal()
	case 'r':
		return e.rpcSend()
	case 'B':
		return e.rpcBalance()
	case 'C':
		return e.rpcCall()
	case 'E':
		return e.rpcEstimate()
	case '#':
		return e.rpcNumber()
	case 'l':
		return e.logs()
	case 'k':
		return e.rpcBlock()
	case 'x':
		return e.rpcTx()
	case 'p':
		return e.rpcReceipt()
	case 'M':
		return e.save()
	}
	panic(kinds)
}

// stateText renders the accounts of a chain the model knows about, through
// the state interface.
func (w *cw) stateText(nonces bool) string { return stateText(w.c, w.r.st, nonces) }

// acctReader is the part of a state that both chain and model offer.
type acctReader interface {
	GetBalance(common.Address) *big.Int
	GetNonce(common.Address) uint64
	GetCode(common.Address) []byte
	HasSuicided(common.Address) bool
	GetState(common.Address, common.Hash) common.Hash
}

func stateText(c *tevm.Chain, st *refState, nonces bool) string {
	return st.textOf(c.State.StateDB(), nonces)
}

func (s *refState) text(nonces bool) string { return s.textOf(s, nonces) }

// textOf renders the accounts known to s as db has them, without those that
// hold nothing.
func (s *refState) textOf(db acctReader, nonces bool) string {
	simrt.Handoff()
	var b bytes.Buffer
	for _, a := range s.addrs() {
		bal, nonce, code, dead := db.GetBalance(a), db.GetNonce(a), db.GetCode(a), db.HasSuicided(a)
		l := fmt.Sprintf("%s %s", short(a), bal)
		if nonces {
			l += fmt.Sprintf(" n%d", nonce)
		} else {
			nonce = 0
		}
		l += fmt.Sprintf(" dead=%v code %x", dead, keccak(code))
		slots := ""
		for _, k := range s.slots(a) {
			v := db.GetState(a, k)
			if v != (common.Hash{}) {
				slots += fmt.Sprintf(" %x=%x", bytes.TrimLeft(k[:], "\x00"), bytes.TrimLeft(v[:], "\x00"))
			}
		}
		if bal.Sign() != 0 || nonce != 0 || len(code) != 0 || dead || slots != "" {
			b.WriteString(l + slots + "\n")
		}
	}
	return b.String()
}

// diffLines shows the first line in which two texts differ.
func diffLines(got, want string) string {
	a, b := splitLines(got), splitLines(want)
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(nothing)", "(nothing)"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("%s\nexpected %s", x, y)
		}
	}
	return ""
}

// checkState compares every account with the model.
func (w *cw) checkState(why string) {
	if d := diffLines(w.stateText(true), w.r.st.text(true)); d != "" {
		w.t.Failf("wrong-state", "%s, state of the %s: %s", why, w.name, d)
	}
}

// recordsText renders everything recorded about the sealed and pending blocks.
func recordsText(c *tevm.Chain, cl *seth.Client, r *refChain) string {
	var b bytes.Buffer
	do := func(n int64) {
		for _, full := range []bool{false, true} {
			blk, err := cl.GetBlock(n, full)
			if err != nil {
				fmt.Fprintf(&b, "block %d %v: %v\n", n, full, err)
				continue
			}
			s, err := blockText(blk, full)
			fmt.Fprintf(&b, "%s%v\n", s, err)
			if full {
				continue
			}
			for _, l := range splitLines(s)[1:] {
				var h seth.Hash
				h.FromString("0x" + l)
				rx, err := cl.GetReceipt(&h)
				if err != nil {
					fmt.Fprintf(&b, "no receipt of %s\n", l)
				} else {
					fmt.Fprintf(&b, "%s\n", receiptText(rx))
				}
				x, err := cl.GetTransaction(&h)
				if err != nil {
					fmt.Fprintf(&b, "no transaction %s\n", l)
				} else {
					fmt.Fprintf(&b, "%s\n", txText(x))
				}
			}
		}
	}
	for n := r.first; n <= r.pend.num; n++ {
		do(int64(n))
	}
	ll := c.Logs()
	for i := range ll {
		fmt.Fprintf(&b, "log %s\n", slogText(&ll[i]))
	}
	return b.String()
}

// historyText renders the state at every sealed block.
func historyText(c *tevm.Chain, r *refChain) string {
	var b bytes.Buffer
	for n := r.first; n < r.pend.num; n++ {
		bl := r.blocks[n]
		if bl == nil {
			continue
		}
		v := c.AtBlock(int64(n))
		if v == nil {
			fmt.Fprintf(&b, "no view of block %d\n", n)
			continue
		}
		fmt.Fprintf(&b, "block %d\n%s", n, stateText(v, bl.st, true))
	}
	return b.String()
}

func (r *refChain) historyText() string {
	var b bytes.Buffer
	for n := r.first; n < r.pend.num; n++ {
		if bl := r.blocks[n]; bl != nil {
			fmt.Fprintf(&b, "block %d\n%s", n, bl.st.text(true))
		}
	}
	return b.String()
}

// everything a chain can tell
func (w *cw) dump() string {
	return w.stateText(true) + recordsText(w.c, w.cl, w.r) + historyText(w.c, w.r)
}

// checkAll compares state, history and records with the model.
func (w *cw) checkAll(why string) {
	w.checkState(why)
	if d := diffLines(historyText(w.c, w.r), w.r.historyText()); d != "" {
		w.t.Failf("wrong-history", "%s, state of sealed blocks of the %s: %s", why, w.name, d)
	}
	w.checkRecords(why)
}

// checkRecords compares blocks, transactions, receipts and logs with the
// model, through RPC.
func (w *cw) checkRecords(why string) {
	if d := w.recordsDiff(); d != "" {
		w.t.Failf("wrong-record", "%s, %s: %s", why, w.name, d)
	}
}

func (w *cw) recordsDiff() string {
	r := w.r
	seen := map[seth.Hash]bool{}
	for n := r.first; n <= r.pend.num; n++ {
		b := r.blocks[n]
		if n == r.pend.num {
			b = r.pend
		}
		if b == nil {
			continue
		}
		for _, full := range []bool{false, true} {
			blk, err := w.cl.GetBlock(int64(n), full)
			if err != nil {
				return fmt.Sprintf("block %d: %v", n, err)
			}
			if blk.Hash == nil || common.Hash(*blk.Hash) != refHash(n) {
				return fmt.Sprintf("block %d has hash %v", n, blk.Hash)
			}
			s, err := blockText(blk, full)
			if err != nil {
				return fmt.Sprintf("block %d: %v", n, err)
			}
			if d := b.compare(s, full, r.first, r.limit); d != "" {
				return fmt.Sprintf("block %d: %s", n, d)
			}
			var byHash seth.Block
			hb, _ := json.Marshal(blk.Hash)
			if err := w.cl.Do("eth_getBlockByHash", []json.RawMessage{hb, json.RawMessage(fmt.Sprint(full))}, &byHash); err != nil {
				return fmt.Sprintf("block %d by hash: %v", n, err)
			}
			if s2, _ := blockText(&byHash, full); s2 != s {
				return fmt.Sprintf("block %d by hash: %s", n, diffLines(s2, s))
			}
		}
		for i, x := range b.txs {
			h := x.hash
			if seen[h] {
				return fmt.Sprintf("transaction hash %x twice", h[:])
			}
			seen[h] = true
			tx, err := w.cl.GetTransaction(&h)
			if err != nil {
				return fmt.Sprintf("transaction %x: %v", h[:], err)
			}
			if d := diffLines(txText(tx), x.text(b, i, h)); d != "" {
				return fmt.Sprintf("transaction: %s", d)
			}
			rx, err := w.cl.GetReceipt(&h)
			if b == r.pend && i >= b.sealed {
				if err == nil {
					return fmt.Sprintf("receipt of the pending transaction %x", h[:])
				}
				continue
			}
			if err != nil {
				return fmt.Sprintf("receipt of %x in block %d: %v", h[:], n, err)
			}
			if d := diffLines(receiptText(rx), x.receipt(b, i, h)); d != "" {
				return fmt.Sprintf("receipt: %s", d)
			}
			last := -1
			for k := range rx.Logs {
				if rx.Logs[k].LogIndex == nil || int(*rx.Logs[k].LogIndex) <= last {
					return fmt.Sprintf("log %d of transaction %x has index %v after %d", k, h[:], rx.Logs[k].LogIndex, last)
				}
				last = int(*rx.Logs[k].LogIndex)
			}
		}
	}
	ll := w.c.Logs()
	if len(ll) != len(r.st.logs) {
		return fmt.Sprintf("%d logs, expected %d", len(ll), len(r.st.logs))
	}
	for i := range ll {
		if d := diffLines(slogText(&ll[i]), rlogText(r.st.logs[i])); d != "" {
			return fmt.Sprintf("log %d: %s", i, d)
		}
	}
	return ""
}

// diffAll says how a chain differs from its model.
func (w *cw) diffAll() string {
	simrt.Handoff()
	if d := diffLines(w.stateText(true), w.r.st.text(true)); d != "" {
		return d
	}
	if d := diffLines(historyText(w.c, w.r), w.r.historyText()); d != "" {
		return d
	}
	return w.recordsDiff()
}

// copyOf makes a world of its own from a copy of the chain.
func (w *cw) copyOf(n int) *cw {
	c := w.c.Copy()
	w.t.Logf("%s: copied", w.name)
	return &cw{t: w.t, e: w.e, c: c, cl: c.Client(), r: w.r.clone(), name: fmt.Sprintf("copy%d of %s", n, w.name)}
}

// viewAt makes a world from the view of a sealed block.
func (w *cw) viewAt(n uint64, k int) *cw {
	v, d := w.viewOf(n, w.c.AtBlock(int64(n)))
	if d != "" {
		w.t.Failf("wrong-outcome", "AtBlock(%d) of the %s: %s", n, w.name, d)
	}
	if v != nil {
		v.name = fmt.Sprintf("view%d at %d of %s", k, n, w.name)
	}
	return v
}

// viewOf is the world of a view c of the chain at block n.
func (w *cw) viewOf(n uint64, c *tevm.Chain) (*cw, string) {
	b := w.r.blocks[n]
	if b == nil || c == nil {
		if (b == nil) != (c == nil) {
			return nil, fmt.Sprintf("view %v, block sealed %v", c != nil, b != nil)
		}
		return nil, ""
	}
	r := w.r.clone()
	r.st = b.st.clone()
	p := *b
	p.st, p.sealed = nil, len(b.txs)
	p.txs = append([]*refTx{}, b.txs...)
	r.pend = &p
	for m := range r.blocks {
		if m >= n {
			delete(r.blocks, m)
		}
	}
	return &cw{t: w.t, e: w.e, c: c, cl: c.Client(), r: r, name: fmt.Sprintf("view at %d of %s", n, w.name)}, ""
}
