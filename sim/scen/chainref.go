package scen

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"sort"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/params"
	"github.com/philhofer/seth"
)

// The reference model of a chain: plain maps that are copied whole at every
// snapshot, executed by the same EVM interpreter the chain uses.

type refAcct struct {
	bal   *big.Int
	nonce uint64
	code  []byte
	st    map[common.Hash]common.Hash
	dead  bool
	exist bool
}

func (a *refAcct) clone() *refAcct {
	b := *a
	b.bal = new(big.Int).Set(a.bal)
	b.st = make(map[common.Hash]common.Hash, len(a.st))
	for k, v := range a.st {
		b.st[k] = v
	}
	return &b
}

// refBase is what a forked state reads where it has no value of its own.
type refBase interface {
	acct(a common.Address) (bal *big.Int, nonce uint64, code []byte)
	slot(a common.Address, k common.Hash) common.Hash
}

type refState struct {
	a      map[common.Address]*refAcct
	logs   []*types.Log
	refund uint64
	snaps  []*refState
	base   refBase
}

func newRefState() *refState { return &refState{a: map[common.Address]*refAcct{}} }

func (s *refState) clone() *refState {
	n := &refState{a: make(map[common.Address]*refAcct, len(s.a)), refund: s.refund, base: s.base}
	for k, v := range s.a {
		n.a[k] = v.clone()
	}
	for _, l := range s.logs {
		c := *l
		n.logs = append(n.logs, &c)
	}
	return n
}

func (s *refState) get(a common.Address) *refAcct {
	x := s.a[a]
	if x == nil {
		x = &refAcct{bal: new(big.Int), st: map[common.Hash]common.Hash{}}
		if s.base != nil {
			b, n, c := s.base.acct(a)
			x.bal.Set(b)
			x.nonce, x.code = n, c
			x.exist = n != 0 || b.Sign() != 0 || len(c) != 0
		}
		s.a[a] = x
	}
	return x
}

func (s *refState) CreateAccount(a common.Address) {
	x := s.get(a)
	x.nonce, x.dead, x.exist = 0, false, true
}
func (s *refState) SubBalance(a common.Address, v *big.Int) {
	x := s.get(a)
	x.bal.Sub(x.bal, v)
	x.exist = true
}
func (s *refState) AddBalance(a common.Address, v *big.Int) {
	x := s.get(a)
	x.bal.Add(x.bal, v)
	x.exist = true
}
func (s *refState) GetBalance(a common.Address) *big.Int { return new(big.Int).Set(s.get(a).bal) }
func (s *refState) GetNonce(a common.Address) uint64     { return s.get(a).nonce }
func (s *refState) SetNonce(a common.Address, n uint64) {
	x := s.get(a)
	x.nonce, x.exist = n, true
}
func (s *refState) GetCodeHash(a common.Address) common.Hash {
	return crypto.Keccak256Hash(s.get(a).code)
}
func (s *refState) GetCode(a common.Address) []byte { return s.get(a).code }
func (s *refState) SetCode(a common.Address, c []byte) {
	s.get(a).code = append([]byte{}, c...)
}
func (s *refState) GetCodeSize(a common.Address) int { return len(s.get(a).code) }
func (s *refState) AddRefund(v uint64)               { s.refund += v }
func (s *refState) SubRefund(v uint64)               { s.refund -= v }
func (s *refState) GetRefund() uint64                { return s.refund }
func (s *refState) GetCommittedState(a common.Address, k common.Hash) common.Hash {
	panic("GetCommittedState")
}
func (s *refState) GetState(a common.Address, k common.Hash) common.Hash {
	x := s.get(a)
	v, ok := x.st[k]
	if !ok && s.base != nil {
		return s.base.slot(a, k)
	}
	return v
}
func (s *refState) SetState(a common.Address, k, v common.Hash) { s.get(a).st[k] = v }
func (s *refState) Suicide(a common.Address) bool {
	x := s.get(a)
	if !x.exist {
		return false
	}
	first := !x.dead
	x.dead = true
	x.bal.SetInt64(0)
	return first
}
func (s *refState) HasSuicided(a common.Address) bool { x := s.get(a); return x.exist && x.dead }
func (s *refState) Exist(a common.Address) bool       { return s.get(a).exist }
func (s *refState) Empty(a common.Address) bool {
	x := s.get(a)
	return x.nonce == 0 && x.bal.Sign() == 0 && len(x.code) == 0
}
func (s *refState) Snapshot() int {
	s.snaps = append(s.snaps, s.clone())
	return len(s.snaps) - 1
}
func (s *refState) RevertToSnapshot(n int) {
	o := s.snaps[n].clone()
	s.a, s.logs, s.refund = o.a, o.logs, o.refund
	s.snaps = s.snaps[:n+1]
}
func (s *refState) AddLog(l *types.Log)                                              { s.logs = append(s.logs, l) }
func (s *refState) AddPreimage(common.Hash, []byte)                                  {}
func (s *refState) ForEachStorage(common.Address, func(a, b common.Hash) bool) error { return nil }

func (s *refState) total() *big.Int {
	t := new(big.Int)
	for _, a := range s.a {
		t.Add(t, a.bal)
	}
	return t
}

type refTx struct {
	hash     seth.Hash
	hashed   bool
	from     common.Address
	to       *common.Address
	gas      uint64
	price    *big.Int
	value    *big.Int
	data     []byte
	status   uint64
	used     uint64
	addr     common.Address
	logs     []*types.Log
	firstLog int // index of its first log in its block
}

type refBlock struct {
	num     uint64
	time    uint64
	diff    int64
	txs     []*refTx
	gasUsed uint64
	st      *refState // state when sealed
	dig     string
	nlogs   int // logs of mined transactions
	sealed  int // transactions with a receipt although the block is pending (in views)
}

type refChain struct {
	st     *refState
	pend   *refBlock
	blocks map[uint64]*refBlock
	first  uint64
	limit  uint64
	params *params.ChainConfig
	filt   map[string]*refFilter
}

type gethLog = types.Log

type refFilter struct {
	from, to int64 // < 0: open
	addr     *common.Address
	topics   []*common.Hash
	pos      int
	created  int
	polled   bool
}

func refParams() *params.ChainConfig {
	return &params.ChainConfig{ChainID: big.NewInt(5), HomesteadBlock: new(big.Int), ConstantinopleBlock: new(big.Int), PetersburgBlock: new(big.Int),
		ByzantiumBlock: new(big.Int), EIP150Block: new(big.Int), EIP155Block: new(big.Int), EIP158Block: new(big.Int), IstanbulBlock: new(big.Int)}
}

const refGasLimit = 6000000

func newRefChain(first uint64, now uint64) *refChain {
	return &refChain{st: newRefState(), pend: &refBlock{num: first, time: now, diff: 100}, blocks: map[uint64]*refBlock{}, first: first, limit: refGasLimit,
		params: refParams(), filt: map[string]*refFilter{}}
}

// clone copies everything that later operations may change.
func (r *refChain) clone() *refChain {
	n := &refChain{st: r.st.clone(), first: r.first, limit: r.limit, params: r.params, blocks: map[uint64]*refBlock{}, filt: map[string]*refFilter{}}
	for k, v := range r.filt {
		f := *v
		n.filt[k] = &f
	}
	n.pend = r.pend.clone()
	for k, v := range r.blocks {
		n.blocks[k] = v // sealed blocks do not change ..
		for _, x := range v.txs {
			if !x.hashed { // .. but may learn a hash
				n.blocks[k] = v.clone()
				break
			}
		}
	}
	return n
}

func (b *refBlock) clone() *refBlock {
	p := *b
	p.txs = nil
	for _, x := range b.txs {
		if !x.hashed {
			y := *x
			x = &y
		}
		p.txs = append(p.txs, x)
	}
	return &p
}

func refHash(n uint64) common.Hash {
	var b [8]byte
	for i := range b {
		b[i] = byte(n >> (8 * uint(i)))
	}
	return common.Hash(keccak(b[:]))
}

func (r *refChain) evm(st *refState, b *refBlock, origin common.Address, price *big.Int) *vm.EVM {
	return vm.NewEVM(vm.Context{
		CanTransfer: func(db vm.StateDB, a common.Address, v *big.Int) bool { return db.GetBalance(a).Cmp(v) >= 0 },
		Transfer: func(db vm.StateDB, a, b common.Address, v *big.Int) {
			if v.Sign() != 0 {
				db.SubBalance(a, v)
				db.AddBalance(b, v)
			}
		},
		GetHash:     refHash,
		Origin:      origin,
		GasPrice:    new(big.Int).Set(price),
		GasLimit:    r.limit,
		BlockNumber: new(big.Int).SetUint64(b.num),
		Time:        new(big.Int).SetUint64(b.time),
		Difficulty:  big.NewInt(b.diff),
	}, st, r.params, vm.Config{})
}

var noPrice = new(big.Int)

func (r *refChain) create(from common.Address, code []byte) (common.Address, error) {
	_, a, _, err := r.evm(r.st, r.pend, from, noPrice).Create(vm.AccountRef(from), code, refGasLimit, new(big.Int))
	return a, err
}

func (r *refChain) createAt(at, from common.Address, code []byte) error {
	e := r.evm(r.st, r.pend, from, noPrice)
	snap := r.st.Snapshot()
	r.st.CreateAccount(at)
	r.st.SetNonce(at, 1)
	c := vm.NewContract(vm.AccountRef(from), vm.AccountRef(at), new(big.Int), refGasLimit)
	c.Code, c.CodeHash, c.CodeAddr = code, crypto.Keccak256Hash(code), &at
	ret, err := e.Interpreter().Run(c, nil, false)
	if err != nil {
		r.st.RevertToSnapshot(snap)
		return err
	}
	r.st.SetCode(at, ret)
	return nil
}

func (r *refChain) call(from, to common.Address, data []byte, value *big.Int) ([]byte, error) {
	ret, _, err := r.evm(r.st, r.pend, from, noPrice).Call(vm.AccountRef(from), to, data, refGasLimit, value)
	return ret, err
}

// at returns the state and block a query at block n sees: n >= 0, or -1
// pending, -2 latest (numbers as the chain itself uses them).
func (r *refChain) at(n int64) (*refState, *refBlock) {
	if n == -2 {
		n = int64(r.pend.num) - 1
		if r.blocks[uint64(n)] == nil {
			n = -1
		}
	}
	if n == -1 || n == int64(r.pend.num) {
		return r.st.clone(), r.pend
	}
	if n < 0 {
		return nil, nil
	}
	b := r.blocks[uint64(n)]
	if b == nil {
		return nil, nil
	}
	return b.st.clone(), b
}

var errNoBlock = errors.New("unknown block")

func (r *refChain) constCall(from, to common.Address, data []byte, gas uint64, n int64) ([]byte, uint64, error) {
	if gas == 0 || gas > r.limit {
		gas = r.limit
	}
	return r.staticCall(from, to, data, gas, n)
}

// a call without a transaction, with as much gas as the caller of Chain.StaticCall has
func (r *refChain) staticCall(from, to common.Address, data []byte, gas uint64, n int64) ([]byte, uint64, error) {
	st, b := r.at(n)
	if st == nil {
		return nil, 0, errNoBlock
	}
	ret, left, err := r.evm(st, b, from, noPrice).StaticCall(vm.AccountRef(from), to, data, gas)
	return ret, gas - left, err
}

func (r *refChain) estimate(from common.Address, to *common.Address, data []byte, gas uint64, value *big.Int, n int64) (uint64, error) {
	st, b := r.at(n)
	if st == nil {
		return 0, errNoBlock
	}
	if gas == 0 || gas > r.limit {
		gas = r.limit
	}
	e := r.evm(st, b, from, noPrice)
	var left uint64
	var err error
	if to == nil {
		_, _, left, err = e.Create(vm.AccountRef(from), data, gas, value)
	} else {
		_, left, err = e.Call(vm.AccountRef(from), *to, data, gas, value)
	}
	return gas - left, err
}

func (r *refChain) mine(x *refTx) (ret []byte, err error) {
	l0 := len(r.st.logs)
	var left uint64
	e := r.evm(r.st, r.pend, x.from, x.price)
	if x.to == nil {
		ret, x.addr, left, err = e.Create(vm.AccountRef(x.from), x.data, x.gas, x.value)
	} else {
		ret, left, err = e.Call(vm.AccountRef(x.from), *x.to, x.data, x.gas, x.value)
	}
	x.used = x.gas - left
	if err == nil {
		x.status = 1
	}
	for _, l := range r.st.logs[l0:] {
		c := *l
		x.logs = append(x.logs, &c)
	}
	x.firstLog = r.pend.nlogs
	r.pend.nlogs += len(x.logs)
	r.pend.gasUsed += x.used
	r.pend.txs = append(r.pend.txs, x)
	return ret, err
}

func (r *refChain) seal(now uint64) {
	b := r.pend
	b.st = r.st.clone()
	r.blocks[b.num] = b
	r.pend = &refBlock{num: b.num + 1, time: now}
}

func (f *refFilter) match(l *types.Log) bool {
	if f.from >= 0 && l.BlockNumber < uint64(f.from) || f.to >= 0 && l.BlockNumber > uint64(f.to) {
		return false
	}
	if f.addr != nil && *f.addr != l.Address {
		return false
	}
	for i, t := range f.topics {
		if t != nil && (i >= len(l.Topics) || l.Topics[i] != *t) {
			return false
		}
	}
	return true
}

func logText(addr common.Address, topics [][]byte, data []byte, block uint64) string {
	s := fmt.Sprintf("%x b%d [", addr[:4], block)
	for _, t := range topics {
		s += fmt.Sprintf("%x ", bytes.TrimLeft(t, "\x00"))
	}
	return s + fmt.Sprintf("] %x", data)
}

func rlogText(l *types.Log) string {
	var tt [][]byte
	for i := range l.Topics {
		tt = append(tt, l.Topics[i][:])
	}
	return logText(l.Address, tt, l.Data, l.BlockNumber)
}

func slogText(l *seth.Log) string {
	var tt [][]byte
	for i := range l.Topics {
		tt = append(tt, l.Topics[i])
	}
	bn := uint64(1 << 63)
	if l.BlockNumber != nil {
		bn = uint64(*l.BlockNumber)
	}
	return logText(common.Address(l.Address), tt, l.Data, bn)
}

// addrs lists the accounts of a state in order.
func (s *refState) addrs() []common.Address {
	var out []common.Address
	for a := range s.a {
		out = append(out, a)
	}
	sort.Slice(out, func(i, j int) bool { return bytes.Compare(out[i][:], out[j][:]) < 0 })
	return out
}

func (s *refState) slots(a common.Address) []common.Hash {
	var out []common.Hash
	for k := range s.get(a).st {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return bytes.Compare(out[i][:], out[j][:]) < 0 })
	return out
}
