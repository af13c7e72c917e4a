package scen

import (
	"encoding/binary"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

// Contract programs, assembled from snippets that move ether, write storage,
// log, call, create, destroy and fail.

type asm struct {
	b   []byte
	fix []int // positions of two-byte label references
	lab []int // position of each label
}

func (a *asm) op(o ...byte) { a.b = append(a.b, o...) }

func (a *asm) push(v *big.Int) {
	x := v.Bytes()
	if len(x) == 0 {
		x = []byte{0}
	}
	a.op(byte(0x5f + len(x)))
	a.b = append(a.b, x...)
}

func (a *asm) pushN(n uint64)         { a.push(new(big.Int).SetUint64(n)) }
func (a *asm) pushA(x common.Address) { a.op(0x73); a.b = append(a.b, x[:]...) }
func (a *asm) label() int             { a.lab = append(a.lab, -1); return len(a.lab) - 1 }
func (a *asm) ref(l int)              { a.op(0x61, byte(l>>8), byte(l)); a.fix = append(a.fix, len(a.b)-2) }
func (a *asm) here(l int)             { a.lab[l] = len(a.b); a.op(0x5b) }
func (a *asm) done() []byte {
	for _, p := range a.fix {
		l := int(binary.BigEndian.Uint16(a.b[p:]))
		binary.BigEndian.PutUint16(a.b[p:], uint16(a.lab[l]))
	}
	return a.b
}

const (
	opStop, opAdd, opSub, opIszero, opAnd, opEq   = 0x00, 0x01, 0x03, 0x15, 0x16, 0x14
	opAddress, opBalance, opOrigin, opCaller      = 0x30, 0x31, 0x32, 0x33
	opValue, opCdload, opCdsize, opCodecopy       = 0x34, 0x35, 0x36, 0x39
	opGasprice, opExtsize, opExthash, opBlockhash = 0x3a, 0x3b, 0x3f, 0x40
	opNumber, opPop, opMload, opMstore            = 0x43, 0x50, 0x51, 0x52
	opSload, opSstore, opJump, opJumpi, opGas     = 0x54, 0x55, 0x56, 0x57, 0x5a
	opGaslimit                                    = 0x45
	opDup1, opLog0, opCreate, opCall, opCallcode  = 0x80, 0xa0, 0xf0, 0xf1, 0xf2
	opReturn, opDelegate, opCreate2, opStatic     = 0xf3, 0xf4, 0xf5, 0xfa
	opRevert, opInvalid, opDestruct, opRetsize    = 0xfd, 0xfe, 0xff, 0x3d
)

// progMix weighs the kinds of statements.
type progMix struct {
	store, count, env, log, call, create, destruct, fail, burn int

	keep bool // no self-destruct in favour of the contract itself
}

var mixAll = progMix{4, 4, 3, 3, 6, 2, 1, 2, 1, false}
var mixValue = progMix{1, 1, 0, 0, 8, 3, 2, 2, 1, true}
var mixLogs = progMix{1, 1, 0, 8, 4, 1, 0, 2, 0, false}

type progGen struct {
	t     *T
	addrs []common.Address // callable and payable
	mix   progMix
	depth int
	wei   []uint64
	slots []common.Hash // storage keys, else 0..3
}

func (g *progGen) key(a *asm, i int) {
	if len(g.slots) == 0 {
		a.pushN(uint64(i))
		return
	}
	a.push(new(big.Int).SetBytes(g.slots[i][:]))
}

// oddKeys draws four storage keys that differ in few bytes.
func oddKeys(t *T) []common.Hash {
	var base common.Hash
	if t.Choose(2) == 1 {
		copy(base[:], t.Bytes(32))
	}
	out := []common.Hash{base}
	for len(out) < 4 {
		k := base
		k[[]int{0, 8, 15, 16, 23, 24, 30, 31}[t.Choose(8)]] ^= byte(len(out) << uint(t.Choose(3)*3))
		out = append(out, k)
	}
	return out
}

func (g *progGen) anyAddr(a *asm) {
	t := g.t
	switch t.Choose(8) {
	case 0:
		a.op(opCaller)
	case 1:
		a.op(opAddress)
	case 2:
		a.op(opOrigin)
	case 3:
		a.pushN(uint64(1 + t.Choose(5)))
	default:
		a.pushA(g.addrs[t.Choose(len(g.addrs))])
	}
}

func (g *progGen) val(a *asm) {
	t := g.t
	switch t.Choose(9) {
	case 0:
		a.pushN(0)
	case 1, 2:
		a.pushN(uint64(1 + t.Choose(5)))
	case 3:
		a.op(opValue)
	case 4:
		a.pushN(4)
		a.op(opCdload)
	case 5:
		g.anyAddr(a)
		a.op(opBalance)
	case 6:
		g.key(a, t.Choose(4))
		a.op(opSload)
	case 7:
		a.push(new(big.Int).SetBytes(t.Bytes(32)))
	case 8:
		switch t.Choose(9) {
		case 7:
			a.op(opGas)
		case 8:
			a.op(opGaslimit)
		case 0:
			a.op(opNumber)
		case 1:
			a.op(opGasprice)
		case 2:
			a.op(opRetsize)
		case 3:
			g.anyAddr(a)
			a.op(opExtsize)
		case 4:
			g.anyAddr(a)
			a.op(opExthash)
		case 5:
			a.op(opCaller)
		case 6:
			a.pushN(uint64(98 + t.Choose(8)))
			a.op(opBlockhash)
		}
	}
}

// wei pushes an amount to transfer.
func (g *progGen) amount(a *asm) {
	t := g.t
	switch t.Choose(6) {
	case 0, 1:
		a.pushN(0)
	case 2:
		a.op(opValue)
	case 3:
		a.op(opAddress, opBalance)
	case 4:
		a.pushN(uint64(1 + t.Choose(1000)))
	case 5:
		a.pushN(1)
		a.op(opAddress, opBalance, opAdd)
	}
}

func (g *progGen) stmt(a *asm) {
	t, m := g.t, g.mix
	switch t.Weighted(m.store, m.count, m.env, m.log, m.call, m.create, m.destruct, m.fail, m.burn) {
	case 0:
		g.val(a)
		g.key(a, t.Choose(4))
		a.op(opSstore)
	case 1: // slot++
		s := t.Choose(4)
		a.pushN(1)
		g.key(a, s)
		a.op(opSload, opAdd)
		g.key(a, s)
		a.op(opSstore)
	case 2: // slot = 0
		a.pushN(0)
		g.key(a, t.Choose(4))
		a.op(opSstore)
	case 3:
		n := t.Choose(5)
		if t.Choose(2) == 1 {
			g.val(a)
			a.pushN(0)
			a.op(opMstore)
		}
		for i := 0; i < n; i++ {
			switch {
			case t.Choose(4) == 3:
				g.val(a)
			case g.slots != nil && t.Choose(2) == 1:
				g.key(a, t.Choose(4))
			default:
				a.pushN(uint64(1 + t.Choose(3)))
			}
		}
		a.pushN(uint64([]int{0, 1, 32, 40}[t.Choose(4)]))
		a.pushN(0)
		a.op(byte(opLog0 + n))
	case 4:
		// memory[4:36] = argument
		a.pushN(uint64(t.Choose(3)))
		a.pushN(4)
		a.op(opMstore)
		a.pushN(32)
		a.pushN(64)
		a.pushN(uint64([]int{36, 0}[t.Weighted(5, 1)]))
		a.pushN(0)
		kind := t.Weighted(6, 1, 1, 1)
		if kind <= 1 {
			g.amount(a)
		}
		g.anyAddr(a)
		if t.Choose(5) == 4 {
			a.op(opGas)
		} else {
			a.pushN([]uint64{0, 700, 6000, 30000, 90000}[t.Choose(5)])
		}
		a.op([]byte{opCall, opCallcode, opDelegate, opStatic}[kind])
		g.outcome(a)
	case 5:
		if g.depth > 1 {
			a.op(opAddress, opPop)
			return
		}
		in := &progGen{t: t, addrs: g.addrs, mix: g.mix, depth: g.depth + 1, wei: g.wei, slots: g.slots}
		var code []byte
		if t.Choose(2) == 1 {
			code = in.body(2)
		} else {
			code = in.initcode(in.body(2))
		}
		if len(code) > 160 {
			code = code[:160]
		}
		for i := 0; i < len(code); i += 32 {
			var w [32]byte
			copy(w[:], code[i:])
			a.push(new(big.Int).SetBytes(w[:]))
			a.pushN(uint64(128 + i))
			a.op(opMstore)
		}
		two := t.Choose(3) == 2
		if two {
			a.pushN(uint64(t.Choose(3)))
		}
		a.pushN(uint64(len(code)))
		a.pushN(128)
		g.amount(a)
		if two {
			a.op(opCreate2)
		} else {
			a.op(opCreate)
		}
		g.outcome(a)
	case 6:
		g.anyAddr(a)
		if !m.keep {
			a.op(opDestruct)
			return
		}
		l := a.label()
		a.op(opDup1, opAddress, opEq)
		a.ref(l)
		a.op(opJumpi, opDestruct)
		a.here(l)
		a.op(opPop)
	case 7:
		switch t.Choose(4) {
		case 0, 1:
			a.pushN(uint64(t.Choose(33)))
			a.pushN(0)
			a.op(opRevert)
		case 2:
			a.op(opInvalid)
		case 3:
			a.op(opPop, opPop, opPop, opPop, opPop, opPop)
		}
	case 8:
		l := a.label()
		a.here(l)
		a.pushN(1)
		a.pushN(2)
		a.op(opSstore)
		a.ref(l)
		a.op(opJump)
	}
}

// outcome uses the success flag on the stack.
func (g *progGen) outcome(a *asm) {
	t := g.t
	switch t.Choose(3) {
	case 0:
		a.op(opPop)
	case 1:
		g.key(a, t.Choose(4))
		a.op(opSstore)
	case 2:
		l := a.label()
		a.ref(l)
		a.op(opJumpi)
		a.pushN(0)
		a.op(opDup1, opRevert)
		a.here(l)
	}
}

func (g *progGen) end(a *asm) {
	t := g.t
	switch t.Choose(4) {
	case 0, 1:
		switch t.Choose(6) {
		case 4:
			g.val(a)
		case 5:
			a.op([]byte{opGas, opGaslimit, opNumber, opValue}[t.Choose(4)])
		default:
			g.key(a, t.Choose(4))
			a.op(opSload)
		}
		a.pushN(0)
		a.op(opMstore)
		a.pushN(32)
		a.pushN(0)
		a.op(opReturn)
	case 2:
		a.op(opStop)
	case 3:
		if t.Choose(3) == 2 {
			a.pushN(4)
			a.pushN(0)
			a.op(opRevert)
		} else {
			a.op(opStop)
		}
	}
}

func (g *progGen) body(max int) []byte {
	var a asm
	for k := g.t.Choose(max + 1); k > 0; k-- {
		g.stmt(&a)
	}
	g.end(&a)
	return a.done()
}

// runtime is a contract with up to three entry points, selected by the first
// argument.
func (g *progGen) runtime() []byte {
	t := g.t
	if !g.mix.keep && t.Choose(12) == 11 { // arbitrary bytes
		b := t.Bytes(t.Choose(40))
		for i := range b {
			if b[i] == 0x42 {
				b[i] = 0x43
			}
		}
		return b
	}
	var a asm
	n := 1 + t.Choose(3)
	var ls []int
	for i := 1; i < n; i++ {
		ls = append(ls, a.label())
		a.pushN(4)
		a.op(opCdload)
		a.pushN(uint64(i))
		a.op(opEq)
		a.ref(ls[i-1])
		a.op(opJumpi)
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			a.here(ls[i-1])
		}
		for k := t.Choose(5); k > 0; k-- {
			g.stmt(&a)
		}
		g.end(&a)
	}
	return a.done()
}

// probe is a contract that only says what it sees.
func (g *progGen) probe() []byte {
	var a asm
	n := 1 + g.t.Choose(3)
	for i := 0; i < n; i++ {
		if g.t.Choose(3) == 2 {
			g.val(&a)
		} else {
			a.op([]byte{opGas, opGaslimit, opNumber, opCaller, opOrigin, opValue, opGasprice, opCdsize}[g.t.Choose(8)])
		}
		a.pushN(uint64(32 * i))
		a.op(opMstore)
	}
	a.pushN(uint64(32 * n))
	a.pushN(0)
	a.op(opReturn)
	return a.done()
}

// initcode deploys the runtime after an optional constructor.
func (g *progGen) initcode(rt []byte) []byte {
	var a asm
	if g.t.Choose(2) == 1 {
		for k := g.t.Choose(3); k > 0; k-- {
			g.stmt(&a)
		}
	}
	l := a.label()
	a.pushN(uint64(len(rt)))
	a.op(opDup1)
	a.ref(l)
	a.pushN(0)
	a.op(opCodecopy)
	a.pushN(0)
	a.op(opReturn)
	a.lab[l] = len(a.b)
	return append(a.done(), rt...)
}

func createAddr(from common.Address, nonce uint64) common.Address {
	return crypto.CreateAddress(from, nonce)
}
