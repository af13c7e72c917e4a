package scen

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"runtime/metrics"
	"strings"
	"time"

	"github.com/philhofer/seth"
	"verif.sim/simrt"
)

// C05: every client call against good, damaged and hostile replies.

func heapAllocs() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// typed is one client call with a well-formed reply and what it must return.
// blockTxs is a block whose parsed transactions are not those expected.
type blockTxs struct {
	*seth.Block
	diff string
}

type typed struct {
	method string
	reply  string
	call   func(c *seth.Client) (interface{}, error)
	want   interface{}
	bad    bool // the reply encodes no value the call can return: an error
}

func numText(t *T, v *big.Int) string {
	switch t.Choose(5) {
	case 3:
		return fmt.Sprintf(`"0x%064x"`, v)
	case 4:
		return fmt.Sprintf(`"0x%X"`, v)
	}
	return fmt.Sprintf(`"0x%x"`, v)
}

func (t *T) junk(n int) []byte {
	b := t.Bytes(n)
	for i := range b {
		b[i] |= 0x11
	}
	return b
}

// wide is a number of more than 64 bits.
func (t *T) wide(v uint64) *big.Int {
	b := new(big.Int).Lsh(big.NewInt(int64(1+t.Choose(3))), uint(64+t.Choose(190)))
	return b.Add(b, new(big.Int).SetUint64(v))
}

func (t *T) genTyped() typed {
	a, as := t.genAddr()
	h, hs := t.genHash()
	blk := []int64{seth.Latest, seth.Pending, 0, 1, 77, 1 << 40}[t.Choose(6)]
	small := func(m string, f func(c *seth.Client) (int64, error)) typed {
		v, _ := t.genU64()
		if t.Choose(6) == 5 {
			v |= 1 << 63
		}
		b := new(big.Int).SetUint64(v)
		if t.Choose(8) == 7 {
			b = t.wide(v)
		}
		return typed{m, numText(t, b), func(c *seth.Client) (interface{}, error) { x, err := f(c); return x, err }, b.Int64(), !b.IsInt64()}
	}
	switch t.Choose(22) {
	case 0:
		return typed{"eth_protocolVersion", `"0x3f"`, func(c *seth.Client) (interface{}, error) { return c.ProtocolVersion() }, "0x3f", false}
	case 1:
		if t.Choose(2) == 1 {
			return typed{"eth_syncing", `false`, func(c *seth.Client) (interface{}, error) { return c.Syncing() }, (*seth.SyncStatus)(nil), false}
		}
		var o obj
		st := &seth.SyncStatus{}
		st.Starting, st.Current, st.Highest = u64(t, &o, "startingBlock"), u64(t, &o, "currentBlock"), u64(t, &o, "highestBlock")
		return typed{"eth_syncing", o.text(t), func(c *seth.Client) (interface{}, error) { return c.Syncing() }, st, false}
	case 2:
		return typed{"eth_coinbase", as, func(c *seth.Client) (interface{}, error) { return c.Coinbase() }, &a, false}
	case 3:
		v := t.Choose(2) == 1
		return typed{"eth_mining", fmt.Sprint(v), func(c *seth.Client) (interface{}, error) { return c.Mining() }, v, false}
	case 4:
		return small("eth_hashrate", (*seth.Client).Hashrate)
	case 5:
		return small("eth_gasPrice", (*seth.Client).GasPrice)
	case 6:
		return small("eth_blockNumber", (*seth.Client).BlockNumber)
	case 7:
		var w []seth.Address
		var p []string
		for i := t.Choose(4); i > 0; i-- {
			x, xs := t.genAddr()
			w, p = append(w, x), append(p, xs)
		}
		return typed{"eth_accounts", "[" + strings.Join(p, ", ") + "]", func(c *seth.Client) (interface{}, error) { return c.Accounts() }, w, false}
	case 8:
		return small("eth_getTransactionCount", func(c *seth.Client) (int64, error) { return c.GetNonceAt(&a, blk) })
	case 9:
		v, _ := t.genInt()
		return typed{"eth_getBalance", numText(t, v), func(c *seth.Client) (interface{}, error) { return c.GetBalanceAt(&a, blk) }, seth.Int(*v), false}
	case 10, 11:
		full := t.Choose(2) == 1
		b, s, txs := t.genBlock(-1, full)
		return typed{"eth_getBlockByNumber", s, func(c *seth.Client) (interface{}, error) {
			x, err := c.GetBlock(blk, full)
			if err == nil && full {
				got, err := x.ParseTransactions()
				if err != nil {
					return nil, err
				}
				if d := diff(got, append([]seth.Transaction{}, txs...)); d != "" {
					return &blockTxs{x, d}, nil
				}
			}
			return x, err
		}, &b, false}
	case 12:
		x, s := t.genTx()
		return typed{"eth_getTransactionByHash", s, func(c *seth.Client) (interface{}, error) { return c.GetTransaction(&h) }, &x, false}
	case 13:
		x, s := t.genReceipt()
		return typed{"eth_getTransactionReceipt", s, func(c *seth.Client) (interface{}, error) {
			r, err := c.GetReceipt(&h)
			if err == nil {
				transfers(t, r)
			}
			return r, err
		}, &x, false}
	case 14:
		d, s := t.genData(120)
		return typed{"eth_getCode", s, func(c *seth.Client) (interface{}, error) { return c.GetCodeAt(&a, blk) }, []byte(d), false}
	case 15:
		return typed{"eth_getStorageAt", hs, func(c *seth.Client) (interface{}, error) { return c.StorageAt(&a, &seth.Hash{1}, blk) }, h, false}
	case 16:
		v, _ := t.genInt()
		return typed{"eth_estimateGas", numText(t, v), func(c *seth.Client) (interface{}, error) { return c.EstimateGas(&seth.CallOpts{To: &a}) }, seth.Int(*v), false}
	case 17:
		return typed{"eth_sendTransaction", hs, func(c *seth.Client) (interface{}, error) { return c.Call(&seth.CallOpts{To: &a}) }, h, false}
	case 18:
		return typed{"eth_sendRawTransaction", hs, func(c *seth.Client) (interface{}, error) { return c.RawCall([]byte{1, 2}) }, h, false}
	case 19:
		v := t.Choose(2) == 1
		return typed{"personal_unlockAccount", fmt.Sprint(v), func(c *seth.Client) (interface{}, error) {
			err := c.UnlockAccount(&a, "pw")
			if err == seth.PasswordDenied {
				return false, nil
			}
			return true, err
		}, v, false}
	}
	// values decoded into destinations that were used before
	m := "eth_getStorageAt"
	do := func(dst interface{}, reply string, want interface{}) typed {
		return typed{m, reply, func(c *seth.Client) (interface{}, error) {
			err := c.Do(m, nil, dst)
			return reflect.ValueOf(dst).Elem().Interface(), err
		}, want, false}
	}
	switch t.Choose(9) {
	case 0:
		d := seth.Hash{}
		copy(d[:], t.junk(32))
		return do(&d, hs, h)
	case 1:
		d := seth.Address{}
		copy(d[:], t.junk(20))
		return do(&d, as, a)
	case 2:
		v, _ := t.genInt()
		d := seth.Int(*new(big.Int).SetBytes(t.junk(40)))
		return do(&d, numText(t, v), seth.Int(*v))
	case 3:
		v, _ := t.genU64()
		d := seth.Uint64(t.Choose(5000))
		if t.Choose(4) == 3 {
			x := do(&d, numText(t, t.wide(v)), seth.Uint64(v))
			x.bad = true
			return x
		}
		return do(&d, numText(t, new(big.Int).SetUint64(v)), seth.Uint64(v))
	case 4:
		v, s := t.genData(60)
		d := seth.Data(t.junk(64))
		return do(&d, s, v)
	case 5:
		v, s := t.genData(60)
		d := seth.Bytes(t.junk(64))
		return do(&d, s, seth.Bytes(v))
	case 6:
		var d, w seth.Signature
		copy(d[:], t.junk(65))
		copy(w[:], t.word(65))
		return do(&d, fmt.Sprintf("%q", hx(w[:])), w)
	case 7:
		var d, w seth.PublicKey
		copy(d[:], t.junk(64))
		copy(w[:], t.word(64))
		return do(&d, fmt.Sprintf("%q", hx(w[:])), w)
	}
	d := make([]seth.Address, 3)
	for i := range d {
		copy(d[i][:], t.junk(20))
	}
	var w []seth.Address
	var p []string
	for i := t.Choose(5); i > 0; i-- {
		x, xs := t.genAddr()
		w, p = append(w, x), append(p, xs)
	}
	if w == nil {
		w = []seth.Address{}
	}
	m = "eth_accounts"
	return do(&d, "["+strings.Join(p, ",")+"]", w)
}

// transfers parses every log of a receipt as a token transfer.
func transfers(t *T, r *seth.Receipt) {
	sig := keccak([]byte("Transfer(address,address,uint256)"))
	for i := range r.Logs {
		cp := r.Logs[i]
		l := &cp
		l.Topics = append([]seth.Data{}, l.Topics...)
		if t.Choose(2) == 1 && len(l.Topics) > 0 {
			l.Topics[0] = append(seth.Data{}, sig[:]...)
		}
		tt, ok := r.ParseTransfer(l)
		should := len(l.Topics) == 3 && len(l.Topics[1]) == 32 && len(l.Topics[2]) == 32 && bytes.Equal(l.Topics[0], sig[:])
		if ok != should {
			t.Failf("wrong-transfer", "a log with %d topics parses as a transfer: %v", len(l.Topics), ok)
		}
		if ok {
			t.Count("reach:transfer")
			if tt.Token != l.Address || !bytes.Equal(tt.From[:], l.Topics[1][12:]) || !bytes.Equal(tt.To[:], l.Topics[2][12:]) || tt.Block != int64(r.BlockNumber) ||
				tt.TxHeight != int(r.Index) || tt.Amount.Big().Cmp(new(big.Int).SetBytes(l.Data)) != 0 {
				t.Failf("wrong-transfer", "log %+v parsed as %+v", l, tt)
			}
		}
	}
}

// ABI ---------------------------------------------------------------------

type abiArg struct {
	dst  interface{} // prefilled
	want interface{}
	head []byte // nil: dynamic
	tail []byte
	name string
}

func pad32(v *big.Int) []byte {
	b := make([]byte, 32)
	if v.Sign() < 0 {
		v = new(big.Int).Add(v, new(big.Int).Lsh(big.NewInt(1), 256))
	}
	v.FillBytes(b)
	return b
}

func padr(b []byte) []byte {
	o := append([]byte{}, b...)
	for len(o)%32 != 0 {
		o = append(o, 0)
	}
	return o
}

func (t *T) genABI() abiArg {
	stat := func(dst, want interface{}, head []byte) abiArg {
		return abiArg{dst: dst, want: want, head: head, name: fmt.Sprintf("%T", dst)}
	}
	dyn := func(dst, want interface{}, n int, body []byte) abiArg {
		return abiArg{dst: dst, want: want, tail: append(pad32(big.NewInt(int64(n))), padr(body)...), name: fmt.Sprintf("%T", dst)}
	}
	u := func(bits uint) uint64 {
		v := new(big.Int).SetBytes(t.word(int(bits / 8)))
		return v.Uint64()
	}
	i := func(bits uint) int64 { return int64(u(bits)<<(64-bits)) >> (64 - bits) }
	b := func(v int64) []byte { return pad32(big.NewInt(v)) }
	ub := func(v uint64) []byte { return pad32(new(big.Int).SetUint64(v)) }
	switch t.Choose(21) {
	case 0:
		v := i(64)
		d := int64(t.Choose(99))
		return stat(&d, v, b(v))
	case 1:
		v := i(32)
		d := int32(t.Choose(99))
		return stat(&d, int32(v), b(v))
	case 2:
		v := i(16)
		d := int16(t.Choose(99))
		return stat(&d, int16(v), b(v))
	case 3:
		v := i(8)
		d := int8(t.Choose(99))
		return stat(&d, int8(v), b(v))
	case 4:
		v := i(64)
		d := t.Choose(99)
		return stat(&d, int(v), b(v))
	case 5:
		v := u(64)
		d := uint64(t.Choose(99))
		return stat(&d, v, ub(v))
	case 6:
		v := u(32)
		d := uint32(t.Choose(99))
		return stat(&d, uint32(v), ub(v))
	case 7:
		v := u(16)
		d := uint16(t.Choose(99))
		return stat(&d, uint16(v), ub(v))
	case 8:
		v := u(8)
		d := uint8(t.Choose(99))
		return stat(&d, uint8(v), ub(v))
	case 9:
		v := u(64)
		d := uint(t.Choose(99))
		return stat(&d, uint(v), ub(v))
	case 10:
		v := t.Choose(2) == 1
		d := t.Choose(2) == 1
		h := make([]byte, 32)
		if v {
			h[31] = 1
		}
		return stat(&d, v, h)
	case 11:
		v, _ := t.genInt()
		d := seth.Int(*new(big.Int).SetBytes(t.junk(40)))
		return stat(&d, seth.Int(*v), pad32(v))
	case 12:
		v, _ := t.genInt()
		d := new(big.Int).SetBytes(t.junk(40))
		return stat(d, *v, pad32(v))
	case 13:
		v, _ := t.genAddr()
		var d seth.Address
		copy(d[:], t.junk(20))
		return stat(&d, v, append(make([]byte, 12), v[:]...))
	case 14:
		v := t.word(32)
		d := seth.Data(t.junk([]int{0, 10, 32, 50}[t.Choose(4)]))
		return stat(&d, seth.Data(v), v)
	case 15:
		v := string(t.Bytes([]int{0, 1, 31, 32, 33, 64, 70}[t.Choose(7)]))
		d := "previous"
		return dyn(&d, v, len(v), []byte(v))
	case 16:
		v := t.Bytes([]int{0, 1, 31, 32, 33, 64, 70}[t.Choose(7)])
		d := t.junk(90)
		return dyn(&d, v, len(v), v)
	case 17:
		v := t.Bytes([]int{0, 1, 31, 32, 33, 64, 70}[t.Choose(7)])
		d := seth.Bytes(t.junk(90))
		return dyn(&d, seth.Bytes(v), len(v), v)
	case 18:
		n := t.Choose(4)
		w := seth.IntSlice{}
		var body []byte
		for ; n > 0; n-- {
			v, _ := t.genInt()
			w = append(w, seth.Int(*v))
			body = append(body, pad32(v)...)
		}
		d := seth.IntSlice{*seth.NewInt(4)}
		return dyn(&d, w, len(w), body)
	case 19:
		n := t.Choose(4)
		w := seth.AddrSlice{}
		var body []byte
		for ; n > 0; n-- {
			v, _ := t.genAddr()
			w = append(w, v)
			body = append(body, append(make([]byte, 12), v[:]...)...)
		}
		d := seth.AddrSlice{{9}}
		return dyn(&d, w, len(w), body)
	}
	n := t.Choose(4)
	w := seth.DataSlice{}
	var body []byte
	for ; n > 0; n-- {
		v := t.word(32)
		w = append(w, seth.Data(v))
		body = append(body, v...)
	}
	d := seth.DataSlice{{9}}
	return dyn(&d, w, len(w), body)
}

func encABI(args []abiArg) []byte {
	var head, tail []byte
	off := 32 * len(args)
	for _, a := range args {
		if a.head != nil {
			head = append(head, a.head...)
			continue
		}
		head = append(head, pad32(big.NewInt(int64(off+len(tail))))...)
		tail = append(tail, a.tail...)
	}
	return append(head, tail...)
}

// hostile rewrites words of encoded data.
func (t *T) hostile(b []byte) []byte {
	b = append([]byte{}, b...)
	for k := 1 + t.Choose(3); k > 0 && len(b) >= 32; k-- {
		w := t.Choose(len(b) / 32)
		n := int64(len(b))
		one := big.NewInt(1)
		sh := func(k uint) *big.Int { return new(big.Int).Lsh(one, k) }
		vals := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(31), big.NewInt(32), big.NewInt(33), big.NewInt(n), big.NewInt(n - 1), big.NewInt(n - 31),
			big.NewInt(n - 32), big.NewInt(n - 33), big.NewInt(n / 32), big.NewInt(n/32 + 1), big.NewInt(n + 1), sh(20), sh(31), sh(32), sh(40), sh(58), sh(59), sh(62), sh(63),
			new(big.Int).Sub(sh(63), big.NewInt(1)), new(big.Int).Sub(sh(63), big.NewInt(32)), new(big.Int).Sub(sh(63), big.NewInt(n)),
			new(big.Int).Sub(sh(64), big.NewInt(1)), new(big.Int).Sub(sh(64), big.NewInt(32)), sh(64), new(big.Int).Add(sh(64), big.NewInt(32)),
			new(big.Int).Add(sh(128), big.NewInt(32)), new(big.Int).Sub(sh(256), big.NewInt(1)), new(big.Int).Sub(sh(256), big.NewInt(32)),
			new(big.Int).Add(sh(59), big.NewInt(1)), new(big.Int).Add(sh(58), big.NewInt(2))}
		copy(b[w*32:], pad32(vals[t.Choose(len(vals))]))
	}
	if t.Choose(3) == 2 {
		b = b[:t.Choose(len(b)+1)]
	}
	return b
}

// damage -------------------------------------------------------------------

var deep = strings.Repeat("[", 12000)

func (t *T) hostileToken() string {
	switch t.Choose(24) {
	case 0:
		return `""`
	case 1:
		return `"0x"`
	case 2:
		return `"0"`
	case 3:
		return `"0xg1"`
	case 4:
		return `5`
	case 5:
		return `-1`
	case 6:
		return `1e400`
	case 7:
		return `null`
	case 8:
		return `true`
	case 9:
		return `{}`
	case 10:
		return `[]`
	case 11:
		return `[[null]]`
	case 12:
		return `"0x` + strings.Repeat("f", 1+t.Choose(300)) + `"`
	case 13:
		return `"x0"`
	case 14:
		return `"\ud800"`
	case 15:
		return deep
	case 16:
		return `"0X12"`
	case 17:
		return `"-0x12"`
	case 18:
		return strings.Repeat("9", 1+t.Choose(400))
	case 19:
		return `"0b1"`
	case 20:
		return `"_1_"`
	case 21:
		return `{"hash":null,"number":null,"transactions":[null,{},[],"x",3]}`
	case 22:
		return `[null,{},{"topics":[null,"0x",3],"data":null},"0x12"]`
	}
	return `" "`
}

// damage changes bytes of a reply.
func (t *T) damage(b []byte) []byte {
	b = append([]byte{}, b...)
	for k := 1 + t.Choose(3); k > 0; k-- {
		if len(b) == 0 {
			break
		}
		i := t.Choose(len(b))
		j := i + t.Choose(len(b)-i)
		switch t.Choose(8) {
		case 0:
			b = b[:i]
		case 1:
			b[i] ^= byte(1 << t.Choose(8))
		case 2:
			b = append(b[:i:i], append(t.Bytes(1+t.Choose(8)), b[i:]...)...)
		case 3:
			b = append(b[:i:i], b[j:]...)
		case 4:
			b = append(b[:j:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
		default:
			// replace a token
			idx := bytes.Index(b[i:], []byte{':'})
			if idx < 0 {
				continue
			}
			p := i + idx + 1
			q := p
			if q < len(b) && b[q] == '"' {
				q++
				for q < len(b) && b[q] != '"' {
					q++
				}
				q++
			} else {
				for q < len(b) && b[q] != ',' && b[q] != '}' && b[q] != ']' {
					q++
				}
			}
			if q > len(b) {
				q = len(b)
			}
			b = append(b[:p:p], append([]byte(t.hostileToken()), b[q:]...)...)
		}
	}
	return b
}

func valuesBody(t *T) {
	var cur typed
	n := NewNode(t, func(r *Req) Ans { return okAns("%s", cur.reply) })
	if t.Choose(3) > 0 {
		n.Kind = kDirect
	} else if t.Choose(3) == 2 {
		n.Kind = kInfura
	}
	mangleP := []int{0, 40, 90}[t.Choose(3)]
	mangled := false
	n.Mangle = func(r *Req, b []byte) []byte {
		if !t.Chance(mangleP, 100) {
			return b
		}
		mangled = true
		t.Count("fault:damaged-reply")
		d := t.damage(b)
		if n.Kind == kStream {
			n.CFail++
			t.Go("hangup", func() { simrt.Sleep(3 * time.Second); n.hangup() })
		}
		return d
	}
	cl := n.Client()
	g := t.Go("user", func() {
		for k := 1 + t.Choose(6); k > 0; k-- {
			cur = t.genTyped()
			mangled = false
			before := heapAllocs()
			v, err := cur.call(cl)
			if d := heapAllocs() - before; d > 64<<20 {
				t.Failf("allocation", "%s allocated %d MB for a reply of %d bytes", cur.method, d>>20, len(cur.reply))
			}
			t.Logf("%s(%.60s) mangled=%v: %v", cur.method, cur.reply, mangled, err != nil)
			if mangled {
				if err != nil {
					t.Count("reach:damage-detected")
				}
				continue
			}
			if n.CFail > 0 {
				continue // an earlier damage may have broken the stream
			}
			if cur.bad {
				t.Count("reach:unrepresentable")
				if err == nil {
					t.Failf("wrong-value", "%s: the reply %s does not fit, yet the call returned %v", cur.method, cur.reply, v)
				}
				continue
			}
			if err != nil {
				t.Failf("error-for-good-reply", "%s: reply %.300s: %v", cur.method, cur.reply, err)
			}
			if d := diff(cur.want, v); d != "" {
				t.Failf("wrong-value", "%s: reply %.300s: wanted and got differ%s", cur.method, cur.reply, d)
			}
			t.Count("reach:value")
		}
	})
	if !t.JoinWithin(10*time.Minute, g) {
		t.Failf("hang", "%s never returns", cur.method)
	}
}

func abiBody(t *T) {
	var reply []byte
	n := NewNode(t, func(r *Req) Ans { return okAns("%q", hx(reply)) })
	n.Kind = kDirect
	cl := n.Client()
	g := t.Go("user", func() {
		for k := 1 + t.Choose(5); k > 0; k-- {
			var args []abiArg
			for i := 1 + t.Choose(4); i > 0; i-- {
				args = append(args, t.genABI())
			}
			reply = encABI(args)
			bad := t.Choose(2) == 1
			if bad {
				reply = t.hostile(reply)
				t.Count("fault:hostile-abi")
			}
			var dst []interface{}
			var names []string
			for _, a := range args {
				dst = append(dst, a.dst)
				names = append(names, a.name)
			}
			before := heapAllocs()
			var err error
			to := seth.Address{1}
			if t.Choose(2) == 1 {
				err = cl.ConstCall(&seth.CallOpts{To: &to}, seth.NewABIDecoder(dst...), t.Choose(2) == 1)
			} else {
				err = seth.DecodeABI(reply, dst...)
			}
			if d := heapAllocs() - before; d > 32<<20 {
				t.Failf("allocation", "decoding %v from %d bytes allocated %d MB", names, len(reply), d>>20)
			}
			t.Logf("%v <- %d bytes hostile=%v: %v", names, len(reply), bad, err != nil)
			if bad {
				if err != nil {
					t.Count("reach:hostile-detected")
				}
				continue
			}
			if err != nil {
				t.Failf("error-for-good-reply", "decoding %v from %s: %v", names, hex.EncodeToString(reply), err)
			}
			for i, a := range args {
				if d := diff(a.want, reflect.ValueOf(a.dst).Elem().Interface()); d != "" {
					t.Failf("wrong-value", "argument %d of %v from %s: wanted and got differ%s", i, names, hex.EncodeToString(reply), d)
				}
			}
			t.Count("reach:decoded")
		}
	})
	if !t.JoinWithin(time.Minute, g) {
		t.Failf("hang", "decoding never returns")
	}
}

// hostileFlows runs the longer operations against a node that may answer
// anything to anything.
func hostileFlows(t *T) {
	keys()
	var quiet bool
	n := NewNode(t, func(r *Req) Ans {
		if quiet {
			return errAns(-1, "enough")
		}
		if t.Choose(3) == 2 {
			return okAns("%s", t.genTyped().reply)
		}
		switch r.Method {
		case "eth_estimateGas", "eth_getTransactionCount", "eth_newFilter":
			_, s := t.genInt()
			return okAns("%s", s)
		case "eth_sendTransaction", "eth_sendRawTransaction":
			_, s := t.genHash()
			return okAns("%s", s)
		case "eth_getTransactionByHash":
			_, s := t.genTx()
			return okAns("%s", s)
		case "eth_getTransactionReceipt":
			_, s := t.genReceipt()
			return okAns("%s", s)
		case "eth_getBlockByNumber":
			_, s, _ := t.genBlock(-1, string(r.P(1)) == "true")
			return okAns("%s", s)
		case "eth_getFilterLogs", "eth_getFilterChanges":
			var p []string
			for i := t.Choose(5); i > 0; i-- {
				_, s := t.genLog()
				p = append(p, s)
			}
			return okAns("[%s]", strings.Join(p, ","))
		}
		return okAns("true")
	})
	if t.Choose(2) == 1 {
		n.Kind = kDirect
	}
	n.Mangle = func(r *Req, b []byte) []byte {
		if quiet || t.Choose(4) != 3 {
			return b
		}
		t.Count("fault:damaged-reply")
		if n.Kind == kStream {
			n.CFail++
			t.Go("hangup", func() { simrt.Sleep(3 * time.Second); n.hangup() })
		}
		return t.damage(b)
	}
	cl := n.Client()
	a := simAddrs[0]
	s := seth.NewSender(cl, &a)
	if t.Choose(2) == 1 {
		s.Signer = simKeys[0].Signer()
	}
	before := heapAllocs()
	what := ""
	g := t.Go("user", func() {
		for k := 1 + t.Choose(3); k > 0; k-- {
			h := seth.Hash{byte(k)}
			switch t.Choose(9) {
			case 0:
				what = "Create"
				s.Create([]byte{1, 2, 3}, nil)
			case 1:
				what = "Call"
				s.Call(&seth.CallOpts{To: &a})
			case 2:
				what = "Send"
				s.Send(&a, "f(address)", &a)
			case 3:
				what = "Cancel"
				s.Cancel(&h)
			case 4:
				what = "Wait"
				s.Wait(&h)
			case 5:
				what = "Drain"
				s.Drain(func(x *seth.Transaction) {})
			case 6:
				what = "Pending"
				if x, err := cl.Pending(); err == nil {
					for i := range x {
						json.Marshal(&x[i])
						x[i].Encode(nil)
					}
				}
			case 7:
				what = "filter"
				f, err := cl.TokenTransfers(&a, nil, nil, int64(t.Choose(3)-1), -1)
				if err == nil {
					simrt.Sleep(time.Duration(t.Choose(5000)) * time.Millisecond)
					f.Close()
					for {
						if _, ok := simrt.Recv2(f.Out()); !ok {
							break
						}
					}
					f.Err()
				}
			case 8:
				what = "iterator"
				it := cl.IterateBlocks([]int64{seth.Latest, seth.Pending, 0, 5}[t.Choose(4)], t.Choose(2) == 1)
				simrt.Sleep(time.Duration(t.Choose(5000)) * time.Millisecond)
				it.Stop()
				for {
					if _, ok := simrt.Recv2(it.Next()); !ok {
						break
					}
				}
			}
			t.Count("reach:flow-" + what)
		}
	})
	if !t.JoinWithin(2*time.Minute, g) {
		quiet = true
		n.Healed = true
		n.hangup()
		if !t.JoinWithin(5*time.Minute, g) {
			t.Failf("hang", "%s never returns", what)
		}
	}
	if d := heapAllocs() - before; d > 256<<20 {
		t.Failf("allocation", "%d MB allocated", d>>20)
	}
}

func init() {
	Register(&Scenario{Prop: "C05", Name: "values", Weight: 3, Body: valuesBody})
	Register(&Scenario{Prop: "C05", Name: "abi", Weight: 3, Body: abiBody})
	Register(&Scenario{Prop: "C05", Name: "hostile-flows", Weight: 2, Body: hostileFlows})
}
