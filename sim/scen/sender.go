package scen

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/philhofer/seth"
	"golang.org/x/crypto/sha3"
	"verif.sim/simrt"
)

// S01-S05: senders against a simulated node with a transaction pool.

func keccak(b ...[]byte) (h seth.Hash) {
	k := sha3.NewLegacyKeccak256()
	for _, x := range b {
		k.Write(x)
	}
	k.Sum(h[:0])
	return
}

// rlpList decodes one RLP list of strings.
func rlpList(b []byte) ([][]byte, error) {
	bad := errors.New("bad RLP")
	head := func(b []byte) (list bool, off, n int, err error) {
		if len(b) == 0 {
			return false, 0, 0, bad
		}
		c := int(b[0])
		long := func(base int) (int, int, error) {
			k := c - base
			if len(b) < 1+k || k > 4 || b[1] == 0 {
				return 0, 0, bad
			}
			v := 0
			for _, x := range b[1 : 1+k] {
				v = v<<8 | int(x)
			}
			if v < 56 {
				return 0, 0, bad
			}
			return 1 + k, v, nil
		}
		switch {
		case c < 0x80:
			return false, 0, 1, nil
		case c < 0xb8:
			if c == 0x81 && len(b) > 1 && b[1] < 0x80 {
				return false, 0, 0, bad
			}
			return false, 1, c - 0x80, nil
		case c < 0xc0:
			off, n, err = long(0xb7)
			return false, off, n, err
		case c < 0xf8:
			return true, 1, c - 0xc0, nil
		}
		off, n, err = long(0xf7)
		return true, off, n, err
	}
	l, off, n, err := head(b)
	if err != nil || !l || off+n != len(b) {
		return nil, bad
	}
	b = b[off:]
	var out [][]byte
	for len(b) > 0 {
		l, off, n, err := head(b)
		if err != nil || l || off+n > len(b) {
			return nil, bad
		}
		out = append(out, b[off:off+n])
		b = b[off+n:]
	}
	return out, nil
}

func rlpStr(b []byte) []byte {
	if len(b) == 1 && b[0] < 0x80 {
		return b
	}
	return append(rlpHead(0x80, len(b)), b...)
}

func rlpHead(base, n int) []byte {
	if n < 56 {
		return []byte{byte(base + n)}
	}
	lb := big.NewInt(int64(n)).Bytes()
	return append([]byte{byte(base + 55 + len(lb))}, lb...)
}

func rlpEnc(items ...[]byte) []byte {
	var p []byte
	for _, i := range items {
		p = append(p, rlpStr(i)...)
	}
	return append(rlpHead(0xc0, len(p)), p...)
}

// sop is one operation of a sender.
type sop struct {
	id       int
	kind     string
	s        *seth.Sender
	sg       *simSigner
	g        *simrt.G
	reqs     []*Req
	signed   []*signing
	opts     seth.CallOpts // as requested, copied
	nonce    *uint64
	gasGiven bool
	prompts  []seth.Hash
	target   *ptx
	start    time.Duration
	want     seth.Hash
	done     bool
}

type signing struct {
	hash seth.Hash
	sig  seth.Signature
	err  error
	good bool
}

type simSigner struct {
	key   *seth.PrivateKey
	addr  seth.Address
	fault int
}

type ptx struct {
	hash    seth.Hash
	from    seth.Address
	to      *seth.Address
	nonce   uint64
	price   *big.Int
	gas     *big.Int
	value   *big.Int
	data    []byte
	mined   bool
	minedAt time.Duration
	index   int
	gone    bool
	status  int
	created *seth.Address
	noAddr  bool
}

type answered struct {
	good bool
	v    *big.Int
}

type snd struct {
	t       *T
	n       *Node
	prop    string
	ops     []*sop
	solo    *sop
	pool    []*ptx
	badP    int
	quiet   bool
	meta    map[*Req]*rmeta
	serial  int
	mineMax time.Duration
}

type rmeta struct {
	op   *sop
	good bool // a proper answer of the expected kind
	null bool
	v    *big.Int
	tx   *ptx
	own  []seth.Hash // transactions of the address in the block answered
	min  bool        // the answer said mined
	hash seth.Hash
	addr *seth.Address
	ok   bool // receipt status
}

func (x *snd) fail(prop, class, f string, a ...interface{}) {
	if prop == x.prop {
		x.t.Failf(class, f, a...)
	}
	x.t.Count("other:" + prop + ":" + class)
}

func (x *snd) op() *sop {
	if x.solo != nil {
		return x.solo
	}
	g := x.t.Cur()
	for _, o := range x.ops {
		if o.g == g && !o.done {
			return o
		}
	}
	return nil
}

func (x *snd) newHash() (h seth.Hash) {
	x.serial++
	copy(h[:], x.t.word(32))
	h[0], h[1] = byte(x.serial>>8), byte(x.serial)
	return
}

func (p *ptx) json(hideIdx bool) string {
	to := "null"
	if p.to != nil {
		to = fmt.Sprintf("%q", p.to.String())
	}
	pos := `"blockHash":"0x0000000000000000000000000000000000000000000000000000000000000000","blockNumber":null,"transactionIndex":null`
	if p.mined && !hideIdx {
		pos = fmt.Sprintf(`"blockHash":"0x%064x","blockNumber":"0x77","transactionIndex":"0x%x"`, 0xb10c, p.index)
	}
	return fmt.Sprintf(`{"hash":%q,"nonce":"0x%x",%s,"from":%q,"to":%s,"value":"0x%x","gasPrice":"0x%x","gas":"0x%x","input":%q}`,
		p.hash.String(), p.nonce, pos, p.from.String(), to, p.value, p.price, p.gas, hx(p.data))
}

// bad makes an improper answer of the given kind.
func (x *snd) bad(r *Req, m *rmeta) Ans {
	t := x.t
	t.Count("fault:bad-answer")
	m.good = false
	switch t.Choose(6) {
	case 0:
		m.null = true
		return nullAns()
	case 1:
		return okAns(`"0xzz"`)
	case 2:
		return okAns(`[1,2]`)
	case 3:
		return okAns(`true`)
	case 4:
		if x.n.Kind == kStream {
			return errAns(3, "execution reverted")
		}
		return Ans{Raw: []byte(`{"jsonrpc":"2.0","id":` + r.ID + `,"result":"0x12`)}
	}
	return errAns(-32000, "node trouble")
}

func (x *snd) handle(r *Req) Ans {
	t := x.t
	op := x.op()
	m := &rmeta{op: op, good: true}
	x.meta[r] = m
	if op == nil {
		t.Failf("harness", "request %s belongs to no operation", r.Method)
	}
	op.reqs = append(op.reqs, r)
	if r.Method == "eth_getTransactionByHash" {
		if b, err := hex.DecodeString(strings.TrimPrefix(jstr(r.Params[0]), "0x")); err == nil && len(b) == 32 {
			copy(m.hash[:], b)
		}
	}
	if !x.quiet && t.Chance(x.badP, 100) && !strings.HasPrefix(r.Method, "eth_send") {
		return x.bad(r, m)
	}
	switch r.Method {
	case "eth_estimateGas":
		g := big.NewInt(int64(21000 + t.Choose(100000)))
		if !x.quiet && t.Choose(12) == 11 {
			g = new(big.Int).Lsh(big.NewInt(int64(1+t.Choose(5))), []uint{40, 62, 63, 64, 70}[t.Choose(5)])
			t.Count("reach:huge-estimate")
		}
		m.v = g
		return okAns(`"0x%x"`, g)
	case "eth_getTransactionCount":
		v := big.NewInt(int64(t.Choose(100000)))
		if !x.quiet && t.Choose(12) == 11 {
			v = new(big.Int).Lsh(big.NewInt(1), []uint{40, 62, 63, 64, 70}[t.Choose(5)])
			v.Add(v, big.NewInt(int64(t.Choose(3))))
			t.Count("reach:huge-nonce")
		}
		m.v = v
		if len(r.Params) != 2 || string(r.Params[1]) != `"pending"` {
			x.fail("S01", "nonce-not-pending", "the nonce was asked for with %s", r.Params)
		}
		return okAns(`"0x%x"`, v)
	case "eth_sendTransaction", "eth_sendRawTransaction":
		return x.submit(op, r, m)
	case "eth_getTransactionByHash":
		h := m.hash
		for _, p := range x.pool {
			if p.hash == h && !p.gone {
				m.tx = p
				m.min = p.mined
				return Ans{Result: p.json(false)}
			}
		}
		m.good, m.null = false, true
		return nullAns()
	case "eth_getTransactionReceipt":
		h := jstr(r.Params[0])
		for _, p := range x.pool {
			if p.hash.String() == h && p.mined {
				m.tx = p
				m.ok = p.status == 1
				a := "null"
				if p.created != nil && !p.noAddr {
					m.addr = p.created
					a = fmt.Sprintf("%q", p.created.String())
				}
				return okAns(`{"transactionHash":%q,"transactionIndex":"0x%x","blockHash":"0x%064x","blockNumber":"0x77","gasUsed":"0x5208","cumulativeGasUsed":"0x5208","contractAddress":%s,"status":"0x%x","logs":[]}`,
					h, p.index, 0xb10c, a, p.status)
			}
		}
		m.good, m.null = false, true
		return nullAns()
	case "eth_getBlockByNumber":
		var parts []string
		pend := string(r.Params[0]) == `"pending"`
		for _, p := range x.pool {
			if p.gone || p.mined == pend {
				continue
			}
			if p.from == *op.s.Addr {
				m.own = append(m.own, p.hash)
			}
			parts = append(parts, p.json(false))
		}
		if t.Choose(4) == 3 {
			f, _ := t.genAddr()
			parts = append(parts, (&ptx{from: f, value: new(big.Int), price: new(big.Int), gas: new(big.Int), nonce: 1}).json(false))
		}
		return okAns(`{"number":"0x78","transactions":[%s]}`, strings.Join(parts, ","))
	}
	return errAns(-32601, "no such method "+r.Method)
}

func opt(p json.RawMessage) *big.Int {
	if p == nil {
		return nil
	}
	return num(p)
}

// submit checks a submission against the operation it belongs to.
func (x *snd) submit(op *sop, r *Req, m *rmeta) Ans {
	t := x.t
	for _, o := range op.reqs[:len(op.reqs)-1] {
		if strings.HasPrefix(o.Method, "eth_send") {
			for _, p := range []string{"S01", "S03", "S05"} {
				x.fail(p, "submitted-twice", "%s submits twice", op.kind)
			}
		}
		if q := x.meta[o]; !q.good && !(o.Method == "eth_getTransactionByHash") || o.Outcome == "lost" {
			for _, p := range []string{"S01", "S03", "S05"} {
				x.fail(p, "submitted-after-error", "%s submits although %s failed (%s)", op.kind, o.Method, o.Ans.Result)
			}
		}
	}
	p := &ptx{from: *op.s.Addr, value: new(big.Int), status: 1}
	var nonceSet bool
	opt := func(v json.RawMessage) *big.Int {
		if v != nil && string(v) != "null" && !quantity(v) {
			x.fail("S01", "malformed-quantity", "%s submits a quantity no node accepts: %s", op.kind, v)
		}
		return opt(v)
	}
	if r.Method == "eth_sendTransaction" {
		if op.sg != nil {
			x.fail("S01", "unsigned", "%s submits unsigned although a signer is configured", op.kind)
		}
		var q struct {
			From, To, Gas, GasPrice, Value, Data, Nonce, Input json.RawMessage
		}
		if len(r.Params) != 1 || json.Unmarshal(r.Params[0], &q) != nil {
			x.fail("S01", "bad-submission", "submission %s", r.Params)
			return errAns(-32602, "bad")
		}
		if jstr(q.From) != op.s.Addr.String() {
			x.fail("S01", "wrong-from", "submission from %s, the sender is %s", q.From, op.s.Addr)
		}
		if q.To != nil && string(q.To) != "null" {
			a, err := seth.ParseAddress(jstr(q.To))
			if err == nil {
				p.to = a
			}
		}
		p.gas, p.price = opt(q.Gas), opt(q.GasPrice)
		if v := opt(q.Value); v != nil {
			p.value = v
		}
		p.data, _ = hex.DecodeString(strings.TrimPrefix(jstr(q.Data), "0x"))
		if v := opt(q.Nonce); v != nil {
			nonceSet = true
			if !v.IsUint64() {
				x.fail("S01", "wrong-nonce", "submission with nonce %v", v)
			}
			p.nonce = v.Uint64()
		}
	} else {
		raw, err := hex.DecodeString(strings.TrimPrefix(jstr(r.Params[0]), "0x"))
		f, err2 := rlpList(raw)
		if err != nil || err2 != nil || len(f) != 9 || len(f[3]) != 0 && len(f[3]) != 20 {
			x.fail("S01", "bad-raw-transaction", "raw transaction %s: %v %v", r.Params[0], err, err2)
			return errAns(-32602, "bad")
		}
		if op.sg == nil {
			x.fail("S01", "raw-without-signer", "a raw transaction without a signer")
			return errAns(-32602, "bad")
		}
		i := func(k int) *big.Int { return new(big.Int).SetBytes(f[k]) }
		for k, b := range f {
			if k != 3 && k != 5 && len(b) > 0 && b[0] == 0 {
				x.fail("S01", "bad-raw-transaction", "raw transaction %s: field %d is a number with leading zeros, which no node accepts", r.Params[0], k)
			}
		}
		if len(f[3]) == 20 {
			p.to = new(seth.Address)
			copy(p.to[:], f[3])
		}
		nonceSet = true
		if !i(0).IsUint64() {
			x.fail("S01", "wrong-nonce", "submission with nonce %v", i(0))
		}
		p.nonce, p.price, p.gas, p.value, p.data = i(0).Uint64(), i(1), i(2), i(4), f[5]
		h := keccak(rlpEnc(f[0], f[1], f[2], f[3], f[4], f[5], []byte{1}, nil, nil))
		ok := false
		for _, sg := range op.signed {
			if sg.err == nil && sg.good && sg.hash == h && i(6).IsInt64() && int64(sg.sig[64])+37 == i(6).Int64() &&
				bytes.Equal(i(7).Bytes(), new(big.Int).SetBytes(sg.sig[:32]).Bytes()) && bytes.Equal(i(8).Bytes(), new(big.Int).SetBytes(sg.sig[32:64]).Bytes()) {
				ok = true
			}
		}
		if !ok {
			x.fail("S01", "wrong-signature", "the raw transaction's signature (v=%v) is not the sender's signature of it", i(6))
		}
		t.Count("reach:raw-submission")
	}
	// the fields asked for
	w := op.opts
	same20 := func(a, b *seth.Address) bool { return (a == nil) == (b == nil) && (a == nil || *a == *b) }
	badf := func(f string, a ...interface{}) {
		msg := fmt.Sprintf(f, a...)
		x.fail("S01", "wrong-field", "%s: %s", op.kind, msg)
		if op.kind == "create" {
			x.fail("S03", "wrong-field", "%s: %s", op.kind, msg)
		}
		if op.kind == "cancel" {
			x.fail("S05", "wrong-field", "%s: %s", op.kind, msg)
		}
	}
	if op.kind == "cancel" {
		w.To = op.s.Addr
		w.Value, w.Data = nil, nil
		if op.target == nil {
			badf("submitted for a transaction the node did not report")
		} else {
			w.Nonce = (*seth.Uint64)(&op.target.nonce)
			if p.price == nil || p.price.Cmp(op.target.price) <= 0 {
				badf("replacement price %v, original %v", p.price, op.target.price)
			}
		}
		w.GasPrice = nil
	}
	if !same20(p.to, w.To) {
		badf("recipient %v, expected %v", p.to, w.To)
	}
	if !bytes.Equal(p.data, w.Data) {
		badf("data %x, expected %x", p.data, w.Data)
	}
	wv := new(big.Int)
	if w.Value != nil {
		wv.Set(w.Value.Big())
	}
	if p.value.Cmp(wv) != 0 {
		badf("value %v, expected %v", p.value, wv)
	}
	if op.kind != "cancel" {
		wp := op.s.GasPrice.Big()
		if w.GasPrice != nil {
			wp = w.GasPrice.Big()
		}
		if p.price == nil || p.price.Cmp(wp) != 0 {
			badf("gas price %v, expected %v", p.price, wp)
		}
	}
	var est *big.Int
	var nn *big.Int
	for _, o := range op.reqs {
		if o.Method == "eth_estimateGas" {
			est = x.meta[o].v
		}
		if o.Method == "eth_getTransactionCount" {
			nn = x.meta[o].v
		}
	}
	wg := est
	if wg != nil {
		wg = new(big.Int).Mul(est, big.NewInt(int64(op.s.GasRatio.Num)))
		wg.Div(wg, big.NewInt(int64(op.s.GasRatio.Denom)))
	}
	if w.Gas != nil {
		wg = w.Gas.Big()
	}
	if wg == nil || p.gas == nil || p.gas.Cmp(wg) != 0 {
		badf("gas %v, expected %v", p.gas, wg)
	}
	switch {
	case w.Nonce != nil:
		if !nonceSet || p.nonce != uint64(*w.Nonce) {
			badf("nonce %v, expected %v", p.nonce, uint64(*w.Nonce))
		}
	case r.Method == "eth_sendTransaction":
		if nonceSet && (nn == nil || !nn.IsUint64() || nn.Uint64() != p.nonce) {
			badf("nonce %v out of nowhere", p.nonce)
		}
	default:
		if nn == nil || !nn.IsUint64() || nn.Uint64() != p.nonce {
			badf("nonce %v, the node's pending nonce is %v", p.nonce, nn)
		}
	}
	if t.Failed() {
		return errAns(-32602, "bad")
	}
	if p.price == nil {
		p.price = new(big.Int)
	}
	if p.gas == nil {
		p.gas = new(big.Int)
	}
	if !x.quiet && t.Chance(x.badP, 100) {
		return x.bad(r, m)
	}
	if !p.gas.IsUint64() {
		m.good = false
		return errAns(-32000, "exceeds block gas limit")
	}
	p.hash = x.newHash()
	m.hash = p.hash
	if p.to == nil {
		a, _ := t.genAddr()
		p.created = &a
		if t.Choose(4) == 3 {
			p.status = 0
			p.noAddr = t.Choose(2) == 1
			t.Count("reach:creation-failed")
		}
	} else if t.Choose(6) == 5 {
		p.status = 0
	}
	if t.Choose(10) == 9 && !x.quiet {
		p.gone = true // dropped from the pool
		t.Count("fault:transaction-dropped")
	}
	x.pool = append(x.pool, p)
	x.mineLater(p)
	return okAns("%q", p.hash.String())
}

func (x *snd) mineLater(p *ptx) {
	t := x.t
	if t.Choose(8) == 0 {
		p.mined, p.index, p.minedAt = true, t.Choose(5), t.Calm()
		return
	}
	t.Go("miner", func() {
		simrt.Sleep(t.Dur(x.mineMax))
		p.mined, p.index, p.minedAt = true, t.Choose(5), t.Calm()
		t.Logf("mined %x", p.hash[:2])
	})
}

func (x *snd) last(op *sop, method string) (*Req, *rmeta) {
	for i := len(op.reqs) - 1; i >= 0; i-- {
		if op.reqs[i].Method == method {
			return op.reqs[i], x.meta[op.reqs[i]]
		}
	}
	return nil, nil
}

func (x *snd) submissions(op *sop) (n int, r *Req) {
	for _, o := range op.reqs {
		if strings.HasPrefix(o.Method, "eth_send") {
			n++
			r = o
		}
	}
	return
}

// delivered: the answer reached the client undamaged.
func (x *snd) delivered(r *Req) bool { return x.meta[r].good && r.Outcome == "answered" }

// judgeCall judges a plain submission.
func (x *snd) judgeCall(prop string, op *sop, h seth.Hash, err error) {
	ns, sub := x.submissions(op)
	if err == nil {
		if ns == 0 {
			x.fail(prop, "success-from-nothing", "%s reports success but submitted nothing", op.kind)
			return
		}
		if !x.delivered(sub) || x.meta[sub].hash != h {
			x.fail(prop, "wrong-hash", "%s reports hash %v, the node answered %s", op.kind, h.String(), sub.Ans.Result)
		}
		x.t.Count("reach:submitted")
		return
	}
	x.t.Count("reach:op-error")
	if ns == 1 && x.delivered(sub) {
		x.fail(prop, "error-after-success", "%s reports %q though the node accepted the submission", op.kind, err)
	}
	if ns == 0 && !x.troubled(op) {
		x.fail(prop, "error-from-nothing", "%s reports %q though nothing went wrong", op.kind, err)
	}
}

// troubled: something went wrong for the operation.
func (x *snd) troubled(op *sop) bool {
	if x.n.Calls != len(op.reqs) && x.n.LoseRq > 0 || x.n.CFail > 0 {
		return true // may have lost a request
	}
	for _, o := range op.reqs {
		if !x.delivered(o) {
			return true
		}
		m := x.meta[o]
		if o.Method == "eth_estimateGas" && m.v.BitLen() > 62 || o.Method == "eth_getTransactionCount" && m.v.BitLen() > 63 {
			return true // an amount that can not be used
		}
	}
	for _, s := range op.signed {
		if s.err != nil || !s.good {
			return true
		}
	}
	return op.opts.Gas != nil && !op.opts.Gas.Big().IsUint64()
}

var simKeys []*seth.PrivateKey
var simAddrs []seth.Address

func keys() {
	if simKeys == nil {
		for i := 0; i < 3; i++ {
			k := &seth.PrivateKey{}
			h := keccak([]byte{byte(i), 'k'})
			copy(k[:], h[:])
			simKeys = append(simKeys, k)
			simAddrs = append(simAddrs, *k.Address())
		}
	}
}

func (x *snd) signer(t *T, s *seth.Sender, key int) *simSigner {
	sg := &simSigner{key: simKeys[key], addr: simAddrs[key], fault: []int{0, 30}[t.Choose(2)]}
	s.Signer = func(h *seth.Hash) (*seth.Signature, error) {
		op := x.op()
		if t.Choose(3) == 2 {
			simrt.Sleep(t.Dur(2 * time.Second))
		}
		rec := &signing{hash: *h}
		op.signed = append(op.signed, rec)
		if t.Chance(sg.fault, 100) {
			t.Count("fault:signer")
			switch t.Choose(5) {
			case 0:
				rec.err = errors.New("simulated: signer refuses")
				return nil, rec.err
			case 1:
				rec.sig = *simKeys[(key+1)%3].Sign(h)
			case 2:
				copy(rec.sig[:], t.Bytes(65))
				rec.sig[0] &= 0x7f
				rec.sig[32] &= 0x3f
			case 3:
				rec.sig = *sg.key.Sign(h)
				rec.sig[64] += 27
			case 4:
				var o seth.Hash
				copy(o[:], t.Bytes(32))
				rec.sig = *sg.key.Sign(&o)
			}
			sig := rec.sig
			return &sig, nil
		}
		rec.good = true
		rec.sig = *sg.key.Sign(h)
		sig := rec.sig
		return &sig, nil
	}
	return sg
}

func senderBody(prop string) func(t *T) {
	return func(t *T) {
		keys()
		x := &snd{t: t, prop: prop, meta: map[*Req]*rmeta{}}
		x.n = NewNode(t, x.handle)
		if t.Choose(3) == 2 {
			x.n.Faults()
		}
		x.badP = []int{0, 5, 20}[t.Weighted(3, 2, 1)]
		x.mineMax = []time.Duration{time.Second, 10 * time.Second, time.Minute, 25 * time.Minute}[t.Weighted(4, 4, 4, 1)]
		cl := x.n.Client()
		ng := 1
		if x.n.Kind != kStream {
			ng = []int{1, 2, 3}[t.Choose(3)]
		}
		// one sender may be shared by several goroutines
		var senders []*seth.Sender
		var signers []*simSigner
		for i := 0; i < 2; i++ {
			a := simAddrs[i]
			s := seth.NewSender(cl, &a)
			if t.Choose(3) == 2 {
				s.GasRatio.Num, s.GasRatio.Denom = 1+t.Choose(20), 1+t.Choose(9)
			}
			if t.Choose(3) == 2 {
				v, _ := t.genInt()
				s.GasPrice = seth.Int(*v)
			}
			var sg *simSigner
			if t.Choose(3) == 2 || prop == "S01" && t.Choose(2) == 1 {
				sg = x.signer(t, s, i)
			}
			senders, signers = append(senders, s), append(signers, sg)
		}
		// transactions from before
		for k := t.Choose(4); k > 0; k-- {
			to, _ := t.genAddr()
			pr, _ := t.genInt()
			p := &ptx{hash: x.newHash(), from: simAddrs[t.Choose(3)], to: &to, nonce: uint64(t.Choose(50)), price: pr, gas: big.NewInt(21000), value: big.NewInt(int64(t.Choose(9))), status: 1}
			x.pool = append(x.pool, p)
			x.mineLater(p)
		}
		var gs []*simrt.G
		for g := 0; g < ng; g++ {
			g := g
			k := t.Choose(2)
			gs = append(gs, t.Go(fmt.Sprintf("user%d", g), func() {
				nops := 1 + t.Choose(3)
				for i := 0; i < nops; i++ {
					s, sg := senders[k], signers[k]
					op := &sop{id: len(x.ops), s: s, sg: sg, g: t.Cur(), start: t.Calm()}
					x.ops = append(x.ops, op)
					if ng == 1 {
						x.solo = op
					}
					x.one(op)
					op.done = true
				}
			}))
		}
		if !t.JoinWithin(5*time.Minute+3*x.mineMax, gs...) {
			x.quiet = true
			x.n.Healed = true
			x.n.hangup()
			for _, p := range x.pool {
				p.gone = false
				p.mined = true
			}
			if !t.JoinWithin(5*time.Minute, gs...) {
				var st []string
				for _, o := range x.ops {
					if !o.done {
						st = append(st, fmt.Sprintf("%s(%d requests)", o.kind, len(o.reqs)))
					}
				}
				t.Failf("hang", "operations never return: %s; goroutines: %s", strings.Join(st, " "), strings.Join(t.Live(), ", "))
			}
			t.Count("reach:slow")
		}
	}
}

func (x *snd) one(op *sop) {
	t := x.t
	kinds := map[string][]string{
		"S01": {"call", "call", "send", "create", "cancel"}, "S02": {"wait"}, "S03": {"create", "create", "call"},
		"S04": {"drain", "drain", "call"}, "S05": {"cancel", "cancel", "call"},
	}[x.prop]
	op.kind = kinds[t.Choose(len(kinds))]
	s := op.s
	defer func() {
		t.Logf("%s done", op.kind)
	}()
	switch op.kind {
	case "call", "send":
		to, _ := t.genAddr()
		if op.kind == "send" {
			var v seth.Int
			b, _ := t.genInt()
			v = seth.Int(*b)
			a, _ := t.genAddr()
			op.opts.To = &to
			h := keccak([]byte("transfer(address,uint256)"))
			var w [32]byte
			b.FillBytes(w[:])
			op.opts.Data = append(append(append(append([]byte{}, h[:4]...), make([]byte, 12)...), a[:]...), w[:]...)
			t.Logf("send")
			hs, err := s.Send(&to, "transfer(address,uint256)", &a, &v)
			x.judgeCall("S01", op, hs, err)
			return
		}
		var o seth.CallOpts
		if t.Choose(4) != 3 {
			o.To = &to
		}
		if t.Choose(2) == 1 {
			v, _ := t.genInt()
			o.Value = (*seth.Int)(v)
		}
		o.Data, _ = t.genData(80)
		if t.Choose(3) == 2 {
			v, _ := t.genInt()
			o.GasPrice = (*seth.Int)(v)
		}
		if t.Choose(3) == 2 {
			o.Gas = seth.NewInt(int64(21000 + t.Choose(1000000)))
			if t.Choose(8) == 7 {
				o.Gas = new(seth.Int)
			}
			if t.Choose(8) == 7 {
				o.Gas = (*seth.Int)(new(big.Int).Lsh(big.NewInt(5), uint(t.Choose(80))))
			}
		}
		if t.Choose(3) == 2 {
			n, _ := t.genU64()
			nn := seth.Uint64(n)
			o.Nonce = &nn
		}
		if t.Choose(2) == 1 {
			a := *s.Addr
			o.From = &a
		}
		op.opts = copyOpts(&o)
		t.Logf("call")
		h, err := s.Call(&o)
		x.judgeCall("S01", op, h, err)
		w := op.opts
		if diff(w.To, o.To) != "" || diff(w.Value, o.Value) != "" || diff(w.Data, o.Data) != "" || diff(w.Nonce, o.Nonce) != "" || w.Gas != nil && diff(w.Gas, o.Gas) != "" || w.GasPrice != nil && diff(w.GasPrice, o.GasPrice) != "" {
			x.fail("S01", "options-changed", "the call changed values in the caller's options")
		}
	case "create":
		code, _ := t.genData(100)
		op.opts.Data = code
		var v *seth.Int
		if t.Choose(2) == 1 {
			b, _ := t.genInt()
			v = (*seth.Int)(b)
			op.opts.Value = v
		}
		t.Logf("create")
		a, err := s.Create([]byte(code), v)
		x.judgeCreate(op, a, err)
	case "wait":
		var h seth.Hash
		if len(x.pool) == 0 || t.Choose(6) == 5 {
			h = x.newHash()
		} else {
			op.target = x.pool[t.Choose(len(x.pool))]
			h = op.target.hash
			if t.Choose(8) == 7 {
				op.target.gone = true
			}
		}
		op.want = h
		t.Logf("wait %x", h[:2])
		err := s.Wait(&h)
		x.judgeWait(op, err)
	case "drain":
		var ps []func(*seth.Transaction)
		for k := t.Choose(3); k > 0; k-- {
			ps = append(ps, func(p *seth.Transaction) {
				op.prompts = append(op.prompts, p.Hash)
				if p.From == nil || *p.From != *s.Addr {
					x.fail("S04", "wrong-prompt", "prompted for a transaction from %v", p.From)
				}
			})
		}
		t.Logf("drain")
		err := s.Drain(ps...)
		x.judgeDrain(op, err, len(ps))
	case "cancel":
		var h seth.Hash
		if len(x.pool) == 0 || t.Choose(8) == 7 {
			h = x.newHash()
		} else {
			op.target = x.pool[t.Choose(len(x.pool))]
			h = op.target.hash
		}
		op.want = h
		t.Logf("cancel %x", h[:2])
		nh, err := s.Cancel(&h)
		x.judgeCancel(op, nh, err)
	}
}

func copyOpts(o *seth.CallOpts) seth.CallOpts {
	c := *o
	cp := func(i *seth.Int) *seth.Int {
		if i == nil {
			return nil
		}
		v := i.Copy()
		return &v
	}
	c.Value, c.Gas, c.GasPrice = cp(o.Value), cp(o.Gas), cp(o.GasPrice)
	if o.To != nil {
		a := *o.To
		c.To = &a
	}
	if o.Nonce != nil {
		n := *o.Nonce
		c.Nonce = &n
	}
	c.Data = append(seth.Data{}, o.Data...)
	return c
}

func (x *snd) judgeCreate(op *sop, a seth.Address, err error) {
	ns, sub := x.submissions(op)
	r, m := x.last(op, "eth_getTransactionReceipt")
	if err == nil {
		if ns != 1 || !x.delivered(sub) {
			x.fail("S03", "success-from-nothing", "Create reports success without an accepted submission")
			return
		}
		if r == nil || !x.delivered(r) || m.tx == nil || m.tx.hash != x.meta[sub].hash {
			x.fail("S03", "success-without-receipt", "Create reports success without having seen the receipt")
			return
		}
		if !m.tx.mined || !m.ok {
			x.fail("S03", "failed-creation-reported", "Create reports the address of a creation that failed")
		}
		if m.addr == nil || *m.addr != a {
			x.fail("S03", "wrong-address", "Create returns %v, the receipt says %v", a.String(), m.addr)
		}
		x.t.Count("reach:created")
		return
	}
	if r != nil && x.delivered(r) && m.ok && m.addr != nil && !x.troubled(op) {
		x.fail("S03", "error-after-success", "Create reports %q though the contract was deployed", err)
	}
	if r == nil && ns == 0 && !x.troubled(op) {
		x.fail("S03", "error-from-nothing", "Create reports %q though nothing went wrong", err)
	}
	x.t.Count("reach:op-error")
}

// waitTrouble: the node gave an answer that must end a wait.
func (x *snd) waitTrouble(op *sop) bool {
	for _, o := range op.reqs {
		if !x.delivered(o) {
			return true
		}
	}
	return x.n.LoseRq > 0 || x.n.CFail > 0
}

func (x *snd) judgeWait(op *sop, err error) {
	r, m := x.last(op, "eth_getTransactionByHash")
	if err == nil {
		if r == nil || !x.delivered(r) || !m.min || m.hash != op.want {
			x.fail("S02", "not-mined", "Wait returned success but the node did not report %x as mined (delivered %v, mined %v, asked %x, wanted %x, %s)", op.want[:2], r != nil && x.delivered(r), m != nil && m.min, m.hash, op.want, r.Outcome)
			return
		}
		if d := x.t.Calm() - m.tx.minedAt; d > 2*time.Minute && m.tx.minedAt > op.start {
			x.fail("S02", "late", "Wait returned %v after the transaction was mined", d)
		}
		x.t.Count("reach:waited")
		if len(op.reqs) > 1 {
			x.t.Count("reach:waited-long")
		}
	} else {
		if !x.waitTrouble(op) {
			x.fail("S02", "error-from-nothing", "Wait reports %q though every answer was proper", err)
		}
		x.t.Count("reach:op-error")
	}
	for i, o := range op.reqs {
		if i < len(op.reqs)-1 && o.Method == "eth_getTransactionByHash" && x.n.Kind != kStream {
			if !x.delivered(o) {
				x.fail("S02", "error-swallowed", "Wait went on after a failing answer")
			} else if x.meta[o].min {
				x.fail("S02", "mined-ignored", "Wait went on after the node reported the transaction mined")
			}
		}
	}
}

func (x *snd) judgeDrain(op *sop, err error, np int) {
	r, m := x.last(op, "eth_getBlockByNumber")
	if err == nil {
		if r == nil || !x.delivered(r) {
			x.fail("S04", "success-from-nothing", "Drain reports success without a look at the pending block")
			return
		}
		if string(r.Params[0]) != `"pending"` || r.P(1) != "true" {
			x.fail("S04", "not-pending", "Drain decided on block %s %s instead of the pending block's transactions", r.Params[0], r.P(1))
		}
		if len(m.own) > 0 {
			x.fail("S04", "not-drained", "Drain reports success with %d transactions of the address in the pending block", len(m.own))
		}
		from := op.start
		for _, p := range x.pool {
			if p.mined && p.from == *op.s.Addr && p.minedAt > from {
				from = p.minedAt
			}
		}
		if d := x.t.Calm() - from; d > 2*time.Minute {
			x.fail("S04", "late", "Drain returned %v after the last transaction was mined", d)
		}
		x.t.Count("reach:drained")
	} else {
		if !x.waitTrouble(op) {
			x.fail("S04", "error-from-nothing", "Drain reports %q though every answer was proper", err)
		}
		x.t.Count("reach:op-error")
	}
	// every transaction found is prompted for and waited for
	var last *rmeta
	for i, o := range op.reqs {
		m := x.meta[o]
		switch o.Method {
		case "eth_getBlockByNumber":
			if last != nil && x.delivered(op.reqs[i-1]) && !x.meta[op.reqs[i-1]].min {
				x.fail("S04", "not-waited", "Drain looked again before a pending transaction was mined")
			}
			if x.delivered(o) && len(m.own) > 0 {
				last = m
				if np > 0 {
					hit := false
					for _, h := range op.prompts {
						for _, w := range m.own {
							hit = hit || h == w
						}
					}
					if !hit {
						x.fail("S04", "not-prompted", "Drain found transactions of the address but did not call the prompt")
					}
				}
			} else {
				last = nil
			}
		case "eth_getTransactionByHash":
			if last != nil {
				hit := false
				for _, w := range last.own {
					hit = hit || w == m.hash
				}
				if !hit {
					x.fail("S04", "waits-for-another", "Drain waits for a transaction that is not one of the address's pending ones")
				}
				x.t.Count("reach:drain-waited")
			}
		}
	}
}

func (x *snd) judgeCancel(op *sop, h seth.Hash, err error) {
	ns, _ := x.submissions(op)
	g, m := x.last(op, "eth_getTransactionByHash")
	mined := g != nil && x.delivered(g) && m.min
	if mined {
		x.t.Count("reach:cannot-cancel")
		if err != seth.ErrCannotCancel {
			x.fail("S05", "mined-not-reported", "cancelling a mined transaction returns %v", err)
		}
		if ns != 0 {
			x.fail("S05", "mined-replaced", "a mined transaction was replaced")
		}
		return
	}
	if err == seth.ErrCannotCancel {
		x.fail("S05", "not-mined", "cannot-cancel reported but the node did not say mined")
	}
	if g == nil || !x.delivered(g) {
		if err == nil || ns != 0 {
			x.fail("S05", "unknown-replaced", "cancelling a transaction the node did not report: err=%v submissions=%d", err, ns)
		}
		return
	}
	if err == nil {
		x.t.Count("reach:cancelled")
	}
	x.judgeCall("S05", op, h, err)
}

func init() {
	for _, p := range []string{"S01", "S02", "S03", "S04", "S05"} {
		Register(&Scenario{Prop: p, Name: "senders", Body: senderBody(p)})
	}
}
