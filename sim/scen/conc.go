package scen

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"time"

	gcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/ec"
	skeccak "github.com/philhofer/seth/keccak"

	"verif.sim/simrt"
)

func init() {
	Register(&Scenario{Prop: "X01", Name: "hashing-and-signing", Body: concRun})
}

// concOp is one pure operation: run gives its result as text.
type concOp struct {
	what string
	run  func() string
	want string // "": only compared with running it alone
	got  string
	done bool
}

var curveN, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
var halfN = new(big.Int).Rsh(curveN, 1)

// concPool are inputs that several operations share, and what they were.
type concPool struct {
	t      *T
	privs  []*seth.PrivateKey
	hashes []*seth.Hash
	bufs   [][]byte
	strs   []string
	txs    []*seth.Transaction
	ints   []*seth.Int
	addrs  []*seth.Address
	sigs   []*seth.Signature
	datas  []*seth.Data
	points [][2]*big.Int
	recs   []*seth.Receipt
}

func (p *concPool) image() string {
	var b strings.Builder
	for _, x := range p.privs {
		fmt.Fprintf(&b, "%x ", x[:])
	}
	for _, x := range p.hashes {
		fmt.Fprintf(&b, "%x ", x[:])
	}
	for _, x := range p.bufs {
		fmt.Fprintf(&b, "%x ", x[:cap(x)])
	}
	for _, x := range p.txs {
		j, _ := json.Marshal(x)
		b.Write(j)
	}
	for _, x := range p.ints {
		fmt.Fprintf(&b, "%x ", (*big.Int)(x))
	}
	for _, x := range p.addrs {
		fmt.Fprintf(&b, "%x ", x[:])
	}
	for _, x := range p.sigs {
		fmt.Fprintf(&b, "%x ", x[:])
	}
	for _, x := range p.datas {
		fmt.Fprintf(&b, "%x ", []byte(*x))
	}
	for _, x := range p.points {
		fmt.Fprintf(&b, "%x,%x ", x[0], x[1])
	}
	for _, x := range p.recs {
		j, _ := json.Marshal(x)
		b.Write(j)
	}
	return b.String()
}

func (t *T) genPool() *concPool {
	p := &concPool{t: t}
	for i := 1 + t.Choose(3); i > 0; i-- {
		k := t.genPriv()
		p.privs = append(p.privs, &k)
	}
	for i := 1 + t.Choose(3); i > 0; i-- {
		h, _ := t.genHash()
		p.hashes = append(p.hashes, &h)
		a, _ := t.genAddr()
		p.addrs = append(p.addrs, &a)
		v, _ := t.genInt()
		p.ints = append(p.ints, (*seth.Int)(new(big.Int).Abs((*big.Int)(v))))
		d, _ := t.genData(200)
		p.datas = append(p.datas, &d)
		// spare room behind shared slices is shared as well
		b := t.Bytes([]int{0, 1, 31, 32, 135, 136, 137, 272, 300}[t.Choose(9)])
		p.bufs = append(p.bufs, append(make([]byte, 0, len(b)+40), b...))
		p.strs = append(p.strs, string(b))
	}
	for i := 1 + t.Choose(2); i > 0; i-- {
		x, _ := t.genTx()
		if x.Value.Big().Sign() < 0 {
			x.Value = *seth.NewInt(5)
		}
		p.txs = append(p.txs, &x)
		r, _ := t.genReceipt()
		p.recs = append(p.recs, &r)
	}
	for _, k := range p.privs {
		ek, err := gcrypto.ToECDSA(k[:])
		if err != nil {
			t.Failf("harness", "%v", err)
		}
		h := p.hashes[t.Choose(len(p.hashes))]
		s, err := gcrypto.Sign(h[:], ek)
		if err != nil {
			t.Failf("harness", "%v", err)
		}
		var sig seth.Signature
		copy(sig[:], s)
		if t.Choose(4) == 3 {
			// damaged
			switch r := new(big.Int).SetBytes(sig[:32]); t.Choose(6) {
			case 0:
				sig[t.Choose(64)] ^= byte(1 << uint(t.Choose(8)))
			case 1:
				copy(sig[:32], make([]byte, 32))
			case 2:
				copy(sig[32:64], make([]byte, 32))
			case 3:
				copy(sig[:], t.Bytes(64))
			case 4: // the other root
				x := new(big.Int).Sub(curveN, new(big.Int).SetBytes(sig[32:64]))
				copy(sig[32:64], append(make([]byte, 32-len(x.Bytes())), x.Bytes()...))
				sig[64] ^= 1
			case 5:
				if r.Add(r, curveN); r.BitLen() <= 256 {
					copy(sig[:32], append(make([]byte, 32-len(r.Bytes())), r.Bytes()...))
				} else {
					sig[64] = byte(2 + t.Choose(4))
				}
			}
			t.Count("reach:damaged-signature")
		}
		p.sigs = append(p.sigs, &sig)
		p.points = append(p.points, [2]*big.Int{ek.X, ek.Y})
	}
	return p
}

func refAddr(k *seth.PrivateKey) string {
	ek, _ := gcrypto.ToECDSA(k[:])
	a := gcrypto.PubkeyToAddress(ek.PublicKey)
	return fmt.Sprintf("%x", a[:])
}

// op makes an operation on shared inputs.
func (p *concPool) op() *concOp {
	t := p.t
	priv := p.privs[t.Choose(len(p.privs))]
	h := p.hashes[t.Choose(len(p.hashes))]
	bi := t.Choose(len(p.bufs))
	buf, str := p.bufs[bi], p.strs[bi]
	tx := p.txs[t.Choose(len(p.txs))]
	n := p.ints[t.Choose(len(p.ints))]
	a := p.addrs[t.Choose(len(p.addrs))]
	si := t.Choose(len(p.sigs))
	sig := p.sigs[si]
	d := p.datas[t.Choose(len(p.datas))]
	rec := p.recs[t.Choose(len(p.recs))]
	switch t.Choose(16) {
	case 0:
		return &concOp{what: "HashBytes", want: fmt.Sprintf("%x", keccak256(buf)), run: func() string {
			x := seth.HashBytes(buf)
			return fmt.Sprintf("%x", x[:])
		}}
	case 1:
		return &concOp{what: "HashString", want: fmt.Sprintf("%x", keccak256([]byte(str))), run: func() string {
			x := seth.HashString(str)
			return fmt.Sprintf("%x", x[:])
		}}
	case 2:
		// a running hash, read in the middle
		cut := t.Choose(len(buf) + 1)
		reset := t.Choose(2) == 1
		w := fmt.Sprintf("%x %x %x", keccak256(buf[:cut]), keccak256(buf[:cut]), keccak256(buf))
		return &concOp{what: "running hash", want: w, run: func() string {
			k := skeccak.New256()
			if reset {
				k.Write([]byte("something else"))
				k.Sum(nil)
				k.Reset()
			}
			k.Write(buf[:cut])
			s1, s2 := k.Sum(nil), k.Sum(nil)
			k.Write(buf[cut:])
			return fmt.Sprintf("%x %x %x", s1, s2, k.Sum(nil))
		}}
	case 3:
		return &concOp{what: "Sum512 and others", run: func() string {
			x, y, z := skeccak.Sum512(buf), skeccak.Sum384(buf), skeccak.Sum224(buf)
			return fmt.Sprintf("%x %x %x", x, y, z)
		}}
	case 4, 5:
		o := &concOp{what: fmt.Sprintf("Sign with %x", priv[:3])}
		who := refAddr(priv)
		viaSigner := t.Choose(2) == 1
		o.run = func() string {
			var s *seth.Signature
			if viaSigner {
				var err error
				if s, err = priv.Signer()(h); err != nil {
					return err.Error()
				}
			} else {
				s = priv.Sign(h)
			}
			w, err := signerOf(h[:], s[:])
			if err != nil || fmt.Sprintf("%x", w[:]) != who {
				t.Failf("wrong-signature", "the signature %x of %x recovers to %x, %v; the key's address is %s", s[:], h[:], w[:], err, who)
			}
			return fmt.Sprintf("%x", s[:])
		}
		return o
	case 6, 7:
		o := &concOp{what: fmt.Sprintf("Recover of %x", sig[:3])}
		w, err := signerOf(h[:], sig[:])
		high := new(big.Int).SetBytes(sig[32:64]).Cmp(halfN) > 0
		switch {
		case err != nil:
			o.want = "error" // nobody made it
		case !high && sig[64] < 2:
			o.want = fmt.Sprintf("%x", w[:])
		}
		o.run = func() string {
			k, err := sig.Recover(h)
			if err != nil {
				return "error"
			}
			a := k.Address()
			if s := fmt.Sprintf("%x", a[:]); err == nil && s != fmt.Sprintf("%x", w[:]) {
				t.Failf("wrong-signer", "the signature %x of %x recovers to %s, expected %x, %v", sig[:], h[:], s, w[:], err)
			}
			return fmt.Sprintf("%x", a[:])
		}
		return o
	case 8:
		return &concOp{what: "Address", want: refAddr(priv), run: func() string {
			a := priv.Address()
			return fmt.Sprintf("%x", a[:])
		}}
	case 9:
		o := &concOp{what: "SignTransaction"}
		who := refAddr(priv)
		o.run = func() string {
			raw, err := seth.SignTransaction(tx, priv.Signer())
			if err != nil {
				return "error " + err.Error()
			}
			f, err := rlpList(raw)
			if err != nil || len(f) != 9 || len(f[7]) > 32 || len(f[8]) > 32 || len(f[6]) != 1 {
				t.Failf("wrong-transaction", "the signed transaction is %x: %v", raw, err)
			}
			var sg [65]byte
			copy(sg[32-len(f[7]):], f[7])
			copy(sg[64-len(f[8]):], f[8])
			sg[64] = f[6][0] - 37
			hh := keccak256(rlpEnc(f[0], f[1], f[2], f[3], f[4], f[5], []byte{1}, nil, nil))
			if w, err := signerOf(hh, sg[:]); err != nil || fmt.Sprintf("%x", w[:]) != who {
				t.Failf("wrong-signature", "the signed transaction %x recovers to %x, %v; the key's address is %s", raw, w[:], err, who)
			}
			if !bytes.Equal(f[5], tx.Input) || new(big.Int).SetBytes(f[4]).Cmp(tx.Value.Big()) != 0 || new(big.Int).SetBytes(f[0]).Uint64() != uint64(tx.Nonce) {
				t.Failf("wrong-transaction", "the signed transaction has other fields: %x", raw)
			}
			return fmt.Sprintf("%x", raw)
		}
		return o
	case 10:
		return &concOp{what: "HashToSign and Encode", run: func() string {
			x := tx.HashToSign()
			return fmt.Sprintf("%x %x", x[:], tx.Encode(sig))
		}}
	case 11:
		x := fmt.Sprintf("0x%x", (*big.Int)(n))
		return &concOp{what: "Int text", want: x + " " + x, run: func() string {
			s := n.String()
			m, err := seth.ParseInt(s)
			if err != nil {
				return err.Error()
			}
			c := n.Copy()
			(*big.Int)(&c).Add((*big.Int)(&c), big.NewInt(1))
			return s + " " + m.String()
		}}
	case 12:
		return &concOp{what: "text of values", run: func() string {
			b1, e1 := a.MarshalText()
			b2, e2 := h.MarshalText()
			b3, e3 := d.MarshalText()
			var a2 seth.Address
			var h2 seth.Hash
			var d2 seth.Data
			e4, e5, e6 := a2.UnmarshalText(b1), h2.UnmarshalText(b2), d2.UnmarshalText(b3)
			return fmt.Sprint(string(b1), string(b2), string(b3), e1, e2, e3, e4, e5, e6, a2 == *a, h2 == *h, bytes.Equal(d2, *d), sig.String())
		}}
	case 13:
		return &concOp{what: "ABI encoding", run: func() string {
			is, as := seth.IntSlice{*n, *n}, seth.AddrSlice{*a, *a}
			bb := seth.Bytes(buf)
			e := seth.ABIEncode("f(uint256,address,uint256[],address[],bytes,bytes)", n, a, &is, &as, &bb, &bb)
			var i1 seth.Int
			var a1 seth.Address
			err := seth.DecodeABI(e[4:], &i1, &a1)
			return fmt.Sprintf("%x %v %s %s", e, err, i1.String(), a1.String())
		}}
	case 14:
		return &concOp{what: "JSON of a receipt", run: func() string {
			b, err := json.Marshal(rec)
			var r seth.Receipt
			e2 := json.Unmarshal(b, &r)
			b2, _ := json.Marshal(&r)
			return fmt.Sprint(string(b), err, e2, bytes.Equal(b, b2))
		}}
	}
	// the curve itself
	pt, q := p.points[t.Choose(len(p.points))], p.points[t.Choose(len(p.points))]
	k := t.Bytes(1 + t.Choose(32))
	k[0] |= 1
	ref := gcrypto.S256()
	var w string
	kind := t.Choose(4)
	switch kind {
	case 0:
		x, y := ref.ScalarBaseMult(k)
		w = fmt.Sprintf("%x,%x", x, y)
	case 1:
		x, y := ref.ScalarMult(pt[0], pt[1], k)
		w = fmt.Sprintf("%x,%x", x, y)
	case 2:
		x, y := ref.Double(pt[0], pt[1])
		w = fmt.Sprintf("%x,%x", x, y)
	case 3:
		if pt[0].Cmp(q[0]) != 0 {
			x, y := ref.Add(pt[0], pt[1], q[0], q[1])
			w = fmt.Sprintf("%x,%x", x, y)
		}
	}
	return &concOp{what: fmt.Sprintf("curve operation %d", kind), want: w, run: func() string {
		c := ec.S256()
		var x, y *big.Int
		switch kind {
		case 0:
			x, y = c.ScalarBaseMult(k)
		case 1:
			x, y = c.ScalarMult(pt[0], pt[1], k)
		case 2:
			x, y = c.Double(pt[0], pt[1])
		case 3:
			x, y = c.Add(pt[0], pt[1], q[0], q[1])
		}
		return fmt.Sprintf("%x,%x", x, y)
	}}
}

func concRun(t *T) {
	p := t.genPool()
	var gs []*simrt.G
	var all []*concOp
	n := 2 + t.Choose(4)
	before := p.image()
	for i := 0; i < n; i++ {
		var ops []*concOp
		for k := 1 + t.Choose(3); k > 0; k-- {
			o := p.op()
			if len(all) > 0 && t.Choose(4) == 3 {
				// the same operation at the same time
				c := *all[t.Choose(len(all))]
				c.got, c.done = "", false
				o = &c
			}
			ops = append(ops, o)
			all = append(all, o)
		}
		gs = append(gs, simrt.Go(fmt.Sprintf("user%d", i), func() {
			for _, o := range ops {
				o.got = o.run()
				o.done = true
			}
		}))
	}
	if !t.JoinWithin(time.Hour, gs...) {
		t.Failf("stuck", "an operation does not end: %v", t.Live())
	}
	if p.image() != before {
		t.Failf("input-changed", "the operations changed their inputs")
	}
	for _, o := range all {
		t.Count("reach:" + strings.Fields(o.what)[0])
		if o.want != "" && o.got != o.want {
			t.Failf("wrong-result", "%s gives %s, expected %s", o.what, clip([]byte(o.got)), clip([]byte(o.want)))
		}
	}
	t.SetPreempt(0)
	for _, o := range all {
		if alone := o.run(); alone != o.got {
			t.Failf("differs-from-alone", "%s gives %s together with others and %s alone", o.what, clip([]byte(o.got)), clip([]byte(alone)))
		}
	}
	t.Logf("%d operations", len(all))
}
