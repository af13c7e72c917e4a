package scen

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"sort"
	"strings"
	"syscall"

	gcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/philhofer/seth"
	"verif.sim/simworld"
)

func init() {
	Register(&Scenario{Prop: "W04", Name: "query", Weight: 5, Fresh: true, NoPreempt: true, Body: queryRun})
	Register(&Scenario{Prop: "W04", Name: "recover", Weight: 1, Fresh: true, NoPreempt: true, Body: recoverRun})
	Register(&Scenario{Prop: "W04", Name: "keys", Weight: 1, Fresh: true, NoPreempt: true, Body: keysRun})
}

// A step is one request the command has to make, in order.
type step struct {
	method string
	params []string // JSON texts; "" is anything
	answer func() Ans
	// print says what a good answer must make the command print
	print func(r *Req) []string // alternatives
	// next, if set, makes the following steps from this answer
	next func(r *Req) []*step
	raw  []byte // a transaction submitted
}

type query struct {
	t     *T
	args  []string
	steps []*step
	fails []string // why it has to fail
	early bool     // ... before any request
	stdin *inPipe
	fault map[string]simworld.Fault
	// what is printed without asking the node
	printed []string
}

func jparam(s string) string { b, _ := json.Marshal(s); return string(b) }

func queryRun(t *T) {
	t.Regime()
	q := &query{t: t, fault: map[string]simworld.Fault{}}
	switch t.Choose(6) {
	case 0:
		q.balance()
	case 1:
		q.block()
	case 2:
		q.code()
	case 3:
		q.read()
	case 4:
		q.post()
	case 5:
		q.jumptab()
	}
	n := NewNode(t, nil)
	n.Kind = []int{kStream, kHTTP}[t.Choose(2)]
	if t.Choose(3) == 2 {
		n.Faults()
	}
	badP := 0
	if t.Choose(3) == 2 {
		badP = 5 + t.Choose(40)
	}
	// the requests, judged as they arrive
	type took struct {
		s   *step
		r   *Req
		bad bool
	}
	var log []*took
	steps := q.steps
	failed := false
	n.Handle = func(r *Req) Ans {
		if failed {
			t.Failf("continues-after-failure", "%q: request %s %s after an answer that is no good", q.args, r.Method, r.Params)
		}
		if len(steps) == 0 {
			t.Failf("request-not-asked-for", "%q: request %s %s", q.args, r.Method, r.Params)
		}
		s := steps[0]
		steps = steps[1:]
		if r.Method != s.method {
			t.Failf("wrong-request", "%q: request %s %s instead of %s %s", q.args, r.Method, r.Params, s.method, s.params)
		}
		if s.raw == nil {
			ok := len(r.Params) == len(s.params)
			for i := 0; ok && i < len(r.Params); i++ {
				ok = s.params[i] == "" || strings.EqualFold(s.params[i], strings.Replace(string(r.Params[i]), "earliest", "0x0", 1))
			}
			if !ok {
				t.Failf("wrong-request", "%q: request %s %s instead of %s", q.args, r.Method, r.Params, s.params)
			}
		} else if raw, err := hex.DecodeString(strings.TrimPrefix(jstr(r.Params[0]), "0x")); err != nil || !bytes.Equal(raw, s.raw) {
			t.Failf("wrong-request", "%q: %s is submitted instead of %x", q.args, r.Params, s.raw)
		}
		k := &took{s: s, r: r}
		log = append(log, k)
		if t.Chance(badP, 100) {
			t.Count("fault:bad-answer")
			k.bad = true
			failed = true
			return []Ans{nullAns(), errAns(-32000, "node trouble"), okAns(`"0xzz"`), okAns("[1]"), {Raw: []byte("{")}, {Raw: []byte("")}, {Raw: []byte(`{"jsonrpc":"2.0","id":`)}}[t.Choose([]int{0, 4, 7}[n.Kind])]
		}
		a := s.answer()
		if a.Err != nil || a.Result == "null" {
			k.bad = true
			failed = true
		}
		r.Ans = a
		if s.next != nil && !k.bad {
			steps = s.next(r)
		}
		return a
	}
	lost := false
	n.OnLost = func(r *Req, p []json.RawMessage) { lost = true }
	env := map[string]string{}
	if n.Kind == kHTTP {
		httpNode = n
		env["SETH_URL"] = "http://node.example:8545/"
	} else {
		env["SETH_URL"] = "/run/geth.ipc"
		t.W.FS.Put("/run/geth.ipc", nil)
		t.W.Dial = func(network, addr string) (io.ReadWriteCloser, error) {
			if network != "unix" || addr != "/run/geth.ipc" {
				t.Failf("wrong-node", "the command connects to %s %s", network, addr)
			}
			return n.dial()
		}
	}
	t.W.FS.Hook = func(op simworld.Op) simworld.Fault {
		if f, ok := q.fault[op.Kind+" "+op.Path]; ok {
			t.Count("fault:" + op.Kind + "-error")
			return f
		}
		if op.Kind == "read" && t.Choose(4) == 3 {
			t.Count("fault:short-read")
			return simworld.Fault{Short: true, N: 1 + t.Choose(100)}
		}
		return simworld.Fault{N: -1}
	}
	c := t.newCommand(q.args...)
	c.p.Env = env
	if q.stdin != nil {
		c.p.Stdin = q.stdin
	}
	if t.Choose(14) == 13 {
		c.out.room = t.Choose(200)
	}
	c.run(t)
	// what must have been printed
	rest := c.out.b.String()
	match := func(alts []string, what string) {
		sort.Slice(alts, func(i, j int) bool { return len(alts[i]) > len(alts[j]) })
		if c.out.fail {
			// output that does not fit: what there is must be right
			for _, a := range alts {
				if strings.HasPrefix(a, rest) {
					rest = ""
					return
				}
			}
		}
		for _, a := range alts {
			if strings.HasPrefix(rest, a) {
				rest = rest[len(a):]
				return
			}
		}
		t.Failf("wrong-output", "%q prints %q for %s, it should be %q", q.args, clip([]byte(rest)), what, alts)
	}
	good := 0
	for _, k := range log {
		if k.bad {
			break
		}
		if k.r.Outcome == "lost" || k.r.Outcome == "" {
			break
		}
		if lost && c.code != 0 && rest == "" {
			break
		}
		good++
		if k.s.print != nil {
			if n.CFail > 0 && c.code != 0 && rest == "" {
				break // the answer may not have arrived
			}
			match(k.s.print(k.r), k.r.Method)
		}
	}
	if q.printed != nil && c.code == 0 {
		match(q.printed, "its input")
	}
	if rest != "" {
		t.Failf("prints-more", "%q prints %q beyond what the node answered", q.args, clip([]byte(rest)))
	}
	if c.panics != "" {
		t.Failf("crash", "%q crashes: %s", q.args, c.panics)
	}
	if c.code == 0 {
		for _, f := range q.fails {
			t.Failf("failure-not-reported", "%q succeeds although %s", q.args, f)
		}
		if failed || good < len(log) {
			t.Failf("failure-not-reported", "%q succeeds although the node gave no usable answer", q.args)
		}
		if len(steps) > 0 {
			t.Failf("incomplete", "%q succeeds without request %s %s", q.args, steps[0].method, steps[0].params)
		}
		t.Count("reach:succeeded")
		return
	}
	if q.early && len(log) > 0 {
		t.Failf("submitted-after-failure", "%q makes requests although %s", q.args, strings.Join(q.fails, ", "))
	}
	if len(q.fails) == 0 && !failed && !lost && n.CFail == 0 && !c.out.fail {
		t.Failf("does-not-work", "%q fails with %d: %s", q.args, c.code, clip(c.errs.Bytes()))
	}
	t.Count("reach:failed")
}

func (q *query) balance() {
	t := q.t
	q.args = []string{"balance"}
	mode := t.Choose(3)
	if mode > 0 {
		q.args = append(q.args, []string{"", "-x", "-d"}[mode])
	}
	n := t.Choose(5)
	if n == 0 {
		q.fails, q.early = append(q.fails, "no address is given"), true
	}
	bad := -1
	if n > 0 && t.Choose(8) == 7 {
		bad = t.Choose(n)
	}
	for i := 0; i < n; i++ {
		a, _ := t.genAddr()
		if i == bad {
			q.args = append(q.args, []string{"0x12", a.String()[2:] + "0", "xyz", a.String() + "00", ""}[t.Choose(5)])
			q.fails, q.early = append(q.fails, "an argument is not an address"), true
			continue
		}
		q.args = append(q.args, a.String())
		v := new(big.Int)
		switch t.Choose(5) {
		case 0:
			v.SetInt64(int64(t.Choose(3)))
		case 1:
			v.Exp(big.NewInt(10), big.NewInt(int64(t.Choose(30))), nil)
		case 2:
			v.Mul(big.NewInt(int64(t.Choose(1000))), big.NewInt(1e18))
		default:
			v.SetBytes(t.Bytes(t.Choose(33)))
		}
		q.steps = append(q.steps, &step{method: "eth_getBalance", params: []string{jparam(a.String()), `"latest"`},
			answer: func() Ans { return okAns(`"0x%x"`, v) },
			print: func(*Req) []string {
				switch mode {
				case 1:
					return []string{fmt.Sprintf("0x%x\n", v)}
				case 2:
					return []string{v.String() + "\n"}
				}
				one := big.NewInt(1e18)
				i, f := new(big.Int).QuoRem(v, one, new(big.Int))
				fs := fmt.Sprintf("%018d", f)
				out := []string{fmt.Sprintf("%s.%s ETH\n", i, fs)}
				for strings.HasSuffix(fs, "0") {
					fs = fs[:len(fs)-1]
					out = append(out, strings.TrimSuffix(fmt.Sprintf("%s.%s", i, fs), ".")+" ETH\n")
				}
				return out
			}})
	}
}

// blockStep asks for one block and prints it.
func (q *query) blockStep(spec string, num int64) *step {
	t := q.t
	var text string
	return &step{method: "eth_getBlockByNumber", params: []string{spec, "true"},
		answer: func() Ans {
			if t.Choose(12) == 11 {
				t.Count("reach:no-such-block")
				return nullAns()
			}
			_, text, _ = t.genBlock(num, true)
			return okAns("%s", text)
		},
		print: func(*Req) []string {
			var b seth.Block
			if err := json.Unmarshal([]byte(text), &b); err != nil {
				t.Failf("harness", "%v", err)
			}
			j, _ := json.MarshalIndent(&b, "", "\t")
			return []string{string(j) + "\n"}
		}}
}

func (q *query) block() {
	t := q.t
	q.args = []string{"block"}
	n := t.Choose(4)
	if n == 0 {
		q.steps = append(q.steps, q.blockStep(`"pending"`, -1))
	}
	// specifiers are looked at one after the other
	var build func(i int) []*step
	type one struct {
		spec string
		mk   func(rest func() []*step) []*step
	}
	var all []one
	for i := 0; i < n; i++ {
		switch t.Choose(7) {
		case 0:
			s := []string{"latest", "pending"}[t.Choose(2)]
			all = append(all, one{s, func(rest func() []*step) []*step { return append([]*step{q.blockStep(jparam(s), -1)}, rest()...) }})
		case 1:
			all = append(all, one{"earliest", func(rest func() []*step) []*step { return append([]*step{q.blockStep(`"0x0"`, 0)}, rest()...) }})
		case 2, 3:
			k := int64(t.Choose(1000000))
			all = append(all, one{[]string{fmt.Sprint(k), fmt.Sprintf("0x%x", k)}[t.Choose(2)], func(rest func() []*step) []*step {
				return append([]*step{q.blockStep(fmt.Sprintf(`"0x%x"`, k), k)}, rest()...)
			}})
		case 4:
			k := int64(t.Choose(4) * t.Choose(3000))
			op := int64(1 - 2*t.Choose(2))
			cnt := t.Choose(6)
			s := fmt.Sprintf("%d%s%d", k, map[int64]string{1: "+", -1: "-"}[op], cnt)
			all = append(all, one{s, func(rest func() []*step) []*step { return q.rangeSteps(k, op, cnt, rest) }})
			if op < 0 && k-int64(cnt) < -1 {
				t.Count("reach:range-before-genesis")
			}
		case 5:
			s := []string{"latest", "pending"}[t.Choose(2)]
			op := int64(1 - 2*t.Choose(2))
			cnt := t.Choose(5)
			spec := fmt.Sprintf("%s%s%d", s, map[int64]string{1: "+", -1: "-"}[op], cnt)
			all = append(all, one{spec, func(rest func() []*step) []*step {
				var num int64 = -1
				return []*step{{method: "eth_getBlockByNumber", params: []string{jparam(s), "false"},
					answer: func() Ans {
						num = int64(t.Choose(4) * t.Choose(3000))
						_, text, _ := t.genBlock(num, false)
						if s == "pending" && t.Choose(2) == 1 {
							// a pending block need not have a number
							var m map[string]json.RawMessage
							json.Unmarshal([]byte(text), &m)
							for k := range m {
								if strings.EqualFold(k, "number") {
									m[k] = json.RawMessage("null")
								}
							}
							b, _ := json.Marshal(m)
							text = string(b)
							num = -1
							t.Count("reach:pending-without-number")
						}
						return okAns("%s", text)
					},
					next: func(*Req) []*step {
						if num < 0 {
							q.fails = append(q.fails, "the pending block has no number")
							return nil
						}
						return q.rangeSteps(num, op, cnt, rest)
					}}}
			}})
		case 6:
			s := []string{"first", "1+", "+", "1+x", "1+2+3", "", "0x", "99999999999999999999"}[t.Choose(8)]
			all = append(all, one{s, func(rest func() []*step) []*step {
				q.fails = append(q.fails, fmt.Sprintf("%q is not a block", s))
				return nil
			}})
		}
		q.args = append(q.args, all[i].spec)
	}
	build = func(i int) []*step {
		if i == len(all) {
			return nil
		}
		return all[i].mk(func() []*step { return build(i + 1) })
	}
	if n > 0 {
		q.steps = build(0)
	}
}

func (q *query) rangeSteps(k, op int64, cnt int, rest func() []*step) []*step {
	var out []*step
	for i := int64(0); i < int64(cnt); i++ {
		if k+op*i < 0 {
			q.fails = append(q.fails, "there are no blocks before the first")
			return out
		}
		out = append(out, q.blockStep(fmt.Sprintf(`"0x%x"`, k+op*i), k+op*i))
	}
	return append(out, rest()...)
}

func (q *query) code() {
	t := q.t
	q.args = []string{"code"}
	a, _ := t.genAddr()
	code := t.Bytes(t.Choose(100))
	switch t.Choose(8) {
	case 0:
		q.args = append(q.args, "0xnope")
		q.fails, q.early = append(q.fails, "the argument is not an address"), true
	case 1:
		q.fails, q.early = append(q.fails, "there is no argument"), true
	default:
		q.args = append(q.args, a.String())
	}
	q.steps = []*step{{method: "eth_getCode", params: []string{jparam(a.String()), `"latest"`},
		answer: func() Ans { return okAns("%q", hx(code)) },
		print:  func(*Req) []string { return []string{hex.EncodeToString(code) + "\n"} }}}
}

func (q *query) read() {
	t := q.t
	q.args = []string{"read"}
	force := t.Choose(2) == 1
	if force {
		q.args = append(q.args, "-f")
	}
	to, _ := t.genAddr()
	var types, vals []string
	var data []byte
	for i := t.Choose(3); i > 0; i-- {
		var word [32]byte
		switch t.Choose(3) {
		case 0:
			v := new(big.Int).SetBytes(t.Bytes(t.Choose(31)))
			types, vals = append(types, "uint256"), append(vals, v.String())
			v.FillBytes(word[:])
		case 1:
			a, _ := t.genAddr()
			types, vals = append(types, "address"), append(vals, a.String())
			copy(word[12:], a[:])
		case 2:
			b := t.Choose(2)
			types, vals = append(types, "bool"), append(vals, []string{"false", "true"}[b])
			word[31] = byte(b)
		}
		data = append(data, word[:]...)
	}
	sig := []string{"balanceOf", "g", "get_it"}[t.Choose(3)] + "(" + strings.Join(types, ",") + ")"
	sel := keccak256([]byte(sig))[:4]
	data = append(append([]byte{}, sel...), data...)
	q.args = append(append(q.args, to.String(), sig), vals...)
	// what it returns
	var head, tail []byte
	var alts [][]string
	nr := t.Choose(4)
	for i := 0; i < nr; i++ {
		var w [32]byte
		dyn := func(b []byte) {
			big.NewInt(int64(32*nr + len(tail))).FillBytes(w[:])
			var l [32]byte
			big.NewInt(int64(len(b))).FillBytes(l[:])
			tail = append(append(tail, l[:]...), b...)
			for len(tail)%32 != 0 {
				tail = append(tail, 0)
			}
		}
		switch t.Choose(6) {
		case 0:
			k := t.Choose(4)
			v := new(big.Int).SetBytes(t.Bytes(t.Choose([]int{1, 5, 17, 33}[k])))
			if k == 3 && v.BitLen() == 256 {
				v.SetBit(v, 255, 0)
			}
			q.args = append(q.args, []string{[]string{"uint8", "uint32", "uint128", "uint256"}[k], []string{"uint8", "int64", "int256", "uint"}[k]}[t.Choose(2)])
			v.FillBytes(w[:])
			alts = append(alts, []string{v.String() + "\n"})
		case 1:
			a, _ := t.genAddr()
			copy(w[12:], a[:])
			q.args = append(q.args, "address")
			alts = append(alts, []string{a.String() + "\n"})
		case 2:
			b := t.Choose(2)
			w[31] = byte(b)
			q.args = append(q.args, "bool")
			alts = append(alts, []string{[]string{"false", "true"}[b] + "\n"})
		case 3:
			n := 1 + t.Choose(32)
			copy(w[:n], t.Bytes(n))
			q.args = append(q.args, fmt.Sprintf("bytes%d", n))
			alts = append(alts, []string{fmt.Sprintf("%x\n", w), fmt.Sprintf("%x\n", w[:n])})
		case 4:
			b := t.Bytes(t.Choose(70))
			dyn(b)
			q.args = append(q.args, "bytes")
			alts = append(alts, []string{fmt.Sprintf("%x\n", b)})
		case 5:
			s := []string{"", "x", "a longer text that needs more than one word", "zwei\nZeilen", "%d%s"}[t.Choose(5)]
			dyn([]byte(s))
			q.args = append(q.args, "string")
			alts = append(alts, []string{s + "\n"})
		}
		head = append(head, w[:]...)
	}
	ret := append(head, tail...)
	if t.Choose(10) == 9 {
		q.args = append(q.args, []string{"uint7", "bytes33", "bytes0", "uint256[]", "tuple"}[t.Choose(5)])
		q.fails = append(q.fails, "a return type is not supported")
	}
	short := len(ret) > 0 && t.Choose(10) == 9
	if short {
		ret = ret[:t.Choose(len(head))]
		t.Count("fault:short-return-value")
	}
	if !force {
		var code []byte
		has := t.Choose(5) > 0
		code = append(code, t.Bytes(t.Choose(20))...)
		code = append(code, selectorPreamble...)
		entry := func(s []byte) {
			code = append(append(append(code, 0x80, 0x63), s...), 0x14, 0x61, 0x01, 0x45, 0x57)
		}
		for i := t.Choose(3); i > 0; i-- {
			o := t.Bytes(4)
			if bytes.Equal(o, sel) {
				o[0]++
			}
			entry(o)
		}
		if has {
			entry(sel)
		}
		code = append(code, 0x5b, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
		q.steps = append(q.steps, &step{method: "eth_getCode", params: []string{jparam(to.String()), `"latest"`}, answer: func() Ans { return okAns("%q", hx(code)) }})
		if !has {
			q.fails = append(q.fails, "the function is not in the code")
			return
		}
	}
	if len(q.fails) > 0 {
		return
	}
	q.steps = append(q.steps, &step{method: "eth_call", params: []string{"", `"pending"`},
		answer: func() Ans { return okAns("%q", hx(ret)) },
		print: func(r *Req) []string {
			var m map[string]json.RawMessage
			json.Unmarshal(r.Params[0], &m)
			if !strings.EqualFold(jstr(m["to"]), to.String()) || !strings.EqualFold(jstr(m["data"]), hx(data)) {
				t.Failf("wrong-request", "%q: eth_call %s, it should be to %s with %x", q.args, r.Params, to.String(), data)
			}
			if short {
				return []string{""}
			}
			out := []string{""}
			for _, a := range alts {
				var o []string
				for _, p := range out {
					for _, s := range a {
						o = append(o, p+s)
					}
				}
				out = o
			}
			return out
		}})
	if short {
		q.fails = append(q.fails, "the return value is too short")
	}
}

var selectorPreambles = []string{
	"6000357c0100000000000000000000000000000000000000000000000000000000900463ffffffff16",
	"63ffffffff6000357c0100000000000000000000000000000000000000000000000000000000900416",
	"63ffffffff7c01000000000000000000000000000000000000000000000000000000006000350416",
	"6000357c01000000000000000000000000000000000000000000000000000000009004",
	"63ffffffff60e060020a6000350416",
	"60e060020a60003504",
}

func (q *query) jumptab() {
	t := q.t
	q.args = []string{"jumptab"}
	code := t.Bytes(t.Choose(20))
	pre, _ := hex.DecodeString(selectorPreambles[t.Choose(len(selectorPreambles))])
	has := t.Choose(8) > 0
	if has {
		code = append(code, pre...)
	} else if len(code) == 0 || t.Choose(2) == 1 {
		q.fails = append(q.fails, "there is no jump table")
	} else {
		code = nil
		q.fails = append(q.fails, "there is no code")
	}
	var lines []string
	for i := t.Choose(8); i > 0 && has; i-- {
		sel := t.Bytes(4)
		name := ""
		if t.Choose(2) == 1 {
			name = []string{"name()", "transfer(address,uint256)", "collect()", "totalSupply()", "version()"}[t.Choose(5)]
			sel = keccak256([]byte(name))[:4]
		}
		if t.Choose(2) == 1 {
			code = append(append(append(code, 0x80, 0x63), sel...), 0x14)
		} else {
			code = append(append(append(code, 0x63), sel...), 0x81, 0x14)
		}
		w := 1 + t.Choose(4)
		d := t.Bytes(w)
		if w == 4 {
			d[0] &= 0x7f
		}
		code = append(append(append(code, byte(0x5f+w)), d...), 0x57)
		l := fmt.Sprintf("%x pc:%5d", sel, new(big.Int).SetBytes(d))
		if name != "" {
			l += " " + name
		}
		lines = append(lines, l+"\n")
	}
	if has {
		switch t.Choose(3) {
		case 0:
			code = append(code, make([]byte, 20)...)
		case 1:
			code = append(append(code, 0x5b), t.Bytes(t.Choose(30))...)
		case 2:
			// what looks like an entry, cut off
			e := append(append([]byte{0x80, 0x63}, t.Bytes(4)...), 0x14, 0x61, 1, 2, 0x57)
			code = append(code, e[:t.Choose(len(e))]...)
			// the last entry may be too close to the end to be told
		}
		code = append(code, make([]byte, []int{13, 13, 0}[t.Choose(3)])...)
	}
	out := []string{strings.Join(lines, "")}
	if n := len(lines); n > 0 {
		out = append(out, strings.Join(lines[:n-1], ""))
		if z := len(code) - 13; z >= 0 && bytes.Equal(code[z:], make([]byte, 13)) {
			out = out[:1]
		}
	}
	if t.Choose(3) == 2 {
		text := hex.EncodeToString(code)
		if t.Choose(2) == 1 {
			text += "\n"
		}
		q.args = append(q.args, "-")
		q.stdin = &inPipe{t: t, b: []byte(text), max: []int{0, 1, 50}[t.Choose(3)]}
		if t.Choose(6) == 5 {
			q.stdin.b, q.stdin.err = q.stdin.b[:t.Choose(len(text)+1)], syscall.EIO
			q.fails = append(q.fails, "reading standard input fails")
			t.Count("fault:stdin-error")
		}
		q.printed = out
		return
	}
	a, _ := t.genAddr()
	q.args = append(q.args, a.String())
	q.steps = []*step{{method: "eth_getCode", params: []string{jparam(a.String()), `"latest"`},
		answer: func() Ans { return okAns("%q", hx(code)) },
		print: func(*Req) []string {
			if len(q.fails) > 0 {
				return []string{""}
			}
			return out
		}}}
}

func (q *query) post() {
	t := q.t
	q.args = []string{"post"}
	n := t.Weighted(1, 6, 4, 2)
	if n == 0 {
		q.fails, q.early = append(q.fails, "no argument is given"), true
	}
	for i := 0; i < n; i++ {
		raw := append([]byte{0xf8}, t.Bytes(1+t.Choose(120))...)
		text := []byte(hex.EncodeToString(raw))
		if t.Choose(2) == 1 {
			text = append(text, '\n')
		}
		bad := ""
		if t.Choose(10) == 9 {
			bad = "the input is not hexadecimal"
			switch t.Choose(5) {
			case 0:
				text = nil
			case 1:
				text = append([]byte("0x"), text...)
			case 2:
				text[t.Choose(2*len(raw))] = 'g'
			case 3:
				text = text[1:]
			case 4:
				text = append(append([]byte{}, text...), "\n\n"...)
			}
		}
		if q.stdin == nil && t.Choose(4) == 3 {
			q.stdin = &inPipe{t: t, b: text, max: []int{0, 1, 13}[t.Choose(3)]}
			if t.Choose(8) == 7 {
				q.stdin.err = syscall.EIO
				q.stdin.b = text[:t.Choose(len(text)+1)]
				bad = "reading standard input fails"
				t.Count("fault:stdin-error")
			}
			q.args = append(q.args, "-")
		} else {
			p := fmt.Sprintf("/tmp/tx%d", i)
			t.W.FS.MkdirAll("/tmp")
			t.W.FS.Put(p, text)
			switch t.Choose(12) {
			case 10:
				q.fault["open "+p] = simworld.Fault{Err: syscall.EACCES}
				bad = "opening a file fails"
			case 11:
				q.fault["read "+p] = simworld.Fault{Err: syscall.EIO}
				bad = "reading a file fails"
			}
			q.args = append(q.args, p)
		}
		if bad != "" {
			q.fails, q.early = append(q.fails, bad), true
		}
		h := hx(keccak256(raw))
		q.steps = append(q.steps, &step{method: "eth_sendRawTransaction", raw: raw,
			answer: func() Ans { return okAns("%q", h) },
			print:  func(*Req) []string { return []string{h + "\n"} }})
	}
}

// ---- recover ----

func recoverRun(t *T) {
	k := t.genPriv()
	msg := t.Bytes(t.Choose(200))
	h := keccak256(msg)
	args := []string{"recover"}
	pub := t.Choose(3) == 2
	if pub {
		args = append(args, "-pub")
	}
	sig, err := gcrypto.Sign(h, gcrypto.ToECDSAUnsafe(k[:]))
	if err != nil {
		t.Failf("harness", "%v", err)
	}
	var fails []string
	switch t.Choose(8) {
	case 0:
		sig = sig[:t.Choose(65)]
		fails = append(fails, "the signature is too short")
	case 1:
		for i := range sig[:32] {
			sig[i] = 0xff
		}
	case 2:
		sig[64] = byte(2 + t.Choose(250))
	case 3:
		sig[t.Choose(64)] ^= byte(1 + t.Choose(255))
	}
	text := hx(sig)
	if t.Choose(8) == 7 {
		text = []string{"", "0x", "sig", text[2:] + "z"}[t.Choose(4)]
		fails = append(fails, "the argument is not a signature")
	}
	args = append(args, text)
	var in *inPipe
	if t.Choose(2) == 1 {
		in = &inPipe{t: t, b: msg, max: []int{0, 1, 50}[t.Choose(3)]}
		if t.Choose(6) == 5 {
			in.b, in.err = msg[:t.Choose(len(msg)+1)], syscall.EIO
			fails = append(fails, "reading standard input fails")
			t.Count("fault:stdin-error")
		}
	} else {
		args = append(args, hx(h))
	}
	c := t.newCommand(args...)
	if in != nil {
		c.p.Stdin = in
	}
	c.run(t)
	if c.panics != "" {
		t.Failf("crash", "%q crashes: %s", args, c.panics)
	}
	want := ""
	// s in the upper half of the order is not allowed since Homestead
	high := len(sig) == 65 && new(big.Int).SetBytes(sig[32:64]).Cmp(new(big.Int).Rsh(gcrypto.S256().Params().N, 1)) > 0
	if len(fails) == 0 && len(sig) == 65 {
		if p, err := gcrypto.Ecrecover(h, sig); err == nil {
			want = hx(gcrypto.Keccak256(p[1:])[12:]) + "\n"
			if pub {
				want = "" // any form that holds the point
				if c.code == 0 && !strings.Contains(strings.ToLower(c.out.b.String()), hex.EncodeToString(p[1:33])) {
					t.Failf("wrong-output", "%q prints %q, the key is %x", args, c.out.b.Bytes(), p)
				}
			}
		} else {
			fails = append(fails, "nobody can have made the signature: "+err.Error())
		}
	}
	if c.code == 0 {
		if len(fails) > 0 {
			t.Failf("failure-not-reported", "%q succeeds with %q although %s", args, c.out.b.Bytes(), strings.Join(fails, ", "))
		}
		if want != "" && strings.ToLower(c.out.b.String()) != want {
			t.Failf("wrong-output", "%q prints %q, the signer is %s", args, c.out.b.Bytes(), want)
		}
		t.Count("reach:recovered")
		return
	}
	if c.out.b.Len() > 0 {
		t.Failf("prints-more", "%q fails and prints %q", args, c.out.b.Bytes())
	}
	if len(fails) == 0 && !high {
		t.Failf("does-not-work", "%q fails with %d: %s", args, c.code, clip(c.errs.Bytes()))
	}
	t.Count("reach:failed")
}

// ---- keys ----

func keysRun(t *T) {
	w := t.genWallet()
	w.hsm = nil
	t.W.FS.Hook = w.hook
	c := t.newCommand("keys")
	c.p.Env = w.env
	before := t.W.FS.Snapshot()
	c.run(t)
	if c.panics != "" {
		t.Failf("crash", "eth keys crashes: %s", c.panics)
	}
	if d := diffSnap(before, t.W.FS.Snapshot()); d != "" {
		t.Failf("changes-files", "eth keys changes files: %s", d)
	}
	if c.code != 0 {
		if !w.missing && !w.dirFailed {
			t.Failf("does-not-work", "eth keys fails with %d: %s", c.code, clip(c.errs.Bytes()))
		}
		t.Count("reach:failed")
		return
	}
	if w.dirFailed {
		t.Failf("failure-not-reported", "eth keys succeeds although a directory cannot be read")
	}
	// one line per key, in any order
	want := map[string]int{}
	n := 0
	for _, k := range w.usable() {
		want[strings.Join(strings.Fields(k.id+" "+k.addr), " ")]++
		n++
	}
	got := 0
	for _, l := range strings.Split(c.out.b.String(), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		l = strings.Join(strings.Fields(l), " ")
		if want[l] == 0 {
			t.Failf("wrong-output", "eth keys lists %q, the keys are %v", l, want)
		}
		want[l]--
		got++
	}
	if got != n {
		t.Failf("incomplete", "eth keys lists %d of %d keys; missing %v", got, n, want)
	}
	t.Count("reach:listed")
}
