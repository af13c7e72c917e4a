package scen

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"time"
	"unsafe"

	"github.com/philhofer/seth"
	"verif.sim/simrt"
)

// A workload of concurrent callers on one stream client against a simulated
// node. Serves C01, C02, C03 and the stream half of C04.

type reply struct {
	kind string // value, error, null, missing
	val  string // JSON text of the result
	code int
	msg  string
}

type scall struct {
	id      int
	method  string
	params  string // canonical JSON of the parameter list
	start   int64
	end     int64
	done    bool
	err     error
	res     json.RawMessage
	resCopy string
	g       *simrt.G
	seen    []*sreq
	final   bool
	startAt time.Duration
	dials   int // dial failures at start
}

type sreq struct {
	conn    *Conn
	id      json.Number
	call    *scall
	replies []reply // complete replies put on the wire for it
	damaged bool    // a damaged reply was sent
}

type snode struct {
	t       *T
	prop    string
	conns   []*Conn
	calls   []*scall
	byKey   map[string]*scall
	reqs    []*sreq
	ids     map[string]*sreq
	down    bool
	dialErr int // one in n dials fails
	dialed  int
	failedD int
	connF   int // percent of faulty connections
	mode    int // 0 concurrent handlers, 1 sequential, 2 batches
	batch   int
	limitC  int
	limitS  int
	chunk   int
	maxLat  time.Duration
	strayP  int
	dupP    int
	errP    int
	loseP   int
	garbP   int
	big     bool
	huge    int
	healed  bool
	lost    int
	conc    int
	nfault  int
}

func (n *snode) fail(prop, class, f string, a ...interface{}) {
	if prop == n.prop {
		n.t.Failf(class, f, a...)
	}
	n.t.Count("other:" + prop + ":" + class)
}

func (n *snode) dial() (io.ReadWriteCloser, error) {
	t := n.t
	n.dialed++
	if t.Chance(1, 3) {
		simrt.Sleep(t.Dur(3 * time.Second))
	} else {
		simrt.Yield()
	}
	if n.down || !n.healed && n.dialErr > 0 && t.Chance(1, n.dialErr) {
		n.failedD++
		t.Count("fault:dial-error")
		t.Logf("dial refused")
		return nil, errors.New("simulated: connection refused")
	}
	c := &Conn{t: t, id: len(n.conns), wErrAt: -1, rErrAt: -1, eofAt: -1, chunk: n.chunk}
	c.c2s.limit, c.s2c.limit = n.limitC, n.limitS
	if !n.healed && t.Chance(n.connF, 100) {
		at := t.Choose(400)
		if t.Choose(3) == 0 {
			at = t.Choose(8000)
		}
		switch t.Choose(3) {
		case 0:
			c.wErrAt = at
			c.wOnce = t.Choose(3) == 2
		case 1:
			c.rErrAt = at
		case 2:
			c.eofAt = at
		}
	}
	n.conns = append(n.conns, c)
	t.Logf("dialed conn%d w=%d r=%d e=%d", c.id, c.wErrAt, c.rErrAt, c.eofAt)
	t.Go(fmt.Sprintf("srv%d", c.id), func() { n.serve(c) })
	return c, nil
}

type wireReq struct {
	Version *string         `json:"jsonrpc"`
	Method  *string         `json:"method"`
	Params  json.RawMessage `json:"params"`
	ID      json.Number     `json:"id"`
}

func compact(b []byte) string {
	var o bytes.Buffer
	if json.Compact(&o, b) != nil {
		return string(b)
	}
	return o.String()
}

func (n *snode) serve(c *Conn) {
	t := n.t
	off := 0
	var batch []*sreq
	for {
		if c.srvRead() == nil {
			break
		}
		for {
			rest := c.raw[off:]
			if len(bytes.TrimSpace(rest)) == 0 {
				break
			}
			dec := json.NewDecoder(bytes.NewReader(rest))
			var one json.RawMessage
			err := dec.Decode(&one)
			if err == io.EOF || err == io.ErrUnexpectedEOF {
				break
			}
			if err != nil {
				n.fail("C03", "malformed-request", "the client put malformed bytes on conn%d: %q", c.id, clip(rest))
				c.srvClose(true)
				return
			}
			off += int(dec.InputOffset())
			r := n.request(c, one)
			if r == nil {
				continue
			}
			switch n.mode {
			case 0:
				t.Go(fmt.Sprintf("h%s", r.id), func() { n.answer(r) })
			case 1:
				n.answer(r)
			case 2:
				batch = append(batch, r)
				if len(batch) >= n.batch {
					b := batch
					batch = nil
					for len(b) > 0 {
						i := t.Choose(len(b))
						n.answer(b[i])
						b = append(b[:i:i], b[i+1:]...)
					}
				} else if len(batch) == 1 {
					t.Go("flush", func() {
						simrt.Sleep(2 * time.Second)
						b := batch
						batch = nil
						for _, r := range b {
							n.answer(r)
						}
					})
				}
			}
		}
	}
}

func clip(b []byte) string {
	if len(b) > 300 {
		return string(b[:300]) + "..."
	}
	return string(b)
}

func (n *snode) request(c *Conn, one json.RawMessage) *sreq {
	var w wireReq
	d := json.NewDecoder(bytes.NewReader(one))
	d.DisallowUnknownFields()
	if err := d.Decode(&w); err != nil || w.Version == nil || *w.Version != "2.0" || w.Method == nil || w.ID == "" {
		n.fail("C03", "not-jsonrpc", "not a JSON-RPC 2.0 request: %s", clip(one))
		return nil
	}
	var m map[string]json.RawMessage
	json.Unmarshal(one, &m)
	r := &sreq{conn: c, id: w.ID}
	n.t.Logf("request id=%s method=%s", w.ID, *w.Method)
	if o := n.ids[string(w.ID)]; o != nil {
		n.fail("C03", "duplicate-id", "request id %s used twice: %s", w.ID, clip(one))
	}
	n.ids[string(w.ID)] = r
	key := *w.Method + " " + compact(w.Params)
	call := n.byKey[key]
	if call == nil {
		n.fail("C03", "unknown-request", "a request that no caller made: %s", clip(one))
		return nil
	}
	if len(call.seen) > 0 {
		n.fail("C03", "sent-twice", "call %s reached the node twice", key)
	}
	call.seen = append(call.seen, r)
	r.call = call
	n.reqs = append(n.reqs, r)
	return r
}

func (n *snode) mkReply(r *sreq) (reply, []byte) {
	t := n.t
	rp := reply{kind: "value"}
	tok := fmt.Sprintf("%s#%d", r.call.method, len(r.replies))
	if t.Chance(n.errP, 100) {
		rp.kind = []string{"error", "null", "error"}[t.Choose(3)]
	}
	switch rp.kind {
	case "value":
		pad := ""
		if n.big {
			pad = strings.Repeat("x", t.Choose(3000))
		}
		if n.huge > 0 && t.Choose(3) == 2 {
			pad = strings.Repeat("x", n.huge+t.Choose(10))
			t.Count("reach:huge-reply")
		}
		rp.val = fmt.Sprintf(`{"token":%q,"pad":%q}`, tok, pad)
		if t.Choose(4) == 3 {
			rp.val = fmt.Sprintf("%q", tok)
		}
		extra := ""
		if t.Choose(6) == 5 {
			extra = `"error":null,`
		}
		return rp, []byte(fmt.Sprintf(`{"jsonrpc":"2.0",%s"id":%s,"result":%s}`, extra, r.id, rp.val) + "\n")
	case "error":
		rp.code = []int{-32000, -32601, 3, 0}[t.Choose(4)]
		rp.msg = "E " + tok
		return rp, []byte(fmt.Sprintf(`{"jsonrpc":"2.0","error":{"code":%d,"message":%q},"id":%s}`, rp.code, rp.msg, r.id) + "\n")
	default:
		return rp, []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":null}`, r.id) + "\n")
	}
}

// put serialises replies on a connection.
func (n *snode) put(c *Conn, b []byte) bool {
	simrt.WaitIO("server turn", func() bool { return c.writers == 0 || c.sclosed })
	if c.sclosed {
		return false
	}
	c.writers++
	ok := c.srvWrite(b)
	c.writers--
	return ok
}

func (n *snode) answer(r *sreq) {
	t := n.t
	c := r.conn
	if d := t.Dur(n.maxLat); d > 0 && t.Choose(2) == 1 {
		simrt.Sleep(d)
	}
	if !n.healed && t.Chance(n.strayP, 100) {
		t.Count("fault:stray-reply")
		id := 1000000 + t.Choose(1000)
		if t.Choose(2) == 1 && len(n.reqs) > 1 {
			// a late duplicate for some earlier request
			o := n.reqs[t.Choose(len(n.reqs))]
			if len(o.replies) > 0 {
				rp, b := n.mkReply(o)
				o.replies = append(o.replies, rp)
				n.put(c, b)
				id = -1
			}
		}
		if id >= 0 {
			n.put(c, []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"result":"stray"}`+"\n", id)))
		}
	}
	if !n.healed && t.Chance(n.loseP, 100) {
		t.Count("fault:reply-lost")
		t.Logf("reply to %s lost", r.id)
		c.Faulty = true
		t.Go("reset-later", func() {
			simrt.Sleep(t.Dur(20 * time.Second))
			c.srvClose(t.Choose(2) == 1)
		})
		return
	}
	if !n.healed && t.Chance(n.garbP, 100) {
		t.Count("fault:garbage")
		c.Faulty = true
		r.damaged = true
		var g []byte
		switch t.Choose(5) {
		case 0:
			g = []byte("]\x00garbage{{{\n")
		case 1:
			g = []byte(`{"jsonrpc":"2.0","id":` + string(r.id) + `,"result":"tru`)
		case 2:
			g = []byte(`{"jsonrpc":"2.0","id":"str","result":1}` + "\n")
		case 3:
			g = []byte(`{"jsonrpc":"2.0","id":` + string(r.id) + "\xff\xfe}")
		case 4:
			g = []byte("[1,2,3]\n")
		}
		n.put(c, g)
		if t.Choose(2) == 0 {
			simrt.Sleep(t.Dur(time.Second))
			c.srvClose(t.Choose(2) == 1)
			return
		}
		t.Go("reset-later", func() {
			simrt.Sleep(5 * time.Second)
			c.srvClose(false)
		})
		return
	}
	rp, b := n.mkReply(r)
	r.replies = append(r.replies, rp)
	t.Logf("reply id=%s %s", r.id, rp.kind)
	n.put(c, b)
	if !n.healed && t.Chance(n.dupP, 100) {
		t.Count("fault:duplicate-reply")
		b2 := b
		if t.Choose(2) == 1 {
			var rp2 reply
			rp2, b2 = n.mkReply(r)
			r.replies = append(r.replies, rp2)
		}
		n.put(c, b2)
	}
}

// one call by a client goroutine
func (n *snode) call(cl *seth.Client, g int, k int) *scall {
	t := n.t
	c := &scall{id: len(n.calls), method: fmt.Sprintf("m_%d_%d", g, k)}
	np := t.Choose(3)
	var params []json.RawMessage
	for i := 0; i < np; i++ {
		p := fmt.Sprintf(`"p%d"`, t.Choose(100))
		if n.big && t.Choose(2) == 1 {
			p = fmt.Sprintf("%q", strings.Repeat("y", t.Choose(2000)))
		}
		if n.huge > 0 && t.Choose(3) == 2 {
			p = fmt.Sprintf("%q", strings.Repeat("y", n.huge+t.Choose(10)))
			t.Count("reach:huge-request")
		}
		params = append(params, json.RawMessage(p))
	}
	pb, _ := json.Marshal(params)
	c.params = compact(pb)
	n.byKey[c.method+" "+c.params] = c
	n.calls = append(n.calls, c)
	c.start = t.Seq()
	c.startAt = t.Now()
	c.dials = n.failedD
	t.Logf("call %s", c.method)
	n.conc++
	if n.conc > 1 {
		t.Count("reach:concurrent-calls")
	}
	err := cl.Do(c.method, params, &c.res)
	n.conc--
	c.err = err
	c.done = true
	c.end = t.Seq()
	c.resCopy = string(c.res)
	t.Logf("return %s err=%v res=%.40s", c.method, err, c.res)
	n.judge(c)
	return c
}

func (n *snode) judge(c *scall) {
	t := n.t
	if len(c.seen) == 0 {
		if c.err == nil {
			n.fail("C04", "success-without-request", "call %s reported success but the node never saw it", c.method)
			n.fail("C01", "success-without-request", "call %s reported success but the node never saw it", c.method)
		}
		return
	}
	r := c.seen[0]
	if c.err == nil {
		for _, rp := range r.replies {
			if rp.kind == "value" && rp.val == compact(c.res) {
				t.Count("reach:value")
				return
			}
		}
		n.fail("C01", "wrong-value", "call %s returned %s, which the node did not send in answer to it (%d replies)", c.method, clip(c.res), len(r.replies))
		n.fail("C04", "wrong-value", "call %s returned %s, which the node did not send in answer to it", c.method, clip(c.res))
		return
	}
	var re *seth.RPCError
	if e, ok := asRPC(c.err); ok {
		re = e
	}
	if re != nil {
		for _, rp := range r.replies {
			if rp.kind == "error" && rp.code == re.Code && rp.msg == re.Message {
				t.Count("reach:rpc-error")
				return
			}
		}
		n.fail("C04", "wrong-error", "call %s failed with RPC error %v, which the node did not send for it", c.method, re)
		n.fail("C01", "wrong-error", "call %s failed with RPC error %v, which the node did not send for it", c.method, re)
		return
	}
	if errors.Is(c.err, seth.ErrNotFound) {
		for _, rp := range r.replies {
			if rp.kind == "null" {
				t.Count("reach:null")
				return
			}
		}
		n.fail("C04", "wrong-notfound", "call %s returned not-found, but the node did not answer null", c.method)
		n.fail("C01", "wrong-notfound", "call %s returned not-found, but the node did not answer null", c.method)
		return
	}
	if !r.conn.Faulty {
		n.fail("C02", "error-on-healthy-connection", "call %s failed with %q although its connection conn%d never failed", c.method, c.err, r.conn.id)
		n.fail("C04", "error-on-healthy-connection", "call %s failed with %q although its connection conn%d never failed", c.method, c.err, r.conn.id)
		n.fail("C01", "error-on-healthy-connection", "call %s failed with %q although its connection conn%d never failed", c.method, c.err, r.conn.id)
	}
	t.Count("reach:transport-error")
}

func streamBody(prop string, faults bool) func(t *T) {
	return func(t *T) {
		n := &snode{t: t, prop: prop, byKey: map[string]*scall{}, ids: map[string]*sreq{}}
		n.mode = t.Choose(3)
		n.batch = 2 + t.Choose(3)
		n.limitC = []int{65536, 0, 16, 200}[t.Choose(4)]
		n.limitS = []int{65536, 0, 16, 200}[t.Choose(4)]
		n.chunk = []int{0, 1, 7, 60}[t.Weighted(4, 1, 2, 3)]
		n.maxLat = []time.Duration{0, 10 * time.Millisecond, time.Second, 20 * time.Second}[t.Choose(4)]
		n.errP = []int{0, 30}[t.Choose(2)]
		n.big = t.Choose(3) == 2
		if k := t.Choose(200); k >= 195 {
			// more than buffers and limits that may be anywhere
			n.huge = []int{4090, 65520, 65530, 140000, 600000}[k-195]
			n.limitC, n.limitS, n.chunk = 65536, 65536, 0
		}
		if faults {
			n.dialErr = []int{0, 2, 5}[t.Choose(3)]
			n.connF = []int{0, 40, 80}[t.Choose(3)]
			n.strayP = []int{0, 20}[t.Choose(2)]
			n.dupP = []int{0, 20}[t.Choose(2)]
			n.loseP = []int{0, 0, 8}[t.Choose(3)]
			n.garbP = []int{0, 0, 8}[t.Choose(3)]
		} else if t.Choose(2) == 1 {
			// stray and duplicate replies are no failure of the connection
			n.strayP, n.dupP = 20, 20
		}
		cl := seth.NewClient(n.dial)
		if t.Choose(5) == 4 {
			// a client that has made very many calls before
			for i := 0; i < 2; i++ {
				n.call(cl, 90, i)
			}
			ageClient(t, cl)
		}
		ng := t.Range(1, 5)
		nc := t.Range(1, 4)
		var gs []*simrt.G
		for g := 0; g < ng; g++ {
			g := g
			gs = append(gs, t.Go(fmt.Sprintf("c%d", g), func() {
				for k := 0; k < nc; k++ {
					if t.Choose(4) == 3 {
						simrt.Sleep(t.Dur(4 * time.Second))
					}
					n.call(cl, g, k)
				}
			}))
		}
		if faults && t.Choose(3) == 2 {
			gs = append(gs, t.Go("chaos", func() {
				for i := 0; i < 1+t.Choose(2); i++ {
					simrt.Sleep(t.Dur(10 * time.Second))
					t.Count("fault:node-crash")
					t.Logf("node crash")
					n.down = true
					for _, c := range n.conns {
						c.Faulty = true
						c.srvClose(t.Choose(2) == 1)
					}
					simrt.Sleep(t.Dur(5 * time.Second))
					n.down = false
				}
			}))
		}
		if !t.JoinWithin(4*time.Minute, gs...) {
			// unanswered requests end with their connections; nothing may
			// hang once those are gone
			for _, c := range n.conns {
				if c.wFired && !c.closed {
					// the read side may stay silent for ever
					n.fail("C02", "write-error-ignored", "a write on conn%d failed, yet the connection is still in use minutes later", c.id)
				}
			}
			n.healed = true
			n.down = false
			for _, c := range n.conns {
				if c.Faulty {
					c.srvClose(true)
				}
			}
			if !t.JoinWithin(4*time.Minute, gs...) {
				var stuck []string
				for _, c := range n.calls {
					if !c.done {
						stuck = append(stuck, fmt.Sprintf("%s(seen=%d replies=%d)", c.method, len(c.seen), replies(c)))
					}
				}
				t.Failf("hang", "calls never return: %s; goroutines: %s", strings.Join(stuck, " "), strings.Join(t.Live(), ", "))
			}
		}
		n.healed = true
		n.down = false
		// broken connections come to their end
		for _, c := range n.conns {
			if c.Faulty || c.wErrAt >= 0 || c.rErrAt >= 0 || c.eofAt >= 0 {
				if !c.closed {
					c.Faulty = true
				}
				c.srvClose(false)
			}
		}
		t.Quiet(30 * time.Second)
		// everything that failed is closed, and its goroutines have ended
		open := 0
		for _, c := range n.conns {
			if c.Faulty && !c.closed {
				n.fail("C02", "failed-connection-left-open", "conn%d failed (%s) but was never closed by the client", c.id, c.faultAt)
			}
			if !c.closed {
				open++
			}
		}
		if open > 1 {
			n.fail("C02", "connections-leaked", "%d connections open at once at rest", open)
		}
		if l := len(t.Live()); l > 3*open {
			n.fail("C02", "goroutine-leak", "%d goroutines for %d open connections: %s", l, open, strings.Join(t.Live(), ", "))
		}
		// the node is reachable: a new call must work
		before := n.failedD
		var fc *scall
		n.errP, n.loseP, n.garbP = 0, 0, 0
		g := t.Go("final", func() { fc = n.call(cl, 99, 0) })
		if !t.JoinWithin(5*time.Minute, g) {
			t.Failf("hang", "a call on the recovered node never returns; goroutines: %s", strings.Join(t.Live(), ", "))
		}
		if fc.err != nil {
			n.fail("C02", "no-recovery", "the node is reachable again but a call fails: %v (dial failures %d)", fc.err, n.failedD-before)
		}
		t.Quiet(10 * time.Second)
		for _, c := range n.calls {
			if string(c.res) != c.resCopy {
				n.fail("C01", "changed-after-return", "the result of %s changed after the call returned: %s -> %s", c.method, c.resCopy, c.res)
			}
		}
		for _, c := range n.conns {
			// bytes that are no complete request may only be the tail of a
			// failed connection
			rest := c.raw
			for {
				dec := json.NewDecoder(bytes.NewReader(rest))
				var one json.RawMessage
				if dec.Decode(&one) != nil {
					break
				}
				rest = rest[dec.InputOffset():]
			}
			if len(bytes.TrimSpace(rest)) > 0 && !c.Faulty {
				n.fail("C03", "partial-request", "conn%d carries an incomplete request: %q", c.id, clip(rest))
			}
		}
		if len(n.conns) > 1 {
			t.Count("reach:redial")
		}
	}
}

// ageClient advances the client's request counter to just before a number at
// which a narrower counter would wrap around, as if that many calls had been
// made. It does nothing if the client keeps no such counter.
func ageClient(t *T, cl *seth.Client) {
	to := []uint64{1<<8 - 2, 1<<16 - 2, 1<<31 - 2, 1<<32 - 2, 1<<53 - 20}[t.Choose(5)]
	v := reflect.ValueOf(cl).Elem()
	var ctr []reflect.Value
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch f.Kind() {
		case reflect.Int, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			ctr = append(ctr, reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem())
		}
	}
	if len(ctr) != 1 {
		return
	}
	switch f := ctr[0]; f.Kind() {
	case reflect.Int, reflect.Int32, reflect.Int64:
		if !f.OverflowInt(int64(to)+1000) && f.Int() >= 0 && f.Int() < int64(to) {
			f.SetInt(int64(to))
			t.Count("reach:aged-client")
		}
	default:
		if !f.OverflowUint(to+1000) && f.Uint() < to {
			f.SetUint(to)
			t.Count("reach:aged-client")
		}
	}
	t.Logf("client aged to %d calls", to)
}

func replies(c *scall) int {
	if len(c.seen) == 0 {
		return 0
	}
	return len(c.seen[0].replies)
}

func init() {
	for _, p := range []string{"C01", "C02", "C03", "C04"} {
		Register(&Scenario{Prop: p, Name: "stream-faults", Weight: 3, Body: streamBody(p, true)})
		Register(&Scenario{Prop: p, Name: "stream-clean", Weight: 1, Body: streamBody(p, false)})
	}
}
