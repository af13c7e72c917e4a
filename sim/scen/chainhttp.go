package scen

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
	"verif.sim/simrt"
)

// T14: the HTTP endpoint of a chain.

func init() {
	Register(&Scenario{Prop: "T14", Name: "endpoint", Weight: 2, NoPreempt: true, Body: httpSeq})
	Register(&Scenario{Prop: "T14", Name: "endpoint-raw", Weight: 2, NoPreempt: true, Body: httpRaw})
	Register(&Scenario{Prop: "T14", Name: "endpoint-fork", NoPreempt: true, Body: httpFork})
	Register(&Scenario{Prop: "T14", Name: "endpoint-concurrent", Body: httpConc})
}

// httpHandler serves requests of clients in place of a Node.
var httpHandler *endpoint

// endpoint is a chain behind a simulated HTTP server.
type endpoint struct {
	t *T
	c *tevm.Chain
}

// reqBody is the body of a request as it arrives from the network.
type reqBody struct {
	t      *T
	b      []byte
	chunk  int
	err    error  // at the end
	stall  func() // before the end
	closed int
}

func (r *reqBody) Read(p []byte) (int, error) {
	simrt.Yield()
	if len(r.b) == 0 {
		if r.stall != nil {
			r.stall()
			r.stall = nil
		}
		return 0, r.err
	}
	n := len(r.b)
	if r.chunk > 0 && n > r.chunk {
		if n = 1 + r.t.Choose(r.chunk); len(r.b) > 8192 {
			n += len(r.b) / 16
		}
	}
	n = copy(p, r.b[:n])
	r.b = r.b[n:]
	if len(r.b) == 0 && r.stall == nil && r.t.Choose(2) == 1 {
		return n, r.err
	}
	return n, nil
}

func (r *reqBody) Close() error { r.closed++; return nil }

// respWriter is what the handler answers to.
type respWriter struct {
	t      *T
	hdr    http.Header
	status int
	twice  bool
	body   bytes.Buffer
	failAt int // write error after this many bytes, or -1
	failed bool
	stall  func()
}

func (w *respWriter) Header() http.Header { return w.hdr }
func (w *respWriter) WriteHeader(s int) {
	simrt.Yield()
	if w.status != 0 {
		w.twice = true
		return
	}
	w.status = s
}
func (w *respWriter) Write(b []byte) (int, error) {
	simrt.Yield()
	if w.status == 0 {
		w.status = 200
	}
	if w.stall != nil {
		w.stall()
		w.stall = nil
	}
	if w.failAt >= 0 && w.body.Len()+len(b) > w.failAt {
		w.failed = true
		n := w.failAt - w.body.Len()
		w.body.Write(b[:n])
		return n, errWrite
	}
	return w.body.Write(b)
}

func (h *endpoint) request(body *reqBody) (*http.Request, *respWriter) {
	rq, _ := http.NewRequest("POST", "http://chain.example:8043/", body)
	rq.ContentLength = -1
	return rq, &respWriter{t: h.t, hdr: http.Header{}, failAt: -1}
}

// serve passes one request to the chain and looks at the form of its answer.
func (h *endpoint) serve(body *reqBody, prep func(w *respWriter)) *respWriter {
	rq, w := h.request(body)
	if prep != nil {
		prep(w)
	}
	h.c.ServeHTTP(w, rq)
	h.t.Count("reach:http-request")
	if w.failed {
		return w
	}
	if w.status == 0 {
		w.status = 200 // what net/http makes of a handler that returns silently
	}
	if w.twice {
		h.t.Failf("answered-twice", "a request got two status codes")
	}
	if w.status == 200 {
		d := json.NewDecoder(bytes.NewReader(w.body.Bytes()))
		var v map[string]json.RawMessage
		if err := d.Decode(&v); err != nil {
			h.t.Failf("no-answer", "a request got status 200 and the body %q", w.body.Bytes())
		}
		var rest json.RawMessage
		if err := d.Decode(&rest); err != io.EOF {
			h.t.Failf("answered-twice", "a request got more than one reply: %q", w.body.Bytes())
		}
	}
	return w
}

func serveHTTP(h *endpoint, hr *http.Request) (*http.Response, error) {
	t := h.t
	simrt.Yield()
	var b []byte
	var err error
	if hr.Body != nil {
		b, err = io.ReadAll(hr.Body)
		hr.Body.Close()
	}
	if err != nil {
		return nil, err
	}
	w := h.serve(&reqBody{t: t, b: b, chunk: []int{0, 1, 9, 100}[t.Choose(4)], err: io.EOF}, nil)
	return &http.Response{StatusCode: w.status, Status: fmt.Sprintf("%d %s", w.status, http.StatusText(w.status)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: w.hdr, Body: io.NopCloser(bytes.NewReader(w.body.Bytes())), ContentLength: -1, Request: hr}, nil
}

// overHTTP puts a world behind its endpoint.
func (w *cw) overHTTP() *endpoint {
	h := &endpoint{t: w.t, c: w.c}
	httpHandler = h
	w.dial = func() *seth.Client { return seth.NewHTTPClient("http://chain.example:8043/") }
	w.cl = w.dial()
	return h
}

// wireForm says what a request body asks for; ok is false if it is no request.
func wireForm(b []byte) (m seth.RPCRequest, ok bool) {
	var x struct {
		Version string            `json:"jsonrpc"`
		Method  string            `json:"method"`
		Params  []json.RawMessage `json:"params"`
		ID      int               `json:"id"`
	}
	if json.NewDecoder(bytes.NewReader(b)).Decode(&x) != nil {
		return m, false
	}
	return seth.RPCRequest{Version: x.Version, Method: x.Method, Params: x.Params, ID: x.ID}, true
}

var rpcMethods = []string{"eth_call", "eth_sendTransaction", "eth_estimateGas", "eth_getBalance", "eth_getBlockByNumber", "eth_getBlockByHash",
	"eth_getTransactionReceipt", "eth_getTransactionByHash", "eth_blockNumber", "eth_gasPrice", "eth_syncing", "eth_protocolVersion",
	"eth_newFilter", "eth_getFilterChanges", "eth_getFilterLogs", "eth_uninstallFilter", "eth_accounts", "", "net_version", "eth_getCode"}

// rawRequest makes the body of some request, well-formed more often than not.
func (e *chainEnv) rawRequest() []byte {
	t := e.t
	block := func() string {
		switch t.Choose(8) {
		case 0:
			return `"latest"`
		case 1:
			return `"pending"`
		case 2:
			return `"earliest"`
		case 3:
			return `-` + fmt.Sprint(t.Choose(4))
		case 4:
			return t.hostileToken()
		}
		return fmt.Sprintf(`"0x%x"`, e.first+uint64(t.Choose(e.blocks+2)))
	}
	quantity := func() string {
		switch t.Choose(6) {
		case 0:
			return []string{`"0x7fffffffffffffff"`, `"0x8000000000000000"`, `"0xffffffffffffffff"`, `"0x10000000000000000"`, `"0x5f5e100"`}[t.Choose(5)]
		case 1:
			return t.hostileToken()
		}
		return fmt.Sprintf(`"0x%x"`, []int{0, 1, 21000, 400000, 6000000}[t.Choose(5)])
	}
	tx := func() string {
		var f []string
		add := func(k, v string) {
			if t.Choose(8) > 0 {
				f = append(f, fmt.Sprintf(`"%s":%s`, k, v))
			}
		}
		add("from", fmt.Sprintf(`"0x%x"`, e.sender()))
		if t.Choose(6) > 0 {
			add("to", fmt.Sprintf(`"0x%x"`, e.any()))
		}
		add("gas", quantity())
		if t.Choose(2) == 1 {
			add("gasPrice", quantity())
		}
		if t.Choose(3) == 1 {
			add("value", quantity())
		}
		d := seth.ABIEncode("f(uint256)", e.word())
		if t.Choose(4) == 0 {
			d = t.Bytes(t.Choose(80))
		}
		add("data", fmt.Sprintf(`"0x%x"`, d))
		if t.Choose(6) == 0 {
			f = append(f, fmt.Sprintf(`"%s":%s`, []string{"from", "to", "gas", "data", "input"}[t.Choose(5)], t.hostileToken()))
		}
		return "{" + strings.Join(f, ",") + "}"
	}
	m := rpcMethods[t.Choose(len(rpcMethods))]
	if t.Choose(2) == 1 {
		m = rpcMethods[t.Choose(3)]
	}
	var p []string
	switch m {
	case "eth_call", "eth_estimateGas":
		p = []string{tx(), block()}
	case "eth_sendTransaction":
		p = []string{tx()}
	case "eth_getBalance":
		p = []string{fmt.Sprintf(`"0x%x"`, e.any()), block()}
	case "eth_getBlockByNumber":
		p = []string{block(), fmt.Sprint(t.Choose(2) == 1)}
	case "eth_getBlockByHash":
		h := refHash(e.first + uint64(t.Choose(e.blocks+2)))
		p = []string{fmt.Sprintf(`"0x%x"`, h), fmt.Sprint(t.Choose(2) == 1)}
	case "eth_getTransactionReceipt", "eth_getTransactionByHash":
		h := e.txHash()
		p = []string{fmt.Sprintf(`"0x%x"`, h[:])}
	case "eth_newFilter":
		p = []string{string(e.filterArgs().json(t))}
	case "eth_getFilterChanges", "eth_getFilterLogs", "eth_uninstallFilter":
		p = []string{quantity()}
	}
	switch t.Choose(10) {
	case 0:
		p = append(p, t.hostileToken())
	case 1:
		if len(p) > 0 {
			p = p[:len(p)-1]
		}
	case 2:
		if len(p) > 0 {
			p[t.Choose(len(p))] = t.hostileToken()
		}
	}
	id := fmt.Sprint(t.Choose(1000))
	switch t.Choose(10) {
	case 0:
		id = []string{"-7", "9223372036854775807", "0", "4294967296"}[t.Choose(4)]
	case 1:
		id = []string{`"x"`, "null", "1.5", "9223372036854775808", "{}"}[t.Choose(5)]
	}
	ps := "[" + strings.Join(p, ",") + "]"
	if t.Choose(12) == 0 {
		ps = []string{"null", "{}", `"x"`, "[[]]", "[null]"}[t.Choose(5)]
	}
	ver := `"2.0"`
	if t.Choose(12) == 0 {
		ver = []string{`"1.0"`, `2`, `null`, `""`}[t.Choose(4)]
	}
	mj, _ := json.Marshal(m)
	f := []string{`"jsonrpc":` + ver, `"id":` + id, `"method":` + string(mj), `"params":` + ps}
	if t.Choose(4) == 3 {
		for i := range f {
			j := t.Choose(i + 1)
			f[i], f[j] = f[j], f[i]
		}
	}
	if t.Choose(6) == 5 {
		k := t.Choose(len(f))
		f = append(f[:k:k], f[k+1:]...) // left out
	}
	pad := ""
	if t.Choose(30) == 29 { // a big body
		pad = strings.Repeat(" ", []int{3000, 30000, 70000, 140000, 1100000}[t.Weighted(4, 4, 4, 3, 1)])
	}
	return []byte("{" + strings.Join(f, ","+pad) + "}")
}

// badParams says why the parameters of a request are no parameters of its
// method under any reading.
func badParams(r *seth.RPCRequest) string {
	kinds := map[string]string{"eth_call": "xn", "eth_estimateGas": "xn", "eth_sendTransaction": "x", "eth_getBalance": "an", "eth_getBlockByNumber": "nb",
		"eth_getBlockByHash": "hb", "eth_getTransactionReceipt": "h", "eth_getTransactionByHash": "h", "eth_newFilter": "o", "eth_getFilterChanges": "q",
		"eth_getFilterLogs": "q", "eth_uninstallFilter": "q"}[r.Method]
	hex := func(v interface{}, n int) bool {
		s, ok := v.(string)
		if !ok || !strings.HasPrefix(s, "0x") || n >= 0 && len(s) != 2+2*n {
			return false
		}
		return strings.Trim(s[2:], "0123456789abcdefABCDEF") == ""
	}
	for i, k := range kinds {
		if i >= len(r.Params) {
			break
		}
		var v interface{}
		if json.Unmarshal(r.Params[i], &v) != nil || v == nil {
			continue
		}
		bad := false
		switch k {
		case 'a':
			bad = !hex(v, 20)
		case 'h':
			bad = !hex(v, 32)
		case 'b':
			_, ok := v.(bool)
			bad = !ok
		case 'n', 'q':
			switch x := v.(type) {
			case string:
				bad = strings.Trim(x, "0123456789abcdefxABCDEFXo_-+\" ") != "" && x != "latest" && x != "pending" && x != "earliest"
			case float64:
			default:
				bad = true
			}
		case 'o':
			_, ok := v.(map[string]interface{})
			bad = !ok
		case 'x':
			m, ok := v.(map[string]interface{})
			if !ok {
				bad = true
				break
			}
			for f, y := range m {
				if y == nil {
					continue
				}
				switch f {
				case "from", "to":
					bad = bad || !hex(y, 20)
				case "data":
					if s, ok := y.(string); !ok || s != "" && !hex(y, -1) {
						bad = true
					}
				case "gas", "gasPrice", "value":
					switch x := y.(type) {
					case string:
						bad = bad || strings.Trim(x, "0123456789abcdefxABCDEFXo_-+\" ") != ""
					case float64:
					default:
						bad = true
					}
				}
			}
		}
		if bad {
			return fmt.Sprintf("parameter %d cannot be %.60q", i, r.Params[i])
		}
	}
	return ""
}

// oddCode is a program of arbitrary instructions.
func (t *T) oddCode() []byte {
	if t.Choose(4) == 0 { // loops for ever
		switch t.Choose(3) {
		case 0:
			return []byte{0x5b, 0x60, 0, 0x56}
		case 1:
			return []byte{0x5b, 0x60, 1, 0x60, 1, 0x55, 0x60, 0, 0x56}
		}
		// calls itself
		return []byte{0x60, 0, 0x80, 0x80, 0x80, 0x80, 0x30, 0x5a, 0xf1, 0x60, 0, 0x56}
	}
	var b []byte
	big32 := func() {
		x := pad32([]*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(32), big.NewInt(1 << 40), new(big.Int).Lsh(big.NewInt(1), 255), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)), new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(1<<63 - 1)}[t.Choose(8)])
		b = append(append(b, 0x7f), x...)
	}
	for k := 1 + t.Choose(12); k > 0; k-- {
		switch t.Choose(4) {
		case 0:
			b = append(b, 0x60, byte(t.Choose(12)))
		case 1:
			big32()
		default:
			if t.Choose(2) == 0 { // enough operands
				for i := 0; i < 7; i++ {
					if t.Choose(4) == 0 {
						big32()
					} else {
						b = append(b, 0x60, byte(t.Choose(40)))
					}
				}
			}
			op := byte(t.Choose(256))
			if t.Choose(2) == 0 {
				op = []byte{0x20, 0x31, 0x37, 0x39, 0x3a, 0x3b, 0x3c, 0x3e, 0x3f, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x51, 0x52, 0x54, 0x55, 0x58, 0x59, 0xa0, 0xa4, 0xf0, 0xf1, 0xf2, 0xf3, 0xf4, 0xf5, 0xfa, 0xfd, 0xff, 0x0a, 0x05, 0x09, 0x1b, 0x1d}[t.Choose(39)]
			}
			b = append(b, op)
		}
	}
	return b
}

var errCut = errors.New("simulated: connection lost while reading the request")

// refused sends something that is no request (or a damaged one) and checks
// that it is answered once and changes nothing.
func (h *endpoint) refused(w *cw, b []byte, end error) {
	t := h.t
	before := w.dump()
	_, ok := wireForm(b)
	if ok {
		return
	}
	t.Count("fault:malformed-request")
	rw := h.serve(&reqBody{t: t, b: b, chunk: []int{0, 1, 9}[t.Choose(3)], err: end}, nil)
	t.Logf("malformed request %.60q: status %d", b, rw.status)
	if rw.status == 200 {
		var a struct {
			Error *struct{ Code int }
		}
		if json.Unmarshal(rw.body.Bytes(), &a) != nil || a.Error == nil || a.Error.Code == 0 {
			t.Failf("malformed-accepted", "a request that does not parse (%.200q) got status %d and %.200q", b, rw.status, rw.body.Bytes())
		}
	} else if rw.status < 400 {
		t.Failf("malformed-accepted", "a request that does not parse (%.200q) got status %d", b, rw.status)
	}
	if d := diffLines(w.dump(), before); d != "" {
		t.Failf("malformed-had-effect", "a request that does not parse (%.200q) changed the chain: %s", b, d)
	}
}

// httpSeq: operations through the endpoint, between malformed and broken
// requests.
func httpSeq(t *T) {
	e := newChainEnv(t, mixAll)
	w := newWorld(t, e)
	w.setupContracts(1 + t.Choose(3))
	h := w.overHTTP()
	defer func() { httpHandler = nil }()
	for i := t.ops(30); i > 0; i-- {
		switch t.Choose(5) {
		case 0:
			b := e.rawRequest()
			switch t.Choose(3) {
			case 0:
				t.Count("fault:truncated-request")
				h.refused(w, b[:t.Choose(len(b))], []error{io.EOF, io.ErrUnexpectedEOF, errCut}[t.Choose(3)])
			case 1:
				h.refused(w, t.damage(b), io.EOF)
			case 2:
				h.refused(w, []byte(t.hostileToken()), io.EOF)
			}
		case 1: // the client goes away
			t.Count("fault:client-gone")
			b := []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":1,"method":"eth_getBlockByNumber","params":["pending",true]}`))
			before := w.dump()
			h.serve(&reqBody{t: t, b: b, err: io.EOF}, func(w *respWriter) { w.failAt = t.Choose(60) })
			if d := diffLines(w.dump(), before); d != "" {
				t.Failf("read-changed-chain", "a read by a client that went away changed the chain: %s", d)
			}
		default:
			w.run(w.drawAll("rrBCE#lkxpFPLUm|c"))
		}
	}
	w.checkAll("at the end")
}

// httpRaw: arbitrary requests about arbitrary code get the answers they would
// get in the process, and the endpoint stays usable.
func httpRaw(t *T) {
	e := newChainEnv(t, mixAll)
	w := newWorld(t, e)
	w.setupContracts(1 + t.Choose(2))
	for i := 1 + t.Choose(3); i > 0; i-- {
		a := common.Address{0x0d, byte(i)}
		w.c.State.StateDB().CreateAccount(a)
		w.c.State.StateDB().SetCode(a, t.oddCode())
		w.c.State.StateDB().AddBalance(a, big.NewInt(int64(t.Choose(5))))
		w.r.st.get(a)
		e.ctr = append(e.ctr, a)
	}
	if t.Choose(2) == 1 {
		for i := 1; i < 10; i++ {
			e.ctr = append(e.ctr, common.Address{19: byte(i)}) // precompiled contracts
		}
	}
	if t.Choose(3) == 0 {
		w.c.Debugf = func(f string, args ...interface{}) { _ = fmt.Sprintf(f, args...) }
	}
	if t.Choose(3) == 0 {
		w.c.Seal()
	}
	h := w.overHTTP()
	defer func() { httpHandler = nil }()
	dump := func(c *tevm.Chain) string {
		cl := c.Client()
		s := stateText(c, w.r.st, true)
		n, err := cl.BlockNumber()
		s += fmt.Sprint(n, err, "\n")
		for k := int64(e.first); k <= n; k++ {
			for _, full := range []bool{false, true} {
				b, err := cl.GetBlock(k, full)
				j, _ := json.Marshal(b)
				s += fmt.Sprintf("%d %s %v\n", k, j, err)
			}
		}
		ll := c.Logs()
		for i := range ll {
			s += slogText(&ll[i]) + "\n"
		}
		return s
	}
	for i := 1 + t.ops(8); i > 0; i-- {
		b := e.rawRequest()
		rq, ok := wireForm(b)
		if !ok {
			before := dump(w.c)
			rw := h.serve(&reqBody{t: t, b: b, chunk: []int{0, 1, 9}[t.Choose(3)], err: io.EOF}, nil)
			t.Count("fault:malformed-request")
			if rw.status < 400 {
				t.Failf("malformed-accepted", "a request that does not parse (%.200q) got status %d", b, rw.status)
			}
			if d := diffLines(dump(w.c), before); d != "" {
				t.Failf("malformed-had-effect", "a request that does not parse (%.200q) changed the chain: %s", b, d)
			}
			continue
		}
		filter := strings.Contains(rq.Method, "ilter")
		bad := badParams(&rq)
		before := ""
		if bad != "" {
			before = dump(w.c)
		}
		twin := w.c.Copy()
		var want seth.RPCResponse
		if err := twin.Execute(&rq, &want); err != nil {
			t.Failf("no-answer", "executing %s in the process: %v", b, err)
		}
		rw := h.serve(&reqBody{t: t, b: b, chunk: []int{0, 1, 9, 100}[t.Choose(4)], err: io.EOF}, nil)
		t.Logf("%.300s -> %.100q", b, rw.body.Bytes())
		if rw.status != 200 {
			t.Failf("refused", "the well-formed request %s got status %d", b, rw.status)
		}
		var got seth.RPCResponse
		if err := json.Unmarshal(rw.body.Bytes(), &got); err != nil {
			t.Failf("no-answer", "the reply %.200q to %s: %v", rw.body.Bytes(), b, err)
		}
		if got.ID != rq.ID {
			t.Failf("wrong-id", "the reply to %s has id %d", b, got.ID)
		}
		if got.Error.Code != 0 {
			t.Count("reach:error-reply")
		} else {
			t.Count("reach:result-reply")
		}
		if bad != "" {
			t.Count("fault:malformed-params")
			if got.Error.Code == 0 {
				t.Failf("malformed-accepted", "%s: %s, but the answer is %.200q", b, bad, rw.body.Bytes())
			}
			if d := diffLines(dump(w.c), before); d != "" {
				t.Failf("malformed-had-effect", "%s: %s, but the chain changed: %s", b, bad, d)
			}
		}
		if filter {
			continue
		}
		if got.Error.Code != want.Error.Code || got.Error.Message != want.Error.Message || canon(orNull(got.Result)) != canon(orNull(want.Result)) {
			t.Failf("answers-differ", "%s: the endpoint answers %.300q, the chain in the process %d %q %.300q", b, rw.body.Bytes(), want.Error.Code, want.Error.Message, want.Result)
		}
		if d := diffLines(dump(w.c), dump(twin)); d != "" {
			t.Failf("effects-differ", "%s through the endpoint and in the process: %s", b, d)
		}
	}
	// still usable
	if _, err := w.cl.BlockNumber(); err != nil {
		t.Failf("wedged", "after all requests: %v", err)
	}
}

func orNull(b json.RawMessage) []byte {
	if len(b) == 0 {
		return []byte("null")
	}
	return b
}

// httpConc: clients of the endpoint among slow, vanishing and malformed ones.
func httpConc(t *T) {
	var w *cw
	var e *chainEnv
	var lf *linFaults
	if t.Choose(4) == 3 {
		var u *upstream
		w, u = newFork(t, mixAll)
		e, lf = w.e, u.faults()
	} else {
		e = newChainEnv(t, mixAll)
		w = newWorld(t, e)
		w.setupContracts(1 + t.Choose(3))
	}
	h := w.overHTTP()
	defer func() { httpHandler = nil }()
	if t.Choose(3) == 0 {
		w.c.Debugf = func(f string, args ...interface{}) { _ = fmt.Sprintf(f, args...); simrt.Yield() }
	}
	done := false
	var gs []*simrt.G
	for i := 1 + t.Choose(3); i > 0; i-- {
		i := i
		gs = append(gs, t.Go(fmt.Sprint("bad", i), func() {
			for k := 1 + t.Choose(3); k > 0; k-- {
				var b []byte
				t.Atomic(func() { b = e.rawRequest() })
				wait := func() { simrt.WaitUntil("slow client", func() bool { return done }) }
				switch t.Choose(4) {
				case 0: // never sends the rest until all others are through
					t.Count("fault:stalled-request")
					h.serve(&reqBody{t: t, b: b[:t.Choose(len(b))], err: errCut, stall: wait}, nil)
				case 1: // does not take the answer
					t.Count("fault:stalled-answer")
					q := []byte(`{"jsonrpc":"2.0","id":1,"method":"eth_getBlockByNumber","params":["latest",true]}`)
					h.serve(&reqBody{t: t, b: q, err: io.EOF}, func(w *respWriter) { w.stall = wait })
				case 2:
					t.Count("fault:malformed-request")
					x := b[:t.Choose(len(b))]
					h.serve(&reqBody{t: t, b: x, err: io.EOF}, nil)
				case 3:
					t.Count("fault:client-gone")
					q := []byte(`{"jsonrpc":"2.0","id":1,"method":"eth_call","params":[{},"latest"]}`)
					h.serve(&reqBody{t: t, b: q, err: io.EOF}, func(w *respWriter) { w.failAt = t.Choose(30) })
				}
			}
		}))
	}
	w.settle = func() {
		done = true
		t.Join(gs...)
	}
	linRun(t, w, lf)
	if _, err := w.cl.BlockNumber(); err != nil {
		t.Failf("wedged", "after all requests: %v", err)
	}
}

// httpFork: the endpoint of a fork whose upstream fails now and then answers
// every request, with the right id, and a failed one has no effect.
func httpFork(t *T) {
	w, u := newFork(t, mixAll)
	h := w.overHTTP()
	defer func() { httpHandler = nil }()
	forkFail(t, w, u, func() {
		b := w.e.rawRequest()
		rq, ok := wireForm(b)
		if !ok || strings.Contains(rq.Method, "ilter") || rq.Method == "eth_sendTransaction" {
			return
		}
		after, asked := t.Choose(4), 0
		u.failed = 0
		u.failing = func(r *Req) (Ans, bool) {
			asked++
			if asked > after {
				return u.badAnswer()
			}
			return Ans{}, false
		}
		rw := h.serve(&reqBody{t: t, b: b, chunk: []int{0, 1, 9, 100}[t.Choose(4)], err: io.EOF}, nil)
		u.failing = nil
		t.Logf("%.300s -> %.100q, %d upstream requests failed", b, rw.body.Bytes(), u.failed)
		if rw.status != 200 {
			t.Failf("refused", "the well-formed request %s got status %d", b, rw.status)
		}
		var got seth.RPCResponse
		if err := json.Unmarshal(rw.body.Bytes(), &got); err != nil {
			t.Failf("no-answer", "the reply %.200q to %s: %v", rw.body.Bytes(), b, err)
		}
		if got.ID != rq.ID {
			t.Failf("wrong-id", "the reply to %s has id %d", b, got.ID)
		}
		if u.failed > 0 {
			t.Count("reach:request-failed-upstream")
			if got.Error.Code == 0 {
				t.Failf("failure-hidden", "%s got %.200q although %d of its upstream requests failed", b, rw.body.Bytes(), u.failed)
			}
		}
		if d := w.diffAll(); d != "" {
			t.Failf("read-changed-chain", "the request %s changed the fork: %s", b, d)
		}
	})
}
