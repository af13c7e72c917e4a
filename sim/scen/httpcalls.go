package scen

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"net/url"
	"strings"
	"time"

	"github.com/philhofer/seth"
	"verif.sim/simrt"
)

// C04 over HTTP, Infura and a bare transport.

func asRPC(err error) (*seth.RPCError, bool) {
	var e *seth.RPCError
	if errors.As(err, &e) {
		return e, true
	}
	return nil, false
}

// canon is a canonical form of JSON text.
func canon(b []byte) string {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return "bad:" + string(b)
	}
	if a, ok := v.([]interface{}); ok && a == nil || v == nil {
		return "[]"
	}
	o, _ := json.Marshal(v)
	return string(o)
}

// jsonText makes arbitrary JSON.
func (t *T) jsonText(depth int) string {
	switch t.Choose(9) {
	case 0:
		return fmt.Sprintf(`"0x%x"`, t.Bytes(t.Choose(20)))
	case 1:
		return fmt.Sprint(t.Choose(100000) - 50000)
	case 2:
		return []string{"true", "false"}[t.Choose(2)]
	case 3:
		return `"<a href='x?y=1&z=2'> \u00e9\n\"q\" +%20 日本"`
	case 4:
		return fmt.Sprintf("%d.5e3", t.Choose(100))
	case 5, 6:
		if depth > 0 {
			var p []string
			for i := t.Choose(4); i > 0; i-- {
				p = append(p, t.jsonText(depth-1))
			}
			return "[" + strings.Join(p, ",") + "]"
		}
	case 7:
		if depth > 0 {
			var p []string
			for i := t.Choose(4); i > 0; i-- {
				p = append(p, fmt.Sprintf(`"k%d":%s`, i, t.jsonText(depth-1)))
			}
			return "{" + strings.Join(p, ", ") + "}"
		}
	}
	return fmt.Sprintf(`"s%d"`, t.Choose(1000))
}

var httpStatuses = []int{201, 202, 204, 301, 302, 304, 400, 401, 403, 404, 413, 429, 500, 501, 502, 503, 504}

type hcall struct {
	method string
	params string
	g      *simrt.G
	reqs   []*Req
	res    json.RawMessage
	err    error
	done   bool
}

// httpBody exercises the transports that are not streams; C03 judges the requests,
// C04 the outcomes.
func httpBody(prop string) func(*T) {
	return func(t *T) { httpCalls(t, prop) }
}

func httpCalls(t *T, prop string) {
	var calls []*hcall
	n := NewNode(t, nil)
	n.Kind = []int{kHTTP, kInfura, kDirect}[t.Weighted(3, 4, 1)]
	troubled := t.Choose(4) > 0
	n.Faults()
	if !troubled {
		n.LoseRp, n.LoseRq = 0, 0
	}
	cur := func() *hcall {
		for _, c := range calls {
			if !c.done && c.g == t.Cur() {
				return c
			}
		}
		return nil
	}
	exp := map[*Req]string{} // what the call must come to
	ids := map[string]*hcall{}
	arrived := func(c *hcall, r *Req) {
		c.reqs = append(c.reqs, r)
		if len(c.reqs) > 1 {
			t.Failf("request-repeated", "call %s was sent %d times", c.method, len(c.reqs))
		}
		if r.ID != "" && r.HTTPm != "GET" {
			if o := ids[r.ID]; o != nil {
				t.Failf("id-repeated", "calls %s and %s have the id %s", o.method, c.method, r.ID)
			}
			ids[r.ID] = c
		}
	}
	n.OnLost = func(r *Req, _ []json.RawMessage) {
		if c := cur(); c != nil && !r.Sent {
			arrived(c, r)
		}
		exp[r] = "error"
	}
	n.Handle = func(r *Req) Ans {
		c := cur()
		if c == nil {
			t.Failf("request-without-call", "a %s request that no call made", r.Method)
		}
		arrived(c, r)
		pj, _ := json.Marshal(r.Params)
		if r.Method != c.method || canon(pj) != canon([]byte(c.params)) {
			t.Failf("wrong-request", "call %s%s reached the node as %s%s", c.method, c.params, r.Method, pj)
		}
		post := false
		switch r.Method {
		case "eth_sendRawTransaction", "eth_estimateGas", "eth_submitWork", "eth_submitHashrate":
			post = true
		}
		if n.Kind == kInfura {
			u, err := url.Parse(r.URL)
			if err != nil || u.Host != "api.infura.io" || u.Scheme != "https" {
				t.Failf("wrong-url", "request to %s", r.URL)
			}
			if post && (r.HTTPm != "POST" || u.RawQuery != "" || strings.Contains(u.Path, r.Method)) {
				t.Failf("not-posted", "%s was sent with %s to %s", r.Method, r.HTTPm, r.URL)
			}
			if post {
				t.Count("reach:infura-post")
			} else {
				t.Count("reach:infura-get")
			}
		}
		if n.Kind == kHTTP && r.HTTPm != "POST" {
			t.Failf("not-posted", "%s was sent with %s", r.Method, r.HTTPm)
		}
		k := 0
		if troubled {
			k = t.Weighted(6, 2, 2, 2, 2, 2)
		}
		switch k {
		case 1:
			exp[r] = "null"
			return nullAns()
		case 2:
			code := t.Choose(70000) - 33000
			msg := []string{"", "execution reverted", "naïve \"quote\"", "x"}[t.Choose(4)]
			if t.Choose(4) == 3 {
				code = 0
			}
			if code == 0 && msg == "" {
				code = -32000
			}
			exp[r] = fmt.Sprintf("rpc %d %s", code, msg)
			if t.Choose(2) == 1 {
				m, _ := json.Marshal(msg)
				res := []string{"", `"result":null,`, `"result":"0x1",`}[t.Choose(3)]
				return Ans{Raw: []byte(fmt.Sprintf(`{%s"error":{"data":%s,"message":%s,"code":%d},"id":%s,"jsonrpc":"2.0"}`, res, t.jsonText(2), m, code, r.ID))}
			}
			return errAns(code, msg)
		case 3:
			if n.Kind == kDirect {
				break
			}
			exp[r] = "error"
			t.Count("fault:http-status")
			a := okAns("%s", t.jsonText(1))
			a.Status = httpStatuses[t.Choose(len(httpStatuses))]
			if t.Choose(2) == 1 {
				a.Raw = []byte("<html>no</html>")
			}
			return a
		case 4:
			// truncated, garbled or missing
			exp[r] = "error"
			t.Count("fault:damaged-reply")
			full := fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":%s}`, r.ID, t.jsonText(2))
			switch t.Choose(6) {
			case 5:
				// a result beside an error member that cannot be understood
				bad := []string{`"boom"`, "7", "[1]", "true", `{"code":"x","message":"boom"}`}[t.Choose(5)]
				return Ans{Raw: []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"error":%s,"result":%s}`, r.ID, bad, t.jsonText(1)))}
			case 0:
				return Ans{Raw: []byte(full[:t.Choose(len(full))])}
			case 1:
				return Ans{Raw: []byte{}}
			case 2:
				return Ans{Raw: []byte(`{"jsonrpc":"2.0","id":` + r.ID + `}`)}
			case 3:
				return Ans{Raw: []byte("\x00\x01" + full)}
			}
			return Ans{Raw: []byte("<!DOCTYPE html>" + full)}
		case 5:
			if t.Choose(3) == 2 {
				exp[r] = "error"
				t.Count("fault:transport-error")
				return Ans{Fail: errNet}
			}
		}
		v := t.jsonText(3)
		exp[r] = "ok " + compact([]byte(v))
		return okAns("%s", v)
	}
	cl := n.Client()
	var gs []*simrt.G
	for g := 1 + t.Choose(3); g > 0; g-- {
		gs = append(gs, t.Go(fmt.Sprintf("caller%d", g), func() {
			for k := 1 + t.Choose(4); k > 0; k-- {
				c := &hcall{g: t.Cur()}
				c.method = []string{"eth_call", "eth_sendRawTransaction", "eth_estimateGas", "eth_submitWork", "eth_submitHashrate", "eth_getBalance", "eth_getLogs", "net_version", "eth_sendTransaction"}[t.Choose(9)]
				var params []json.RawMessage
				for i := t.Choose(4); i > 0; i-- {
					params = append(params, json.RawMessage(t.jsonText(2)))
				}
				pj := "["
				for i, p := range params {
					if i > 0 {
						pj += ","
					}
					pj += string(p)
				}
				c.params = pj + "]"
				before := string(c.params)
				calls = append(calls, c)
				dest := json.RawMessage(`"previous"`)
				c.err = cl.Do(c.method, params, &dest)
				c.res = dest
				c.done = true
				after := "["
				for i, p := range params {
					if i > 0 {
						after += ","
					}
					after += string(p)
				}
				if after+"]" != before {
					t.Failf("params-changed", "call %s changed its caller's parameters", c.method)
				}
				judgeHTTP(t, n, c, exp, prop)
			}
		}))
	}
	if !t.JoinWithin(10*time.Minute, gs...) {
		t.Failf("hang", "a call never returns")
	}
}

func judgeHTTP(t *T, n *Node, c *hcall, exp map[*Req]string, prop string) {
	if len(c.reqs) == 0 {
		t.Failf("not-sent", "call %s was never sent: %v", c.method, c.err)
	}
	want := exp[c.reqs[len(c.reqs)-1]]
	if prop != "C04" {
		return
	}
	rpc, isRPC := asRPC(c.err)
	got := ""
	switch {
	case c.err == nil:
		got = "ok " + compact(c.res)
	case isRPC:
		got = fmt.Sprintf("rpc %d %s", rpc.Code, rpc.Message)
	case errors.Is(c.err, seth.ErrNotFound):
		got = "null"
	default:
		got = "error"
	}
	t.Count("reach:" + strings.SplitN(got, " ", 2)[0])
	if got != want {
		t.Failf("wrong-outcome", "call %s over %s: the node's answer comes to %.200q, the call came to %.200q (%v)", c.method, []string{"a bare transport", "a stream", "HTTP", "Infura"}[n.Kind], want, got, c.err)
	}
}

func init() {
	Register(&Scenario{Prop: "C04", Name: "http", Weight: 5, Body: httpBody("C04")})
	Register(&Scenario{Prop: "C03", Name: "http-requests", Weight: 1, Body: httpBody("C03")})
}
