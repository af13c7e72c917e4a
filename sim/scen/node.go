package scen

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/philhofer/seth"
	"verif.sim/simrt"
)

// Ans is what a simulated node does with one request.
type Ans struct {
	Result string         // JSON text of the result
	Err    *seth.RPCError // or an error reply
	Fail   error          // or a transport failure after the request was processed
	Raw    []byte         // or these bytes as the whole reply
	Status int            // HTTP status, 200 if zero
	Delay  time.Duration  // before the reply
}

func okAns(f string, a ...interface{}) Ans { return Ans{Result: fmt.Sprintf(f, a...)} }
func nullAns() Ans                         { return Ans{Result: "null"} }
func errAns(code int, msg string) Ans {
	return Ans{Err: &seth.RPCError{Code: code, Message: msg}}
}

var errNet = errors.New("simulated: network failure")

// Req is one request as the node saw it.
type Req struct {
	Method  string
	Params  []json.RawMessage
	ID      string
	Seq     int64
	At      time.Duration
	EndSeq  int64
	URL     string
	HTTPm   string
	Ans     Ans
	Sent    bool // the node processed it
	Outcome string
}

func (r *Req) P(i int) string {
	if i < len(r.Params) {
		return string(r.Params[i])
	}
	return ""
}

// Node is a simulated JSON-RPC node reached over one of several transports.
type Node struct {
	t      *T
	Handle func(r *Req) Ans // runs atomically when the node takes the request
	Kind   int              // 0 direct, 1 stream, 2 HTTP, 3 Infura
	MaxLat time.Duration
	LoseRq int // percent of requests that fail before reaching the node
	LoseRp int // percent of replies lost (transport error)
	Healed bool
	Log    []*Req
	Calls  int
	conns  []*Conn
	infl   int
	MaxInf int
	CFail  int // stream connections and dials that failed
	Chunk  int
	// Mangle rewrites the bytes of a reply.
	Mangle func(r *Req, b []byte) []byte
	// OnLost sees requests that fail on the way there (Sent false) or back.
	OnLost func(r *Req, params []json.RawMessage)
}

const (
	kDirect = iota
	kStream
	kHTTP
	kInfura
)

// NewNode draws a transport.
func NewNode(t *T, h func(r *Req) Ans) *Node {
	n := &Node{t: t, Handle: h}
	n.Kind = t.Weighted(4, 2, 2)
	n.MaxLat = []time.Duration{0, 10 * time.Millisecond, 900 * time.Millisecond, 5 * time.Second}[t.Weighted(2, 2, 2, 1)]
	n.Chunk = []int{0, 1, 7, 60}[t.Weighted(6, 1, 2, 3)]
	return n
}

// Faults draws a transport fault regime.
func (n *Node) Faults() {
	t := n.t
	n.LoseRq = []int{0, 3, 10, 25}[t.Weighted(3, 2, 2, 1)]
	n.LoseRp = []int{0, 3, 10, 25}[t.Weighted(3, 2, 2, 1)]
}

// Client makes a client connected to the node.
func (n *Node) Client() *seth.Client {
	switch n.Kind {
	case kStream:
		return seth.NewClient(n.dial)
	case kHTTP:
		httpNode = n
		return seth.NewHTTPClient("http://node.example:8545/")
	case kInfura:
		httpNode = n
		return seth.NewClientTransport(seth.InfuraTransport{})
	}
	return seth.NewClientTransport((*direct)(n))
}

func (n *Node) count(m string) int {
	k := 0
	for _, r := range n.Log {
		if r.Method == m {
			k++
		}
	}
	return k
}

// take processes one request at the node and returns the reply body.
func (n *Node) take(method string, params []json.RawMessage, id string) (*Req, []byte, error) {
	return n.takeReq(&Req{Method: method, Params: params, ID: id})
}

func (n *Node) takeReq(r *Req) (*Req, []byte, error) {
	t := n.t
	method, params, id := r.Method, r.Params, r.ID
	if n.MaxLat > 0 && t.Choose(2) == 1 {
		simrt.Sleep(t.Dur(n.MaxLat))
	} else {
		simrt.Yield()
	}
	n.Calls++
	if !n.Healed && t.Chance(n.LoseRq, 100) {
		t.Count("fault:request-lost")
		t.Logf("request %s lost", method)
		if n.OnLost != nil {
			n.OnLost(r, params)
		}
		return nil, nil, errNet
	}
	r.Seq, r.At, r.Sent = t.Seq(), t.Now(), true
	n.Log = append(n.Log, r)
	n.infl++
	if n.infl > n.MaxInf {
		n.MaxInf = n.infl
	}
	var a Ans
	t.Atomic(func() { a = n.Handle(r) })
	r.Ans = a
	if n.Kind == kDirect || n.Kind == kStream {
		t.Logf("node %s%.80s -> %.60s%v", method, fmt.Sprintf("%s", params), a.Result, errOrNil(a))
	} else {
		t.Logf("node %s %s%.80s -> %.60s%v", r.HTTPm, method, fmt.Sprintf("%s", params), a.Result, errOrNil(a))
	}
	if a.Delay > 0 {
		simrt.Sleep(a.Delay)
	} else if n.MaxLat > 0 && t.Choose(2) == 1 {
		simrt.Sleep(t.Dur(n.MaxLat))
	} else {
		simrt.Yield()
	}
	n.infl--
	r.EndSeq = t.Seq()
	if a.Fail == nil && !n.Healed && t.Chance(n.LoseRp, 100) {
		t.Count("fault:reply-lost")
		t.Logf("reply to %s lost", method)
		a.Fail = errNet
	}
	if a.Fail != nil {
		if n.OnLost != nil {
			n.OnLost(r, params)
		}
		r.Outcome = "lost"
		return r, nil, a.Fail
	}
	r.Outcome = "answered"
	b := a.Raw
	if b != nil && n.Kind == kStream {
		n.CFail++ // damages the connection, too
	}
	if b == nil {
		switch {
		case a.Err != nil:
			e, _ := json.Marshal(a.Err.Message)
			b = []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"error":{"code":%d,"message":%s}}`, id, a.Err.Code, e))
		default:
			b = []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":%s}`, id, a.Result))
		}
	}
	if n.Mangle != nil {
		b = n.Mangle(r, b)
	}
	return r, b, nil
}

func errOrNil(a Ans) string {
	switch {
	case a.Fail != nil:
		return " FAIL " + a.Fail.Error()
	case a.Err != nil:
		return " ERR " + a.Err.Message
	case a.Raw != nil:
		return fmt.Sprintf(" RAW %.60q", a.Raw)
	}
	return ""
}

// direct is a seth.Transport that talks to the node without a wire.
type direct Node

func (d *direct) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
	n := (*Node)(d)
	// the request is serialised as on a wire
	b, err := json.Marshal(req)
	if err != nil {
		return err
	}
	var q seth.RPCRequest
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	_, body, err := n.take(q.Method, q.Params, fmt.Sprint(q.ID))
	if err != nil {
		return err
	}
	return json.NewDecoder(bytes.NewReader(body)).Decode(res)
}

func (n *Node) dial() (io.ReadWriteCloser, error) {
	t := n.t
	simrt.Yield()
	if !n.Healed && t.Chance(n.LoseRq, 100) {
		t.Count("fault:dial-error")
		n.CFail++
		return nil, errors.New("simulated: connection refused")
	}
	c := &Conn{t: t, id: len(n.conns), wErrAt: -1, rErrAt: -1, eofAt: -1, chunk: n.Chunk}
	c.c2s.limit, c.s2c.limit = 65536, 65536
	n.conns = append(n.conns, c)
	t.Go(fmt.Sprintf("srv%d", c.id), func() {
		off := 0
		for {
			if c.srvRead() == nil {
				return
			}
			for {
				dec := json.NewDecoder(bytes.NewReader(c.raw[off:]))
				var w wireReq
				if dec.Decode(&w) != nil {
					break
				}
				off += int(dec.InputOffset())
				if w.Method == nil {
					continue
				}
				var params []json.RawMessage
				json.Unmarshal(w.Params, &params)
				t.Go("h"+string(w.ID), func() {
					_, b, err := n.take(*w.Method, params, string(w.ID))
					if err != nil {
						n.CFail++
						c.Faulty = true
						c.srvClose(t.Choose(2) == 1)
						return
					}
					simrt.WaitIO("server turn", func() bool { return c.writers == 0 || c.sclosed })
					if c.sclosed {
						return
					}
					c.writers++
					c.srvWrite(append(b, '\n'))
					c.writers--
				})
			}
		}
	})
	return c, nil
}

// hang up every stream connection
func (n *Node) hangup() {
	for _, c := range n.conns {
		c.Faulty = true
		c.srvClose(false)
	}
}

// HTTP ------------------------------------------------------------------

var httpNode *Node

type simHTTP struct{}

func (simHTTP) RoundTrip(hr *http.Request) (*http.Response, error) {
	if httpHandler != nil && hr.URL.Host == "chain.example:8043" {
		return serveHTTP(httpHandler, hr)
	}
	n := httpNode
	if n == nil {
		return nil, errors.New("simulated: no network")
	}
	t := n.t
	simrt.Yield()
	var body []byte
	if hr.Body != nil {
		for {
			var chunk [512]byte
			k, err := hr.Body.Read(chunk[:])
			body = append(body, chunk[:k]...)
			if err != nil {
				break
			}
		}
		hr.Body.Close()
	}
	var method, id string
	var params []json.RawMessage
	if hr.Method == "GET" {
		method = hr.URL.Path[strings.LastIndexByte(hr.URL.Path, '/')+1:]
		q, err := url.ParseQuery(hr.URL.RawQuery)
		if err != nil {
			return n.response(hr, 400, []byte("bad query"), nil), nil
		}
		if e := json.Unmarshal([]byte(q.Get("params")), &params); e != nil {
			return n.response(hr, 400, []byte("bad params"), nil), nil
		}
		id = "0"
	} else {
		var w wireReq
		if err := json.Unmarshal(body, &w); err != nil || w.Method == nil {
			t.Logf("http: bad body %.80q", body)
			return n.response(hr, 400, []byte("bad body"), nil), nil
		}
		method, id = *w.Method, string(w.ID)
		json.Unmarshal(w.Params, &params)
	}
	rq, b, err := n.takeReq(&Req{HTTPm: hr.Method, URL: hr.URL.String(), Method: method, Params: params, ID: id})
	if err != nil {
		if rq != nil && t.Choose(2) == 1 {
			// the connection breaks inside the body
			full := []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":"lost in transit"}`, id))
			return n.response(hr, 200, full[:t.Choose(len(full))], err), nil
		}
		return nil, err
	}
	st := 200
	if rq.Ans.Status != 0 {
		st = rq.Ans.Status
	}
	return n.response(hr, st, b, nil), nil
}

func (n *Node) response(hr *http.Request, status int, body []byte, fail error) *http.Response {
	return &http.Response{StatusCode: status, Status: fmt.Sprintf("%d %s", status, http.StatusText(status)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"application/json"}}, Body: &simBody{n: n, b: body, fail: fail}, ContentLength: -1, Request: hr}
}

type simBody struct {
	n      *Node
	b      []byte
	fail   error
	closed bool
}

func (s *simBody) Read(p []byte) (int, error) {
	simrt.Yield()
	if s.closed {
		return 0, errors.New("http: read on closed response body")
	}
	if len(s.b) == 0 {
		if s.fail != nil {
			return 0, s.fail
		}
		return 0, io.EOF
	}
	k := len(s.b)
	if s.n.Chunk > 0 && k > s.n.Chunk {
		k = 1 + s.n.t.Choose(s.n.Chunk)
	}
	k = copy(p, s.b[:k])
	s.b = s.b[k:]
	return k, nil
}

func (s *simBody) Close() error { s.closed = true; return nil }
