package scen

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/philhofer/seth"
	"verif.sim/simrt"
)

// F01, F02: log filters against a simulated node.

type fstate struct {
	id       string
	start    int64
	end      int64
	addr     *seth.Address
	topics   []*seth.Hash
	token    bool
	sent     []seth.Log // logs in every list the node answered with
	polls    int
	failed   bool // a poll was not answered properly
	deletes  int
	got      []seth.Log
	closed   bool // Close was called
	closeEnd bool
	seenEnd  bool
	recvs    bool // the consumer keeps receiving
	f        *seth.Filter
	errEnd   error
	inst     bool
	lastPoll time.Duration
	pollErr  string
	paused   bool // the consumer is away
	req      *Req
}

func filterBody(prop string) func(t *T) {
	return func(t *T) {
		fail := func(p, class, f string, a ...interface{}) {
			if p == prop {
				t.Failf(class, f, a...)
			}
			t.Count("other:" + p + ":" + class)
		}
		byID := map[string]*fstate{}
		var all []*fstate
		var creating []*fstate
		errP := []int{0, 4, 15}[t.Weighted(4, 1, 1)]
		burst := []int{3, 30, 80}[t.Choose(3)]
		quiet := false
		var n *Node
		n = NewNode(t, func(r *Req) Ans {
			if r.Method == "eth_newFilter" {
				var q struct {
					FromBlock, ToBlock json.RawMessage
					Address            *seth.Address
					Topics             []*seth.Hash
				}
				if len(r.Params) != 1 || json.Unmarshal(r.Params[0], &q) != nil {
					return errAns(-32602, "bad filter")
				}
				if t.Chance(errP, 100) {
					t.Count("fault:rpc-error")
					return errAns(-32000, "no filter for you")
				}
				var id *big.Int
				switch t.Choose(4) {
				case 0:
					id = big.NewInt(int64(len(byID)))
				case 1:
					id = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 40), big.NewInt(int64(len(byID))))
				case 2:
					id = new(big.Int).SetBytes(append([]byte{1}, t.Bytes(15)...))
				case 3:
					id = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(int64(len(byID))))
				}
				key := fmt.Sprintf("0x%x", id)
				if byID[key] != nil {
					return errAns(-32000, "again")
				}
				for _, fs := range creating {
					if !fs.inst && sameFilter(fs, q.FromBlock, q.ToBlock, q.Address, q.Topics) {
						fs.inst = true
						fs.id = key
						byID[key] = fs
						fs.req = r
						return okAns("%q", key)
					}
				}
				fail("F01", "wrong-filter", "the node was asked for a filter nobody created: %s", r.Params[0])
				return errAns(-32602, "bad filter")
			}
			if len(r.Params) != 1 {
				return errAns(-32602, "bad params")
			}
			fs := byID[strings.ToLower(jstr(r.Params[0]))]
			if fs == nil {
				fail("F01", "wrong-id", "%s for filter %s, which the node never gave out", r.Method, r.Params[0])
				return errAns(-32000, "filter not found")
			}
			switch r.Method {
			case "eth_uninstallFilter":
				fs.deletes++
				if fs.deletes > 1 {
					fail("F02", "uninstalled-twice", "filter %s was uninstalled twice", fs.id)
				}
				if !fs.closed {
					fail("F02", "uninstalled-unasked", "filter %s was uninstalled without being closed", fs.id)
				}
				if t.Chance(errP, 100) {
					return errAns(-32000, "filter not found")
				}
				return okAns("%v", t.Choose(5) != 4)
			case "eth_getFilterLogs", "eth_getFilterChanges":
				if fs.closeEnd && fs.seenEnd && n.Kind != kStream {
					fail("F02", "poll-after-close", "filter %s polled after its end", fs.id)
				}
				if fs.failed {
					fail("F01", "failure-skipped", "filter %s goes on polling although a poll of it has failed", fs.id)
				}
				fs.polls++
				fs.lastPoll = t.Calm()
				if !quiet && t.Chance(errP, 100) {
					t.Count("fault:rpc-error")
					fs.failed = true
					switch t.Choose(4) {
					case 0:
						return nullAns()
					case 1:
						return okAns(`[{"address":"0x12"}]`)
					case 2:
						return Ans{Raw: []byte(`{"jsonrpc":"2.0","id":` + r.ID + `,"result":[{"addr`), Fail: nil}
					}
					fs.pollErr = fmt.Sprintf("poll %d failed", fs.polls)
					return errAns(-32000, fs.pollErr)
				}
				k := 0
				if !quiet && t.Choose(2) == 1 {
					k = t.Choose(burst + 1)
				}
				var parts []string
				for i := 0; i < k; i++ {
					l, s := t.genLogLite(len(fs.sent))
					fs.sent = append(fs.sent, l)
					parts = append(parts, s)
				}
				return okAns("[%s]", strings.Join(parts, ","))
			}
			return errAns(-32601, "unknown method")
		})
		if t.Choose(2) == 1 {
			n.Faults()
		}
		n.OnLost = func(r *Req, q []json.RawMessage) {
			// a poll that failed in transit
			if len(q) == 1 && (r.Method == "eth_getFilterLogs" || r.Method == "eth_getFilterChanges") {
				if fs := byID[strings.ToLower(jstr(q[0]))]; fs != nil {
					fs.failed = true
					fs.pollErr = ""
				}
			}
			if r.Method == "eth_uninstallFilter" && !r.Sent {
				if fs := byID[strings.ToLower(jstr(q[0]))]; fs != nil {
					fs.deletes++
					if fs.deletes > 1 {
						fail("F02", "uninstalled-twice", "filter %s was uninstalled twice", fs.id)
					}
				}
			}
		}
		cl := n.Client()
		nf := t.Range(1, 3)
		var gs []*simrt.G
		stop := false
		for i := 0; i < nf; i++ {
			i := i
			gs = append(gs, t.Go(fmt.Sprintf("user%d", i), func() {
				if t.Choose(3) == 2 {
					simrt.Sleep(t.Dur(3 * time.Second))
				}
				fs := &fstate{start: -1, end: -1}
				if t.Choose(3) == 2 {
					fs.start = int64(t.Choose(1000))
				}
				if t.Choose(3) == 2 {
					fs.end = int64(t.Choose(1000))
				}
				if t.Choose(2) == 1 {
					a, _ := t.genAddr()
					a[3] = byte(i)
					fs.addr = &a
				}
				if fs.addr == nil && i > 0 {
					// told apart by the node
					fs.end = int64(2000 + i)
				}
				creating = append(creating, fs)
				var f *seth.Filter
				var err error
				if t.Choose(3) == 2 {
					fs.token = true
					var from, to *seth.Address
					var h [3]*seth.Hash
					tr := seth.ERC20Transfer
					h[0] = &tr
					if t.Choose(2) == 1 {
						a, _ := t.genAddr()
						from = &a
						h[1] = new(seth.Hash)
						copy(h[1][12:], a[:])
					}
					if t.Choose(2) == 1 {
						a, _ := t.genAddr()
						to = &a
						h[2] = new(seth.Hash)
						copy(h[2][12:], a[:])
					}
					fs.topics = h[:]
					f, err = cl.TokenTransfers(from, to, fs.addr, fs.start, fs.end)
				} else {
					for k := t.Choose(4); k > 0; k-- {
						if t.Choose(3) == 2 {
							fs.topics = append(fs.topics, nil)
							continue
						}
						h, _ := t.genHash()
						fs.topics = append(fs.topics, &h)
					}
					f, err = cl.FilterTopics(fs.topics, fs.addr, fs.start, fs.end)
				}
				if err != nil {
					t.Logf("user%d: %v", i, err)
					t.Count("reach:create-failed")
					return
				}
				if !fs.inst {
					fail("F01", "filter-from-nothing", "a filter was returned but the node created none")
				}
				fs.f = f
				all = append(all, fs)
				mode := t.Choose(4)
				fs.recvs = mode <= 1
				limit := 1 << 30
				pause := -1
				if mode < 3 && t.Choose(10) == 9 {
					pause = t.Choose(6)
				}
				if mode == 3 {
					limit = t.Choose(40)
				}
				cons := t.Go(fmt.Sprintf("consumer%d", i), func() {
					for k := 0; k < limit; k++ {
						if mode == 1 && t.Choose(4) == 3 || mode == 2 {
							simrt.Sleep(t.Dur(3 * time.Second))
						}
						if k == pause && !stop {
							fs.paused = true
							t.Count("reach:long-pause")
							simrt.Sleep(t.Dur(10 * time.Minute))
							fs.paused = false
						}
						l, ok := simrt.Recv2(f.Out())
						if !ok {
							fs.seenEnd = true
							fs.errEnd = f.Err()
							t.Logf("filter %s: channel closed, err %v", fs.id, fs.errEnd)
							return
						}
						fs.take(t, fail, l)
					}
					t.Count("reach:consumer-stopped")
				})
				if t.Choose(3) == 2 {
					// somebody who keeps asking how the filter is doing
					t.Go(fmt.Sprintf("watcher%d", i), func() {
						var was error
						for k := t.Range(1, 12); k > 0; k-- {
							simrt.Sleep(t.Dur(2 * time.Second))
							e := f.Err()
							if was != nil && e != was {
								fail("F02", "error-changed", "the error of filter %s was %v and is %v now", fs.id, was, e)
							}
							if e != nil && n.CFail == 0 && !fs.failed {
								fail("F01", "error-without-failure", "filter %s reports %v though no poll failed", fs.id, e)
							}
							was = e
						}
					})
				}
				nclose := t.Choose(4)
				for k := 0; k < nclose; k++ {
					t.Go(fmt.Sprintf("closer%d.%d", i, k), func() {
						simrt.Sleep(t.Dur(8 * time.Second))
						if stop {
							return
						}
						for j := 0; j <= t.Choose(2); j++ {
							fs.closed = true
							t.Logf("close filter %s", fs.id)
							f.Close()
							fs.closeEnd = true
						}
						t.Count("reach:closed")
					})
				}
				_ = cons
			}))
		}
		if !t.JoinWithin(3*time.Minute, gs...) {
			t.Failf("hang", "creating a filter never returns; goroutines: %s", strings.Join(t.Live(), ", "))
		}
		simrt.Sleep(time.Duration(2+t.Choose(15)) * time.Second)
		// faults stop
		stop = true
		quiet = true
		n.Healed = true
		for w := 0; w < 12; w++ {
			for _, fs := range all {
				if fs.paused {
					simrt.Sleep(time.Minute)
					break
				}
			}
		}
		simrt.Sleep(4 * time.Minute)
		for _, fs := range all {
			if fs.recvs && len(fs.got) < len(fs.sent) && !fs.failed && !fs.closed && n.CFail == 0 {
				fail("F01", "logs-missing", "filter %s: the node returned %d logs, the consumer that never stopped receiving has %d", fs.id, len(fs.sent), len(fs.got))
			}
			if fs.recvs && !fs.seenEnd && (fs.failed || fs.closeEnd || fs.start >= 0) {
				fail("F02", "channel-not-closed", "filter %s (closed=%v failed=%v start=%d) still has its channel open", fs.id, fs.closeEnd, fs.failed, fs.start)
			}
			if fs.recvs && fs.seenEnd && !fs.failed && !fs.closed && fs.start < 0 && n.CFail == 0 {
				fail("F01", "ended-without-reason", "filter %s ended (%v) though it was not closed and no poll failed", fs.id, fs.errEnd)
			}
			if fs.recvs && !fs.seenEnd && t.Calm()-fs.lastPoll > 2*time.Minute {
				fail("F01", "stopped-polling", "filter %s is open but has not polled for %v", fs.id, t.Calm()-fs.lastPoll)
			}
			if fs.closed && !fs.closeEnd {
				fail("F02", "close-hangs", "closing filter %s never returns", fs.id)
			}
			if fs.closeEnd && fs.deletes != 1 && n.CFail == 0 {
				fail("F02", "not-uninstalled", "filter %s was closed and the node got %d uninstall requests", fs.id, fs.deletes)
			}
			if fs.seenEnd && fs.failed && fs.errEnd == nil && !fs.closed {
				fail("F02", "error-not-visible", "filter %s ended by a failing poll but Err was nil when the channel was seen closed", fs.id)
				fail("F01", "error-not-visible", "filter %s ended by a failing poll but Err was nil when the channel was seen closed", fs.id)
			}
			if fs.seenEnd && fs.pollErr != "" && !fs.closed && n.CFail == 0 {
				var re *seth.RPCError
				if !errors.As(fs.errEnd, &re) || re.Message != fs.pollErr {
					fail("F01", "wrong-error", "filter %s: the poll failed with %q, Err is %v", fs.id, fs.pollErr, fs.errEnd)
				}
			}
			if fs.seenEnd && !fs.failed && fs.errEnd != nil && n.CFail == 0 {
				fail("F01", "error-from-nothing", "filter %s reports %v though no poll failed", fs.id, fs.errEnd)
			}
		}
		// close everything; nobody receives any more
		g := t.Go("closeall", func() {
			for _, fs := range all {
				fs.closed = true
				fs.f.Close()
				fs.closeEnd = true
			}
		})
		if !t.JoinWithin(4*time.Minute, g) {
			fail("F02", "close-hangs", "Close never returns; goroutines: %s", strings.Join(t.Live(), ", "))
			return
		}
		simrt.Sleep(2 * time.Minute)
		calls := n.Calls
		n.hangup()
		simrt.Sleep(time.Minute)
		if n.Calls != calls {
			fail("F02", "poll-after-close", "requests are still sent after every filter is closed")
		}
		// consumers that stopped do not keep the goroutine alive
		if l := t.Live(); len(l) > 0 {
			fail("F02", "goroutine-left", "goroutines left after every filter was closed: %s", strings.Join(l, ", "))
		}
		for _, fs := range all {
			fs.drain(t, fail)
			if fs.deletes != 1 && n.CFail == 0 {
				fail("F02", "not-uninstalled", "filter %s was closed and the node got %d uninstall requests", fs.id, fs.deletes)
			}
		}
	}
}

func (fs *fstate) take(t *T, fail func(p, class, f string, a ...interface{}), l *seth.Log) {
	k := len(fs.got)
	if l == nil {
		fail("F01", "nil-log", "filter %s delivered a nil log", fs.id)
		return
	}
	fs.got = append(fs.got, *l)
	if k >= len(fs.sent) {
		fail("F01", "log-not-sent", "filter %s delivered log %d, the node returned only %d", fs.id, k, len(fs.sent))
		return
	}
	if d := diff(fs.sent[k], *l); d != "" {
		fail("F01", "wrong-log", "filter %s: log %d delivered is not the one the node returned there: %s", fs.id, k, d)
	}
	if k > 0 {
		t.Count("reach:logs-delivered")
	}
}

// drain reads what is left: the channel must be closed.
func (fs *fstate) drain(t *T, fail func(p, class, f string, a ...interface{})) {
	done := false
	g := t.Go("drain", func() {
		for {
			l, ok := simrt.Recv2(fs.f.Out())
			if !ok {
				done = true
				return
			}
			fs.take(t, fail, l)
		}
	})
	t.JoinWithin(10*time.Second, g)
	if !done {
		fail("F02", "channel-not-closed", "filter %s was closed but its channel is not", fs.id)
	}
	for k := range fs.got {
		if d := diff(fs.sent[k], fs.got[k]); d != "" {
			fail("F01", "log-changed", "filter %s: log %d changed after delivery: %s", fs.id, k, d)
		}
	}
}

func sameFilter(fs *fstate, from, to json.RawMessage, a *seth.Address, topics []*seth.Hash) bool {
	blk := func(v int64, p json.RawMessage) bool {
		if v < 0 {
			return string(p) == `"latest"`
		}
		x := num(p)
		return x != nil && x.Cmp(big.NewInt(v)) == 0
	}
	if !blk(fs.start, from) || !blk(fs.end, to) {
		return false
	}
	if (a == nil) != (fs.addr == nil) || a != nil && *a != *fs.addr {
		return false
	}
	if len(topics) != len(fs.topics) {
		return false
	}
	for i := range topics {
		if (topics[i] == nil) != (fs.topics[i] == nil) || topics[i] != nil && *topics[i] != *fs.topics[i] {
			return false
		}
	}
	return true
}

// genLogLite is a log with a serial number, cheaper than genLog.
func (t *T) genLogLite(k int) (seth.Log, string) {
	if t.Choose(8) == 7 {
		return t.genLog()
	}
	var l seth.Log
	d := []byte{byte(k >> 8), byte(k), byte(t.Choose(256))}
	l.Data = d
	bn := seth.Uint64(k / 3)
	l.BlockNumber = &bn
	l.Address[0] = byte(k)
	l.Topics = []seth.Data{{1, byte(k)}}
	return l, fmt.Sprintf(`{"address":%q,"data":%q,"blockNumber":"0x%x","topics":["0x01%02x"]}`, hx(l.Address[:]), hx(d), k/3, byte(k))
}

func init() {
	for _, p := range []string{"F01", "F02"} {
		Register(&Scenario{Prop: p, Name: "filters", Body: filterBody(p)})
	}
}
