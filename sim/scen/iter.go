package scen

import (
	"fmt"
	"strings"
	"time"

	"github.com/philhofer/seth"
	"verif.sim/simrt"
)

// B01, B02: block iterators against a node whose chain grows.

type istate struct {
	it      *seth.BlockIterator
	from    int64
	full    bool
	first   int64 // number expected next; -1: decided by the first answer
	next    int64
	got     int
	blocks  []*seth.Block
	keep    []seth.Block
	closed  bool // channel seen closed
	stopped bool
	stopSeq int64
	late    int
	recvs   bool
	lastGot time.Duration
	paused  bool // the consumer is away
}

func iterBody(prop string) func(t *T) {
	return func(t *T) {
		fail := func(p, class, f string, a ...interface{}) {
			if p == prop {
				t.Failf(class, f, a...)
			}
			t.Count("other:" + p + ":" + class)
		}
		type blk struct {
			b    [2]seth.Block
			text [2]string
			have [2]bool
		}
		blocks := map[int64]*blk{}
		get := func(num int64, full bool) (*seth.Block, string) {
			b := blocks[num]
			if b == nil {
				b = &blk{}
				blocks[num] = b
			}
			i := 0
			if full {
				i = 1
			}
			if !b.have[i] {
				if t.Choose(10) == 9 {
					b.b[i], b.text[i], _ = t.genBlock(num, full)
				} else {
					h := byte(num)
					n := seth.Uint64(num)
					b.b[i] = seth.Block{Number: &n, Miner: seth.Address{h, byte(i)}, Timestamp: seth.Uint64(1000 + num)}
					b.text[i] = fmt.Sprintf(`{"number":"0x%x","miner":%q,"timestamp":"0x%x"}`, num, hx(b.b[i].Miner[:]), 1000+num)
				}
				b.have[i] = true
			}
			return &b.b[i], b.text[i]
		}
		head := int64(t.Choose([]int{8, 20, 90}[t.Weighted(4, 4, 1)]))
		t0 := head
		errP := []int{0, 5, 30}[t.Weighted(3, 1, 1)]
		quiet := false
		var its []*istate
		latestSeen := []int64{} // heads answered to "latest"
		n := NewNode(t, nil)
		n.Handle = func(r *Req) Ans {
			if r.Method != "eth_getBlockByNumber" || len(r.Params) != 2 {
				fail("B01", "wrong-request", "unexpected request %s %s", r.Method, r.Params)
				return errAns(-32601, "no")
			}
			for _, s := range its {
				if s.stopped {
					s.late++
				}
			}
			full := string(r.Params[1]) == "true"
			if !quiet && t.Chance(errP, 100) {
				t.Count("fault:rpc-error")
				switch t.Choose(4) {
				case 0:
					return nullAns()
				case 1:
					return okAns(`{"number":"zz"}`)
				case 2:
					return Ans{Raw: []byte(`{"jsonrpc":"2.0","id":` + r.ID + `,"resu`)}
				}
				return errAns(-32000, "node trouble")
			}
			switch string(r.Params[0]) {
			case `"latest"`:
				latestSeen = append(latestSeen, head)
				_, s := get(head, full)
				return Ans{Result: s}
			case `"earliest"`:
				_, s := get(0, full)
				return Ans{Result: s}
			}
			x := num(r.Params[0])
			if x == nil || !x.IsInt64() {
				fail("B01", "wrong-request", "unexpected block %s", r.Params[0])
				return errAns(-32602, "bad block")
			}
			if x.Int64() > head {
				t.Count("reach:not-yet-mined")
				return nullAns()
			}
			_, s := get(x.Int64(), full)
			return Ans{Result: s}
		}
		if t.Choose(2) == 1 {
			n.Faults()
		}
		cl := n.Client()
		grow := []time.Duration{300 * time.Millisecond, 3 * time.Second, 15 * time.Second}[t.Choose(3)]
		end := false
		t.Go("miner", func() {
			for !end {
				simrt.Sleep(t.Dur(grow) + 100*time.Millisecond)
				if end {
					return
				}
				head++
				if t.Choose(12) == 11 {
					head += int64(t.Choose([]int{5, 20, 90}[t.Weighted(8, 4, 1)]))
				}
				t.Logf("head %d", head)
			}
		})
		take := func(s *istate, b *seth.Block) {
			if b == nil || b.Number == nil {
				fail("B01", "no-block", "the iterator from %d yielded no block", s.from)
				return
			}
			num := int64(*b.Number)
			if s.next < 0 {
				ok := false
				for _, h := range latestSeen {
					ok = ok || h == num
				}
				if !ok {
					fail("B01", "wrong-start", "an iterator from the latest block starts at %d, which was never the latest one (%v)", num, latestSeen)
				}
				s.next = num
			}
			if num != s.next {
				fail("B01", "wrong-order", "the iterator from %d yielded block %d, expected %d", s.from, num, s.next)
				s.next = num
			}
			want, _ := get(num, s.full)
			if d := diff(*want, *b); d != "" {
				fail("B01", "wrong-block", "block %d is not what the node returned: %s", num, d)
			}
			s.blocks = append(s.blocks, b)
			s.keep = append(s.keep, *b)
			s.next++
			s.got++
			s.lastGot = t.Calm()
			if s.got > 2 {
				t.Count("reach:three-blocks")
			}
		}
		ni := t.Range(1, 3)
		for i := 0; i < ni; i++ {
			s := &istate{full: t.Choose(2) == 1}
			switch t.Choose(5) {
			case 0:
				s.from = -1
			case 1:
				s.from = 0
			case 2:
				s.from = t0
			case 3:
				s.from = t0 + int64(t.Choose(4))
			case 4:
				s.from = int64(t.Choose(int(t0) + 1))
			}
			s.next = s.from
			its = append(its, s)
			i := i
			t.Go(fmt.Sprintf("user%d", i), func() {
				if t.Choose(3) == 2 {
					simrt.Sleep(t.Dur(3 * time.Second))
				}
				s.it = cl.IterateBlocks(s.from, s.full)
				mode := t.Choose(4)
				limit := 1 << 30
				if mode == 3 {
					limit = t.Choose(20)
				}
				s.recvs = mode < 3
				pause := -1
				if s.recvs && t.Choose(10) == 9 {
					pause = t.Choose(6)
				}
				t.Go(fmt.Sprintf("consumer%d", i), func() {
					for k := 0; k < limit; k++ {
						if mode == 1 && t.Choose(4) == 3 || mode == 2 && t.Choose(2) == 1 {
							simrt.Sleep(t.Dur(2 * time.Second))
						}
						if k == pause && !end {
							// nobody receives for long while the chain grows
							head += 80
							s.paused = true
							t.Count("reach:long-pause")
							simrt.Sleep(t.Dur(10 * time.Minute))
							s.paused = false
							s.lastGot = t.Calm()
						}
						b, ok := simrt.Recv2(s.it.Next())
						if !ok {
							s.closed = true
							t.Logf("iterator from %d: channel closed", s.from)
							if !s.stopped {
								fail("B01", "ended", "the iterator from %d ended without being stopped", s.from)
							}
							return
						}
						take(s, b)
					}
				})
				if t.Choose(3) < 2 {
					t.Go(fmt.Sprintf("stopper%d", i), func() {
						simrt.Sleep(t.Dur(20 * time.Second))
						if end {
							return
						}
						t.Logf("stop iterator from %d", s.from)
						s.stopped = true
						simrt.Handoff()
						s.it.Stop()
						s.stopSeq = t.Seq()
						t.Count("reach:stopped")
					})
				}
			})
		}
		simrt.Sleep(time.Duration(5+t.Choose(30)) * time.Second)
		end = true
		quiet = true
		n.Healed = true
		// faults have stopped: everything served must arrive
		for w := 0; w < 12; w++ {
			for _, s := range its {
				if s.paused {
					simrt.Sleep(time.Minute)
					break
				}
			}
		}
		t.Quiet(2 * time.Minute)
		for w := 0; w < 60; w++ {
			// slow node: give it time in proportion
			busy := false
			for _, s := range its {
				if s.recvs && !s.stopped && s.next <= head && t.Calm()-s.lastGot < time.Minute {
					busy = true
				}
			}
			if !busy {
				break
			}
			t.Quiet(time.Minute)
		}
		for _, s := range its {
			if s.it == nil {
				t.Failf("hang", "IterateBlocks does not return; goroutines: %s", strings.Join(t.Live(), ", "))
			}
			if s.recvs && !s.stopped && s.next <= head && !(s.next < 0 && head < 0) {
				fail("B01", "block-missing", "the iterator from %d is at %d, the node has served %d for minutes", s.from, s.next, head)
			}
			if s.stopped && s.recvs && !s.closed {
				fail("B02", "channel-not-closed", "the iterator from %d was stopped long ago, its channel is open", s.from)
			}
		}
		left := 0
		for _, s := range its {
			if !s.stopped {
				s.stopped = true
				simrt.Handoff()
				s.it.Stop()
				left++
			}
		}
		g := t.Go("idle", func() { simrt.Sleep(time.Minute) })
		t.Join(g)
		calls := n.Calls
		n.hangup()
		simrt.Sleep(time.Minute)
		if n.Calls != calls {
			fail("B02", "request-after-stop", "requests are sent long after every iterator was stopped")
		}
		if l := t.Live(); len(l) > 0 {
			fail("B02", "goroutine-left", "goroutines left after every iterator was stopped: %s", strings.Join(l, ", "))
		}
		for _, s := range its {
			s := s
			if s.closed {
				continue
			}
			done := false
			g := t.Go("drain", func() {
				for {
					b, ok := simrt.Recv2(s.it.Next())
					if !ok {
						done = true
						return
					}
					take(s, b)
				}
			})
			t.JoinWithin(10*time.Second, g)
			if !done {
				fail("B02", "channel-not-closed", "the iterator from %d was stopped, its channel is not closed", s.from)
			}
		}
		for _, s := range its {
			for i, b := range s.blocks {
				if d := diff(s.keep[i], *b); d != "" {
					fail("B01", "block-changed", "a block changed after it was delivered: %s", d)
				}
			}
		}
	}
}

func init() {
	for _, p := range []string{"B01", "B02"} {
		Register(&Scenario{Prop: p, Name: "iterators", Body: iterBody(p)})
	}
}
