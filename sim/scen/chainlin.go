package scen

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
	"verif.sim/simrt"
)

// T01: concurrent operations take effect one at a time. T08: filters.

func init() {
	Register(&Scenario{Prop: "T01", Name: "chain-linearizable", Body: linBody})
	Register(&Scenario{Prop: "T08", Name: "chain-filters", Weight: 2, NoPreempt: true, Body: filterSeq})
	Register(&Scenario{Prop: "T08", Name: "chain-filters-concurrent", Body: filterConc})
	Register(&Scenario{Prop: "T08", Name: "chain-client-filter", Body: filterClient})
}

// filterArgs is what a filter is made with.
type filterArgs struct {
	from, to int64 // < 0: latest, < -9: left out
	addr     *common.Address
	topics   []*common.Hash
}

func (e *chainEnv) filterArgs() *filterArgs {
	t := e.t
	f := &filterArgs{from: -2, to: -2}
	for _, p := range []*int64{&f.from, &f.to} {
		switch t.Choose(6) {
		case 0:
			*p = -10
		case 1, 2:
			*p = int64(e.first) + int64(t.Choose(e.blocks+2))
		}
	}
	if t.Choose(8) == 7 {
		f.from = 0
	}
	if t.Choose(3) == 2 && len(e.ctr) > 0 {
		a := e.ctr[t.Choose(len(e.ctr))]
		f.addr = &a
	}
	for i := t.Choose(4); i > 0; i-- {
		if t.Choose(3) == 2 {
			f.topics = append(f.topics, nil)
		} else {
			h := common.Hash{31: byte(1 + t.Choose(3))}
			if e.slots != nil && t.Choose(2) == 1 {
				h = e.slots[t.Choose(4)]
			}
			f.topics = append(f.topics, &h)
		}
	}
	// and what nearly matches
	if f.addr != nil && t.Choose(12) == 11 {
		f.addr[t.Choose(20)] ^= byte(1 << uint(t.Choose(8)))
	}
	if n := len(f.topics); n > 0 && f.topics[n-1] != nil && t.Choose(12) == 11 {
		f.topics[n-1][t.Choose(32)] ^= byte(1 << uint(t.Choose(8)))
	}
	return f
}

func (f *filterArgs) json(t *T) json.RawMessage {
	m := map[string]interface{}{}
	bn := func(n int64) interface{} {
		switch {
		case n >= 0:
			return fmt.Sprintf("0x%x", n)
		case n == -1:
			return "pending"
		}
		return "latest"
	}
	if f.from > -9 {
		m["fromBlock"] = bn(f.from)
	}
	if f.to > -9 {
		m["toBlock"] = bn(f.to)
	}
	if f.addr != nil {
		m["address"] = seth.Address(*f.addr)
	}
	if f.topics != nil {
		var tt []interface{}
		for _, x := range f.topics {
			if x == nil {
				tt = append(tt, nil)
			} else {
				tt = append(tt, seth.Hash(*x))
			}
		}
		m["topics"] = tt
	}
	b, _ := json.Marshal(m)
	return b
}

func (f *filterArgs) filter() *refFilter {
	return &refFilter{from: f.from, to: f.to, addr: f.addr, topics: f.topics}
}

func (e *chainEnv) newFilter() *cop {
	f := e.filterArgs()
	body := f.json(e.t)
	return &cop{name: fmt.Sprintf("eth_newFilter %s", body),
		do: func(c *tevm.Chain, cl *seth.Client) cres {
			var id rawText
			err := cl.Do("eth_newFilter", []json.RawMessage{body}, &id)
			if err == nil {
				e.filters = append(e.filters, string(id.b))
			}
			return cres{text: string(id.b), err: err}
		},
		ref: func(r *refChain, g cres) string {
			if f.from >= 0 && f.to >= 0 && f.from > f.to {
				return "" // nothing can match it; may be refused
			}
			if g.err != nil {
				return fmt.Sprintf("error %v", g.err)
			}
			if r.filt[g.text] != nil {
				return fmt.Sprintf("filter id %s used twice", g.text)
			}
			x := f.filter()
			x.created = len(r.st.logs)
			r.filt[g.text] = x
			return ""
		}}
}

// filterID draws the id of a filter, or one of none.
func (e *chainEnv) filterID() string {
	t := e.t
	if len(e.filters) == 0 || t.Choose(10) == 9 {
		switch t.Choose(4) {
		case 0:
			return "0"
		case 1:
			return `"0x10000000000000001"`
		case 2:
			return `"0x77"`
		}
		return fmt.Sprintf(`"0x10000000000000%03x"`, t.Choose(8))
	}
	return e.filters[t.Choose(len(e.filters))]
}

func logLines(ll []seth.Log) string {
	s := ""
	for i := range ll {
		s += slogText(&ll[i]) + "\n"
	}
	return s
}

func (e *chainEnv) poll(full bool) *cop {
	id := e.filterID()
	m := "eth_getFilterChanges"
	if full {
		m = "eth_getFilterLogs"
	}
	return &cop{name: m + " " + id, read: true,
		do: func(c *tevm.Chain, cl *seth.Client) cres {
			var ll []seth.Log
			err := cl.Do(m, []json.RawMessage{json.RawMessage(id)}, &ll)
			return cres{text: logLines(ll), err: err}
		},
		ref: func(r *refChain, g cres) string {
			f := r.filt[id]
			if f == nil {
				return sameErr(g.err, errNoBlock)
			}
			if g.err != nil {
				return fmt.Sprintf("error %v", g.err)
			}
			match := func(from int) string {
				s := ""
				for _, l := range r.st.logs[from:] {
					if f.match(l) {
						s += rlogText(l) + "\n"
					}
				}
				return s
			}
			var want []string
			switch {
			case full:
				want = []string{match(0)}
			case f.polled:
				want = []string{match(f.pos)}
			default: // logs from before the filter was made may be included
				want = []string{match(f.created), match(0)}
			}
			f.polled, f.pos = true, len(r.st.logs)
			for _, w := range want {
				if g.text == w {
					return ""
				}
			}
			return fmt.Sprintf("logs\n%sexpected\n%s", g.text, want[0])
		}}
}

func (e *chainEnv) uninstall() *cop {
	id := e.filterID()
	return &cop{name: "eth_uninstallFilter " + id,
		do: func(c *tevm.Chain, cl *seth.Client) cres {
			var ok bool
			err := cl.Do("eth_uninstallFilter", []json.RawMessage{json.RawMessage(id)}, &ok)
			n := uint64(0)
			if ok {
				n = 1
			}
			return cres{n: n, err: err}
		},
		ref: func(r *refChain, g cres) string {
			had := r.filt[id] != nil
			delete(r.filt, id)
			if got := g.err == nil && g.n == 1; got != had {
				return fmt.Sprintf("uninstalled: %v %v, but the filter existed: %v", g.n == 1, g.err, had)
			}
			return ""
		}}
}

// copyOp takes a copy of the chain and looks at it at leisure.
func (e *chainEnv) copyOp() *cop {
	var cp *tevm.Chain
	return &cop{name: "Copy", read: true,
		do: func(c *tevm.Chain, cl *seth.Client) cres {
			cp = c.Copy()
			return cres{}
		},
		ref: func(r *refChain, g cres) string {
			return (&cw{t: e.t, e: e, c: cp, cl: cp.Client(), r: r, name: "copy"}).diffAll()
		}}
}

// viewOp takes a view of the chain at some block and looks at it at leisure.
func (e *chainEnv) viewOp() *cop {
	n := e.first + uint64(e.t.Choose(e.blocks+2))
	var v *tevm.Chain
	return &cop{name: fmt.Sprintf("AtBlock(%d)", n), read: true,
		do: func(c *tevm.Chain, cl *seth.Client) cres {
			v = c.AtBlock(int64(n))
			return cres{}
		},
		ref: func(r *refChain, g cres) string {
			if n == r.pend.num {
				if v == nil {
					return "no view at the pending block"
				}
				return ""
			}
			vw, d := (&cw{t: e.t, e: e, r: r, name: "chain"}).viewOf(n, v)
			if vw != nil {
				d = vw.diffAll()
			}
			return d
		}}
}

// filterSeq: filters on a chain used by one goroutine.
func filterSeq(t *T) {
	e := newChainEnv(t, mixLogs)
	w := newWorld(t, e)
	w.setupContracts(2 + t.Choose(3))
	for i := t.ops(40); i > 0; i-- {
		switch t.Choose(10) {
		case 0:
			w.run(e.newFilter())
			t.Count("reach:filter")
		case 1, 2:
			w.run(e.poll(false))
			t.Count("reach:poll")
		case 3:
			w.run(e.poll(true))
			t.Count("reach:full-query")
		case 4:
			if t.Choose(3) == 2 {
				w.run(e.uninstall())
			}
		default:
			w.run(w.draw("mmrrrc|"))
		}
	}
	for _, id := range e.filters {
		e.filters = []string{id}
		w.run(e.poll(t.Choose(2) == 1))
	}
}

// pollRec is what one filter was answered.
type pollRec struct {
	full   bool
	lo, hi int // logs of the chain before and after creation (first poll)
	text   string
}

// filterConc: several users with filters of their own while transactions run.
func filterConc(t *T) {
	e := newChainEnv(t, mixLogs)
	w := newWorld(t, e)
	w.setupContracts(2 + t.Choose(3))
	for i := t.Choose(6); i > 0; i-- {
		w.run(w.draw("mrc|"))
	}
	type user struct {
		args *filterArgs
		id   string
		lo   int
		hi   int
		rec  []pollRec
		gone bool
	}
	var users []*user
	var gs []*simrt.G
	for i := 1 + t.Choose(2); i > 0; i-- {
		gs = append(gs, t.Go(fmt.Sprint("sender", i), func() {
			cl := w.c.Client()
			for k := 1 + t.Choose(8); k > 0; k-- {
				var x *refTx
				t.Atomic(func() { x = e.newTx() })
				var err error
				switch t.Choose(4) {
				case 0:
					_, _, err = w.c.Mine(x.seth())
				case 1:
					_, err = w.c.Call(s2p(x.from), s2p(e.any()), "f(uint256)", e.word())
				default:
					_, err = cl.Call(x.opts())
				}
				t.Logf("sender: %s %v", x, err)
				if err != nil {
					t.Count(faultKind(err))
				}
			}
		}))
	}
	for i := 2 + t.Choose(3); i > 0; i-- {
		u := &user{args: e.filterArgs()}
		if u.args.from > u.args.to && u.args.to >= 0 {
			u.args.from = -2
		}
		users = append(users, u)
		i := i
		gs = append(gs, t.Go(fmt.Sprint("user", i), func() {
			cl := w.c.Client()
			u.lo = len(w.c.Logs())
			body := u.args.json(t)
			var id rawText
			if err := cl.Do("eth_newFilter", []json.RawMessage{body}, &id); err != nil {
				t.Failf("wrong-outcome", "eth_newFilter %s: %v", body, err)
			}
			u.id = string(id.b)
			u.hi = len(w.c.Logs())
			for k := 1 + t.Choose(6); k > 0; k-- {
				full := t.Choose(4) == 3
				m := "eth_getFilterChanges"
				if full {
					m = "eth_getFilterLogs"
				}
				var ll []seth.Log
				err := cl.Do(m, []json.RawMessage{id.b}, &ll)
				if err != nil {
					t.Failf("wrong-outcome", "%s %s: %v", m, id.b, err)
				}
				t.Logf("user%d: %s %d logs", i, m, len(ll))
				u.rec = append(u.rec, pollRec{full: full, text: logLines(ll)})
				t.Count("reach:concurrent-poll")
				simrt.Sleep(t.Dur(1e9))
			}
			if t.Choose(3) == 2 {
				var ok bool
				if err := cl.Do("eth_uninstallFilter", []json.RawMessage{id.b}, &ok); err != nil || !ok {
					t.Failf("wrong-outcome", "uninstalling filter %s: %v %v", id.b, ok, err)
				}
				u.gone = true
			}
		}))
	}
	t.Join(gs...)
	ids := map[string]bool{}
	all := w.c.Logs()
	for i, u := range users {
		if ids[u.id] {
			t.Failf("filters-mixed", "two filters have the id %s", u.id)
		}
		ids[u.id] = true
		var ll []seth.Log
		err := w.cl.Do("eth_getFilterChanges", []json.RawMessage{json.RawMessage(u.id)}, &ll)
		if u.gone {
			if err == nil {
				t.Failf("wrong-outcome", "polling the uninstalled filter %s is no error", u.id)
			}
		} else if err != nil {
			t.Failf("wrong-outcome", "polling filter %s: %v", u.id, err)
		} else {
			u.rec = append(u.rec, pollRec{text: logLines(ll)})
		}
		// logs of the chain that match, and how many of the first n do
		f := u.args.filter()
		var match []string
		upto := []int{0}
		for k := range all {
			if f.match(refLog(&all[k])) {
				match = append(match, slogText(&all[k])+"\n")
			}
			upto = append(upto, len(match))
		}
		// which positions are possible after each answer
		pos := map[int]bool{0: true}
		for k := u.lo; k <= u.hi; k++ {
			pos[upto[k]] = true
		}
		for k, p := range u.rec {
			n := strings.Count(p.text, "\n")
			next := map[int]bool{}
			if p.full {
				if n <= len(match) && strings.Join(match[:n], "") == p.text {
					for q := range pos {
						if q <= n {
							next[n] = true
						}
					}
				}
			} else {
				for q := range pos {
					if q+n <= len(match) && strings.Join(match[q:q+n], "") == p.text {
						next[q+n] = true
					}
				}
			}
			if len(next) == 0 {
				t.Failf("logs-lost-or-repeated", "answer %d of filter %d (%s, full %v):\n%sdoes not continue the earlier ones; all matching logs:\n%s", k, i, u.args.json(t), p.full, p.text, strings.Join(match, ""))
			}
			pos = next
		}
		if !u.gone && !pos[len(match)] {
			t.Failf("logs-lost-or-repeated", "filter %d (%s) did not report all of\n%s", i, u.args.json(t), strings.Join(match, ""))
		}
	}
}

// filterClient: the client's own filter on a chain in use.
func filterClient(t *T) {
	e := newChainEnv(t, mixLogs)
	w := newWorld(t, e)
	w.setupContracts(2 + t.Choose(3))
	for i := t.Choose(6); i > 0; i-- {
		w.run(w.draw("mrc|"))
	}
	cl := w.c.Client()
	args := e.filterArgs()
	start := int64(-1)
	poll := true
	end := args.to
	if t.Choose(3) == 2 {
		start, poll = int64(e.first)+int64(t.Choose(e.blocks+2)), false
		if end >= 0 && end < start {
			end = start
		}
	}
	args.from, args.to = start, end
	var topics []*seth.Hash
	for _, x := range args.topics {
		topics = append(topics, (*seth.Hash)(x))
	}
	var addr *seth.Address
	if args.addr != nil {
		addr = s2p(*args.addr)
	}
	lo := len(w.c.State.Logs)
	f, err := cl.FilterTopics(topics, addr, start, end)
	if err != nil {
		t.Failf("wrong-outcome", "FilterTopics: %v", err)
	}
	_ = lo
	var got []string
	ended := false
	g0 := t.Go("receiver", func() {
		for {
			l, ok := simrt.Recv2(f.Out())
			if !ok {
				break
			}
			got = append(got, slogText(l)+"\n")
		}
		ended = true
	})
	var gs []*simrt.G
	gs = append(gs, t.Go("sender", func() {
		for k := 1 + t.Choose(8); k > 0; k-- {
			var x *refTx
			t.Atomic(func() { x = e.newTx() })
			_, err := cl.Call(x.opts())
			t.Logf("sender: %s %v", x, err)
			if err != nil {
				t.Count(faultKind(err))
			}
			simrt.Sleep(t.Dur(2e9))
		}
	}))
	t.Join(gs...)
	ff := args.filter()
	all := w.c.Logs()
	want := ""
	n := 0
	for k := range all {
		if ff.match(refLog(&all[k])) {
			want += slogText(&all[k]) + "\n"
			n++
		}
	}
	// goroutines may be held up for a while
	for i := 0; i < 60 && !ended && (!poll || strings.Join(got, "") != want); i++ {
		t.Quiet(5e9)
	}
	t.Quiet(5e9)
	g := strings.Join(got, "")
	if poll {
		if f.Err() != nil || ended {
			t.Failf("wrong-outcome", "the filter ended: %v", f.Err())
		}
		if g != want {
			t.Failf("logs-lost-or-repeated", "the filter yielded\n%sexpected\n%s", g, want)
		}
		if n > 0 {
			t.Count("reach:client-filter-logs")
		}
		f.Close()
		if !t.JoinWithin(300e9, g0) {
			t.Failf("wrong-outcome", "the filter does not end after Close")
		}
	} else {
		if !ended || f.Err() != nil {
			t.Failf("wrong-outcome", "the filter did not end: %v", f.Err())
		}
		if !strings.HasPrefix(want, g) {
			t.Failf("logs-lost-or-repeated", "the filter yielded\n%sexpected the first of\n%s", g, want)
		}
		for k := 0; k < lo && k < len(all); k++ {
			if ff.match(refLog(&all[k])) {
				x := slogText(&all[k]) + "\n"
				if !strings.HasPrefix(g, x) {
					t.Failf("logs-lost-or-repeated", "the filter did not yield\n%s", x)
				}
				g = g[len(x):]
			}
		}
	}
}

func refLog(l *seth.Log) *gethLog {
	x := &gethLog{Address: common.Address(l.Address), BlockNumber: uint64(*l.BlockNumber)}
	for _, y := range l.Topics {
		x.Topics = append(x.Topics, common.BytesToHash(y))
	}
	return x
}

// hop is one operation of a concurrent history.
type hop struct {
	o        *cop
	g        cres
	inv, ret int64
	who      int
	mayFail  bool // a fault during it may have kept it from having any effect
}

// linBody: operations from several goroutines on one chain.
func linBody(t *T) {
	mix := mixAll
	if t.Choose(3) == 0 {
		mix = mixLogs
	}
	e := newChainEnv(t, mix)
	w := newWorld(t, e)
	w.setupContracts(1 + t.Choose(3))
	for i := t.Choose(4); i > 0; i-- {
		w.run(w.draw("mrc|s"))
	}
	if t.Choose(2) == 1 {
		w.run(e.newFilter())
	}
	linRun(t, w, nil)
}

// linFaults are faults during a concurrent history that may make an operation
// fail without effect.
type linFaults struct {
	start, stop func()
	fails       func() int
}

// linRun lets several goroutines use a chain and looks for an order of their
// operations that explains all outcomes.
func linRun(t *T, w *cw, lf *linFaults) {
	e := w.e
	var hist []*hop
	var gs []*simrt.G
	n := 2 + t.Choose(3)
	max := 4
	if t.Deep {
		max = 6
	}
	kinds := []string{
		"sScnNmmr|+abtBCE#lkxpFPLUYVM",
		"mmmr||kxplVV",
		"sSsSm+bBYa",
		"rrrFPPLUc",
		"tCEBbccmr",
	}[t.Choose(5)]
	if lf != nil { // these read balances to choose an amount
		kinds = strings.NewReplacer("S", "s", "-", "b").Replace(kinds)
		lf.start()
	}
	for i := 0; i < n; i++ {
		i := i
		gs = append(gs, t.Go(fmt.Sprint("user", i), func() {
			cl := w.client()
			for k := 1 + t.Choose(max); k > 0; k-- {
				var o *cop
				t.Atomic(func() { o = w.drawAll(kinds) })
				f0 := 0
				if lf != nil {
					o = o.guard()
					f0 = lf.fails()
				}
				h := &hop{o: o, who: i, inv: t.Seq(), ret: 1 << 62}
				hist = append(hist, h)
				t.Logf("user%d: %s ...", i, o.name)
				h.g = o.do(w.c, cl)
				h.ret = t.Seq()
				h.mayFail = lf != nil && h.g.err != nil && lf.fails() > f0
				t.Logf("user%d: %s = %s", i, o.name, h.g)
				t.Count("reach:concurrent-operation")
				if h.g.err != nil {
					t.Count(faultKind(h.g.err))
				}
			}
		}))
	}
	t.Join(gs...)
	if w.settle != nil {
		w.settle()
	}
	if lf != nil {
		lf.stop()
	}
	// what it all led to
	hist = append(hist, &hop{inv: t.Seq(), ret: t.Seq(), o: &cop{name: "final state", ref: func(r *refChain, g cres) string {
		return (&cw{t: t, e: e, c: w.c, cl: w.cl, r: r, name: "chain"}).diffAll()
	}}})
	l := &lin{hist: hist, seen: map[string]bool{}, budget: 4000}
	if l.search(w.r, 0, nil) {
		return
	}
	if l.budget <= 0 {
		t.Count("inconclusive:linearization-search")
		return
	}
	s := ""
	for _, h := range hist {
		s += fmt.Sprintf("\n  user%d [%d,%d] %s = %s", h.who, h.inv, h.ret, h.o.name, h.g)
	}
	t.Failf("not-linearizable", "no order of these operations explains their outcomes; %d of %d could be placed, then %s%s", len(l.best), len(hist), l.why, s)
}

func (w *cw) drawAll(kinds string) *cop {
	e := w.e
	switch k := kinds[w.t.Choose(len(kinds))]; k {
	case 'F':
		return e.newFilter()
	case 'P':
		return e.poll(false)
	case 'L':
		return e.poll(true)
	case 'U':
		return e.uninstall()
	case 'Y':
		return e.copyOp()
	case 'V':
		return e.viewOp()
	default:
		return w.draw(string(k))
	}
}

type lin struct {
	hist   []*hop
	seen   map[string]bool
	budget int
	best   []int
	why    string
}

func (l *lin) search(r *refChain, mask uint64, order []int) bool {
	if len(order) == len(l.hist) {
		return true
	}
	first := int64(1) << 62
	for i, h := range l.hist {
		if mask&(1<<uint(i)) == 0 && h.ret < first {
			first = h.ret
		}
	}
	// candidates: what began before anything left ended, earliest end first
	var cand []int
	for i, h := range l.hist {
		if mask&(1<<uint(i)) == 0 && h.inv < first {
			cand = append(cand, i)
		}
	}
	for i := range cand {
		for j := i; j > 0 && l.hist[cand[j]].ret < l.hist[cand[j-1]].ret; j-- {
			cand[j], cand[j-1] = cand[j-1], cand[j]
		}
	}
	for _, i := range cand {
		if l.hist[i].mayFail {
			k := fmt.Sprintf("%x %s", mask|1<<uint(i), r.digest())
			if !l.seen[k] {
				l.seen[k] = true
				if l.search(r, mask|1<<uint(i), append(append([]int{}, order...), i)) {
					return true
				}
			}
		}
		l.budget--
		if l.budget <= 0 {
			return false
		}
		x := r.clone()
		if d := l.hist[i].o.ref(x, l.hist[i].g); d != "" {
			if len(order) >= len(l.best) {
				l.best = append([]int{}, order...)
				l.why = fmt.Sprintf("%s: %s", l.hist[i].o.name, d)
			}
			continue
		}
		x.st.snaps = nil
		m := mask | 1<<uint(i)
		k := fmt.Sprintf("%x %s", m, x.digest())
		if l.seen[k] {
			continue
		}
		l.seen[k] = true
		if l.search(x, m, append(append([]int{}, order...), i)) {
			return true
		}
	}
	return false
}

// digest identifies the state of the model.
func (r *refChain) digest() string {
	h := fnv.New128a()
	fmt.Fprintf(h, "%s %d %d", r.st.text(true), r.pend.num, r.pend.gasUsed)
	for n := r.first; n <= r.pend.num; n++ {
		b := r.blocks[n]
		if b == nil {
			b = r.pend
		}
		if b.st != nil {
			if b.dig == "" {
				b.dig = b.st.text(true)
			}
			fmt.Fprintf(h, "%s;", b.dig)
		}
		for _, x := range b.txs {
			fmt.Fprintf(h, "%d %x %v %s %x %s %d %d %x,", n, x.hash, x.hashed, x, x.data, x.price, x.used, x.status, x.addr)
			for _, l := range x.logs {
				h.Write([]byte(rlogText(l)))
			}
		}
	}
	for _, l := range r.st.logs {
		fmt.Fprintf(h, "%s", rlogText(l))
	}
	for _, k := range sortedKeys(r.filt) {
		f := r.filt[k]
		fmt.Fprintf(h, "%s %d %d %v", k, f.pos, f.created, f.polled)
	}
	return fmt.Sprintf("%x", h.Sum(nil))
}
