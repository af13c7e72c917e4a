package scen

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/philhofer/seth/tevm"
	"verif.sim/simrt"
)

// T11: saved and restored chains. T12: state snapshots. T13: the tree.

func init() {
	Register(&Scenario{Prop: "T11", Name: "chain-save-restore", Weight: 3, NoPreempt: true, Body: saveSeq})
	Register(&Scenario{Prop: "T11", Name: "chain-save-in-use", Body: saveConc})
	Register(&Scenario{Prop: "T11", Name: "chain-restore-damaged", NoPreempt: true, Body: saveDamaged})
	Register(&Scenario{Prop: "T12", Name: "state-snapshots", Weight: 3, NoPreempt: true, Body: stateSeq})
	Register(&Scenario{Prop: "T12", Name: "state-snapshots-shared", Body: stateConc})
	Register(&Scenario{Prop: "T13", Name: "tree-map", Weight: 2, NoPreempt: true, Body: treeSeq})
	Register(&Scenario{Prop: "T13", Name: "tree-owners", Body: treeConc})
}

// restored makes a world from the saved form of a chain.
func (w *cw) restored(b []byte, r *refChain, n int, u *upstream) *cw {
	c := new(tevm.Chain)
	if w.t.Choose(3) == 0 { // into a chain that was used for something else
		c = tevm.NewChain()
		c.NewAccount(3)
		c.Seal()
	}
	if err := json.Unmarshal(b, c); err != nil {
		w.t.Failf("not-restored", "restoring the saved form of the %s: %v", w.name, err)
	}
	if u != nil {
		c.State.Fallback.Client = u.n.Client()
	}
	w.t.Count("reach:restored")
	return &cw{t: w.t, e: w.e, c: c, cl: c.Client(), r: r, name: fmt.Sprintf("restored%d from %s", n, w.name)}
}

func (w *cw) saved() []byte {
	b, err := json.Marshal(w.c)
	if err != nil {
		w.t.Failf("not-saved", "saving the %s: %v", w.name, err)
	}
	return b
}

func saveSeq(t *T) {
	var w *cw
	var u *upstream
	if t.Choose(4) == 3 {
		w, u = newFork(t, mixAll)
	} else {
		w = newWorld(t, newChainEnv(t, mixAll))
		if t.Choose(8) > 0 {
			w.setupContracts(1 + t.Choose(3))
		}
	}
	all := []*cw{w}
	for i := t.ops(30); i > 0; i-- {
		x := all[t.Choose(len(all))]
		switch k := t.Choose(12); {
		case k < 2 && len(all) < 5:
			n := x.restored(x.saved(), x.r.clone(), len(all), u)
			n.checkAll("right after restoring")
			x.checkState("right after being saved")
			all = append(all, n)
		case k == 2 && len(all) < 5:
			all = append(all, x.copyOf(len(all)))
		case k == 3 && len(all) < 5 && x.r.pend.num > x.r.first:
			if v := x.viewAt(x.r.first+uint64(t.Choose(int(x.r.pend.num-x.r.first))), len(all)); v != nil {
				all = append(all, v)
			}
		case k < 6:
			x.run(x.draw(reads))
		default:
			x.run(x.draw(writes))
		}
	}
	for _, x := range all {
		x.checkAll("at the end")
	}
	// all can still be saved and go on
	for i, x := range all {
		n := x.restored(x.saved(), x.r.clone(), i, u)
		for k := t.Choose(3); k > 0; k-- {
			n.run(n.draw(writes))
		}
		n.run(n.e.seal())
		n.checkAll("after going on")
	}
}

// saveConc: a chain is saved while others use it; what was saved is the chain
// at one instant.
func saveConc(t *T) {
	e := newChainEnv(t, mixAll)
	w := newWorld(t, e)
	w.setupContracts(1 + t.Choose(3))
	for i := t.Choose(6); i > 0; i-- {
		w.run(w.draw(writes))
	}
	hist := []*refChain{w.r.clone()}
	started, done := 0, false
	var gs []*simrt.G
	gs = append(gs, t.Go("user", func() {
		for k := t.ops(12); k > 0; k-- {
			var o *cop
			t.Atomic(func() { o = w.draw(writes + "rmm|") })
			started++
			w.run(o)
			hist = append(hist, w.r.clone())
		}
		done = true
	}))
	for i := 1 + t.Choose(2); i > 0; i-- {
		i := i
		gs = append(gs, t.Go(fmt.Sprint("saver", i), func() {
			for k := 1 + t.Choose(3); k > 0 && !done; k-- {
				lo := len(hist) - 1
				b := w.saved()
				hi := started
				t.Count("reach:saved-in-use")
				simrt.WaitUntil("model", func() bool { return len(hist) > hi || done })
				var d string
				var v *cw
				for j := hi; j >= lo; j-- {
					v = w.restored(b, hist[j].clone(), k, nil)
					if d = v.diffAll(); d == "" {
						break
					}
				}
				if d != "" {
					t.Failf("save-matches-no-instant", "a chain saved during operations %d to %d matches the chain at none of these times: %s", lo, hi, d)
				}
				for i := 0; i < 3; i++ {
					var o *cop
					t.Atomic(func() { o = v.draw(writes) })
					v.run(o)
				}
				v.checkAll("after operations on the restored chain")
				simrt.Sleep(t.Dur(1e9))
			}
		}))
	}
	t.Join(gs...)
	w.checkAll("at the end")
}

// saveDamaged: the saved form is truncated or damaged.
func saveDamaged(t *T) {
	e := newChainEnv(t, mixAll)
	w := newWorld(t, e)
	w.setupContracts(1 + t.Choose(3))
	for i := t.ops(8); i > 0; i-- {
		w.run(w.draw(writes))
	}
	b := w.saved()
	v := newWorld(t, newChainEnv(t, mixAll)) // receives the damaged form
	v.name = "receiver"
	for i := 1 + t.Choose(5); i > 0; i-- {
		v.run(v.draw(writes))
	}
	for i := 4 + t.Choose(12); i > 0; i-- {
		if t.Choose(2) == 1 {
			n := t.Choose(len(b))
			if t.Choose(4) == 0 { // near the end
				n = len(b) - 1 - t.Choose(20)
			}
			t.Count("fault:saved-form-truncated")
			err := json.Unmarshal(b[:n], v.c)
			if err == nil {
				t.Failf("truncation-accepted", "the first %d of %d bytes of a saved chain were restored without an error", n, len(b))
			}
			// by itself, as a decoder would call it
			err = v.c.UnmarshalJSON(b[:n])
			if err == nil {
				t.Failf("truncation-accepted", "the first %d of %d bytes of a saved chain were restored without an error", n, len(b))
			}
			v.checkState("after refusing a truncated saved chain")
			continue
		}
		x := append([]byte{}, b...)
		for k := 1 + t.Choose(3); k > 0; k-- {
			x = t.damage(x)
		}
		t.Count("fault:saved-form-damaged")
		c := new(tevm.Chain)
		err := c.UnmarshalJSON(x)
		t.Logf("restoring damaged form: %v", err)
	}
	v.checkAll("after refusing truncated saved chains")
	n := v.restored(b, w.r.clone(), 1, nil)
	n.checkAll("restored from the undamaged form")
}

// T12 ---------------------------------------------------------------------

// snapState is a state with its model and the snapshots that are still valid.
type snapState struct {
	t     *T
	name  string
	db    vm.StateDB
	st    *tevm.State
	r     *refState
	snaps []stSnap
	addrs []common.Address
	keys  []common.Hash // storage keys, else 0..3
	focus int           // on some kinds of steps
}

type stSnap struct {
	id int
	r  *refState
}

func (s *snapState) text(db acctReader, full vm.StateDB) string {
	o := s.r.textOf(db, true)
	for _, a := range s.addrs {
		o += fmt.Sprintf("%s exist=%v empty=%v\n", short(a), full.Exist(a), full.Empty(a))
	}
	return o + fmt.Sprintf("refund %d\n", full.GetRefund())
}

func (s *snapState) check(why string) {
	t := s.t
	if d := diffLines(s.text(s.db, s.db), s.text(s.r, s.r)); d != "" {
		t.Failf("wrong-state", "%s, %s: %s", why, s.name, d)
	}
	if len(s.st.Logs) != len(s.r.logs) {
		t.Failf("wrong-logs", "%s, %s has %d logs, expected %d", why, s.name, len(s.st.Logs), len(s.r.logs))
	}
	for i, l := range s.st.Logs {
		if d := diffLines(rlogText(l), rlogText(s.r.logs[i])); d != "" {
			t.Failf("wrong-logs", "%s, %s, log %d: %s", why, s.name, i, d)
		}
	}
}

func (s *snapState) addr() common.Address { return s.addrs[s.t.Choose(len(s.addrs))] }

// step does one thing to the state and its model.
func (s *snapState) step(kinds int) {
	t := s.t
	a := s.addr()
	ki := t.Choose(4)
	key := common.Hash{31: byte(ki)}
	if s.keys != nil {
		key = s.keys[ki]
	}
	eq := func(what string, got, want interface{}) {
		t.Logf("%s: %s %s = %v", s.name, what, short(a), got)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			t.Failf("wrong-answer", "%s: %s of %s is %v, expected %v", s.name, what, short(a), got, want)
		}
	}
	did := func(f string, x ...interface{}) { t.Logf("%s: %s", s.name, fmt.Sprintf(f, x...)) }
	k := t.Choose(kinds)
	if s.focus > 0 && t.Choose(2) == 1 {
		k = []int{0, 2, 14, 8, 12, 4}[t.Choose(4)+s.focus-1]
	}
	switch k {
	case 0, 1:
		id := s.db.Snapshot()
		s.snaps = append(s.snaps, stSnap{id, s.r.clone()})
		did("Snapshot = %d", id)
		for _, o := range s.snaps[:len(s.snaps)-1] {
			if o.id == id {
				t.Failf("snapshot-reused", "%s: two valid snapshots have the number %d", s.name, id)
			}
		}
		t.Count("reach:snapshot")
	case 2, 3:
		if len(s.snaps) == 0 {
			return
		}
		k := len(s.snaps) - 1 - t.Choose(len(s.snaps))
		did("RevertToSnapshot %d", s.snaps[k].id)
		s.db.RevertToSnapshot(s.snaps[k].id)
		s.r = s.snaps[k].r.clone()
		s.snaps = s.snaps[:k+1]
		t.Count("reach:revert")
		s.check("after reverting")
	case 4:
		v := big.NewInt(int64(t.Choose(4)))
		if t.Choose(8) == 7 {
			v.Lsh(v.Add(v, big.NewInt(1)), uint(8*t.Choose(12)))
		}
		did("AddBalance %s %s", short(a), v)
		s.db.AddBalance(a, v)
		s.r.AddBalance(a, v)
	case 5:
		v := new(big.Int)
		if b := s.r.GetBalance(a); b.Sign() > 0 {
			if v.Set(b); t.Choose(3) > 0 {
				n := int64(t.Choose(1 << 16))
				v.Rsh(v.Mul(v, big.NewInt(n)), 16)
			}
		}
		did("SubBalance %s %s", short(a), v)
		s.db.SubBalance(a, v)
		s.r.SubBalance(a, v)
	case 6:
		n := uint64(t.Choose(3))
		if t.Choose(8) == 7 {
			n = uint64(1+t.Choose(3)) << uint(8*t.Choose(8))
		}
		did("SetNonce %s %d", short(a), n)
		s.db.SetNonce(a, n)
		s.r.SetNonce(a, n)
	case 7:
		if !s.r.Exist(a) {
			return // code is set for accounts only
		}
		c := t.Bytes(1 + t.Choose(3))
		if t.Choose(6) == 5 {
			c = bytes.Repeat(c, 1+t.Choose(100))
		}
		did("SetCode %s %x", short(a), c)
		s.db.SetCode(a, c)
		s.r.SetCode(a, c)
	case 8, 9, 10:
		v := common.Hash{31: byte(t.Choose(3))}
		switch t.Choose(8) {
		case 6:
			copy(v[:], t.Bytes(32))
		case 7:
			v = common.Hash{}
			v[t.Choose(32)] = byte(t.Choose(256))
		}
		did("SetState %s %x=%x", short(a), key, v)
		s.db.SetState(a, key, v)
		s.r.SetState(a, key, v)
	case 11:
		eq("GetState", s.db.GetState(a, key), s.r.GetState(a, key))
	case 12:
		eq("Suicide", s.db.Suicide(a), s.r.Suicide(a))
	case 13:
		did("CreateAccount %s", short(a))
		s.db.CreateAccount(a)
		s.r.CreateAccount(a)
	case 14:
		l := &types.Log{Address: a, Data: t.Bytes(t.Choose(4) * (1 + 20*t.Choose(2))), BlockNumber: uint64(t.Choose(3))}
		for i := t.Choose(3); i > 0; i-- {
			l.Topics = append(l.Topics, key)
		}
		m := *l
		did("AddLog of %s", short(a))
		s.db.AddLog(l)
		s.r.AddLog(&m)
	case 15:
		n := uint64(t.Choose(5))
		if t.Choose(8) == 7 {
			n <<= uint(8 * t.Choose(7))
		}
		did("AddRefund %d", n)
		s.db.AddRefund(n)
		s.r.AddRefund(n)
	case 16:
		n := s.r.refund
		if t.Choose(3) > 0 && n < 1<<30 {
			n = uint64(t.Choose(int(n) + 1))
		}
		did("SubRefund %d", n)
		s.db.SubRefund(n)
		s.r.SubRefund(n)
	case 17:
		eq("GetBalance", s.db.GetBalance(a), s.r.GetBalance(a))
		eq("GetNonce", s.db.GetNonce(a), s.r.GetNonce(a))
		eq("GetCodeSize", s.db.GetCodeSize(a), s.r.GetCodeSize(a))
		eq("GetCodeHash", s.db.GetCodeHash(a), s.r.GetCodeHash(a))
		eq("HasSuicided", s.db.HasSuicided(a), s.r.HasSuicided(a))
	}
}

const stateKinds = 18

func (s *snapState) someKeys() []common.Hash {
	if s.t.Choose(3) == 2 {
		return oddKeys(s.t)
	}
	return nil
}

func newSnapState(t *T) *snapState {
	s := &snapState{t: t, focus: t.Choose(4), name: "state", r: newRefState(), st: new(tevm.State)}
	s.db = s.st.StateDB()
	var base common.Address
	if t.Choose(3) == 2 {
		copy(base[:], t.Bytes(20))
	}
	at := []int{19, 19, 19, 0, 7, 11, 12}[t.Choose(7)]
	for i := 0; i < 2+t.Choose(4); i++ {
		a := base
		a[at] ^= byte(i + 1)
		s.addrs = append(s.addrs, a)
	}
	s.keys = s.someKeys()
	return s
}

// stateSeq: one state, from empty, and later copies and sealed blocks of the
// chain it belongs to.
func stateSeq(t *T) {
	if t.Choose(2) == 0 {
		s := newSnapState(t)
		if t.Choose(4) == 0 {
			k := 0
			s.st.Trace = func(fn string, args ...interface{}) { k++ }
		}
		for i := t.ops(100); i > 0; i-- {
			s.step(stateKinds)
			if t.Choose(8) == 0 {
				s.check("on the way")
			}
		}
		// back through all snapshots
		for len(s.snaps) > 0 {
			k := len(s.snaps) - 1 - t.Choose(2)
			if k < 0 {
				k = 0
			}
			s.db.RevertToSnapshot(s.snaps[k].id)
			s.r = s.snaps[k].r.clone()
			s.snaps = s.snaps[:k]
			s.check("after reverting at the end")
		}
		return
	}
	// the state of a chain
	e := newChainEnv(t, mixAll)
	w := newWorld(t, e)
	n := 1
	sealedAt := []*snapState{}
	mk := func(w *cw) *snapState {
		s := &snapState{t: t, focus: t.Choose(4), name: "state of " + w.name, r: w.r.st, st: &w.c.State, db: w.c.State.StateDB(), addrs: e.eoa}
		s.keys = s.someKeys()
		return s
	}
	worlds := []*cw{w}
	sealedAt = append(sealedAt, mk(w))
	for i := t.ops(80); i > 0; i-- {
		k := t.Choose(len(worlds))
		x, s := worlds[k], sealedAt[k]
		switch t.Choose(12) {
		case 0:
			if len(worlds) < 4 {
				v := x.copyOf(n)
				n++
				worlds = append(worlds, v)
				sealedAt = append(sealedAt, mk(v))
				t.Count("reach:copy")
			}
		case 1:
			x.run(e.seal())
			s.snaps = nil // snapshots are not used across blocks
		case 2:
			if x.r.pend.num > x.r.first {
				b := x.r.first + uint64(t.Choose(int(x.r.pend.num-x.r.first)))
				if v := x.viewAt(b, n); v != nil {
					if d := diffLines(v.stateText(true), v.r.st.text(true)); d != "" {
						t.Failf("sealed-state-changed", "block %d of the %s: %s", b, x.name, d)
					}
					n++
					if len(worlds) < 4 {
						worlds = append(worlds, v)
						sealedAt = append(sealedAt, mk(v))
						t.Count("reach:view")
					}
				}
			}
		default:
			s.r = x.r.st
			s.step(stateKinds)
			x.r.st = s.r
		}
	}
	for k, x := range worlds {
		sealedAt[k].r = x.r.st
		sealedAt[k].check("at the end")
		if d := diffLines(historyText(x.c, x.r), x.r.historyText()); d != "" {
			t.Failf("sealed-state-changed", "sealed blocks of the %s: %s", x.name, d)
		}
	}
}

// stateConc: copies of one chain, each with one owner working on its state.
func stateConc(t *T) {
	e := newChainEnv(t, mixAll)
	w := newWorld(t, e)
	for i := t.Choose(3); i > 0; i-- {
		w.run(w.draw("+s|"))
	}
	worlds := []*cw{w}
	for i := 1 + t.Choose(3); i > 0; i-- {
		worlds = append(worlds, worlds[t.Choose(len(worlds))].copyOf(i))
	}
	var gs []*simrt.G
	var ss []*snapState
	for _, x := range worlds {
		s := &snapState{t: t, name: "state of " + x.name, r: x.r.st, st: &x.c.State, db: x.c.State.StateDB(), addrs: e.eoa}
		s.keys = s.someKeys()
		ss = append(ss, s)
		gs = append(gs, t.Go(x.name, func() {
			for i := t.ops(25); i > 0; i-- {
				s.step(stateKinds)
			}
			s.check("after its last operation")
		}))
	}
	t.Join(gs...)
	for _, s := range ss {
		s.check("at the end")
	}
}

// T13 ---------------------------------------------------------------------

type treeSnap struct {
	id int
	m  map[string]string
}

type treeOwner struct {
	t     *T
	name  string
	tr    *tevm.Tree
	m     map[string]string
	snaps []treeSnap
}

func cloneMap(m map[string]string) map[string]string {
	o := make(map[string]string, len(m))
	for k, v := range m {
		o[k] = v
	}
	return o
}

func (o *treeOwner) key(space int) []byte {
	k := o.t.Choose(space)
	if space > 100 {
		return []byte{byte(k >> 8), byte(k)}
	}
	return []byte(fmt.Sprint(k)) // of different lengths
}

func (o *treeOwner) check(why string, m map[string]string, tr *tevm.Tree) {
	t := o.t
	var got [][2]string
	tr.Iterate(func(k, v []byte) bool {
		got = append(got, [2]string{string(k), string(v)})
		return true
	})
	up := sort.SliceIsSorted(got, func(i, j int) bool { return got[i][0] < got[j][0] })
	down := sort.SliceIsSorted(got, func(i, j int) bool { return got[i][0] > got[j][0] })
	if !up && !down {
		t.Failf("out-of-order", "%s, %s is not iterated in order: %q", why, o.name, got)
	}
	if len(got) != len(m) {
		t.Failf("wrong-map", "%s, %s has %d entries, expected %d: %q, expected %q", why, o.name, len(got), len(m), got, m)
	}
	for _, p := range got {
		if v, ok := m[p[0]]; !ok || v != p[1] {
			t.Failf("wrong-map", "%s, %s has %q=%q, expected %q %v", why, o.name, p[0], p[1], v, ok)
		}
	}
	for k, v := range m {
		if g := tr.Get([]byte(k)); g == nil || string(g) != v {
			t.Failf("wrong-map", "%s, %s: Get %q is %q, expected %q", why, o.name, k, g, v)
		}
	}
}

// step does one operation; a copy is returned.
func (o *treeOwner) step(space int) *treeOwner {
	t := o.t
	switch t.Weighted(8, 5, 3, 1, 4, 3, 2) {
	case 0:
		k, v := o.key(space), []byte(fmt.Sprint("v", t.Choose(1000)))
		t.Logf("%s: Insert %q %q", o.name, k, v)
		o.tr.Insert(k, v)
		o.m[string(k)] = string(v)
	case 1:
		k := o.key(space)
		_, had := o.m[string(k)]
		got := o.tr.Delete(k)
		t.Logf("%s: Delete %q = %v", o.name, k, got)
		delete(o.m, string(k))
		if got != had {
			t.Failf("wrong-delete", "%s: Delete %q is %v, expected %v", o.name, k, got, had)
		}
		t.Count("reach:delete")
	case 2:
		k := o.key(space)
		v, had := o.m[string(k)]
		got := o.tr.Get(k)
		if (got != nil) != had || string(got) != v {
			t.Failf("wrong-get", "%s: Get %q is %q, expected %q", o.name, k, got, v)
		}
	case 3:
		max, n := t.Choose(4), 0
		o.tr.Iterate(func(k, v []byte) bool { n++; return n < max })
		want := max
		if want == 0 {
			want = 1
		}
		if len(o.m) < want {
			want = len(o.m)
		}
		if n != want {
			t.Failf("wrong-iteration", "%s: iteration went on to entry %d, expected %d", o.name, n, want)
		}
	case 4:
		id := o.tr.Snapshot()
		t.Logf("%s: Snapshot = %d", o.name, id)
		for _, s := range o.snaps {
			if s.id == id && (len(s.m) != 0 || len(o.m) != 0) {
				t.Failf("snapshot-reused", "%s: two different snapshots have the number %d", o.name, id)
			}
		}
		o.snaps = append(o.snaps, treeSnap{id, cloneMap(o.m)})
		t.Count("reach:snapshot")
	case 5:
		if len(o.snaps) == 0 {
			break
		}
		k := len(o.snaps) - 1 - t.Choose(len(o.snaps))
		if t.Choose(2) == 1 {
			k = len(o.snaps) - 1
		}
		t.Logf("%s: Rollback %d", o.name, o.snaps[k].id)
		o.tr.Rollback(o.snaps[k].id)
		o.m = cloneMap(o.snaps[k].m)
		o.snaps = o.snaps[:k+1]
		o.check("after rolling back", o.m, o.tr)
		t.Count("reach:rollback")
	case 6:
		var c tevm.Tree
		n := &treeOwner{t: t, name: o.name + "'", tr: &c}
		if t.Choose(2) == 1 && len(o.snaps) > 0 {
			k := t.Choose(len(o.snaps))
			t.Logf("%s: CopyAt %d", o.name, o.snaps[k].id)
			c = o.tr.CopyAt(o.snaps[k].id)
			n.m = cloneMap(o.snaps[k].m)
			for _, s := range o.snaps[:k+1] {
				n.snaps = append(n.snaps, s)
			}
		} else {
			id := o.tr.Snapshot()
			t.Logf("%s: CopyAt Snapshot = %d", o.name, id)
			o.snaps = append(o.snaps, treeSnap{id, cloneMap(o.m)})
			c = o.tr.CopyAt(id)
			n.m = cloneMap(o.m)
			n.snaps = append(n.snaps, o.snaps...)
		}
		n.check("right after copying", n.m, n.tr)
		t.Count("reach:copy")
		return n
	}
	return nil
}

// owned gives all owners trees of one family.
func newTreeOwner(t *T) *treeOwner {
	return &treeOwner{t: t, name: "tree", tr: new(tevm.Tree), m: map[string]string{}}
}

func treeSeq(t *T) {
	owners := []*treeOwner{newTreeOwner(t)}
	space := []int{3, 12, 60, 400}[t.Choose(4)]
	n := t.ops(120)
	if t.Choose(4) == 0 { // grow first
		for k := t.Choose(space); k > 0; k-- {
			key, v := owners[0].key(space), []byte{byte(k)}
			owners[0].tr.Insert(key, v)
			owners[0].m[string(key)] = string(v)
		}
	}
	if t.Choose(40) == 39 { // a long history
		o := owners[0]
		for k := 100 + t.Choose(250); k > 0; k-- {
			key, v := o.key(3), []byte{byte(k)}
			o.tr.Insert(key, v)
			o.m[string(key)] = string(v)
			o.snaps = append(o.snaps, treeSnap{o.tr.Snapshot(), cloneMap(o.m)})
		}
		t.Count("reach:long-history")
	}
	for ; n > 0; n-- {
		o := owners[t.Choose(len(owners))]
		if c := o.step(space); c != nil && len(owners) < 6 {
			c.name = fmt.Sprintf("tree%d", len(owners))
			owners = append(owners, c)
		}
		if t.Choose(6) == 0 {
			v := owners[t.Choose(len(owners))]
			v.check("after operations on others", v.m, v.tr)
		}
	}
	for _, o := range owners {
		o.check("at the end", o.m, o.tr)
	}
	// every snapshot of every owner is still what it was
	for _, o := range owners {
		for _, s := range o.snaps {
			c := o.tr.CopyAt(s.id)
			o.check(fmt.Sprintf("snapshot %d copied at the end", s.id), s.m, &c)
		}
	}
	for _, o := range owners {
		for k := len(o.snaps) - 1; k >= 0; k -= 1 + t.Choose(2) {
			o.tr.Rollback(o.snaps[k].id)
			o.check(fmt.Sprintf("rolled back to %d at the end", o.snaps[k].id), o.snaps[k].m, o.tr)
		}
	}
}

// treeConc: each copy has an owner of its own running at the same time.
func treeConc(t *T) {
	first := newTreeOwner(t)
	space := []int{6, 30, 200}[t.Choose(3)]
	owners := []*treeOwner{first}
	for i := t.Choose(30); i > 0; i-- {
		if c := owners[t.Choose(len(owners))].step(space); c != nil && len(owners) < 4 {
			c.name = fmt.Sprintf("tree%d", len(owners))
			owners = append(owners, c)
		}
	}
	if len(owners) == 1 {
		id := first.tr.Snapshot()
		first.snaps = append(first.snaps, treeSnap{id, cloneMap(first.m)})
		c := first.tr.CopyAt(id)
		owners = append(owners, &treeOwner{t: t, name: "tree1", tr: &c, m: cloneMap(first.m), snaps: append([]treeSnap{}, first.snaps...)})
	}
	var gs []*simrt.G
	for _, o := range owners {
		o := o
		gs = append(gs, t.Go(o.name, func() {
			for i := t.ops(20); i > 0; i-- {
				if c := o.step(space); c != nil {
					for k := t.Choose(4); k > 0; k-- {
						c.step(space)
					}
					c.check("a copy in use", c.m, c.tr)
				}
			}
			o.check("after its last operation", o.m, o.tr)
		}))
	}
	t.Join(gs...)
	for _, o := range owners {
		o.check("at the end", o.m, o.tr)
	}
}
