package scen

import (
	"fmt"
	"strings"
	"time"

	"github.com/philhofer/seth"

	"verif.sim/simrt"
)

func init() {
	Register(&Scenario{Prop: "H01", Name: "registry", Fresh: true, Body: hsmRun})
}

// fakeHSM is a module; only its identity matters to the registry.
type fakeHSM struct{ id int }

func (*fakeHSM) Unlock([]byte) error                      { return nil }
func (*fakeHSM) Pubkeys() ([]seth.HSMKey, error)          { return nil, nil }
func (*fakeHSM) Signer(*seth.HSMKey) (seth.Signer, error) { return nil, nil }

type probePanic struct{ id int }

type hsmReg struct {
	id         int
	name       string
	start, end int64 // end 0: still going on
	// what the probe does
	panics, none bool
	pause        time.Duration
	nested       int // registers or looks up
	hints        bool
	calls        int
}

type hsmFind struct {
	name       string
	hints      []string
	start, end int64
	called     []*hsmReg
	g          *simrt.G
}

type hsmWorld struct {
	t     *T
	names []string
	regs  []*hsmReg
	finds []*hsmFind
	stack map[*simrt.G][]*hsmFind
	depth map[*simrt.G]int
	left  int
}

func hsmRun(t *T) {
	w := &hsmWorld{t: t, stack: map[*simrt.G][]*hsmFind{}, depth: map[*simrt.G]int{}, left: 60}
	all := []string{"yubihsm", "ledger", "yubihs", "", "YubiHSM", "yubihsm2", "ledger\x00"}
	w.names = all[:1+t.Choose(len(all))]
	var gs []*simrt.G
	n := 1 + t.Choose(5)
	for i := 0; i < n; i++ {
		ops := 1 + t.Choose(5)
		gs = append(gs, simrt.Go(fmt.Sprintf("user%d", i), func() {
			for k := 0; k < ops; k++ {
				w.op()
			}
		}))
	}
	if !t.JoinWithin(time.Hour, gs...) {
		t.Failf("stuck", "an operation on the registry does not end: %s", strings.Join(t.Live(), "; "))
	}
	// nothing that was registered is lost
	for _, nm := range w.names {
		w.find(nm)
	}
	w.judge()
}

func (w *hsmWorld) op() {
	t := w.t
	if w.left--; w.left < 0 {
		return
	}
	if t.Choose(2) == 0 {
		w.register(w.names[t.Choose(len(w.names))])
	} else {
		w.find(w.names[t.Choose(len(w.names))])
	}
	if t.Choose(3) == 2 {
		simrt.Sleep(t.Dur(3 * time.Millisecond))
	}
}

func (w *hsmWorld) register(name string) {
	t := w.t
	r := &hsmReg{id: len(w.regs), name: name, start: t.Seq()}
	switch t.Choose(8) {
	case 1:
		r.panics = true
	case 2:
		r.none = true
	case 3:
		r.pause = t.Dur(time.Second)
	case 4, 5:
		r.nested = 1 + t.Choose(2)
	}
	w.regs = append(w.regs, r)
	t.Logf("register %q probe %d", name, r.id)
	seth.RegisterHSM(name, func(hints ...string) seth.HSM { return w.probe(r, hints) })
	r.end = t.Seq()
	t.Count("reach:register")
}

// probe looks for the module.
func (w *hsmWorld) probe(r *hsmReg, hints []string) seth.HSM {
	t := w.t
	g := t.Cur()
	st := w.stack[g]
	if len(st) == 0 {
		t.Failf("stray-probe", "probe %d of %q runs outside a lookup by this caller", r.id, r.name)
	}
	f := st[len(st)-1]
	f.called = append(f.called, r)
	if strings.Join(f.hints, "\x01") != strings.Join(hints, "\x01") || len(f.hints) != len(hints) {
		t.Failf("wrong-hints", "probe %d of %q gets the hints %q, the lookup was given %q", r.id, r.name, hints, f.hints)
	}
	r.calls++
	if r.pause > 0 {
		t.Count("fault:slow-probe")
		simrt.Sleep(r.pause)
	}
	if r.nested > 0 && w.depth[g] < 4 {
		w.depth[g]++
		t.Count("reach:operation-inside-probe")
		for i := 0; i < r.nested; i++ {
			w.op()
		}
		w.depth[g]--
	}
	if r.panics {
		t.Count("fault:probe-panics")
		panic(probePanic{r.id})
	}
	if r.none {
		return nil
	}
	return &fakeHSM{r.id}
}

func (w *hsmWorld) find(name string) {
	t := w.t
	g := t.Cur()
	f := &hsmFind{name: name, start: t.Seq(), g: g}
	for i := t.Choose(3); i > 0; i-- {
		f.hints = append(f.hints, string(t.word(t.Choose(4))))
	}
	w.finds = append(w.finds, f)
	w.stack[g] = append(w.stack[g], f)
	var h seth.HSM
	p := func() (p *probePanic) {
		defer func() {
			// only what the probe threw; anything else goes on
			if e := recover(); e != nil {
				pp, ok := e.(probePanic)
				if !ok {
					panic(e)
				}
				p = &pp
			}
		}()
		h = seth.FindHSM(name, append([]string(nil), f.hints...)...)
		return nil
	}()
	f.end = t.Seq()
	st := w.stack[g]
	w.stack[g] = st[:len(st)-1]
	for w.depth[g] >= len(st) && w.depth[g] > 0 {
		w.depth[g]-- // probes that a panic ended
	}
	t.Logf("find %q: called %d probes", name, len(f.called))
	switch {
	case len(f.called) > 1:
		t.Failf("wrong-probe", "looking up %q runs %d probes", name, len(f.called))
	case len(f.called) == 0:
		if h != nil || p != nil {
			t.Failf("wrong-result", "looking up %q gives %v without running a probe", name, h)
		}
		t.Count("reach:not-found")
	default:
		r := f.called[0]
		if r.name != name {
			t.Failf("wrong-probe", "looking up %q runs probe %d registered as %q", name, r.id, r.name)
		}
		x, _ := h.(*fakeHSM)
		switch {
		case r.panics:
			if p == nil || p.id != r.id {
				t.Failf("wrong-result", "looking up %q hides the panic of probe %d", name, r.id)
			}
		case r.none:
			if h != nil {
				t.Failf("wrong-result", "looking up %q gives %v, its probe found nothing", name, h)
			}
		case x == nil || x.id != r.id || p != nil:
			t.Failf("wrong-result", "looking up %q gives %v, its probe %d something else", name, h, r.id)
		}
		t.Count("reach:found")
	}
}

// judge compares the history with a list of registrations.
func (w *hsmWorld) judge() {
	t := w.t
	for _, f := range w.finds {
		if len(f.called) == 0 {
			for _, r := range w.regs {
				if r.name == f.name && r.end != 0 && r.end < f.start {
					t.Failf("lost-registration", "looking up %q finds nothing although probe %d was registered before", f.name, r.id)
				}
			}
			continue
		}
		r := f.called[0]
		for _, o := range w.regs {
			if o.name == f.name && o != r && o.end != 0 && o.end < r.start {
				t.Failf("not-the-first", "looking up %q runs probe %d, probe %d was registered first", f.name, r.id, o.id)
			}
		}
		for _, o := range w.finds {
			if o.name != f.name {
				continue
			}
			if len(o.called) > 0 && o.called[0] != r {
				t.Failf("not-the-first", "looking up %q runs probe %d at one time and probe %d at another", f.name, r.id, o.called[0].id)
			}
			if len(o.called) == 0 && f.end < o.start {
				t.Failf("lost-registration", "looking up %q finds nothing after it was found", f.name)
			}
		}
	}
	if len(w.finds) > len(w.names) {
		t.Count("reach:history-checked")
	}
}
