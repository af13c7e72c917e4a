package scen

import (
	"bytes"
	"compress/gzip"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/philhofer/seth"

	"verif.sim/simrt"
	"verif.sim/simworld"
)

func init() {
	for _, p := range []string{"K01", "K02"} {
		p := p
		Register(&Scenario{Prop: p, Name: "compile-cache", Weight: 3, Body: func(t *T) { compileRun(t, p, true) }})
		Register(&Scenario{Prop: p, Name: "compile-cache-calm", Body: func(t *T) { compileRun(t, p, false) }})
	}
}

// ---- the simulated compiler ----

// A source is a sequence of words: "contract:NAME" declares a contract,
// "warn:X" gives a warning, "fail:X" an error, "link:NAME" a contract with an
// unlinked library; anything else is code.

type srcFile struct{ name, body string }

type solcResult struct {
	out  []byte
	fail string // message of the first error
	// what the bundle must be
	text string
}

func solcABI(seed [32]byte) []seth.ABIDescriptor {
	var out []seth.ABIDescriptor
	n := int(seed[0] % 4)
	param := func(k byte) seth.ABIParam {
		return seth.ABIParam{Name: fmt.Sprintf("p%d", k%7), Type: []string{"uint256", "address", "bytes", "string", "tuple"}[k%5], Indexed: k%2 == 1}
	}
	for i := 0; i < n; i++ {
		b := seed[4*i+1:]
		d := seth.ABIDescriptor{Type: []string{"function", "event", "constructor", "fallback"}[b[0]%4], Name: fmt.Sprintf("f%x", b[1]), Payable: b[2]&1 == 1,
			Mutability: []string{"pure", "view", "nonpayable", "payable"}[b[2]/2%4], Constant: b[2]&8 != 0, Anonymous: b[2]&16 != 0}
		for k := byte(0); k < b[3]%4; k++ {
			p := param(b[1] + k)
			if p.Type == "tuple" {
				p.Components = []seth.ABIParam{param(k + 1), param(k + 2)}
			}
			d.Inputs = append(d.Inputs, p)
		}
		for k := byte(0); k < b[3]/4%3; k++ {
			d.Outputs = append(d.Outputs, param(b[2]+k))
		}
		out = append(out, d)
	}
	return out
}

// solc compiles; a pure function of the names and bodies of the sources.
func solc(srcs map[string]string) solcResult {
	var names []string
	for n := range srcs {
		names = append(names, n)
	}
	sort.Strings(names)
	var r solcResult
	ids := map[string]interface{}{}
	cons := map[string]map[string]interface{}{}
	var errs []interface{}
	exp := &seth.CompiledBundle{}
	for i, n := range names {
		ids[n] = map[string]int{"id": i}
		exp.Filenames = append(exp.Filenames, n)
		exp.Sources = append(exp.Sources, srcs[n])
		for _, w := range strings.Fields(srcs[n]) {
			k, v, ok := strings.Cut(w, ":")
			if !ok {
				continue
			}
			msg := fmt.Sprintf("%s:1:1: %s: %s\n", n, k, v)
			switch k {
			case "fail":
				if r.fail == "" {
					r.fail = msg
				}
				errs = append(errs, map[string]interface{}{"type": "ParserError", "component": "general", "message": v, "formattedMessage": msg})
			case "warn":
				errs = append(errs, map[string]interface{}{"type": "Warning", "component": "general", "message": v, "formattedMessage": msg})
				exp.Warnings = append(exp.Warnings, msg)
			case "contract", "link", "empty":
				h := sha256.Sum256([]byte(n + "\x00" + srcs[n] + "\x00" + w))
				code := append(append([]byte{0x60, 0x80, 0x60, 0x40, 0x52}, h[:]...), bytes.Repeat(h[:], int(h[5]%8))...)
				if k == "empty" {
					code = []byte{} // an interface
				}
				sm := fmt.Sprintf("0:%d:%d:-;:3;;%d:::o", len(srcs[n]), i, h[6]%9)
				abi := solcABI(h)
				obj := hex.EncodeToString(code)
				if k == "link" {
					obj += "__$" + obj[2:36] + "$__00"
				}
				if cons[n] == nil {
					cons[n] = map[string]interface{}{}
				}
				if abi == nil {
					abi = []seth.ABIDescriptor{}
				}
				if cons[n][v] == nil {
					cons[n][v] = map[string]interface{}{"abi": abi, "evm": map[string]interface{}{"bytecode": map[string]interface{}{"object": obj, "sourceMap": sm, "opcodes": ""}}}
					exp.Contracts = append(exp.Contracts, seth.CompiledContract{Name: v, Code: code, Sourcemap: sm, ABI: abi})
					if k == "link" && r.fail == "" {
						r.text = "unlinked"
					}
				}
			}
		}
	}
	m := map[string]interface{}{"sources": ids, "contracts": cons}
	if errs != nil {
		m["errors"] = errs
	}
	if r.fail != "" {
		delete(m, "contracts")
	}
	r.out, _ = json.Marshal(m)
	r.out = append(r.out, '\n')
	if r.fail == "" && r.text == "" {
		r.text = bundleText(exp)
	}
	return r
}

// bundleText shows everything in a bundle; the order of contracts is not
// significant.
func bundleText(b *seth.CompiledBundle) string {
	if b == nil {
		return "<nil>"
	}
	var param func(p *seth.ABIParam) string
	param = func(p *seth.ABIParam) string {
		s := fmt.Sprintf("%q %q %v", p.Name, p.Type, p.Indexed)
		for i := range p.Components {
			s += "{" + param(&p.Components[i]) + "}"
		}
		return s
	}
	var cs []string
	for i := range b.Contracts {
		c := &b.Contracts[i]
		s := fmt.Sprintf("%q %x %q", c.Name, c.Code, c.Sourcemap)
		for j := range c.ABI {
			d := &c.ABI[j]
			s += fmt.Sprintf("\n    %q %q %v %q %v %v", d.Type, d.Name, d.Payable, d.Mutability, d.Constant, d.Anonymous)
			for k := range d.Inputs {
				s += " in:" + param(&d.Inputs[k])
			}
			for k := range d.Outputs {
				s += " out:" + param(&d.Outputs[k])
			}
		}
		cs = append(cs, "\n  "+s)
	}
	sort.Strings(cs)
	return fmt.Sprintf("files %q\nsources %q\nwarnings %q\ncontracts%s", b.Filenames, b.Sources, b.Warnings, strings.Join(cs, ""))
}

// ---- the workload ----

type compSet struct {
	id    int
	srcs  []srcFile
	names string // identifies the set of file names
	exp   solcResult
	glob  string // where the files are, for CompileGlob
	dup   bool
}

func (s *compSet) list() []seth.Source {
	var out []seth.Source
	for _, f := range s.srcs {
		out = append(out, seth.Source{Filename: f.name, Body: f.body})
	}
	return out
}

type compOp struct {
	id       int
	set      *compSet
	kind     string
	ran      int // compilers started
	ranOK    int
	solcFail string
	cacheF   bool // a fault at the cache
	srcFault bool
	done     bool
	new      map[string]bool // files it created
}

type compWorld struct {
	t      *T
	prop   string
	w      *simworld.World
	tmp    string
	env    string
	dir    string // cache directory
	sets   []*compSet
	faults bool
	crash  bool
	ops    map[*simrt.G]*compOp
	nop    int
	owner  map[string]string // cache file -> names of its sources ("": nobody's)
	nproc  int
	procs  []*simworld.Proc
	faultP int
	shared []seth.Source
	sharOf *compSet
	calls  int
}

var solcTokens = []string{"contract:A", "contract:B", "contract:Ab", "empty:I", "warn:w", "fail:f", "pragma", "contract", "x", "y", "link:L", "contract:A2"}

func (c *compWorld) body() string {
	t := c.t
	var out []string
	for i := t.Choose(4); i >= 0; i-- {
		k := t.Choose(len(solcTokens))
		if (k == 5 || k == 10) && t.Choose(3) > 0 {
			k = 0
		}
		out = append(out, solcTokens[k])
	}
	s := strings.Join(out, " ")
	switch t.Choose(12) {
	case 9:
		s = ""
	case 10:
		s += strings.Repeat(" x", t.Choose(3000))
	case 11:
		s = fmt.Sprintf("%s é\"\\<&%c", s, rune(1+t.Choose(300)))
	}
	return s
}

func (c *compWorld) mkSet(srcs []srcFile) *compSet {
	s := &compSet{id: len(c.sets), srcs: srcs}
	m := map[string]string{}
	var names []string
	for _, f := range srcs {
		if !utf8.ValidString(f.name) || !utf8.ValidString(f.body) {
			return nil
		}
		if _, ok := m[f.name]; ok {
			s.dup = true
		}
		m[f.name] = f.body
		names = append(names, f.name)
	}
	if s.dup {
		return nil
	}
	sort.Strings(names)
	s.names = fmt.Sprintf("%q", names)
	s.exp = solc(m)
	for _, o := range c.sets {
		if fmt.Sprint(o.srcs) == fmt.Sprint(srcs) {
			return o
		}
	}
	c.sets = append(c.sets, s)
	return s
}

// vary makes a set of sources that differs from another in one respect.
func (c *compWorld) vary(s *compSet) {
	t := c.t
	f := append([]srcFile{}, s.srcs...)
	i := 0
	if len(f) > 0 {
		i = t.Choose(len(f))
	}
	switch k := t.Choose(9); {
	case len(f) == 0 || k == 0:
		f = append(f, srcFile{"", ""})
	case k == 1: // another order
		for j := len(f) - 1; j > 0; j-- {
			x := t.Choose(j + 1)
			f[j], f[x] = f[x], f[j]
		}
	case k == 2 && len(f) > 1: // move the boundary between two names
		sort.Slice(f, func(a, b int) bool { return f[a].name < f[b].name })
		i = t.Choose(len(f) - 1)
		all := f[i].name + f[i+1].name
		n := t.Choose(len(all) + 1)
		f[i].name, f[i+1].name = all[:n], all[n:]
	case k == 3 && len(f) > 1: // move the boundary between two bodies
		sort.Slice(f, func(a, b int) bool { return f[a].name < f[b].name })
		i = t.Choose(len(f) - 1)
		all := f[i].body + f[i+1].body
		n := t.Choose(len(all) + 1)
		f[i].body, f[i+1].body = all[:n], all[n:]
	case k == 4 && len(f) > 1: // exchange bodies
		f[0].body, f[i].body = f[i].body, f[0].body
	case k == 5: // another body
		f[i].body = c.body()
	case k == 6: // split a file
		n, b := t.Choose(len(f[i].name)+1), t.Choose(len(f[i].body)+1)
		f = append(f, srcFile{f[i].name[n:], f[i].body[b:]})
		f[i].name, f[i].body = f[i].name[:n], f[i].body[:b]
	case k == 7: // move text from the body to the name
		n := t.Choose(len(f[i].body) + 1)
		if n > 6 {
			n = 6
		}
		f[i].name, f[i].body = f[i].name+f[i].body[:n], f[i].body[n:]
	default:
		f = append(f, srcFile{c.name(), c.body()})
	}
	c.mkSet(f)
}

func (c *compWorld) name() string {
	t := c.t
	n := []string{"a", "b", "ab", "ba", "a.sol", "b.sol", "lib/a.sol", "-", "x-y.sol", "é.sol", "a*.sol", "[b].sol"}
	return n[t.Choose(len(n))]
}

func (c *compWorld) inCache(p string) bool { return strings.HasPrefix(p, c.dir+"/") }

func (c *compWorld) start(name string) *simworld.Proc {
	c.nproc++
	p := c.w.NewProc(fmt.Sprintf("%s%d", name, c.nproc))
	p.Pid = 1000 + c.nproc
	if c.env != "" {
		p.Env["TMPDIR"] = c.env
	}
	p.Cwd = "/work"
	c.procs = append(c.procs, p)
	return p
}

func (c *compWorld) fail(prop, class, f string, a ...interface{}) {
	if prop == c.prop {
		c.t.Failf(class, f, a...)
	}
}

func compileRun(t *T, prop string, faults bool) {
	c := &compWorld{t: t, prop: prop, w: t.W, ops: map[*simrt.G]*compOp{}, owner: map[string]string{}, faults: faults}
	fs := t.W.FS
	c.env = []string{"", "/tmp", "/var/my-tmp", "/a-b/c-d", "/t[m]p", "/tm*", "/tmp/x-", "/tmp/", "/-"}[t.Choose(9)]
	c.tmp = path.Clean(c.env)
	if c.env == "" {
		c.tmp = "/tmp"
	}
	c.dir = path.Join(c.tmp, "tevm")
	if t.Choose(3) > 0 {
		fs.MkdirAll(c.tmp)
	}
	fs.MkdirAll("/tmp")
	fs.MkdirAll("/work")
	fs.MkdirAll("/empty")
	// what else there is
	foreign := []string{"/tmp/tevm-notes.txt", "/tmp/other", "/var/my-data", "/var/my-", "/a-x", "/a-b/c-e/f", "/a-b/c-", "/tmp/x-y", "/-z", "/t[m]p/other", "/tmp/tevm/000000000000-111111111111.bundle", "/work/notes-1.txt", c.dir + ".bundle"}
	for _, p := range foreign {
		if t.Choose(3) == 2 {
			fs.Put(p, []byte("kept "+p))
		}
	}
	for _, d := range []string{"/var/my-empty", "/a-empty", "/tmp/x-empty", c.tmp + "-empty"} {
		if t.Choose(4) == 3 {
			fs.MkdirAll(d)
		}
	}
	if t.Choose(3) == 2 {
		fs.MkdirAll(c.dir)
		for _, n := range []string{"notes.txt", "deadbeef0123-0123456789ab.bundle", "-", "-.bundle", "x-y.bundle"} {
			if t.Choose(2) == 1 {
				fs.Put(c.dir+"/"+n, []byte("junk"))
				c.owner[c.dir+"/"+n] = ""
			}
		}
	}
	if c.dir == "/tmp/tevm" {
		if _, ok := fs.Get("/tmp/tevm/000000000000-111111111111.bundle"); ok {
			c.owner["/tmp/tevm/000000000000-111111111111.bundle"] = ""
		}
	}
	// sources
	for len(c.sets) == 0 {
		var f []srcFile
		for i := 1 + t.Choose(3); i > 0; i-- {
			f = append(f, srcFile{c.name(), c.body()})
		}
		c.mkSet(f)
	}
	for i := t.Choose(5); i > 0; i-- {
		c.vary(c.sets[t.Choose(len(c.sets))])
	}
	if t.Choose(3) == 2 {
		// sources that are files
		var f []srcFile
		for i := 1 + t.Choose(3); i > 0; i-- {
			n := fmt.Sprintf("src/%s.sol", []string{"m", "n", "o-p"}[i-1])
			b := c.body()
			if strings.ContainsRune(b, 'é') {
				b = "contract:A"
			}
			f = append(f, srcFile{n, b})
			fs.Put("/work/"+n, []byte(b))
		}
		s := c.mkSet(f)
		s.glob = "src/*.sol"
	}
	t.W.Exec = c.exec
	t.W.ExecStart = c.execStart
	fs.OnEvent = c.event
	fs.Hook = c.hook
	before := fs.Snapshot()

	rounds := 1 + t.Choose(3)
	if t.Deep {
		rounds += t.Choose(4)
	}
	for r := 0; r < rounds; r++ {
		c.round(r)
	}
	// all is well again
	fs.Limit = 0
	calm := c.faults
	c.faults = false
	for k := 0; k < 2; k++ {
		for _, s := range c.sets {
			p := c.start("final")
			g := c.run(p, s, "Compile", nil)
			if !t.JoinWithin(time.Minute, g) {
				t.Failf("hang", "a compilation never returns")
			}
		}
	}
	_ = calm
	// nothing else was touched
	after := fs.Snapshot()
	for p, v := range before {
		if c.inCache(p) && c.owner[p] != "" {
			continue
		}
		if w, ok := after[p]; !ok {
			c.fail("K02", "file-removed", "%s is gone", p)
		} else if w != v {
			c.fail("K02", "file-changed", "%s changed", p)
		}
	}
	for p, v := range after {
		if _, ok := before[p]; ok || c.inCache(p) {
			continue
		}
		if v == "<dir>" && (p == c.dir || strings.HasPrefix(c.dir, p+"/")) {
			continue
		}
		c.fail("K02", "file-created", "%s was created", p)
	}
}

func (c *compWorld) round(r int) {
	t := c.t
	fs := c.w.FS
	c.faultP = 0
	c.crash = false
	fs.Limit = 0
	if c.faults {
		c.faultP = []int{0, 40, 15, 6}[t.Choose(4)]
		c.crash = t.Choose(3) == 2
		if t.Choose(5) == 4 {
			fs.Limit = fs.Used() + t.Choose(600)
			t.Count("fault:disk-full")
		}
	}
	var gs []*simrt.G
	np := 1 + t.Choose(3)
	for i := 0; i < np; i++ {
		p := c.start("p")
		p.Pid = 1000 + c.nproc
		if t.Choose(3) == 2 {
			p.Pid = 1000 // pid namespaces: ids can be equal
		}
		var shared []seth.Source
		var of *compSet
		if t.Choose(3) == 2 {
			of = c.sets[t.Choose(len(c.sets))]
			shared = of.list()
		}
		for k := 1 + t.Choose(2); k > 0; k-- {
			var plan []*compSet
			for n := 1 + t.Choose(3); n > 0; n-- {
				plan = append(plan, c.sets[t.Choose(len(c.sets))])
			}
			kind := []string{"Compile", "Compile", "Compile", "CompileString", "CompileGlob"}[t.Choose(5)]
			gs = append(gs, c.w.Sim.GoProc(p.Name, p, func() {
				for _, s := range plan {
					switch {
					case kind == "CompileGlob" && s.glob == "", kind == "CompileString" && len(s.srcs) != 1:
						c.one(p, s, "Compile", nil)
					case shared != nil && t.Choose(2) == 1:
						c.one(p, of, "Compile", shared)
					default:
						c.one(p, s, kind, nil)
					}
				}
			}))
		}
	}
	if !t.JoinWithin(10*time.Minute, gs...) {
		t.Failf("hang", "compilations never return; goroutines: %s", strings.Join(t.Live(), ", "))
	}
	if c.faults {
		if t.Choose(4) == 3 {
			for _, p := range c.procs {
				if !p.Dead {
					p.Kill()
				}
			}
			fs.PowerLoss(t.Sim)
			t.Count("fault:power-loss")
			t.Logf("power loss")
		}
		c.rot()
	}
	fs.Limit = 0
}

// rot damages files at rest.
func (c *compWorld) rot() {
	t := c.t
	fs := c.w.FS
	for _, p := range fs.Paths(c.dir) {
		if c.owner[p] == "" || t.Choose(3) < 2 {
			continue
		}
		b, _ := fs.Get(p)
		b = append([]byte{}, b...)
		kind := ""
		switch t.Choose(9) {
		case 0:
			kind = "truncated"
			b = b[:t.Choose(len(b)+1)]
		case 1, 2, 3:
			kind = "bits flipped"
			for k := 1 + t.Choose(3); k > 0 && len(b) > 0; k-- {
				b[t.Choose(len(b))] ^= 1 << uint(t.Choose(8))
			}
		case 4:
			kind = "junk"
			b = make([]byte, t.Choose(100))
			for i := range b {
				b[i] = byte(t.Choose(256))
			}
		case 5:
			kind = "zero block"
			if len(b) > 0 {
				i := t.Choose(len(b))
				for j := i; j < len(b) && j < i+64; j++ {
					b[j] = 0
				}
			}
		case 6:
			kind = "doubled tail"
			b = append(b, b[t.Choose(len(b)+1):]...)
		case 7: // a well-formed archive of something else
			kind = "foreign archive"
			var buf bytes.Buffer
			z := gzip.NewWriter(&buf)
			j := make([]byte, t.Choose(40))
			for i := range j {
				j[i] = byte(t.Choose(256))
			}
			if len(j) > 0 {
				j[0] &= 0x7f // no bundle
			}
			z.Write(j)
			z.Close()
			b = buf.Bytes()
		case 8: // the archive of a cut off or damaged bundle
			z, err := gzip.NewReader(bytes.NewReader(b))
			if err != nil {
				continue
			}
			raw, err := io.ReadAll(z)
			if err != nil || len(raw) == 0 {
				continue
			}
			kind = "cut bundle"
			var buf bytes.Buffer
			w := gzip.NewWriter(&buf)
			w.Write(raw[:t.Choose(len(raw))])
			w.Close()
			b = buf.Bytes()
		}
		t.Count("fault:cache-" + strings.Replace(kind, " ", "-", -1))
		t.Logf("rot: %s %s", path.Base(p), kind)
		fs.Put(p, b)
	}
	if t.Choose(6) == 5 {
		// files whose names look like those of entries
		for _, p := range fs.Paths(c.dir) {
			b := path.Base(p)
			i := strings.IndexByte(b, '-')
			if c.owner[p] == "" || i < 4 {
				continue
			}
			var n string
			switch t.Choose(7) {
			case 0:
				n = b[:i-1-t.Choose(3)] + "~" + b[i:]
			case 1:
				n = "x" + b
			case 2:
				n = b[:i] + "_" + b[i+1:]
			case 3:
				n = b[:i]
			case 4:
				n = "old-" + b
			case 5:
				n = b[i+1:]
			case 6:
				n = b[:i-4-t.Choose(4)] + "-" + b[i+1:]
			}
			n = c.dir + "/" + n
			if _, ok := fs.Get(n); !ok {
				fs.Put(n, []byte("kept "+n))
				c.owner[n] = ""
				t.Count("reach:name-like-an-entry")
			}
		}
	}
	if t.Choose(8) == 7 {
		if b := fs.Paths(c.dir); len(b) > 0 {
			p := b[t.Choose(len(b))]
			if c.owner[p] != "" {
				fs.Del(p)
				t.Logf("lost: %s", path.Base(p))
			}
		}
	}
}

func (c *compWorld) cur() *compOp { return c.ops[c.t.Cur()] }

// run starts a compilation in a goroutine of a process.
func (c *compWorld) run(p *simworld.Proc, s *compSet, kind string, list []seth.Source) *simrt.G {
	return c.w.Sim.GoProc(p.Name, p, func() { c.one(p, s, kind, list) })
}

// one compiles and judges.
func (c *compWorld) one(p *simworld.Proc, s *compSet, kind string, list []seth.Source) {
	t := c.t
	op := &compOp{id: c.nop, set: s, kind: kind, new: map[string]bool{}}
	c.nop++
	c.ops[t.Cur()] = op
	var b *seth.CompiledBundle
	var err error
	var own []seth.Source
	switch kind {
	case "CompileString":
		b, err = seth.CompileString(s.srcs[0].body)
	case "CompileGlob":
		b, err = seth.CompileGlob(s.glob)
	default:
		own = list
		if own == nil {
			own = s.list()
		}
		b, err = seth.Compile(own)
	}
	op.done = true
	t.Logf("%s: op%d %s set%d = %s ran=%d", p.Name, op.id, kind, s.id, errText(err), op.ran)
	for i := range own {
		if own[i] != (seth.Source{Filename: s.srcs[i].name, Body: s.srcs[i].body}) {
			c.fail("K02", "sources-changed", "the list of sources given to Compile was changed: %q", own)
		}
	}
	exp := s.exp
	if kind == "CompileString" {
		exp = solc(map[string]string{"<stdin>": s.srcs[0].body})
	}
	switch {
	case op.solcFail != "":
		if err == nil {
			c.fail("K01", "failure-hidden", "the compiler failed (%s) but %s of %s gives a bundle", op.solcFail, kind, s)
		}
		t.Count("reach:compiler-failure-reported")
	case op.srcFault && err != nil:
	case exp.fail != "":
		if err == nil {
			c.fail("K01", "failure-hidden", "%s of %s gives a bundle, the compiler an error: %s", kind, s, exp.fail)
		}
		if !strings.Contains(err.Error(), exp.fail) {
			c.fail("K01", "wrong-error", "%s of %s fails with %q, the compiler says %q", kind, s, err, exp.fail)
		}
		if op.ran == 0 {
			c.fail("K01", "failure-remembered", "%s of %s fails without running the compiler: %v", kind, s, err)
		}
	case exp.text == "unlinked":
		if err == nil && op.ran == 0 {
			c.fail("K01", "wrong-bundle", "%s of %s gives a bundle from the cache", kind, s)
		}
	case err != nil:
		c.fail("K01", "cache-trouble", "%s of %s fails: %v", kind, s, err)
	default:
		if g := bundleText(b); g != exp.text {
			c.fail("K01", "wrong-bundle", "%s of %s gives\n%s\nthe compiler gives\n%s\n(compiler runs: %d)", kind, s, g, exp.text, op.ran)
		}
		if op.ran == 0 {
			t.Count("reach:cache-hit")
			if op.cacheF {
				t.Count("reach:cache-hit-despite-faults")
			}
		} else if op.cacheF {
			t.Count("reach:compiled-despite-cache-fault")
		}
		for i := range b.Contracts {
			k := &b.Contracts[i]
			// what the caller does with its bundle is its own affair
			for j := range k.Code {
				k.Code[j] ^= 0xff
			}
			k.Name = "mine"
		}
	}
	if op.ran > 1 {
		t.Count("reach:compiled-twice")
	}
	c.ops[t.Cur()] = nil
}

func (s *compSet) String() string {
	return fmt.Sprintf("set%d %q", s.id, clip([]byte(fmt.Sprint(s.srcs))))
}

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	return "error " + clip([]byte(err.Error()))
}

// ---- the environment ----

func (c *compWorld) execStart(cmd *simworld.Cmd) error {
	op := c.cur()
	if op == nil {
		c.t.Failf("unexpected-process", "a process is started outside a compilation")
	}
	op.ran++
	if c.faults && c.faultP > 0 && c.t.Chance(1, 3*c.faultP) {
		op.solcFail = "cannot be started"
		c.t.Count("fault:solc-missing")
		return &fakeErr{"exec: \"solc\": executable file not found in $PATH"}
	}
	if c.faults && c.faultP > 0 && c.t.Chance(1, 3*c.faultP) {
		cmd.InClosed = true
	}
	return nil
}

type fakeErr struct{ s string }

func (e *fakeErr) Error() string { return e.s }

func (c *compWorld) exec(cmd *simworld.Cmd) {
	t := c.t
	op := c.cur()
	if op == nil {
		return
	}
	if cmd.InClosed {
		cmd.Code = 1
		op.solcFail = "dies at once"
		t.Count("fault:solc-dies")
		return
	}
	var in struct {
		Language string
		Sources  map[string]struct{ Content string }
	}
	if err := json.Unmarshal(cmd.Input, &in); err != nil || in.Language != "Solidity" {
		// what it was given cannot be what the caller wanted compiled
		c.fail("K01", "bad-compiler-input", "op%d gives the compiler %q", op.id, clip(cmd.Input))
		cmd.Code = 1
		op.solcFail = "bad input"
		return
	}
	m := map[string]string{}
	for n, s := range in.Sources {
		m[n] = s.Content
	}
	r := solc(m)
	out := r.out
	if c.faults && c.faultP > 0 && t.Chance(1, 2*c.faultP) {
		switch t.Choose(5) {
		case 0:
			cmd.Code = 1
			op.solcFail = "exits with 1"
		case 1:
			cmd.Code = 139
			out = out[:t.Choose(len(out))]
			op.solcFail = "crashes"
		case 2:
			out = out[:t.Choose(len(out)-1)]
			op.solcFail = "ends early"
		case 3:
			out = []byte("solc: not a solidity compiler\n")
			op.solcFail = "writes something else"
		case 4:
			out = []byte(`{"errors":[{"type":"InternalCompilerError","formattedMessage":"internal error"}]}`)
			op.solcFail = "internal error"
		}
		t.Count("fault:solc-fails")
	}
	cmd.Emit(out)
}

func (c *compWorld) hook(o simworld.Op) simworld.Fault {
	t := c.t
	ok := simworld.Fault{N: -1}
	op := c.cur()
	if op == nil || !c.faults {
		return ok
	}
	cache := c.inCache(o.Path) || o.Path == c.dir || strings.HasPrefix(c.dir, o.Path+"/") || o.Kind == "glob" && strings.HasPrefix(o.Path, c.dir)
	if c.crash && t.Chance(1, 30) {
		t.Count("fault:process-crash")
		t.Logf("%s crashes at %s %s", o.Proc.Name, o.Kind, path.Base(o.Path))
		n := 0
		if o.N > 0 {
			n = t.Choose(o.N + 1)
		}
		return simworld.Fault{Crash: true, N: n}
	}
	if c.faultP == 0 || !t.Chance(1, c.faultP) {
		return ok
	}
	if o.Kind == "read" && t.Choose(2) == 0 {
		t.Count("fault:short-read")
		return simworld.Fault{Short: true, N: 1 + t.Choose(8)}
	}
	if !cache {
		op.srcFault = true
	}
	op.cacheF = op.cacheF || cache
	t.Count("fault:" + o.Kind + "-error")
	n := 0
	if o.N > 0 {
		n = t.Choose(o.N + 1)
	}
	return simworld.Fault{Err: []error{syscall.EIO, syscall.EACCES, syscall.ENOSPC, syscall.EMFILE}[t.Choose(4)], N: n}
}

// event sees every modification of the file system.
func (c *compWorld) event(e simworld.Event) {
	op := c.ops[e.G]
	if op == nil {
		c.fail("K02", "file-touched", "%s %s outside a compilation", e.Kind, e.Path)
		return
	}
	if e.Kind == "mkdir" {
		if e.Path != c.dir && !strings.HasPrefix(c.dir, e.Path+"/") {
			c.fail("K02", "file-touched", "op%d %s %s makes the directory %s", op.id, op.kind, op.set, e.Path)
		}
		return
	}
	if op.kind == "CompileString" {
		c.fail("K02", "file-touched", "op%d CompileString: %s %s", op.id, e.Kind, e.Path)
	}
	if !c.inCache(e.Path) {
		c.fail("K02", "file-touched", "op%d %s %s (TMPDIR %q): %s %s, which is not in the cache directory", op.id, op.kind, op.set, c.env, e.Kind, e.Path)
		return
	}
	o, known := c.owner[e.Path]
	if !known {
		if e.Kind == "create" {
			c.owner[e.Path] = op.set.names
		}
		return
	}
	if o != op.set.names {
		c.fail("K02", "foreign-entry-touched", "op%d %s of files %s (TMPDIR %q): %s %s, which belongs to the files %s", op.id, op.kind, op.set.names, c.env, e.Kind, e.Path, o)
	}
	if e.Kind == "remove" {
		t := c.t
		t.Count("reach:entry-removed")
	}
}
