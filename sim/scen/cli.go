package scen

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"path"
	"regexp"
	"strings"
	"syscall"
	"time"

	gcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/philhofer/seth"
	simeth "github.com/philhofer/seth/zz_sim_eth"

	simos "verif.sim/shim/os"
	"verif.sim/simrt"
	"verif.sim/simworld"
)

func init() {
	Register(&Scenario{Prop: "W02", Name: "sign", Weight: 3, Fresh: true, NoPreempt: true, Body: func(t *T) { cliRun(t, "sign") }})
	Register(&Scenario{Prop: "W02", Name: "call", Weight: 2, Fresh: true, NoPreempt: true, Body: func(t *T) { cliRun(t, "call") }})
}

// ---- a run of the command ----

// outPipe is the standard output of a command; it may fail.
type outPipe struct {
	t    *T
	b    bytes.Buffer
	room int // -1: unlimited
	fail bool
}

func (o *outPipe) Write(p []byte) (int, error) {
	if o.room >= 0 && o.b.Len()+len(p) > o.room {
		n := o.room - o.b.Len()
		o.b.Write(p[:n])
		o.fail = true
		return n, syscall.ENOSPC
	}
	return o.b.Write(p)
}

// inPipe is a standard input.
type inPipe struct {
	t   *T
	b   []byte
	max int
	err error
}

func (i *inPipe) Read(p []byte) (int, error) {
	if len(i.b) == 0 {
		if i.err != nil {
			return 0, i.err
		}
		return 0, io.EOF
	}
	n := len(p)
	if i.max > 0 && n > i.max {
		n = i.max
	}
	n = copy(p[:n], i.b)
	i.b = i.b[n:]
	return n, nil
}

// command is one execution of the eth command.
type command struct {
	p      *simworld.Proc
	args   []string
	out    *outPipe
	errs   bytes.Buffer
	panics string
	code   int
	ended  bool
	// closing standard output failed
	closeFail bool
}

func (t *T) newCommand(args ...string) *command {
	c := &command{args: append([]string{"eth"}, args...), out: &outPipe{t: t, room: -1}}
	c.p = t.W.NewProc("eth")
	c.p.Stdout = c.out
	c.p.Stderr = &c.errs
	return c
}

func simArgs(a []string) { simos.Args = a }

var simMain = simeth.Main

// run executes the command to its end.
func (c *command) run(t *T) {
	simos.Args = c.args
	old := t.Sim.OnPanic
	t.Sim.OnPanic = func(g *simrt.G, v interface{}, stack string) bool {
		if g.Proc != c.p {
			return false
		}
		c.panics = fmt.Sprint(v)
		c.p.Exited, c.p.Code = true, 2
		c.p.Dead = true
		t.W.Sim.Doom(c.p)
		t.Logf("the command panics: %s", c.panics)
		return true
	}
	t.JoinWithin(time.Hour, c.p.Start(simeth.Main))
	t.Sim.OnPanic = old
	c.ended = c.p.Exited
	c.code = c.p.Code
	if !c.ended {
		t.Failf("stuck", "%q does not end", c.args)
	}
	c.p.Kill()
	t.Logf("%q ends with %d: %s%s", c.args, c.code, clip(c.errs.Bytes()), clip(c.out.b.Bytes()))
}

// ---- the wallet ----

// walletFile is an entry of a key directory.
type walletFile struct {
	path   string
	dir    string
	key    *storedKey // nil: something else
	text   []byte
	intact bool
	err    error // reading it fails
	open   bool  // opening it fails
}

// walletKey is something that can be selected.
type walletKey struct {
	addr string
	id   string
	f    *walletFile // or
	hsm  *hsmSlot
	kf   *seth.Keyfile
}

type wallet struct {
	t       *T
	dirs    []string
	missing bool // a directory does not exist
	dirErr  string
	files   []*walletFile
	env     map[string]string
	hsm     *cliHSM
	// faults that showed
	dirFailed bool
}

type hsmSlot struct {
	id   string
	priv seth.PrivateKey
}

// cliHSM is a hardware module with some keys.
type cliHSM struct {
	t         *T
	slots     []*hsmSlot
	pass      string
	unlocked  bool
	tries     []string
	hints     []string
	listErr   bool
	signerErr bool
	signErr   bool
	used      []string
}

func (h *cliHSM) Unlock(p []byte) error {
	h.tries = append(h.tries, string(p))
	if string(p) != h.pass {
		return errors.New("wrong password")
	}
	h.unlocked = true
	return nil
}

func (h *cliHSM) Pubkeys() ([]seth.HSMKey, error) {
	if !h.unlocked {
		return nil, errors.New("locked")
	}
	if h.listErr {
		h.t.Count("fault:hsm-list-error")
		return nil, errors.New("device is gone")
	}
	var out []seth.HSMKey
	for _, s := range h.slots {
		out = append(out, seth.HSMKey{ID: s.id, Public: *s.priv.PublicKey()})
	}
	return out, nil
}

func (h *cliHSM) Signer(k *seth.HSMKey) (seth.Signer, error) {
	h.used = append(h.used, k.ID)
	if h.signerErr {
		h.t.Count("fault:hsm-signer-error")
		return nil, errors.New("device is gone")
	}
	for _, s := range h.slots {
		if s.id == k.ID {
			sign := s.priv.Signer()
			return func(x *seth.Hash) (*seth.Signature, error) {
				if h.signErr {
					h.t.Count("fault:hsm-sign-error")
					return nil, errors.New("device is gone")
				}
				return sign(x)
			}, nil
		}
	}
	return nil, errors.New("no such key")
}

func (t *T) genWallet() *wallet {
	w := &wallet{t: t, env: map[string]string{}}
	nd := 1 + t.Weighted(6, 3, 1)
	if t.Choose(5) == 0 {
		w.env["HOME"] = "/home/me"
		w.dirs = []string{"/home/me/.parity/keys/ethereum", "/home/me/.ethereum/keystore"}
	} else {
		for i := 0; i < nd; i++ {
			w.dirs = append(w.dirs, []string{"/keys", "/media/stick/keys", "/home/me/old keys"}[i])
		}
		l := append([]string{}, w.dirs...)
		if t.Choose(12) == 11 {
			l = append(l, l[0])
		}
		w.env["KEY_PATH"] = strings.Join(l, ":")
		w.dirs = l
	}
	have := map[string]bool{}
	for i, d := range w.dirs {
		if have[d] {
			continue
		}
		if i > 0 && t.Choose(15) == 14 {
			w.missing = true
			t.Count("fault:missing-directory")
			continue
		}
		t.W.FS.MkdirAll(d)
		have[d] = true
	}
	// keys
	var stored []*storedKey
	n := t.Weighted(1, 4, 6, 4, 2)
	for i := 0; i < n; i++ {
		stored = append(stored, t.genStored())
	}
	put := func(s *storedKey) *walletFile {
		f := &walletFile{key: s, text: s.text, intact: true}
		f.dir = w.dirs[t.Choose(len(w.dirs))]
		if !have[f.dir] {
			f.dir = w.dirs[0]
		}
		f.path = path.Join(f.dir, t.fileName())
		if len(stored) > 0 && t.Choose(4) == 3 {
			// named after a key, as geth does, though not always the key it holds
			o := stored[t.Choose(len(stored))]
			a := o.priv.Address().String()
			f.path = path.Join(f.dir, "UTC--2019-08-27T00-00-00."+fmt.Sprint(t.Choose(10))+"Z--"+a[2*t.Choose(2):])
		}
		w.files = append(w.files, f)
		return f
	}
	for _, s := range stored {
		f := put(s)
		if t.Choose(10) == 9 {
			// another file of the same key
			put(s)
			t.Count("reach:key-stored-twice")
		}
		if t.Choose(5) == 4 {
			o := stored[t.Choose(len(stored))]
			f.text, _ = t.damageFile(f.text, o.text)
			f.intact = bytes.Equal(f.text, s.text)
			t.Count("fault:damaged-key-file")
		}
		if t.Choose(7) == 6 {
			f.err = syscall.EIO
			f.open = t.Choose(2) == 1
			if f.open {
				f.err = syscall.EACCES
			}
		}
	}
	// other files
	for i := t.Choose(4); i > 0; i-- {
		f := put(&storedKey{})
		f.key = nil
		switch t.Choose(5) {
		case 0:
			f.text = nil
		case 1:
			f.text = []byte("not a key file\n")
		case 2:
			f.text = []byte(`{"id":"main","version":3}`)
		case 3:
			f.text = []byte(`[{"id":"x"}]`)
		case 4:
			f.text = nil
			f.dir = ""
		}
	}
	seen := map[string]bool{}
	var fs []*walletFile
	for _, f := range w.files {
		if seen[f.path] {
			continue
		}
		seen[f.path] = true
		fs = append(fs, f)
		if f.dir == "" {
			t.W.FS.MkdirAll(f.path + "/sub")
			continue
		}
		t.W.FS.Put(f.path, f.text)
	}
	w.files = fs
	if t.Choose(14) == 13 {
		w.dirErr = w.dirs[t.Choose(len(w.dirs))]
	}
	if t.Choose(4) == 3 {
		w.hsm = &cliHSM{t: t, pass: "hsm password"}
		for i := t.Choose(3); i >= 0; i-- {
			s := &hsmSlot{id: fmt.Sprintf("slot-%d", i), priv: t.genPriv()}
			if t.Choose(4) == 3 && len(stored) > 0 {
				s.priv = stored[t.Choose(len(stored))].priv
			}
			if t.Choose(6) == 5 && len(w.hsm.slots) == 0 {
				s.id = "main"
			}
			w.hsm.slots = append(w.hsm.slots, s)
		}
		w.hsm.listErr = t.Choose(8) == 7
		w.hsm.signerErr = t.Choose(10) == 9
		w.hsm.signErr = t.Choose(10) == 9
	}
	return w
}

func (t *T) fileName() string {
	return []string{"UTC--2019-08-27T00-00-00.000000000Z--", "key", "a", "zz", ".hidden"}[t.Choose(5)] + fmt.Sprint(t.Choose(100))
}

// hook makes the faults of the file system.
func (w *wallet) hook(op simworld.Op) simworld.Fault {
	t := w.t
	ok := simworld.Fault{N: -1}
	if op.Kind == "readdir" || op.Kind == "open" {
		if w.dirErr != "" && op.Path == w.dirErr {
			w.dirFailed = true
			t.Count("fault:directory-error")
			return simworld.Fault{Err: syscall.EIO}
		}
	}
	for _, f := range w.files {
		if f.path == op.Path && f.err != nil && (op.Kind == "open" && f.open || op.Kind == "read" && !f.open) {
			t.Count("fault:unreadable-key-file")
			return simworld.Fault{Err: f.err}
		}
	}
	if op.Kind == "read" && t.Choose(4) == 3 {
		t.Count("fault:short-read")
		return simworld.Fault{Short: true, N: 1 + t.Choose(300)}
	}
	return ok
}

// usable lists what can be selected.
func (w *wallet) usable() []*walletKey {
	var out []*walletKey
	for _, d := range w.dirs {
		for _, f := range w.files {
			if f.dir != d || f.err != nil {
				continue
			}
			if len(f.text) == 0 || f.text[0] != '{' {
				continue
			}
			kf := new(seth.Keyfile)
			if json.Unmarshal(f.text, kf) != nil {
				continue
			}
			if kf.ID == "" || kf.Version == 0 || kf.Crypto.Cipher == "" || kf.Crypto.MAC == "" || kf.Crypto.KDF == "" {
				continue
			}
			k := &walletKey{f: f, kf: kf, id: kf.ID}
			if kf.Name != "" {
				k.id = kf.Name
			}
			var a seth.Address
			if kf.Address != "" {
				a.FromString("0x" + kf.Address)
			}
			k.addr = a.String()
			out = append(out, k)
		}
	}
	if w.hsm != nil && !w.hsm.listErr {
		for _, s := range w.hsm.slots {
			out = append(out, &walletKey{hsm: s, id: s.id, addr: s.priv.Address().String()})
		}
	}
	return out
}

func (w *wallet) matches(spec string) int {
	re, err := regexp.Compile(spec)
	if err != nil || spec == "" {
		return 0
	}
	n := 0
	for _, k := range w.usable() {
		if re.MatchString(k.addr) || re.MatchString(k.id) {
			n++
		}
	}
	return n
}

// genSpec chooses a key specification, mostly one that means one key.
func (w *wallet) genSpec() string {
	t := w.t
	us := w.usable()
	switch t.Choose(14) {
	case 0:
		return ""
	case 1:
		return "(["
	case 2:
		return "."
	case 3:
		var a seth.Address
		copy(a[:], t.word(20))
		return a.String()
	case 4:
		return "main"
	}
	if len(us) == 0 {
		return "0x"
	}
	k := us[t.Choose(len(us))]
	switch t.Choose(9) {
	case 0:
		return k.addr[:2+t.Choose(8)]
	case 1:
		return "^" + k.addr + "$"
	case 2:
		return regexp.QuoteMeta(k.id)
	case 3:
		return "^" + regexp.QuoteMeta(k.id) + "$"
	case 4:
		return "(?i)" + strings.ToUpper(k.addr[2:])
	case 5:
		return k.addr[2+t.Choose(30):]
	case 6:
		return k.addr + "|" + us[t.Choose(len(us))].addr
	}
	return k.addr
}

// signer recovers who made a signature, without the code under test.
func signerOf(h []byte, sig []byte) (seth.Address, error) {
	var a seth.Address
	pub, err := gcrypto.Ecrecover(h, sig)
	if err != nil {
		return a, err
	}
	copy(a[:], gcrypto.Keccak256(pub[1:])[12:])
	return a, nil
}

// ---- signing ----

func cliRun(t *T, mode string) {
	w := t.genWallet()
	us := w.usable()
	spec := w.genSpec()
	if t.Choose(4) > 0 {
		// mostly one that means one key
		for i := 0; i < 5 && w.matches(spec) != 1; i++ {
			spec = w.genSpec()
		}
	}
	re, reErr := regexp.Compile(spec)
	var match []*walletKey
	if reErr == nil && spec != "" {
		for _, k := range us {
			if re.MatchString(k.addr) || re.MatchString(k.id) {
				match = append(match, k)
			}
		}
	}
	// fails holds why the command has to fail; unsure why it may.
	var fails, unsure []string
	if spec == "" || reErr != nil {
		fails = append(fails, "no usable key specification")
	}
	switch {
	case len(match) == 0:
		fails = append(fails, "no key matches")
	case len(match) > 1:
		same := true
		for _, m := range match {
			if m.f == nil || m.f.key != match[0].f0().key0() {
				same = false
			}
		}
		if same {
			unsure = append(unsure, "the key is stored more than once")
		} else {
			fails = append(fails, "more than one key matches")
		}
	}
	if w.missing {
		unsure = append(unsure, "a directory is missing")
	}
	if w.dirErr != "" {
		fails = append(fails, "a directory cannot be listed")
	}
	for i, f := range w.files {
		h := ""
		if f.key != nil {
			h = fmt.Sprintf(" %s %q address %x", f.key.how, f.key.name, f.key.priv.Address()[:])
		}
		t.Logf("file %d: %s%s intact %v %v", i, f.path, h, f.intact, f.err)
	}
	t.Logf("key specification %q matches %d of %d keys", spec, len(match), len(us))

	// the terminal
	var sel *walletKey
	if len(match) > 0 {
		sel = match[0]
	}
	var pass []byte
	passErr := t.Choose(14) == 13
	right := true
	if sel != nil && sel.f != nil {
		pass = sel.f.key.pass0()
		if t.Choose(6) == 5 && sel.f.key != nil {
			pass = t.wrongPass(sel.f.key, sel.f.key)
			right = false
			t.Count("fault:wrong-passphrase")
		}
		if passErr {
			fails = append(fails, "no passphrase")
		}
		if !right {
			fails = append(fails, "wrong passphrase")
		}
		if sel.f.key == nil || !sel.f.intact || !sel.f.key.whole {
			unsure = append(unsure, "the key file is damaged")
		}
	}
	hsmPrompt := false
	if w.hsm != nil {
		t.Count("reach:hsm")
		hsmPass := w.hsm.pass
		if t.Choose(8) == 7 {
			hsmPass = "other password"
			t.Count("fault:wrong-hsm-password")
			fails = append(fails, "the module is not unlocked")
		}
		if t.Choose(2) == 0 {
			w.env["YUBIHSM_PASS"] = hsmPass
		} else {
			hsmPrompt = true
			if passErr {
				fails = append(fails, "no password for the module")
			}
		}
		hints := []string{}
		if t.Choose(2) == 0 {
			hints = []string{"http://connector:12345", "usb"}
			w.env["YUBIHSM_HINT"] = strings.Join(hints, ",")
		}
		seth.RegisterHSM("yubihsm", func(h ...string) seth.HSM {
			if strings.Join(h, ",") != strings.Join(hints, ",") {
				t.Failf("wrong-hints", "the module is looked for with the hints %q, expected %q", h, hints)
			}
			return w.hsm
		})
		if hsmPrompt {
			pass = append([]byte{}, pass...)
		}
		if sel != nil && sel.hsm != nil {
			if w.hsm.signerErr || w.hsm.signErr {
				fails = append(fails, "the module cannot sign")
			}
		}
		w.hsmPass(t, hsmPass, &hsmPrompt, &pass, passErr)
	} else {
		t.W.ReadPassword = func(int) ([]byte, error) {
			if passErr {
				t.Count("fault:terminal-error")
				return nil, errors.New("not a terminal")
			}
			return append([]byte{}, pass...), nil
		}
	}
	env := w.env
	env["ETHER_ADDR"] = spec
	if spec == "" && t.Choose(2) == 0 {
		delete(env, "ETHER_ADDR")
	}
	x := &cliCase{t: t, w: w, match: match, sel: sel, fails: fails, unsure: unsure, env: env}
	if mode == "sign" {
		x.sign()
	} else {
		x.call()
	}
}

func (w *wallet) hsmPass(t *T, hsmPass string, prompt *bool, pass *[]byte, passErr bool) {
	t.W.ReadPassword = func(int) ([]byte, error) {
		if passErr {
			t.Count("fault:terminal-error")
			return nil, errors.New("not a terminal")
		}
		if *prompt && len(w.hsm.tries) == 0 {
			return []byte(hsmPass), nil
		}
		return append([]byte{}, *pass...), nil
	}
}

func (k *walletKey) f0() *walletFile { return k.f }

func (f *walletFile) key0() *storedKey {
	if f == nil || f.key == nil {
		return &storedKey{}
	}
	return f.key
}

func (s *storedKey) pass0() []byte {
	if s == nil {
		return []byte("x")
	}
	return s.pass
}

type cliCase struct {
	t      *T
	w      *wallet
	match  []*walletKey
	sel    *walletKey
	fails  []string
	unsure []string
	env    map[string]string
}

// signedBy judges who signed.
func (x *cliCase) signedBy(what string, h []byte, sig []byte) {
	t := x.t
	who, err := signerOf(h, sig)
	if err != nil {
		t.Failf("bad-signature", "%s: the signature %x of %x is not valid: %v", what, sig, h, err)
	}
	if len(x.match) == 0 {
		t.Failf("signed-without-key", "%s although no key matches", what)
	}
	k := x.sel
	if k.hsm != nil {
		if who != *k.hsm.priv.Address() {
			t.Failf("wrong-key", "%s is signed by %s, the selected key is %s in the module", what, who.String(), k.addr)
		}
		t.Count("reach:signed-by-module")
		return
	}
	if k.kf.Address != "" {
		if who.String() != k.addr {
			t.Failf("wrong-key", "%s is signed by %s, the selected key is %s", what, who.String(), k.addr)
		}
	} else if k.f.intact && k.f.key != nil && who != *k.f.key.priv.Address() {
		t.Failf("wrong-key", "%s is signed by %s, the selected key is that of %s, %s", what, who.String(), k.f.path, k.f.key.priv.Address().String())
	}
	t.Count("reach:signed-by-file")
}

func (x *cliCase) judgeEnd(c *command, late []string) {
	t := x.t
	all := append(append([]string{}, x.fails...), late...)
	if len(all) > 0 {
		if c.code == 0 {
			t.Failf("failure-not-reported", "the command succeeds although %s", strings.Join(all, ", "))
		}
		t.Count("reach:failed-as-expected")
		return
	}
	if c.code != 0 && len(x.unsure) == 0 {
		t.Failf("does-not-work", "the command fails with %d although the one selected key is usable: %s %s", c.code, clip(c.errs.Bytes()), c.panics)
	}
	if c.code != 0 {
		t.Count("reach:failed-as-allowed")
	}
}

func (x *cliCase) sign() {
	t := x.t
	var args, late []string
	args = append(args, "sign")
	if t.Choose(4) == 3 {
		args = append(args, "-v")
	}
	format := t.Choose(3)
	switch format {
	case 1:
		args = append(args, "-x")
	case 2:
		args = append(args, "-j")
	}
	prefix := ""
	var content []byte
	switch t.Choose(4) {
	case 0:
		content = t.Bytes(t.Choose(40))
	case 1:
		content = t.Bytes(500 + t.Choose(3000))
	case 2:
		content = []byte("0x" + hex.EncodeToString(t.word(32)) + "\n")
	case 3:
		content = t.Bytes(32)
	}
	var h []byte
	if t.Choose(4) == 3 {
		args = append(args, "-h")
		if t.Choose(4) > 0 {
			content = t.Bytes(32)
		}
		if len(content) != 32 {
			late = append(late, "the input is no hash")
		}
		h = content
	} else {
		if t.Choose(3) == 2 {
			prefix = []string{"\x19Ethereum Signed Message:\n32", "-", "p"}[t.Choose(3)]
			args = append(args, "-prefix", prefix)
		}
		h = keccak256([]byte(prefix), content)
	}
	file := "/work/tx file"
	t.W.FS.Put(file, content)
	args = append(args, file)
	c := t.newCommand(args...)
	c.p.Env = x.env
	inFault := ""
	switch t.Choose(16) {
	case 14:
		t.W.FS.Del(file)
		late = append(late, "the input does not exist")
	case 15:
		inFault = []string{"open", "read"}[t.Choose(2)]
		late = append(late, "the input cannot be read")
	}
	after := t.Choose(3)
	reads := 0
	t.W.FS.Hook = func(op simworld.Op) simworld.Fault {
		if op.Path == file && op.Kind == "read" {
			reads++
		}
		if op.Path == file && op.Kind == inFault && (inFault == "open" || reads > after) {
			t.Count("fault:input-error")
			return simworld.Fault{Err: syscall.EIO}
		}
		f := x.w.hook(op)
		return f
	}
	out := 65
	if format == 1 {
		out = 131
	} else if format == 2 {
		out = 150
	}
	switch t.Choose(12) {
	case 10:
		c.out.room = t.Choose(out)
	case 11:
		c.p.StdoutClose = func() error {
			t.Count("fault:close-error")
			c.closeFail = true
			return syscall.EIO
		}
	}
	before := t.W.FS.Snapshot()
	c.run(t)
	if inFault == "read" && reads <= after && len(late) == 1 {
		late = nil // the fault did not show
	}
	if c.out.fail {
		t.Count("fault:output-error")
		late = append(late, "writing the signature failed")
	}
	if c.closeFail {
		late = append(late, "closing the output failed")
	}
	x.judgeEnd(c, late)
	got := c.out.b.Bytes()
	if c.code != 0 {
		if len(got) > 0 && !c.out.fail && !c.closeFail {
			t.Failf("output-of-failure", "the command fails (%s) and prints %s", clip(c.errs.Bytes()), clip(got))
		}
		if len(x.fails) > 0 && len(got) > 0 {
			t.Failf("output-of-failure", "the command prints %s although %s", clip(got), strings.Join(x.fails, ", "))
		}
	} else {
		sig := x.parseSig(format, got)
		x.signedBy(fmt.Sprintf("%q", c.args[1:]), h, sig)
	}
	if d := diffSnap(before, t.W.FS.Snapshot()); d != "" {
		t.Failf("files-changed", "signing changes %s", d)
	}
}

func diffSnap(a, b map[string]string) string {
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return k
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			return k
		}
	}
	return ""
}

func (x *cliCase) parseSig(format int, got []byte) []byte {
	t := x.t
	switch format {
	case 0:
		if len(got) != 65 {
			t.Failf("bad-output", "the signature has %d bytes", len(got))
		}
		return got
	case 1:
		b, err := hex.DecodeString(strings.TrimSuffix(string(got), "\n"))
		if err != nil || len(b) != 65 {
			t.Failf("bad-output", "the hexadecimal signature is %s", clip(got))
		}
		return b
	}
	var o struct{ R, S, V string }
	if json.Unmarshal(got, &o) != nil {
		t.Failf("bad-output", "the JSON signature is %s", clip(got))
	}
	n := func(s string) *big.Int {
		v, ok := new(big.Int).SetString(s, 0)
		if !ok || v.BitLen() > 256 {
			t.Failf("bad-output", "the JSON signature is %s", clip(got))
		}
		return v
	}
	sig := make([]byte, 65)
	n(o.R).FillBytes(sig[:32])
	n(o.S).FillBytes(sig[32:64])
	v := n(o.V).Int64()
	if v >= 27 {
		v -= 27
	}
	sig[64] = byte(v)
	return sig
}

// ---- calling ----

var selectorPreamble, _ = hex.DecodeString("6000357c0100000000000000000000000000000000000000000000000000000000900463ffffffff16")

func (x *cliCase) call() {
	t := x.t
	t.Regime()
	var late []string
	args := []string{"call"}
	force := t.Choose(3) > 0
	if force {
		args = append(args, "-f")
	}
	if t.Choose(6) == 5 {
		args = append(args, "-v")
	}
	price := int64(4)
	if t.Choose(3) == 2 {
		price = int64(t.Choose(500))
		args = append(args, "-g", fmt.Sprint(price))
	}
	nonce := int64(-1)
	if t.Choose(3) == 2 {
		nonce = int64(t.Choose(1000))
		args = append(args, "-n", fmt.Sprint(nonce))
	}
	to, _ := t.genAddr()
	var types, vals []string
	var data []byte
	for i := t.Choose(4); i > 0; i-- {
		var word [32]byte
		switch t.Choose(4) {
		case 0:
			v := new(big.Int).SetBytes(t.Bytes(t.Choose(31)))
			types = append(types, "uint256")
			vals = append(vals, v.String())
			v.FillBytes(word[:])
		case 1:
			a, _ := t.genAddr()
			types = append(types, "address")
			vals = append(vals, a.String())
			copy(word[12:], a[:])
		case 2:
			b := t.Choose(2)
			types = append(types, "bool")
			vals = append(vals, []string{"false", "true"}[b])
			word[31] = byte(b)
		case 3:
			v := t.Choose(100)
			types = append(types, "int8")
			vals = append(vals, fmt.Sprintf("0x%x", v))
			word[31] = byte(v)
		}
		data = append(data, word[:]...)
	}
	sig := []string{"transfer", "f", "set_it"}[t.Choose(3)] + "(" + strings.Join(types, ",") + ")"
	sel := keccak256([]byte(sig))[:4]
	data = append(append([]byte{}, sel...), data...)
	args = append(args, to.String(), sig)
	args = append(args, vals...)

	// the code of the contract
	var code []byte
	has := t.Choose(4) > 0
	code = append(code, t.Bytes(t.Choose(20))...)
	code = append(code, selectorPreamble...)
	entry := func(s []byte) {
		code = append(append(append(code, 0x80, 0x63), s...), 0x14, 0x61, 0x01, 0x45, 0x57)
	}
	for i := t.Choose(3); i > 0; i-- {
		o := t.Bytes(4)
		if bytes.Equal(o, sel) {
			o[0]++
		}
		entry(o)
	}
	if has {
		entry(sel)
	}
	for i := t.Choose(2); i > 0; i-- {
		entry([]byte{1, 2, 3, byte(t.Choose(256))})
	}
	code = append(code, 0x5b, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
	if t.Choose(8) == 7 {
		code = t.Bytes(t.Choose(30))
		has = false
	}
	if !has && !force {
		late = append(late, "the function is not in the code")
		if bytes.Contains(code, sel) {
			late = late[:0]
			x.unsure = append(x.unsure, "the code has the selector somewhere")
		}
	}

	n := NewNode(t, nil)
	n.Kind = []int{kStream, kHTTP}[t.Choose(2)]
	faulty := t.Choose(3) == 2
	if faulty {
		n.Faults()
		x.unsure = append(x.unsure, "the network fails")
	}
	badP := 0
	if t.Choose(4) == 3 {
		badP = 10 + t.Choose(50)
		x.unsure = append(x.unsure, "the node fails")
	}
	gas := big.NewInt(int64(21000 + t.Choose(100000)))
	nodeNonce := int64(t.Choose(100000))
	type sent struct {
		raw  []byte
		hash string
		good bool
		req  *Req
	}
	var sents []*sent
	n.Handle = func(r *Req) Ans {
		if t.Chance(badP, 100) {
			t.Count("fault:bad-answer")
			return []Ans{nullAns(), errAns(-32000, "node trouble"), okAns(`"0xzz"`), okAns("[1]")}[t.Choose(4)]
		}
		switch r.Method {
		case "eth_getCode":
			return okAns("%q", hx(code))
		case "eth_estimateGas":
			return okAns(`"0x%x"`, gas)
		case "eth_getTransactionCount":
			return okAns(`"0x%x"`, nodeNonce)
		case "eth_sendRawTransaction":
			raw, _ := hex.DecodeString(strings.TrimPrefix(jstr(r.Params[0]), "0x"))
			s := &sent{raw: raw, hash: hx(keccak256(raw)), good: true, req: r}
			sents = append(sents, s)
			return okAns("%q", s.hash)
		case "eth_sendTransaction":
			t.Failf("unsigned", "an unsigned transaction is submitted: %s", r.Params)
		}
		return errAns(-32601, "no such method "+r.Method)
	}
	if n.Kind == kHTTP {
		httpNode = n
		x.env["SETH_URL"] = "http://node.example:8545/"
	} else {
		x.env["SETH_URL"] = "/run/geth.ipc"
		t.W.FS.Put("/run/geth.ipc", nil)
		t.W.Dial = func(network, addr string) (io.ReadWriteCloser, error) {
			if network != "unix" || addr != "/run/geth.ipc" {
				t.Failf("wrong-node", "the command connects to %s %s", network, addr)
			}
			return n.dial()
		}
	}
	t.W.FS.Hook = x.w.hook
	c := t.newCommand(args...)
	c.p.Env = x.env
	if t.Choose(12) == 11 {
		c.out.room = t.Choose(67)
	}
	c.run(t)
	x.judgeEnd(c, late)
	reject := len(x.fails) + len(late)
	for _, r := range n.Log {
		if r.Method == "eth_sendRawTransaction" && reject > 0 {
			t.Failf("submitted-after-failure", "a transaction is submitted although %s", strings.Join(append(x.fails, late...), ", "))
		}
	}
	if len(sents) > 1 {
		t.Failf("submitted-twice", "%d transactions are submitted", len(sents))
	}
	for _, s := range sents {
		f, err := rlpList(s.raw)
		if err != nil || len(f) != 9 {
			t.Failf("bad-transaction", "the transaction %x: %v", s.raw, err)
		}
		i := func(k int) *big.Int { return new(big.Int).SetBytes(f[k]) }
		wn := nonce
		if wn < 0 {
			wn = nodeNonce
		}
		if i(0).Int64() != wn || i(1).Cmp(new(big.Int).Mul(big.NewInt(price), big.NewInt(1e9))) != 0 || !bytes.Equal(f[3], to[:]) || i(4).Sign() != 0 || !bytes.Equal(f[5], data) {
			t.Failf("wrong-transaction", "%q submits nonce %v price %v to %x value %v data %x; the nonce is %d and the data %x", c.args[1:], i(0), i(1), f[3], i(4), f[5], wn, data)
		}
		v := i(6).Int64()
		h := keccak256(rlpEnc(f[0], f[1], f[2], f[3], f[4], f[5], []byte{1}, nil, nil))
		sg := make([]byte, 65)
		if len(f[7]) > 32 || len(f[8]) > 32 || v != 37 && v != 38 {
			t.Failf("bad-signature", "the transaction %x has an invalid signature", s.raw)
		}
		copy(sg[32-len(f[7]):], f[7])
		copy(sg[64-len(f[8]):], f[8])
		sg[64] = byte(v - 37)
		x.signedBy("the submitted transaction", h, sg)
		t.Count("reach:submitted")
	}
	if c.code == 0 && !c.out.fail {
		if len(sents) == 0 {
			t.Failf("nothing-submitted", "the command succeeds without submitting anything")
		}
		if strings.TrimSpace(c.out.b.String()) != sents[0].hash {
			t.Failf("wrong-output", "the command prints %s, the transaction is %s", clip(c.out.b.Bytes()), sents[0].hash)
		}
	}
}
