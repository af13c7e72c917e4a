package scen

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	gohash "hash"
	"math/big"
	"syscall"
	"time"

	gcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/philhofer/seth"

	"verif.sim/simrt"
	"verif.sim/simworld"
)

func init() {
	Register(&Scenario{Prop: "W03", Name: "keygen", Weight: 1, Fresh: true, NoPreempt: true, Body: keygenRun})
	Register(&Scenario{Prop: "W03", Name: "keygen-library", Weight: 8, Body: keygenLib})
}

// refKey is a key file as another wallet reads it.
type refKey struct {
	Version int
	ID      string
	Name    string
	Address string
	Crypto  struct {
		Cipher       string
		Ciphertext   string
		MAC          string
		KDF          string
		CipherParams struct{ IV string }
		KDFParams    struct {
			DKLen, N, R, P, C int
			PRF, Salt         string
		}
	}
}

// open decrypts it, without the code under test.
func (r *refKey) open(pass []byte) (key, iv, salt []byte, err error) {
	h := func(what, s string) []byte {
		b, e := hex.DecodeString(s)
		if e != nil || len(b) == 0 {
			err = fmt.Errorf("%s %q", what, s)
		}
		return b
	}
	ct, mac := h("ciphertext", r.Crypto.Ciphertext), h("mac", r.Crypto.MAC)
	iv, salt = h("iv", r.Crypto.CipherParams.IV), h("salt", r.Crypto.KDFParams.Salt)
	if err != nil {
		return
	}
	kp := r.Crypto.KDFParams
	var dk []byte
	switch r.Crypto.KDF {
	case "scrypt":
		dk = deriveScrypt(pass, salt, kp.N, kp.R, kp.P, kp.DKLen)
	case "pbkdf2":
		f := map[string]func() gohash.Hash{"hmac-sha256": sha256.New, "hmac-sha512": sha512.New, "hmac-sha384": sha512.New384, "hmac-sha224": sha256.New224, "hmac-sha1": sha1.New}[kp.PRF]
		if f == nil {
			return nil, nil, nil, fmt.Errorf("prf %q", kp.PRF)
		}
		dk = derivePbkdf2(pass, salt, kp.C, kp.DKLen, f)
	default:
		return nil, nil, nil, fmt.Errorf("kdf %q", r.Crypto.KDF)
	}
	if len(dk) < 32 || r.Crypto.Cipher != "aes-128-ctr" || len(iv) != 16 || r.Version != 3 || r.ID == "" {
		return nil, nil, nil, fmt.Errorf("dklen %d, cipher %q, iv %x, version %d, id %q", len(dk), r.Crypto.Cipher, iv, r.Version, r.ID)
	}
	if !bytes.Equal(mac, keccak256(dk[16:32], ct)) {
		return nil, nil, nil, errors.New("the MAC is wrong")
	}
	b, _ := aes.NewCipher(dk[:16])
	key = make([]byte, len(ct))
	cipher.NewCTR(b, iv).XORKeyStream(key, ct)
	n := new(big.Int).SetBytes(key)
	if len(key) != 32 || n.Sign() == 0 || n.Cmp(gcrypto.S256().Params().N) >= 0 {
		return nil, nil, nil, fmt.Errorf("%x is not a private key", key)
	}
	return
}

// genSecrets is what a generation must not share with another one.
type genSecrets struct{ key, iv, salt []byte }

// stored judges a key file that was reported as complete.
func (t *T) stored(what string, text, pass []byte, name string) genSecrets {
	var r refKey
	d := json.NewDecoder(bytes.NewReader(text))
	if err := d.Decode(&r); err != nil {
		t.Failf("incomplete", "%s: the stored key file is %s: %v", what, clip(text), err)
	}
	if rest := bytes.TrimSpace(text[d.InputOffset():]); len(rest) > 0 {
		t.Failf("incomplete", "%s: the key file is followed by %s", what, clip(rest))
	}
	key, iv, salt, err := r.open(pass)
	if err != nil {
		t.Failf("unusable", "%s: the stored key file does not open with the passphrase: %v", what, err)
	}
	if r.Name != name {
		t.Failf("wrong-name", "%s: the name is %q, expected %q", what, r.Name, name)
	}
	pk, err := gcrypto.ToECDSA(key)
	if err != nil {
		t.Failf("unusable", "%s: %v", what, err)
	}
	a := gcrypto.PubkeyToAddress(pk.PublicKey)
	if r.Address != "" && r.Address != hex.EncodeToString(a[:]) {
		t.Failf("wrong-address", "%s: the address is %q, the key's is %x", what, r.Address, a[:])
	}
	if bytes.Contains(text, []byte(hex.EncodeToString(key))) || bytes.Contains(text, key) {
		t.Failf("key-in-clear", "%s: the key file holds the private key in clear", what)
	}
	_, got, err := unlock(text, append([]byte{}, pass...))
	if err != nil || !bytes.Equal(got[:], key) {
		t.Failf("unusable", "%s: the library unlocks it to %v, %v; the key is %x", what, got, err, key)
	}
	for _, p := range []struct {
		n    string
		a, b []byte
	}{{"key and salt", key, salt}, {"key and iv", key, iv}, {"iv and salt", iv, salt}} {
		s, l := p.a, p.b
		if len(s) > len(l) {
			s, l = l, s
		}
		if len(s) >= 8 && bytes.Contains(l, s) {
			t.Failf("not-fresh", "%s: %s are the same", what, p.n)
		}
	}
	return genSecrets{key, iv, salt}
}

func keygenRun(t *T) {
	args := []string{"keygen"}
	var fails []string
	if t.Choose(4) == 3 {
		args = append(args, "-v")
	}
	file := ""
	disk := t.Choose(3) > 0
	if disk {
		file = []string{"/keys/new", "/keys/old", "/nowhere/key", "rel key"}[t.Weighted(6, 2, 1, 2)]
		args = append(args, "-o", file)
	}
	name := []string{"", "main", "a \"quoted\" name", "näme\x01", "-"}[t.Choose(5)]
	if name != "" {
		args = append(args, name)
	}
	t.W.FS.MkdirAll("/keys")
	t.W.FS.Put("/keys/old", bytes.Repeat([]byte(`{"id":"old","version":3,`), 100))
	t.W.FS.Put("/keys/other", []byte("other"))
	if file == "/nowhere/key" {
		fails = append(fails, "the directory does not exist")
	}
	pass := t.genPass()
	c := t.newCommand(args...)
	c.p.Cwd = "/keys"
	full := file
	if file == "rel key" {
		full = "/keys/rel key"
	}
	// faults
	noPass := t.Choose(10) == 9
	if noPass {
		fails = append(fails, "no passphrase")
	}
	t.W.ReadPassword = func(int) ([]byte, error) {
		if noPass {
			t.Count("fault:terminal-error")
			return append([]byte{}, pass[:t.Choose(len(pass)+1)]...), errors.New("not a terminal")
		}
		return append([]byte{}, pass...), nil
	}
	randAt := -1
	if t.Choose(5) == 4 {
		randAt = t.Choose(5)
	}
	randFailed := false
	reads, random := 0, 0
	t.W.RandFault = func(n int) error {
		reads++
		if reads-1 == randAt {
			randFailed = true
			t.Count("fault:randomness-error")
			return syscall.EIO
		}
		return nil
	}
	t.W.RandTap = func(b []byte) { random += len(b) }
	kind, at, seen, fired := "", 0, 0, ""
	crash := false
	if disk {
		switch t.Choose(7) {
		case 3:
			kind = "create"
		case 4:
			kind, at = "write", t.Choose(2)
		case 5:
			kind = "close"
		case 6:
			t.W.FS.Limit = t.W.FS.Used() + t.Choose(700)
		}
		crash = kind != "" && kind != "create" && t.Choose(6) == 5
	} else {
		switch t.Choose(4) {
		case 2:
			c.out.room = t.Choose(700)
		case 3:
			c.p.StdoutClose = func() error {
				t.Count("fault:close-error")
				c.closeFail = true
				return syscall.EIO
			}
		}
	}
	t.W.FS.Hook = func(op simworld.Op) simworld.Fault {
		k := op.Kind
		if k == "open" && kind == "create" {
			k = "create"
		}
		if k == kind && op.Path == full {
			seen++
			if seen-1 == at {
				fired = kind
				t.Count("fault:" + kind + "-error")
				if crash {
					t.Count("fault:crash")
					return simworld.Fault{Crash: true, N: t.Choose(400)}
				}
				return simworld.Fault{Err: []error{syscall.ENOSPC, syscall.EIO, syscall.EACCES}[t.Choose(3)], N: t.Choose(400)}
			}
		}
		return simworld.Fault{N: -1}
	}
	limit := t.W.FS.Limit
	before := t.W.FS.Snapshot()
	if crash {
		g := c.p
		_ = g
		c.start(t, func() bool { return c.p.Exited || c.p.Dead })
		if !c.p.Exited {
			t.Count("reach:killed")
			return
		}
	} else {
		c.run(t)
	}
	if fired != "" {
		fails = append(fails, fired+" failed")
	}
	if randFailed {
		fails = append(fails, "randomness failed")
	}
	if c.out.fail || c.closeFail {
		fails = append(fails, "writing standard output failed")
		t.Count("fault:output-error")
	}
	after := t.W.FS.Snapshot()
	for k, v := range before {
		if w, ok := after[k]; (!ok || v != w) && k != full {
			t.Failf("files-changed", "the generation changes %s", k)
		}
	}
	for k := range after {
		if _, ok := before[k]; !ok && k != full {
			t.Failf("files-changed", "the generation makes %s", k)
		}
	}
	if c.code != 0 {
		if len(fails) == 0 && limit == 0 {
			t.Failf("does-not-work", "the generation fails with %d although nothing went wrong: %s %s", c.code, clip(c.errs.Bytes()), c.panics)
		}
		t.Count("reach:failed-as-expected")
		return
	}
	if len(fails) > 0 {
		t.Failf("failure-not-reported", "the generation succeeds although %v", fails)
	}
	text := c.out.b.Bytes()
	if disk {
		if len(text) > 0 {
			t.Failf("files-changed", "the generation also prints %s", clip(text))
		}
		text, _ = t.W.FS.Get(full)
	}
	s := t.stored("the generated key", text, pass, name)
	if need := len(s.key) + len(s.iv) + len(s.salt); random < need {
		t.Failf("not-fresh", "%d bytes of key, iv and salt from %d random ones", need, random)
	}
	t.Count("reach:generated")
}

// start runs a command that may be killed.
func (c *command) start(t *T, until func() bool) {
	simArgs(c.args)
	t.Sim.OnPanic = func(g *simrt.G, v interface{}, stack string) bool {
		if g.Proc != c.p {
			return false
		}
		c.panics = fmt.Sprint(v)
		c.p.Exited, c.p.Code = true, 2
		return true
	}
	g := c.p.Start(simMain)
	t.JoinWithin(time.Hour, g)
	t.Sim.OnPanic = nil
	c.code = c.p.Code
	if !until() {
		t.Failf("stuck", "%q does not end", c.args)
	}
}

var errRandom = errors.New("simulated: no randomness")

func keygenLib(t *T) {
	var all []genSecrets
	var what []string
	failP := []int{0, 0, 10, 40}[t.Choose(4)]
	// reads may fail for some callers only
	failing := map[*simrt.G]bool{}
	t.W.RandFault = func(n int) error {
		if t.Chance(failP, 100) {
			t.Count("fault:randomness-error")
			failing[t.Cur()] = true
			return errRandom
		}
		return nil
	}
	var gs []*simrt.G
	for i := 0; i < 1+t.Choose(4); i++ {
		gs = append(gs, simrt.Go(fmt.Sprintf("user%d", i), func() {
			for k := 1 + t.Choose(3); k > 0; k-- {
				pass := t.genPass()
				name := []string{"", "main", "ü"}[t.Choose(3)]
				me := t.Cur()
				failing[me] = false
				var kf *seth.Keyfile
				var priv *seth.PrivateKey
				func() {
					defer func() {
						e := recover()
						if e == nil {
							return
						}
						if err, ok := e.(error); !ok || !errors.Is(err, errRandom) {
							panic(e)
						}
						kf = nil
						t.Count("reach:panic-without-randomness")
					}()
					priv = seth.GenPrivateKey()
					if failing[me] {
						t.Failf("failure-not-reported", "a private key is generated although randomness failed")
					}
					again := 1 + t.Choose(2)
					for ; again > 0; again-- {
						kf = priv.ToKeyfile(name, append([]byte{}, pass...))
						if failing[me] {
							t.Failf("failure-not-reported", "a key file is made although randomness failed")
						}
						text, err := json.Marshal(kf)
						if err != nil {
							t.Failf("unusable", "the key file cannot be written: %v", err)
						}
						id := fmt.Sprintf("key file %d of %x", len(all), priv[:4])
						// opening it reads no randomness
						s := t.stored(id, text, pass, name)
						if !bytes.Equal(s.key, priv[:]) {
							t.Failf("wrong-key", "%s holds %x", id, s.key)
						}
						for j, o := range all {
							if bytes.Equal(o.iv, s.iv) || bytes.Equal(o.salt, s.salt) || bytes.Equal(o.key, s.key) && what[j] != fmt.Sprintf("%p", priv) {
								t.Failf("not-fresh", "%s shares key, iv or salt with an earlier one", id)
							}
						}
						all = append(all, s)
						what = append(what, fmt.Sprintf("%p", priv))
						t.Count("reach:generated")
					}
				}()
			}
		}))
	}
	if !t.JoinWithin(time.Hour, gs...) {
		t.Failf("stuck", "generation does not end: %v", t.Live())
	}
}
