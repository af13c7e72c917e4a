package scen

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"fmt"
	gohash "hash"
	"strings"
	"time"

	"github.com/philhofer/seth"
	"golang.org/x/crypto/pbkdf2"
	"golang.org/x/crypto/scrypt"
	"golang.org/x/crypto/sha3"

	"verif.sim/simrt"
	"verif.sim/simworld"
)

func init() {
	Register(&Scenario{Prop: "W01", Name: "damaged-keyfile", Weight: 4, NoPreempt: true, Body: func(t *T) { keyfileRun(t, false) }})
	Register(&Scenario{Prop: "W01", Name: "keyfile-concurrent", Body: func(t *T) { keyfileRun(t, true) }})
}

func keccak256(b ...[]byte) []byte {
	h := sha3.NewLegacyKeccak256()
	for _, x := range b {
		h.Write(x)
	}
	return h.Sum(nil)
}

// storedKey is a key file as stored, and what it holds.
type storedKey struct {
	priv  seth.PrivateKey
	pass  []byte
	text  []byte
	ct    []byte // what is authenticated
	name  string
	id    string
	addr  bool // the file records the address
	how   string
	whole bool // a file that must be usable
}

// genPriv makes a private key; leading zeros are worth a try.
func (t *T) genPriv() (k seth.PrivateKey) {
	copy(k[:], t.word(32))
	switch t.Choose(6) {
	case 1:
		k[0] = 0
	case 2:
		k[0], k[1] = 0, 0
	case 3:
		copy(k[:24], make([]byte, 24))
	}
	if k[0] == 0xff {
		k[0] = 0x7f
	}
	k[31] |= 1
	return k
}

func (t *T) genPass() []byte {
	switch t.Choose(6) {
	case 0:
		return []byte("foobar")
	case 1:
		return []byte{}
	case 2:
		return []byte("pass wörd \"'\\")
	case 3:
		return bytes.Repeat([]byte("long"), 40)
	case 4:
		return t.word(9)
	}
	return []byte("x")
}

// derive is what the key derivation functions give in the simulated machine
// (the cheap ones for real, the costly ones replaced).
func deriveScrypt(pass, salt []byte, n, r, p, dk int) []byte {
	if n*r*p <= 1<<7 {
		k, err := scrypt.Key(pass, salt, n, r, p, dk)
		if err != nil {
			panic(err)
		}
		return k
	}
	return simworld.Stretch(pass, salt, fmt.Sprintf("scrypt %d %d %d", n, r, p), dk)
}

func derivePbkdf2(pass, salt []byte, c, dk int, h func() gohash.Hash) []byte {
	if c <= 64 {
		return pbkdf2.Key(pass, salt, c, dk, h)
	}
	x := h()
	return simworld.Stretch(pass, salt, fmt.Sprintf("pbkdf2 %d %T %d", c, x, x.Size()), dk)
}

// foreignKey writes a key file as other wallets do (Web3 Secret Storage).
func (t *T) foreignKey(priv seth.PrivateKey, pass []byte, name string) *storedKey {
	s := &storedKey{priv: priv, pass: pass, name: name, whole: true, addr: t.Choose(3) != 0}
	salt := t.word([]int{32, 32, 8, 0, 64}[t.Choose(5)])
	iv := t.word(16)
	dk := 32
	var key []byte
	var kdf string
	kp := &obj{}
	kp.put("dklen", fmt.Sprint(dk))
	kp.put("salt", fmt.Sprintf("%q", hex.EncodeToString(salt)))
	if t.Choose(2) == 0 {
		kdf = "scrypt"
		n, r, p := 262144, 8, 1
		switch t.Choose(5) {
		case 1:
			n, p = 4096, 6
		case 2:
			n, r, p = 2, 1, 1
		case 3:
			n, r, p = 8, 2, 3
		}
		kp.put("n", fmt.Sprint(n))
		kp.put("r", fmt.Sprint(r))
		kp.put("p", fmt.Sprint(p))
		key = deriveScrypt(pass, salt, n, r, p, dk)
		s.how = fmt.Sprintf("scrypt n=%d", n)
	} else {
		kdf = "pbkdf2"
		c := []int{262144, 10240, 1, 3, 50}[t.Choose(5)]
		k := t.Choose(5)
		prf := []string{"hmac-sha256", "hmac-sha512", "hmac-sha384", "hmac-sha224", "hmac-sha1"}[k]
		kp.put("c", fmt.Sprint(c))
		kp.put("prf", fmt.Sprintf("%q", prf))
		key = derivePbkdf2(pass, salt, c, dk, []func() gohash.Hash{sha256.New, sha512.New, sha512.New384, sha256.New224, sha1.New}[k])
		s.how = fmt.Sprintf("pbkdf2 %s c=%d", prf, c)
	}
	plain := append([]byte{}, priv[:]...)
	switch t.Choose(12) {
	case 10:
		// some wallets have written keys without their leading zeros
		plain = bytes.TrimLeft(plain, "\x00")
		if len(plain) < 32 {
			s.whole = false
			s.how += " short"
		}
	case 11:
		plain = append(plain, t.word(1+t.Choose(8))...)
		s.whole = false
		s.how += " long"
	}
	blk, _ := aes.NewCipher(key[:16])
	s.ct = make([]byte, len(plain))
	cipher.NewCTR(blk, iv).XORKeyStream(s.ct, plain)
	mac := keccak256(key[len(key)-16:], s.ct)
	c := &obj{}
	c.put("cipher", `"aes-128-ctr"`)
	c.put("cipherparams", fmt.Sprintf(`{"iv":"%x"}`, iv))
	c.put("ciphertext", fmt.Sprintf(`"%x"`, s.ct))
	c.put("kdf", fmt.Sprintf("%q", kdf))
	c.put("kdfparams", kp.text(t))
	c.put("mac", fmt.Sprintf(`"%x"`, mac))
	o := &obj{}
	s.id = fmt.Sprintf("%x-%x", t.word(4), t.word(6))
	o.put("id", fmt.Sprintf("%q", s.id))
	o.put("version", "3")
	o.put("crypto", c.text(t))
	if s.addr {
		o.put("address", fmt.Sprintf(`"%x"`, priv.Address()[:]))
	}
	nb, _ := json.Marshal(name)
	o.put("name", string(nb))
	o.put("meta", `"{}"`)
	s.text = []byte(o.text(t))
	return s
}

// ownKey writes a key file with the library.
func (t *T) ownKey(priv seth.PrivateKey, pass []byte, name string) *storedKey {
	k := priv
	p := append([]byte{}, pass...)
	kf := k.ToKeyfile(name, p)
	if k != priv || !bytes.Equal(p, pass) {
		t.Failf("input-changed", "ToKeyfile changes the key or the passphrase")
	}
	for i := range p {
		p[i] = 0xee // callers wipe passphrases
	}
	var b []byte
	if t.Choose(2) == 0 {
		b, _ = json.MarshalIndent(kf, "", "\t")
	} else {
		b, _ = json.Marshal(kf)
	}
	s := &storedKey{priv: priv, pass: pass, text: b, name: name, id: kf.ID, how: "own", whole: true}
	s.ct, _ = hex.DecodeString(kf.Crypto.Ciphertext)
	if bytes.Contains(b, []byte(hex.EncodeToString(priv[:]))) || bytes.Equal(s.ct, priv[:]) {
		t.Failf("key-in-clear", "the key file holds the private key in clear: %s", b)
	}
	if kf.Address != "" {
		s.addr = true
	}
	return s
}

func (t *T) genStored() *storedKey {
	priv, pass := t.genPriv(), t.genPass()
	name := []string{"", "main", "a \"name\"", "0x00"}[t.Choose(4)]
	if t.Choose(3) == 0 {
		return t.ownKey(priv, pass, name)
	}
	return t.foreignKey(priv, pass, name)
}

// damage changes the stored bytes.
func (t *T) damageFile(b []byte, other []byte) ([]byte, string) {
	b = append([]byte{}, b...)
	switch t.Choose(9) {
	case 0:
		n := t.Choose(len(b) + 1)
		t.Count("fault:truncated")
		return b[:n], fmt.Sprintf("cut at %d", n)
	case 1:
		n := 1 + t.Choose(3)
		for i := 0; i < n; i++ {
			b[t.Choose(len(b))] ^= 1 << uint(t.Choose(8))
		}
		t.Count("fault:bit-flips")
		return b, "bits flipped"
	case 2:
		// digits of numbers and hex strings stay digits
		n := 1 + t.Choose(4)
		for i := 0; i < n; i++ {
			k := t.Choose(len(b))
			for j := 0; j < len(b) && !strings.ContainsRune("0123456789abcdef", rune(b[k])); j++ {
				k = (k + 1) % len(b)
			}
			b[k] = "0123456789"[t.Choose(10)]
		}
		t.Count("fault:digits-changed")
		return b, "digits changed"
	case 3:
		k := t.Choose(len(b))
		n := 1 + t.Choose(64)
		for i := k; i < k+n && i < len(b); i++ {
			b[i] = 0
		}
		t.Count("fault:zeroed-range")
		return b, "range zeroed"
	case 4:
		// torn: the beginning of one file and the rest of another
		k := t.Choose(len(b) + 1)
		out := append([]byte{}, b[:k]...)
		if k < len(other) {
			out = append(out, other[k:]...)
		}
		t.Count("fault:torn")
		return out, fmt.Sprintf("torn at %d", k)
	case 5:
		k := t.Choose(len(b))
		n := 1 + t.Choose(20)
		if k+n > len(b) {
			n = len(b) - k
		}
		t.Count("fault:range-lost")
		return append(b[:k], b[k+n:]...), "range lost"
	default:
		// a field has another value
		var m map[string]interface{}
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		if d.Decode(&m) != nil {
			return b, "intact"
		}
		desc := t.damageField(m)
		t.Count("fault:field-changed")
		out, _ := json.Marshal(m)
		return out, desc
	}
}

func (t *T) damageField(m map[string]interface{}) string {
	path := ""
	for {
		ks := sortedKeys(m)
		if len(ks) == 0 {
			return "nothing"
		}
		k := ks[t.Choose(len(ks))]
		if path == "" && t.Choose(4) > 0 {
			k = "crypto"
		}
		path += "/" + k
		if sub, ok := m[k].(map[string]interface{}); ok && t.Choose(8) > 0 {
			m = sub
			continue
		}
		switch v := m[k].(type) {
		case json.Number:
			m[k] = json.RawMessage([]string{"0", "1", "-1", "15", "16", "31", "33", "64", "2", "65537", "1e3", "4294967296", "4611686018427387904", "9223372036854775807", "-9223372036854775808", "1048576", "3", "null", `"32"`, "1000000000", "2147483647", "536870912"}[t.Choose(22)])
		case string:
			switch t.Choose(8) {
			case 0:
				m[k] = ""
			case 1:
				m[k] = v[:t.Choose(len(v)+1)]
			case 2:
				m[k] = v + v
			case 3:
				if len(v) > 2 {
					m[k] = v[:len(v)-2]
				}
			case 4:
				m[k] = v + "00"
			case 5:
				m[k] = strings.ToUpper(v)
			case 6:
				m[k] = []string{"scrypt", "pbkdf2", "hmac-sha256", "hmac-sha1", "aes-128-ctr", "aes-128-cbc", "0x" + v, "zz"}[t.Choose(8)]
			case 7:
				m[k] = hex.EncodeToString(t.word(t.Choose(40)))
			}
		default:
			m[k] = json.RawMessage([]string{"null", "{}", "[]", `""`, "0", "true"}[t.Choose(6)])
		}
		if t.Choose(6) == 5 {
			delete(m, k)
		}
		b, _ := json.Marshal(m[k])
		return fmt.Sprintf("%s=%s", path, clip(b))
	}
}

// unlock opens the text of a file the way wallets do.
func unlock(text, pass []byte) (*seth.Keyfile, *seth.PrivateKey, error) {
	kf := new(seth.Keyfile)
	if err := json.Unmarshal(text, kf); err != nil {
		return nil, nil, err
	}
	p, err := kf.Private(pass)
	return kf, p, err
}

// check decides whether a result of unlocking is allowed.
func (s *storedKey) check(t *T, what string, kf *seth.Keyfile, got *seth.PrivateKey, err error, intact, right bool) {
	if err != nil {
		if got != nil {
			t.Failf("key-with-error", "%s: gives a key and the error %v", what, err)
		}
		if intact && right && s.whole {
			t.Failf("not-unlocked", "%s: an intact key file (%s) is not unlocked by its passphrase: %v", what, s.how, err)
		}
		t.Count("reach:refused")
		return
	}
	if got == nil {
		t.Failf("no-key", "%s: neither a key nor an error", what)
	}
	if *got == s.priv {
		if !intact {
			t.Count("reach:right-key-from-damaged-file")
		} else if right {
			t.Count("reach:unlocked")
		}
		return
	}
	var iv struct{ IV string }
	json.Unmarshal(kf.Crypto.CipherParams, &iv)
	ct, _ := hex.DecodeString(kf.Crypto.Ciphertext)
	switch {
	case kf.Address != "":
		t.Failf("wrong-key", "%s: the key %x instead of %x from a file with the address %q", what, *got, s.priv, kf.Address)
	case intact:
		t.Failf("wrong-key", "%s: the key %x instead of %x (%s)", what, *got, s.priv, s.how)
	case !right || !bytes.Equal(ct, s.ct):
		t.Failf("wrong-key", "%s: the key %x instead of %x although the ciphertext does not match its MAC", what, *got, s.priv)
	case bytes.Contains(s.text, []byte(strings.ToLower(iv.IV))) && iv.IV != "" && len(iv.IV) == 32:
		t.Failf("wrong-key", "%s: the key %x instead of %x", what, *got, s.priv)
	}
	// the initialisation vector is not authenticated
	t.Count("reach:altered-vector-not-noticed")
}

func keyfileRun(t *T, conc bool) {
	s := t.genStored()
	o := t.genStored()
	// intact
	p := append([]byte{}, s.pass...)
	kf, got, err := unlock(s.text, p)
	if kf == nil {
		t.Failf("unreadable", "the stored file %s cannot be parsed: %v", clip(s.text), err)
	}
	if !bytes.Equal(p, s.pass) {
		t.Failf("input-changed", "the passphrase was changed")
	}
	t.Logf("stored %s name %q: %s", s.how, s.name, errText(err))
	s.check(t, "intact", kf, got, err, true, true)
	if conc {
		keyfileConc(t, s, o, kf)
		return
	}
	n := 1 + t.Choose(8)
	for i := 0; i < n; i++ {
		text, what, pass, right := s.text, "intact", s.pass, true
		if t.Choose(5) > 0 {
			text, what = t.damageFile(s.text, o.text)
			if t.Choose(6) == 5 {
				var w2 string
				if len(text) > 0 {
					text, w2 = t.damageFile(text, o.text)
					what += ", " + w2
				}
			}
		}
		if t.Choose(4) == 3 {
			pass = t.wrongPass(s, o)
			right = false
			t.Count("fault:wrong-passphrase")
		}
		intact := bytes.Equal(text, s.text)
		what = fmt.Sprintf("%s, passphrase right: %v", what, right)
		kf, got, err := unlock(text, pass)
		t.Logf("%s: %s", what, errText(err))
		if kf == nil {
			t.Count("reach:not-parsed")
			continue
		}
		ct, _ := hex.DecodeString(kf.Crypto.Ciphertext)
		if got != nil && bytes.Equal(ct, o.ct) && bytes.Equal(bytes.TrimRight(pass, "\x00"), bytes.TrimRight(o.pass, "\x00")) {
			// torn so that it is the other file, if perhaps with an
			// initialisation vector of this one
			if *got == o.priv || kf.Address == "" {
				continue
			}
		}
		s.check(t, what, kf, got, err, intact, right)
	}
}

// wrongPass is a passphrase that derives another key.
func (t *T) wrongPass(s, o *storedKey) []byte {
	var c []byte
	switch t.Choose(6) {
	case 0:
		c = append([]byte{}, o.pass...)
	case 1:
		if len(s.pass) > 0 {
			c = append([]byte{}, s.pass[:len(s.pass)-1]...)
		}
	case 2:
		c = append(append([]byte{}, s.pass...), ' ')
	case 3:
		c = bytes.ToUpper(s.pass)
	case 4:
		c = t.word(t.Choose(70))
	case 5:
		c = append(append([]byte{}, s.pass...), '\n')
	}
	// HMAC pads keys with zeros: these derive the same key
	if bytes.Equal(bytes.TrimRight(c, "\x00"), bytes.TrimRight(s.pass, "\x00")) {
		c = []byte("certainly another one")
	}
	return c
}

// keyfileConc unlocks files at the same time.
func keyfileConc(t *T, s, o *storedKey, kf *seth.Keyfile) {
	before, _ := json.Marshal(kf)
	var okf seth.Keyfile
	json.Unmarshal(o.text, &okf)
	var gs []*simrt.G
	for i := 0; i < 2+t.Choose(4); i++ {
		k := t.Choose(4)
		wrong := t.wrongPass(s, o)
		gs = append(gs, simrt.Go(fmt.Sprintf("user%d", i), func() {
			switch k {
			case 0:
				got, err := kf.Private(append([]byte{}, wrong...))
				s.check(t, "concurrent, wrong passphrase", kf, got, err, true, false)
			case 1:
				got, err := okf.Private(append([]byte{}, o.pass...))
				o.check(t, "concurrent, other file", &okf, got, err, true, true)
			case 2:
				k := s.priv
				n := k.ToKeyfile("new", []byte("new"))
				b, _ := json.Marshal(n)
				_, got, err := unlock(b, []byte("new"))
				if err != nil || *got != s.priv {
					t.Failf("not-unlocked", "a new key file gives %v %v instead of %x", got, err, s.priv)
				}
			default:
				got, err := kf.Private(append([]byte{}, s.pass...))
				s.check(t, "concurrent", kf, got, err, true, true)
			}
			t.Count("reach:concurrent-unlock")
		}))
	}
	if !t.JoinWithin(time.Minute, gs...) {
		t.Failf("stuck", "unlocking does not end: %s", strings.Join(t.Live(), "; "))
	}
	after, _ := json.Marshal(kf)
	if !bytes.Equal(before, after) {
		t.Failf("input-changed", "unlocking changes the key file from %s to %s", before, after)
	}
}
