package scen

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"syscall"
	"time"

	"github.com/philhofer/seth"
	"github.com/tinylib/msgp/msgp"

	"verif.sim/simrt"
)

func init() {
	Register(&Scenario{Prop: "M01", Name: "codec-streams", Weight: 150, NoPreempt: true, Body: codecRun})
	Register(&Scenario{Prop: "M01", Name: "codec-concurrent", Weight: 49, Body: codecConc})
	Register(&Scenario{Prop: "M01", Name: "codec-giant-header", Weight: 1, NoPreempt: true, Body: codecGiant})
}

// codec is what all record types have.
type codec interface {
	msgp.Encodable
	msgp.Decodable
	msgp.Marshaler
	msgp.Unmarshaler
}

func (t *T) str() string {
	switch t.Choose(6) {
	case 0:
		return ""
	case 1:
		return strings.Repeat("s", 30+t.Choose(4))
	case 2:
		return strings.Repeat("long ", 50+t.Choose(3))
	case 3:
		return string(t.Bytes(t.Choose(20)))
	case 4:
		return strings.Repeat("x", 65530+t.Choose(12))
	}
	return "uint256"
}

func (t *T) genParam(depth int) seth.ABIParam {
	p := seth.ABIParam{Name: t.str(), Type: t.str(), Indexed: t.Choose(2) == 1}
	if depth > 0 {
		for i := t.Choose(3); i > 0; i-- {
			p.Components = append(p.Components, t.genParam(depth-1))
		}
	}
	return p
}

func (t *T) genDescriptor() seth.ABIDescriptor {
	d := seth.ABIDescriptor{Type: t.str(), Name: t.str(), Payable: t.Choose(2) == 1, Mutability: t.str(), Constant: t.Choose(2) == 1, Anonymous: t.Choose(2) == 1}
	for i := t.Choose(3); i > 0; i-- {
		d.Inputs = append(d.Inputs, t.genParam(2))
	}
	for i := t.Choose(3); i > 0; i-- {
		d.Outputs = append(d.Outputs, t.genParam(1))
	}
	return d
}

func (t *T) genContract() seth.CompiledContract {
	c := seth.CompiledContract{Name: t.str(), Sourcemap: t.str(), Code: t.Bytes(t.Choose(300))}
	for i := t.Choose(4); i > 0; i-- {
		c.ABI = append(c.ABI, t.genDescriptor())
	}
	if t.Choose(12) == 11 {
		c.ABI = make([]seth.ABIDescriptor, 16+t.Choose(3))
	}
	return c
}

// genRecord makes a record of any kind.
func (t *T) genRecord() codec {
	switch t.Choose(14) {
	case 0:
		b, _, _ := t.genBlock(-1, t.Choose(2) == 1)
		if t.Choose(4) == 3 {
			b.Difficulty = nil
		}
		if t.Choose(4) == 3 {
			b.TotalDifficulty = nil
		}
		return &b
	case 1, 2:
		x, _ := t.genTx()
		return &x
	case 3, 4:
		r, _ := t.genReceipt()
		return &r
	case 5:
		l, _ := t.genLog()
		return &l
	case 6, 7:
		b := &seth.CompiledBundle{}
		n := t.Choose(4)
		for i := 0; i < n; i++ {
			b.Filenames = append(b.Filenames, t.str())
			b.Sources = append(b.Sources, t.str())
		}
		for i := t.Choose(3); i > 0; i-- {
			b.Contracts = append(b.Contracts, t.genContract())
		}
		for i := t.Choose(3); i > 0; i-- {
			b.Warnings = append(b.Warnings, t.str())
		}
		return b
	case 8:
		c := t.genContract()
		return &c
	case 9:
		v, _ := t.genInt()
		return (*seth.Int)(v)
	case 10:
		x := &seth.TokenTransfer{Block: int64(t.Choose(1<<30)) - 1<<20, TxHeight: t.Choose(70000) - 200}
		copy(x.Token[:], t.word(20))
		copy(x.From[:], t.word(20))
		copy(x.To[:], t.word(20))
		v, _ := t.genInt()
		x.Amount = seth.Int(*v)
		return x
	case 11:
		return &seth.RPCError{Code: t.Choose(70000) - 33000, Message: t.str(), Data: []byte(t.str())}
	case 12:
		d := t.genDescriptor()
		return &d
	}
	switch t.Choose(5) {
	case 0:
		a, _ := t.genAddr()
		return &a
	case 1:
		h, _ := t.genHash()
		return &h
	case 2:
		d, _ := t.genData(70000)
		return &d
	case 3:
		u, _ := t.genU64()
		x := seth.Uint64(u)
		return &x
	}
	p := t.genParam(3)
	return &p
}

func blank(c codec) codec { return reflect.New(reflect.TypeOf(c).Elem()).Interface().(codec) }

func kindOf(c codec) string { return strings.TrimPrefix(reflect.TypeOf(c).String(), "*seth.") }

// ---- streams ----

var errStream = errors.New("stream broken")

// inStream hands out data in pieces and may end or fail at some byte.
type inStream struct {
	t    *T
	b    []byte
	off  int
	end  int   // bytes that arrive
	err  error // what comes after them
	max  int
	late bool // the error comes together with the last bytes
}

func (s *inStream) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	simrt.Yield()
	if s.off >= s.end {
		return 0, s.err
	}
	n := s.end - s.off
	if n > len(p) {
		n = len(p)
	}
	if s.max > 0 && n > s.max {
		n = 1 + s.t.Choose(s.max)
		if n > len(p) {
			n = len(p)
		}
	}
	copy(p, s.b[s.off:s.off+n])
	s.off += n
	if s.off == s.end && s.late {
		return n, s.err
	}
	return n, nil
}

// outStream takes data and may fail at some byte.
type outStream struct {
	t    *T
	b    []byte
	room int // -1: unlimited
	dead bool
}

func (s *outStream) Write(p []byte) (int, error) {
	simrt.Yield()
	if s.dead {
		return 0, errStream
	}
	n := len(p)
	if s.room >= 0 && len(s.b)+n > s.room {
		n = s.room - len(s.b)
		s.dead = true
		s.b = append(s.b, p[:n]...)
		return n, errStream
	}
	s.b = append(s.b, p[:n]...)
	return n, nil
}

func (t *T) reader(s *inStream) *msgp.Reader {
	switch t.Choose(3) {
	case 0:
		return msgp.NewReader(s)
	case 1:
		return msgp.NewReaderSize(s, 18+t.Choose(20))
	}
	return msgp.NewReaderSize(s, 18+t.Choose(5000))
}

func (t *T) writer(s *outStream) *msgp.Writer {
	switch t.Choose(3) {
	case 0:
		return msgp.NewWriter(s)
	case 1:
		return msgp.NewWriterSize(s, 18+t.Choose(20))
	}
	return msgp.NewWriterSize(s, 18+t.Choose(5000))
}

// encode gives the encoding of v, checking the ways to get it against each
// other.
func (t *T) encode(v codec) []byte {
	o := &outStream{t: t, room: -1}
	w := t.writer(o)
	err := v.EncodeMsg(w)
	if err == nil {
		err = w.Flush()
	}
	if err != nil {
		t.Failf("encode-error", "encoding a %s to a good stream fails: %v", kindOf(v), err)
	}
	pre := t.Bytes(t.Choose(5))
	b, err := v.MarshalMsg(append([]byte{}, pre...))
	if err != nil || !bytes.HasPrefix(b, pre) {
		t.Failf("encode-error", "MarshalMsg of a %s: %v", kindOf(v), err)
	}
	if !bytes.Equal(b[len(pre):], o.b) {
		t.Failf("encodings-differ", "%s: the stream holds %s, MarshalMsg gives %s", kindOf(v), clip(o.b), clip(b[len(pre):]))
	}
	return o.b
}

// giant tells whether decoding b would meet a header that promises far more
// than there is: see codec-giant-header.
func giant(b []byte) bool {
	g := false
	var walk func(b []byte, depth int) ([]byte, bool)
	walk = func(b []byte, depth int) ([]byte, bool) {
		if len(b) == 0 || depth > 2000 {
			return nil, false
		}
		skip := func(h, n int) ([]byte, bool) {
			if n > 1<<24 && h+n > len(b) {
				g = true
			}
			if h+n > len(b) {
				return nil, false
			}
			return b[h+n:], true
		}
		num := func(n int) int {
			if len(b) < 1+n {
				return -1
			}
			switch n {
			case 1:
				return int(b[1])
			case 2:
				return int(binary.BigEndian.Uint16(b[1:]))
			}
			return int(binary.BigEndian.Uint32(b[1:]))
		}
		many := func(h, n int, array bool) ([]byte, bool) {
			if n < 0 || h > len(b) {
				return nil, false
			}
			if array && n > 1<<17 {
				g = true
			}
			r := b[h:]
			for i := 0; i < n; i++ {
				var ok bool
				if r, ok = walk(r, depth+1); !ok {
					return nil, false
				}
			}
			return r, true
		}
		c := b[0]
		switch {
		case c < 0x80 || c >= 0xe0 || c == 0xc0 || c == 0xc2 || c == 0xc3:
			return b[1:], true
		case c < 0x90:
			return many(1, 2*int(c&15), false)
		case c < 0xa0:
			return many(1, int(c&15), true)
		case c < 0xc0:
			return skip(1, int(c&31))
		}
		switch c {
		case 0xc4, 0xd9:
			return skip(2, num(1))
		case 0xc5, 0xda:
			return skip(3, num(2))
		case 0xc6, 0xdb:
			return skip(5, num(4))
		case 0xca, 0xce, 0xd2:
			return skip(1, 4)
		case 0xcb, 0xcf, 0xd3:
			return skip(1, 8)
		case 0xcc, 0xd0:
			return skip(1, 1)
		case 0xcd, 0xd1:
			return skip(1, 2)
		case 0xc7:
			return skip(3, num(1))
		case 0xc8:
			return skip(4, num(2))
		case 0xc9:
			return skip(6, num(4))
		case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
			return skip(2, 1<<(c-0xd4))
		case 0xdc:
			return many(3, num(2), true)
		case 0xdd:
			return many(5, num(4), true)
		case 0xde:
			return many(3, 2*num(2), false)
		case 0xdf:
			return many(5, 2*num(4), false)
		}
		return nil, false
	}
	for len(b) > 0 {
		r, ok := walk(b, 0)
		if !ok {
			break
		}
		b = r
	}
	return g
}

func codecRun(t *T) {
	n := 1 + t.Choose(5)
	var vs []codec
	var encs [][]byte
	var all []byte
	var ends []int
	for i := 0; i < n; i++ {
		v := t.genRecord()
		if len(all) > 1<<18 {
			break
		}
		b := t.encode(v)
		vs = append(vs, v)
		encs = append(encs, b)
		all = append(all, b...)
		ends = append(ends, len(all))
		t.Logf("%s: %d bytes", kindOf(v), len(b))
	}
	for k := 1 + t.Choose(5); k > 0; k-- {
		switch t.Choose(5) {
		case 0:
			t.writeFails(vs, all)
		case 1, 2:
			t.readStream(vs, all, ends, true)
		case 3:
			t.corruptStream(vs, encs)
		case 4:
			t.readStream(vs, all, ends, false)
		}
	}
}

// target is a variable to decode into, new or used.
func (t *T) target(v codec) codec {
	z := blank(v)
	if t.Choose(3) == 2 {
		for i := 0; i < 8; i++ {
			o := t.genRecord()
			if reflect.TypeOf(o) == reflect.TypeOf(v) {
				t.Count("reach:used-target")
				return o
			}
		}
	}
	return z
}

// readStream decodes all records from a stream that may be cut or fail.
func (t *T) readStream(vs []codec, all []byte, ends []int, faulty bool) {
	in := &inStream{t: t, b: append([]byte{}, all...), end: len(all), err: io.EOF, max: []int{0, 1, 3, 40, 2000}[t.Choose(5)], late: t.Choose(3) == 0}
	if len(all) > 4000 && in.max < 40 {
		in.max = 0
	}
	if in.max > 0 {
		t.Count("fault:fragmented-read")
	}
	if faulty {
		in.end = t.Choose(len(all) + 1)
		if t.Choose(3) == 0 {
			// around the borders of records
			in.end = ends[t.Choose(len(ends))] - t.Choose(3)
			if in.end < 0 {
				in.end = 0
			}
		}
		t.Count("fault:stream-cut")
		if t.Choose(2) == 0 {
			in.err = errStream
			t.Count("fault:read-error")
		}
	}
	if t.Choose(3) == 0 {
		// from memory
		rest := in.b[:in.end]
		for i, v := range vs {
			z := t.target(v)
			left, err := z.UnmarshalMsg(rest)
			if ends[i] > in.end {
				if err == nil && endsInArray(all[ends[i]-len(rest)-(ends[i]-in.end):ends[i]], ends[i]-in.end) {
					// msgp.ReadExactBytes, in the library, takes what there is
					t.Count("reach:library-short-array")
					return
				}
				if err == nil {
					t.Failf("cut-not-noticed", "%s number %d: %d of %d bytes decode without an error to %s", kindOf(v), i, len(rest), ends[i]-ends[i]+len(rest), clip([]byte(fmt.Sprintf("%+v", z))))
				}
				t.Count("reach:cut-reported")
				return
			}
			if err != nil {
				t.Failf("not-decoded", "%s number %d: %v", kindOf(v), i, err)
			}
			if d := diff(v, z); d != "" {
				t.Failf("wrong-value", "%s number %d decodes to another value: %s", kindOf(v), i, d)
			}
			if len(left) != in.end-ends[i] {
				t.Failf("wrong-rest", "%s number %d: %d bytes left, expected %d", kindOf(v), i, len(left), in.end-ends[i])
			}
			t.Count("reach:decoded-from-memory")
			rest = left
		}
		return
	}
	r := t.reader(in)
	for i, v := range vs {
		z := t.target(v)
		err := z.DecodeMsg(r)
		if ends[i] > in.end {
			if err == nil {
				t.Failf("cut-not-noticed", "%s number %d decodes without an error from a stream that ends at byte %d of %d", kindOf(v), i, in.end, ends[i])
			}
			t.Count("reach:cut-reported")
			return
		}
		if err != nil && errors.Is(err, errStream) && in.late {
			// the stream failed with its last bytes; the library does not
			// use those
			t.Count("reach:cut-reported")
			return
		}
		if err != nil {
			t.Failf("not-decoded", "%s number %d, bytes to %d of a stream with %d: %v", kindOf(v), i, ends[i], in.end, err)
		}
		if d := diff(v, z); d != "" {
			t.Failf("wrong-value", "%s number %d decodes to another value: %s", kindOf(v), i, d)
		}
		t.Count("reach:decoded")
	}
	var x seth.Uint64
	if err := x.DecodeMsg(r); err == nil {
		t.Failf("extra-data", "the stream holds more than was written")
	}
}

// endsInArray tells whether the last element of a record is an array of a
// fixed number of bytes, and the last missing bytes are its.
func endsInArray(rec []byte, missing int) bool {
	for _, n := range []int{20, 32} {
		if at := len(rec) - n - 2; at >= 0 && missing <= n && rec[at] == 0xc4 && int(rec[at+1]) == n {
			return true
		}
	}
	at := len(rec) - 256 - 3
	return at >= 0 && missing <= 256 && rec[at] == 0xc5 && rec[at+1] == 1 && rec[at+2] == 0
}

// writeFails encodes to a stream that fails.
func (t *T) writeFails(vs []codec, all []byte) {
	o := &outStream{t: t, room: t.Choose(len(all))}
	t.Count("fault:write-error")
	var err error
	if t.Choose(4) == 0 {
		for _, v := range vs {
			if err = msgp.Encode(o, v); err != nil {
				break
			}
		}
	} else {
		w := t.writer(o)
		for _, v := range vs {
			if e := v.EncodeMsg(w); e != nil {
				err = e
				break
			}
		}
		if err == nil {
			err = w.Flush()
		}
	}
	if err == nil {
		t.Failf("write-error-hidden", "encoding %d records to a stream that fails after %d of %d bytes reports no error", len(vs), o.room, len(all))
	}
	if !errors.Is(err, errStream) {
		t.Failf("write-error-hidden", "encoding to a stream that fails reports %v", err)
	}
	if !bytes.HasPrefix(all, o.b) {
		t.Failf("wrong-stream", "what was written before the stream failed is not the beginning of the encoding")
	}
	t.Count("reach:write-error-reported")
}

// corruptStream decodes damaged bytes: a value or an error.
func (t *T) corruptStream(vs []codec, encs [][]byte) {
	i := t.Choose(len(vs))
	b := append([]byte{}, encs[i]...)
	v := vs[i]
	for k := 1 + t.Choose(3); k > 0 && len(b) > 0; k-- {
		at := t.Choose(len(b))
		if t.Choose(2) == 0 && len(b) > 40 {
			at = t.Choose(40)
		}
		switch t.Choose(6) {
		case 0:
			b[at] ^= 1 << uint(t.Choose(8))
		case 1:
			b[at] = []byte{0xc0, 0xc1, 0xc4, 0xc6, 0xca, 0xd9, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0x90, 0x9f, 0x80, 0x8f, 0xd4, 0xc7}[t.Choose(17)]
		case 2:
			b = append(b[:at], b[at+1:]...)
		case 3:
			n := at + 1 + t.Choose(40)
			if n > len(b) {
				n = len(b)
			}
			b = append(b[:at], b[n:]...)
		case 4:
			o := encs[t.Choose(len(encs))]
			b = append(b[:at], o[t.Choose(len(o)):]...)
		case 5:
			b = append(append(append([]byte{}, b[:at]...), t.Bytes(1+t.Choose(4))...), b[at:]...)
		}
	}
	if t.Choose(8) == 7 {
		v = vs[t.Choose(len(vs))] // and of another kind
	}
	t.Count("fault:corrupted")
	if giant(b) {
		t.Count("reach:giant-header")
		return
	}
	z, y := t.target(v), t.target(v)
	_, err := z.UnmarshalMsg(append([]byte{}, b...))
	in := &inStream{t: t, b: b, end: len(b), err: io.EOF, max: []int{0, 1, 40}[t.Choose(3)]}
	if len(b) > 4000 {
		in.max = 0
	}
	serr := y.DecodeMsg(t.reader(in))
	t.Logf("corrupted %s: %v, %v", kindOf(v), err, serr)
	if err != nil {
		t.Count("reach:corruption-reported")
	} else {
		t.Count("reach:corruption-gives-value")
	}
}

func codecConc(t *T) {
	var gs []*simrt.G
	for i := 0; i < 2+t.Choose(4); i++ {
		gs = append(gs, simrt.Go(fmt.Sprintf("user%d", i), func() {
			for k := 1 + t.Choose(3); k > 0; k-- {
				v := t.genRecord()
				b := t.encode(v)
				if len(b) == 0 {
					continue
				}
				if t.Choose(3) == 0 {
					t.writeFails([]codec{v}, b)
				} else {
					t.readStream([]codec{v}, b, []int{len(b)}, t.Choose(3) == 0)
				}
			}
			t.Count("reach:concurrent-codec")
		}))
	}
	if !t.JoinWithin(time.Minute, gs...) {
		t.Failf("stuck", "encoding or decoding does not end: %s", strings.Join(t.Live(), "; "))
	}
}

// ---- headers that promise far too much ----

// giantBlobs are records with a corrupted array header.
func giantBlob(k int) (codec, []byte) {
	var v codec
	var field string
	switch k {
	case 0:
		v, field = &seth.Receipt{}, "Logs"
	case 1:
		v, field = &seth.Block{}, "Uncles"
	case 2:
		v, field = &seth.CompiledBundle{}, "contracts"
	default:
		v, field = &seth.Log{}, "Topics"
	}
	var b []byte
	b = msgp.AppendMapHeader(b, 1)
	b = msgp.AppendString(b, field)
	b = append(b, 0xdd, 0xff, 0xff, 0xff, 0xff, 0x90)
	return v, b
}

const giantBlobs = 4

// CodecChild decodes such a record; the process has little memory.
func CodecChild(k int, stream bool) {
	lim := syscall.Rlimit{Cur: 16 << 30, Max: 16 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	v, b := giantBlob(k)
	var err error
	if stream {
		err = v.DecodeMsg(msgp.NewReader(bytes.NewReader(b)))
	} else {
		_, err = v.UnmarshalMsg(b)
	}
	fmt.Fprintf(os.Stderr, "decoded: %v\n", err)
	os.Exit(7)
}

func codecGiant(t *T) {
	k, stream := t.Choose(giantBlobs), t.Choose(2)
	v, b := giantBlob(k)
	t.Count("fault:giant-header")
	cmd := exec.Command("/proc/self/exe", os.Args[1:]...)
	cmd.Env = append(os.Environ(), fmt.Sprintf("SIM_CODEC=%d,%d", k, stream))
	var eb bytes.Buffer
	cmd.Stderr = &eb
	err := cmd.Run()
	out := eb.String()
	switch {
	case strings.Contains(out, "decoded: "):
		t.Count("reach:giant-header-survived")
	case strings.Contains(out, "out of memory"), strings.Contains(out, "cannot allocate memory"), strings.Contains(out, "len out of range"):
		t.Failf("out-of-memory", "decoding %d bytes of a %s whose array header says 4294967295 elements brings the process down", len(b), kindOf(v))
	default:
		t.Logf("%v %s", err, clip(eb.Bytes()))
		t.Count("inconclusive:child-failed")
	}
}
