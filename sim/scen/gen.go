package scen

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/philhofer/seth"
)

// Generators of protocol values together with their JSON text. The text is
// written here independently of the code under test.

func hx(b []byte) string { return "0x" + hex.EncodeToString(b) }

func (t *T) word(n int) []byte {
	b := t.Bytes(n)
	switch t.Choose(6) {
	case 0:
		for i := range b {
			b[i] = 0
		}
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		for i := 0; i < n-1; i++ {
			b[i] = 0
		}
	}
	return b
}

func (t *T) genAddr() (a seth.Address, s string) {
	copy(a[:], t.word(20))
	return a, fmt.Sprintf("%q", mixcase(t, hx(a[:])))
}

// checksummed addresses have mixed case
func mixcase(t *T, s string) string {
	if t.Choose(6) != 5 {
		return s
	}
	return "0x" + strings.ToUpper(s[2:])
}

func (t *T) genHash() (h seth.Hash, s string) {
	copy(h[:], t.word(32))
	return h, fmt.Sprintf("%q", mixcase(t, hx(h[:])))
}

func (t *T) genU64() (uint64, string) {
	var v uint64
	switch t.Choose(5) {
	case 0:
		v = uint64(t.Choose(20))
	case 1:
		v = uint64(t.Choose(1 << 30))
	case 2:
		v = uint64(1)<<uint(t.Choose(63)) - uint64(t.Choose(2))
	case 3:
		b := t.Bytes(8)
		v = new(big.Int).SetBytes(b).Uint64() >> 1
	case 4:
		v = uint64(t.Choose(300)) + 100
	}
	return v, fmt.Sprintf(`"0x%x"`, v)
}

func (t *T) genInt() (*big.Int, string) {
	var v *big.Int
	switch t.Choose(5) {
	case 0:
		v = big.NewInt(int64(t.Choose(20)))
	case 1:
		v = new(big.Int).SetBytes(t.Bytes(1 + t.Choose(32)))
	case 2:
		v = new(big.Int).Lsh(big.NewInt(1), uint(t.Choose(256)))
	case 3:
		v = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(int64(1+t.Choose(3))))
	case 4:
		v = new(big.Int).Mul(big.NewInt(int64(t.Choose(1000))), big.NewInt(1000000000))
	}
	return v, fmt.Sprintf(`"0x%x"`, v)
}

func (t *T) genData(max int) (seth.Data, string) {
	n := t.Choose(max + 1)
	b := t.Bytes(n)
	if n > 0 && t.Choose(3) == 0 {
		b[0] = 0
	}
	if b == nil {
		b = []byte{}
	}
	return seth.Data(b), fmt.Sprintf("%q", hx(b))
}

type obj struct {
	keys []string
	vals []string
}

func (o *obj) put(k, v string) { o.keys = append(o.keys, k); o.vals = append(o.vals, v) }

func (o *obj) text(t *T) string {
	idx := make([]int, len(o.keys))
	for i := range idx {
		idx[i] = i
	}
	if t.Choose(2) == 1 {
		for i := len(idx) - 1; i > 0; i-- {
			j := t.Choose(i + 1)
			idx[i], idx[j] = idx[j], idx[i]
		}
	}
	var b strings.Builder
	b.WriteByte('{')
	for n, i := range idx {
		if n > 0 {
			b.WriteByte(',')
		}
		fmt.Fprintf(&b, "%q:%s", o.keys[i], o.vals[i])
	}
	if t.Choose(4) == 3 {
		b.WriteString(`,"unknownField":{"a":[1,2]}`)
	}
	b.WriteByte('}')
	return b.String()
}

// absent is a member that has no value: null or left out.
func (t *T) absent(o *obj, k string) {
	if t.Choose(3) < 2 {
		o.put(k, "null")
	}
}

func u64p(t *T, o *obj, k string) *seth.Uint64 {
	if t.Choose(5) == 4 {
		t.absent(o, k)
		return nil
	}
	v, s := t.genU64()
	o.put(k, s)
	x := seth.Uint64(v)
	return &x
}

func hashp(t *T, o *obj, k string) *seth.Hash {
	if t.Choose(5) == 4 {
		t.absent(o, k)
		return nil
	}
	v, s := t.genHash()
	o.put(k, s)
	return &v
}

func u64(t *T, o *obj, k string) seth.Uint64 {
	v, s := t.genU64()
	o.put(k, s)
	return seth.Uint64(v)
}

func hash(t *T, o *obj, k string) seth.Hash {
	v, s := t.genHash()
	o.put(k, s)
	return v
}

func addr(t *T, o *obj, k string) seth.Address {
	v, s := t.genAddr()
	o.put(k, s)
	return v
}

func addrp(t *T, o *obj, k string) *seth.Address {
	if t.Choose(5) == 4 {
		t.absent(o, k)
		return nil
	}
	v := addr(t, o, k)
	return &v
}

func bigint(t *T, o *obj, k string) seth.Int {
	v, s := t.genInt()
	o.put(k, s)
	return seth.Int(*v)
}

func data(t *T, o *obj, k string, max int) seth.Data {
	v, s := t.genData(max)
	o.put(k, s)
	return v
}

func (t *T) genLog() (seth.Log, string) {
	var o obj
	var l seth.Log
	l.Removed = t.Choose(4) == 3
	o.put("removed", fmt.Sprint(l.Removed))
	l.LogIndex = u64p(t, &o, "logIndex")
	l.TxIndex = u64p(t, &o, "transactionIndex")
	l.TxHash = hashp(t, &o, "transactionHash")
	l.BlockHash = hashp(t, &o, "blockHash")
	l.BlockNumber = u64p(t, &o, "blockNumber")
	l.Address = addr(t, &o, "address")
	l.Data = data(t, &o, "data", 70)
	n := t.Choose(5)
	s := "["
	l.Topics = []seth.Data{}
	for i := 0; i < n; i++ {
		h, hs := t.genHash()
		l.Topics = append(l.Topics, seth.Data(h[:]))
		if t.Choose(12) == 11 {
			// no topic of the chain's, but a value all the same
			l.Topics[i], hs = t.genData(40)
		}
		if i > 0 {
			s += ","
		}
		s += hs
	}
	o.put("topics", s+"]")
	return l, o.text(t)
}

func (t *T) genTx() (seth.Transaction, string) {
	var o obj
	var x seth.Transaction
	x.Hash = hash(t, &o, "hash")
	x.Nonce = u64(t, &o, "nonce")
	x.Block = hash(t, &o, "blockHash")
	x.BlockNumber = u64(t, &o, "blockNumber")
	x.To = addrp(t, &o, "to")
	x.TxIndex = u64p(t, &o, "transactionIndex")
	x.From = addrp(t, &o, "from")
	x.Value = bigint(t, &o, "value")
	x.GasPrice = bigint(t, &o, "gasPrice")
	x.Gas = u64(t, &o, "gas")
	x.Input = data(t, &o, "input", 100)
	return x, o.text(t)
}

func (t *T) genReceipt() (seth.Receipt, string) {
	var o obj
	var r seth.Receipt
	r.Hash = hash(t, &o, "transactionHash")
	r.Index = u64(t, &o, "transactionIndex")
	r.BlockHash = hash(t, &o, "blockHash")
	r.BlockNumber = u64(t, &o, "blockNumber")
	r.GasUsed = u64(t, &o, "gasUsed")
	r.Cumulative = u64(t, &o, "cumulativeGasUsed")
	r.Address = addrp(t, &o, "contractAddress")
	r.Status = seth.Uint64(t.Choose(2))
	o.put("status", fmt.Sprintf(`"0x%x"`, uint64(r.Status)))
	n := t.Choose(3)
	s := "["
	r.Logs = []seth.Log{}
	for i := 0; i < n; i++ {
		l, ls := t.genLog()
		r.Logs = append(r.Logs, l)
		if i > 0 {
			s += ","
		}
		s += ls
	}
	o.put("logs", s+"]")
	return r, o.text(t)
}

// genBlock makes a block; number < 0: drawn, possibly null.
func (t *T) genBlock(number int64, full bool) (seth.Block, string, []seth.Transaction) {
	var o obj
	var b seth.Block
	if number >= 0 {
		x := seth.Uint64(number)
		b.Number = &x
		o.put("number", fmt.Sprintf(`"0x%x"`, number))
	} else {
		b.Number = u64p(t, &o, "number")
	}
	b.Hash = hashp(t, &o, "hash")
	b.Parent = hash(t, &o, "parentHash")
	b.Nonce = u64(t, &o, "nonce")
	b.UncleHash = hash(t, &o, "sha3Uncles")
	b.Bloom = data(t, &o, "logsBloom", 256)
	b.TxRoot = hash(t, &o, "transactionsRoot")
	b.StateRoot = hash(t, &o, "stateRoot")
	b.ReceiptsRoot = hash(t, &o, "receiptsRoot")
	b.Miner = addr(t, &o, "miner")
	b.GasLimit = u64(t, &o, "gasLimit")
	b.GasUsed = u64(t, &o, "gasUsed")
	b.Timestamp = u64(t, &o, "timestamp")
	b.Extra = data(t, &o, "extraData", 32)
	d, td := bigint(t, &o, "difficulty"), bigint(t, &o, "totalDifficulty")
	b.Difficulty, b.TotalDifficulty = &d, &td
	var txs []seth.Transaction
	n := t.Choose(4)
	s := "["
	b.Transactions = []json.RawMessage{}
	for i := 0; i < n; i++ {
		var one string
		if full {
			var x seth.Transaction
			x, one = t.genTx()
			txs = append(txs, x)
		} else {
			_, one = t.genHash()
		}
		b.Transactions = append(b.Transactions, json.RawMessage(one))
		if i > 0 {
			s += ","
		}
		s += one
	}
	o.put("transactions", s+"]")
	n = t.Choose(3)
	s = "["
	b.Uncles = []seth.Hash{}
	for i := 0; i < n; i++ {
		h, hs := t.genHash()
		b.Uncles = append(b.Uncles, h)
		if i > 0 {
			s += ","
		}
		s += hs
	}
	o.put("uncles", s+"]")
	return b, o.text(t), txs
}

var intType = reflect.TypeOf(seth.Int{})
var bigType = reflect.TypeOf(big.Int{})

// same compares values: integers by value, empty and nil slices alike.
func same(a, b interface{}) bool { return diff(a, b) == "" }

// diff names the first place where two values differ.
func diff(a, b interface{}) string {
	return sameV(reflect.ValueOf(a), reflect.ValueOf(b), "")
}

func sameV(a, b reflect.Value, path string) string {
	if !a.IsValid() || !b.IsValid() {
		if a.IsValid() != b.IsValid() {
			return path + ": one is nil"
		}
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: type %v and %v", path, a.Type(), b.Type())
	}
	switch a.Type() {
	case intType, bigType:
		x, y := new(big.Int), new(big.Int)
		reflect.NewAt(bigType, reflect.ValueOf(x).UnsafePointer()).Elem().Set(a.Convert(bigType))
		reflect.NewAt(bigType, reflect.ValueOf(y).UnsafePointer()).Elem().Set(b.Convert(bigType))
		if x.Cmp(y) != 0 {
			return fmt.Sprintf("%s: %v and %v", path, x, y)
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return path + ": one is nil"
			}
			return ""
		}
		return sameV(a.Elem(), b.Elem(), path)
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: length %d and %d", path, a.Len(), b.Len())
		}
		if a.Type().Elem().Kind() == reflect.Uint8 {
			for i := 0; i < a.Len(); i++ {
				if a.Index(i).Uint() != b.Index(i).Uint() {
					return fmt.Sprintf("%s: byte %d: %x and %x", path, i, fmt.Sprintf("%s", bytesOf(a)), fmt.Sprintf("%s", bytesOf(b)))
				}
			}
			return ""
		}
		for i := 0; i < a.Len(); i++ {
			if d := sameV(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		if a.Len() != b.Len() {
			return path + ": map size"
		}
		for _, k := range a.MapKeys() {
			if d := sameV(a.MapIndex(k), b.MapIndex(k), fmt.Sprintf("%s[%v]", path, k)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := sameV(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
		return ""
	}
	if a.Kind() == reflect.String {
		if a.String() != b.String() {
			return fmt.Sprintf("%s: %q and %q", path, a.String(), b.String())
		}
		return ""
	}
	if a.CanInterface() && b.CanInterface() {
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			return fmt.Sprintf("%s: %v and %v", path, a.Interface(), b.Interface())
		}
		return ""
	}
	if !a.Equal(b) {
		return fmt.Sprintf("%s: %v and %v", path, a, b)
	}
	return ""
}

func bytesOf(v reflect.Value) []byte {
	b := make([]byte, v.Len())
	for i := range b {
		b[i] = byte(v.Index(i).Uint())
	}
	return b
}

func jstr(p json.RawMessage) string {
	var s string
	json.Unmarshal(p, &s)
	return s
}

// num parses a 0x quantity; nil if it is none.
func num(p json.RawMessage) *big.Int {
	s := jstr(p)
	if !strings.HasPrefix(s, "0x") {
		return nil
	}
	if s == "0x" {
		return new(big.Int)
	}
	v, ok := new(big.Int).SetString(s[2:], 16)
	if !ok {
		return nil
	}
	return v
}

// quantity: p is a well-formed JSON-RPC quantity.
func quantity(p json.RawMessage) bool {
	s := jstr(p)
	if !strings.HasPrefix(s, "0x") || len(s) < 3 || s[2] == '0' && len(s) > 3 {
		return false
	}
	return strings.Trim(s[2:], "0123456789abcdef") == ""
}
