From 2b67f1416cc81ef68e53fb3192ee93c020703296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 01/63] fix: decode stream replies into a variable private to
 each connection's reader

The readers of a failed connection and of its replacement shared one
response, so a late reply on the old connection could be delivered to a
call made on the new one.
---
 client.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/client.go b/client.go
index b926f1c..93b5e38 100644
--- a/client.go
+++ b/client.go
@@ -28,15 +28,14 @@ type RPCTransport struct {
 	conn    io.ReadWriteCloser
 	enc     *json.Encoder // wraps send side of conn
 	pending map[int]*pending
-	res     RPCResponse
 	dial    func() (io.ReadWriteCloser, error)
 }
 
 func (t *RPCTransport) background(conn io.ReadWriteCloser) {
 	dec := json.NewDecoder(conn)
 	for {
-		t.res = RPCResponse{}
-		err := dec.Decode(&t.res)
+		var res RPCResponse
+		err := dec.Decode(&res)
 		if err != nil {
 			log.Printf("seth: conn read: %s", err)
 			t.lock.Lock()
@@ -48,22 +47,22 @@ func (t *RPCTransport) background(conn io.ReadWriteCloser) {
 			return
 		}
 		t.lock.Lock()
-		p := t.pending[t.res.ID]
+		p := t.pending[res.ID]
 		if p != nil {
-			delete(t.pending, t.res.ID)
+			delete(t.pending, res.ID)
 		}
 		t.lock.Unlock()
 		if p == nil {
-			log.Printf("spurious response ID %d", t.res.ID)
+			log.Printf("spurious response ID %d", res.ID)
 			continue
 		}
-		if t.res.Error.Code != 0 || t.res.Error.Message != "" {
-			c := t.res.Error
+		if res.Error.Code != 0 || res.Error.Message != "" {
+			c := res.Error
 			p.err = &c
-		} else if bytes.Equal(t.res.Result, rawnull) {
+		} else if bytes.Equal(res.Result, rawnull) {
 			p.err = ErrNotFound
 		} else {
-			*p.res = t.res
+			*p.res = res
 		}
 		close(p.notify)
 	}
-- 
2.43.0


From 095274f7107a2f52608b3c5f6b04f778f3fa1f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:48 +0000
Subject: [PATCH 02/63] fix: do not hold the connection lock while writing a
 request

A node that stops reading while its replies are not being read would
block the writer, which kept the reader from delivering the replies the
node was waiting for: every call on the connection hung forever.
---
 client.go | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/client.go b/client.go
index 93b5e38..260c70d 100644
--- a/client.go
+++ b/client.go
@@ -24,9 +24,9 @@ type pending struct {
 // An RPCTrasport is a client transport for making requests over an RPC
 // connection.
 type RPCTransport struct {
-	lock    sync.Mutex
+	wlock   sync.Mutex // serializes writes to conn; acquired before lock
+	lock    sync.Mutex // guards the fields below; never held while writing
 	conn    io.ReadWriteCloser
-	enc     *json.Encoder // wraps send side of conn
 	pending map[int]*pending
 	dial    func() (io.ReadWriteCloser, error)
 }
@@ -74,25 +74,16 @@ func (t *RPCTransport) abort(err error) {
 		close(p.notify)
 		delete(t.pending, id)
 	}
-	t.enc = nil
 	t.conn.Close()
 	t.conn = nil
 }
 
 func (t *RPCTransport) reconnect() error {
-	if t.enc != nil {
-		t.enc = nil
-	}
-	if t.conn != nil {
-		t.conn.Close()
-		t.conn = nil
-	}
 	conn, err := t.dial()
 	if err != nil {
 		return err
 	}
 	t.conn = conn
-	t.enc = json.NewEncoder(conn)
 	go t.background(conn)
 	return nil
 }
@@ -121,21 +112,36 @@ func (c *Client) Do(method string, params []json.RawMessage, result interface{})
 }
 
 func (t *RPCTransport) Execute(req *RPCRequest, res *RPCResponse) error {
+	buf, err := json.Marshal(req)
+	if err != nil {
+		return err
+	}
 	notify := make(chan struct{}, 1)
+	t.wlock.Lock()
 	t.lock.Lock()
-	if t.enc == nil {
+	if t.conn == nil {
 		if err := t.reconnect(); err != nil {
 			t.lock.Unlock()
+			t.wlock.Unlock()
 			return err
 		}
 	}
+	conn := t.conn
 	p := &pending{notify: notify, res: res}
 	t.pending[req.ID] = p
-	err := t.enc.Encode(req)
+	t.lock.Unlock()
+
+	// the write may block until the node has had its pending
+	// replies read, so the reader must not need a lock held here
+	_, err = conn.Write(append(buf, '\n'))
+	t.wlock.Unlock()
 	if err != nil {
-		t.abort(err)
+		t.lock.Lock()
+		if t.conn == conn {
+			t.abort(err)
+		}
+		t.lock.Unlock()
 	}
-	t.lock.Unlock()
 	<-p.notify
 	return p.err
 }
-- 
2.43.0


From 94871be7962c67ab6468c7e4f48e9c1d46f66bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:06 +0000
Subject: [PATCH 03/63] fix: keep filter ids that do not fit 64 bits

---
 filter.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/filter.go b/filter.go
index e11b991..8bf2a3a 100644
--- a/filter.go
+++ b/filter.go
@@ -4,7 +4,6 @@ import (
 	"encoding/json"
 	"log"
 	"math"
-	"math/big"
 	"strconv"
 	"sync"
 	"time"
@@ -12,7 +11,7 @@ import (
 
 // Filter represents a Log filter
 type Filter struct {
-	id  int64
+	id  json.RawMessage // as it is sent to the node
 	c   *Client
 	out chan *Log
 
@@ -99,23 +98,23 @@ done:
 	close(f.out)
 }
 
-func (c *Client) getLogs(id int64) ([]Log, error) {
+func (c *Client) getLogs(id json.RawMessage) ([]Log, error) {
 	var o []Log
-	p := []json.RawMessage{itox(id)}
+	p := []json.RawMessage{id}
 	err := c.Do("eth_getFilterLogs", p, &o)
 	return o, err
 }
 
-func (c *Client) getUpdates(id int64) ([]Log, error) {
+func (c *Client) getUpdates(id json.RawMessage) ([]Log, error) {
 	var o []Log
-	p := []json.RawMessage{itox(id)}
+	p := []json.RawMessage{id}
 	err := c.Do("eth_getFilterChanges", p, &o)
 	return o, err
 }
 
-func (c *Client) deleteFilter(id int64) {
+func (c *Client) deleteFilter(id json.RawMessage) {
 	var out bool
-	err := c.Do("eth_uninstallFilter", []json.RawMessage{itox(id)}, &out)
+	err := c.Do("eth_uninstallFilter", []json.RawMessage{id}, &out)
 	if err != nil || !out {
 		log.Printf("uninstallFilter: %s %v", err, out)
 	}
@@ -161,7 +160,11 @@ func (c *Client) FilterTopics(topics []*Hash, addr *Address, start, end int64) (
 	if err != nil {
 		return nil, err
 	}
-	id := (*big.Int)(&out).Int64()
+	// ids may be wider than 64 bits
+	id, err := json.Marshal(&out)
+	if err != nil {
+		return nil, err
+	}
 	f := &Filter{c: c, out: make(chan *Log, 20), exit: make(chan struct{}, 1), id: id, poll: poll}
 	go frecv(f)
 	return f, nil
-- 
2.43.0


From f67fb4530eb00f321a66a0f0f9ed06f4c7aaf723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:46 +0000
Subject: [PATCH 04/63] fix: let a closed filter end although nobody receives
 its logs

---
 filter.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/filter.go b/filter.go
index 8bf2a3a..96cd11c 100644
--- a/filter.go
+++ b/filter.go
@@ -64,16 +64,26 @@ type newFilterReq struct {
 	Topics    []*Hash         `json:"topics,omitempty"`
 }
 
+// emit sends logs to the output channel; it returns
+// false if the filter was closed in the meantime
+func (f *Filter) emit(logs []Log) bool {
+	for i := range logs {
+		select {
+		case f.out <- &logs[i]:
+		case <-f.exit:
+			return false
+		}
+	}
+	return true
+}
+
 func frecv(f *Filter) {
 	logs, err := f.c.getLogs(f.id)
 	if err != nil {
 		f.seterr(err)
 		goto done
 	}
-	for i := range logs {
-		f.out <- &logs[i]
-	}
-	if !f.poll {
+	if !f.emit(logs) || !f.poll {
 		goto done
 	}
 	for {
@@ -89,8 +99,9 @@ func frecv(f *Filter) {
 				ticker.Stop()
 				goto done
 			}
-			for i := range logs {
-				f.out <- &logs[i]
+			if !f.emit(logs) {
+				ticker.Stop()
+				goto done
 			}
 		}
 	}
-- 
2.43.0


From b889a61bbb9fec9decc60039e49b5aefc7556b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:59 +0000
Subject: [PATCH 05/63] fix: let a stopped block iterator end although nobody
 receives its blocks

---
 seth.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/seth.go b/seth.go
index 1cfb47a..6fa894f 100644
--- a/seth.go
+++ b/seth.go
@@ -653,7 +653,11 @@ func (b *BlockIterator) getLoop(block int64, txs bool) {
 				time.Sleep(1 * time.Second)
 				continue
 			}
-			b.out <- v
+			select {
+			case b.out <- v:
+			case <-b.done:
+				continue
+			}
 			block++
 		}
 	}
-- 
2.43.0


From e9c86341b02ad00af84392ffa61ed044ef4482c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:59 +0000
Subject: [PATCH 06/63] fix: count on from the latest block when iterating from
 Latest

---
 seth.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seth.go b/seth.go
index 6fa894f..f50a6a0 100644
--- a/seth.go
+++ b/seth.go
@@ -653,6 +653,10 @@ func (b *BlockIterator) getLoop(block int64, txs bool) {
 				time.Sleep(1 * time.Second)
 				continue
 			}
+			if block == Latest && v.Number != nil {
+				// count on from the block the node gave us
+				block = int64(*v.Number)
+			}
 			select {
 			case b.out <- v:
 			case <-b.done:
-- 
2.43.0


From 5d757cd6cea86453d2439dc54cb58ab15c505adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:08 +0000
Subject: [PATCH 07/63] fix: outbid gas prices that do not fit 64 bits when
 cancelling

---
 sender.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sender.go b/sender.go
index 6f4a522..91a25b3 100644
--- a/sender.go
+++ b/sender.go
@@ -174,7 +174,8 @@ func (s *Sender) Cancel(h *Hash) (Hash, error) {
 	if s.GasPrice.Cmp(&tx.GasPrice) > 0 {
 		opts.GasPrice = &s.GasPrice
 	} else {
-		opts.GasPrice = NewInt(tx.GasPrice.Int64() + 1)
+		price := new(big.Int).Add(tx.GasPrice.Big(), big.NewInt(1))
+		opts.GasPrice = (*Int)(price)
 	}
 	return s.Call(&opts)
 }
-- 
2.43.0


From 12af6bd29fb9bbfdf4d769cd95e169f77e2855ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:09 +0000
Subject: [PATCH 08/63] fix: do not report the address of a contract whose
 creation failed

---
 sender.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sender.go b/sender.go
index 91a25b3..2a05b80 100644
--- a/sender.go
+++ b/sender.go
@@ -87,7 +87,7 @@ func (s *Sender) Create(code []byte, value *Int) (Address, error) {
 	if err != nil {
 		return Address{}, err
 	}
-	if r.Address == nil {
+	if r.Address == nil || r.Threw() {
 		return Address{}, fmt.Errorf("txhash %s: contract not created", &h)
 	}
 	return *r.Address, nil
-- 
2.43.0


From 3d43f371fa1ee2ee515fe689872fb9b65083962b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:11 +0000
Subject: [PATCH 09/63] fix: drain the transactions of the sender from the
 pending block

---
 sender.go | 4 ++--
 seth.go   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sender.go b/sender.go
index 2a05b80..afb7153 100644
--- a/sender.go
+++ b/sender.go
@@ -198,7 +198,7 @@ func (s *Sender) Wait(h *Hash) error {
 // contain no transactions from this account.
 func (s *Sender) Drain(prompt ...func(t *Transaction)) error {
 	for {
-		p, err := s.GetBlock(-1, true)
+		p, err := s.GetBlock(Pending, true)
 		if err != nil {
 			return err
 		}
@@ -208,7 +208,7 @@ func (s *Sender) Drain(prompt ...func(t *Transaction)) error {
 		}
 		var t *Transaction
 		for i := range txs {
-			if txs[i].From == s.Addr {
+			if txs[i].From != nil && *txs[i].From == *s.Addr {
 				t = &txs[i]
 				break
 			}
diff --git a/seth.go b/seth.go
index f50a6a0..46b4d3b 100644
--- a/seth.go
+++ b/seth.go
@@ -521,7 +521,7 @@ func (c *Client) BlockNumber() (int64, error) {
 
 // Pending returns the list of pending transactions.
 func (c *Client) Pending() ([]Transaction, error) {
-	b, err := c.GetBlock(-1, true)
+	b, err := c.GetBlock(Pending, true)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c90c1d261be52a25207bd7bbd021d6fc587070f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 10/63] fix: refuse to sign a transaction whose gas does not
 fit 64 bits

---
 sender.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sender.go b/sender.go
index afb7153..c298d5e 100644
--- a/sender.go
+++ b/sender.go
@@ -116,6 +116,9 @@ func (s *Sender) Call(opts *CallOpts) (Hash, error) {
 		return s.Client.Call(opts)
 	}
 
+	if !opts.Gas.Big().IsUint64() {
+		return Hash{}, fmt.Errorf("sender: gas %s out of range", opts.Gas)
+	}
 	tx := opts.Transaction()
 
 	// if no nonce was specified, try to select it
-- 
2.43.0


From 2b048be0539212294081de347d01834125a5b025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 11/63] fix: treat signatures with a recovery id other than 0
 or 1 as invalid

---
 signature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signature.go b/signature.go
index 8017350..b83626f 100644
--- a/signature.go
+++ b/signature.go
@@ -82,7 +82,7 @@ func (z *Signature) parts() (r, s big.Int, v int, ok bool) {
 	if s.Sign() == 0 {
 		return
 	}
-	ok = r.Cmp(order) < 0 && s.Cmp(halforder) <= 0
+	ok = r.Cmp(order) < 0 && s.Cmp(halforder) <= 0 && v <= 1
 	return
 }
 
-- 
2.43.0


From 49de6e227169833c1caccd2398636d1cc40b19a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:14 +0000
Subject: [PATCH 12/63] fix: report a nonce that does not fit 64 bits as an
 error

---
 seth.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seth.go b/seth.go
index 46b4d3b..6682650 100644
--- a/seth.go
+++ b/seth.go
@@ -564,6 +564,9 @@ func (c *Client) GetNonceAt(addr *Address, blocknum int64) (int64, error) {
 	params[1] = itobs(blocknum)
 	var num Int
 	err := c.Do("eth_getTransactionCount", params[:], &num)
+	if err == nil && !num.Big().IsInt64() {
+		err = fmt.Errorf("nonce %s out of range", &num)
+	}
 	return num.Int64(), err
 }
 
-- 
2.43.0


From 04f39a097f2194bacee53d3aaeb227340899b1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:19 +0000
Subject: [PATCH 13/63] fix: encode the quantity zero as 0x0

---
 hex.go  | 3 +++
 seth.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/hex.go b/hex.go
index 5b771ce..3549a75 100644
--- a/hex.go
+++ b/hex.go
@@ -67,6 +67,9 @@ func hexdecode(dst, src []byte) error {
 
 // hexstring returns a hex string of the given data
 func hexstring(b []byte, trunc bool) []byte {
+	if trunc && len(b) == 0 {
+		return []byte("0x0")
+	}
 	buf := make([]byte, 2+2*len(b))
 	hex.Encode(buf[2:], b)
 	if trunc && len(buf) > 2 && buf[2] == '0' {
diff --git a/seth.go b/seth.go
index 6682650..88c6754 100644
--- a/seth.go
+++ b/seth.go
@@ -221,7 +221,7 @@ func (i *Int) UnmarshalText(b []byte) error {
 	if err != nil {
 		return err
 	}
-	i.Big().SetBytes(buf)
+	i.Big().SetBytes(bytes.TrimLeft(buf, "\x00"))
 	return nil
 }
 
-- 
2.43.0


From 919a2244df2bb6fc043c54968632849f94df98fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:51 +0000
Subject: [PATCH 14/63] fix: decode hex into a destination that already holds a
 value

---
 hex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hex.go b/hex.go
index 3549a75..f64d6c0 100644
--- a/hex.go
+++ b/hex.go
@@ -54,6 +54,9 @@ func hexdecode(dst, src []byte) error {
 	// make sure that it implicitly has a 0 nibble
 	// at the beginning rather than at the end.
 	addend := uint(len(src) & 1)
+	for i := range dst {
+		dst[i] = 0
+	}
 	for i, b := range src[2:] {
 		a, ok := fromhex(b)
 		if !ok {
-- 
2.43.0


From dc9c0db60c68c7bbe4843b1c758d845183bf3255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:52 +0000
Subject: [PATCH 15/63] fix: report quantities that do not fit in an int64

---
 seth.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/seth.go b/seth.go
index 88c6754..475ed83 100644
--- a/seth.go
+++ b/seth.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"math/big"
 	"reflect"
 	"time"
@@ -483,13 +484,20 @@ func (c *Client) Mining() (bool, error) {
 	return mining, nil
 }
 
+func (u Uint64) int64() (int64, error) {
+	if u > math.MaxInt64 {
+		return 0, fmt.Errorf("quantity %d out of range", uint64(u))
+	}
+	return int64(u), nil
+}
+
 // Hashrate gets the number of hashes per second that the node is mining with.
 func (c *Client) Hashrate() (int64, error) {
 	var rate Uint64
 	if err := c.Do("eth_hashrate", nil, &rate); err != nil {
 		return 0, err
 	}
-	return int64(rate), nil
+	return rate.int64()
 }
 
 // GasPrice gets the gas price in wei.
@@ -498,7 +506,7 @@ func (c *Client) GasPrice() (int64, error) {
 	if err := c.Do("eth_gasPrice", nil, &wei); err != nil {
 		return 0, err
 	}
-	return int64(wei), nil
+	return wei.int64()
 }
 
 // Accounts gets the accounts owned by the client.
@@ -516,7 +524,7 @@ func (c *Client) BlockNumber() (int64, error) {
 	if err := c.Do("eth_blockNumber", nil, &block); err != nil {
 		return 0, err
 	}
-	return int64(block), nil
+	return block.int64()
 }
 
 // Pending returns the list of pending transactions.
-- 
2.43.0


From d50f9d5c2a90fc1947762eefa7ceece52f73edc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:54 +0000
Subject: [PATCH 16/63] fix: check every bound while decoding ABI values

---
 send.go | 126 +++++++++++++++++++++-----------------------------------
 1 file changed, 48 insertions(+), 78 deletions(-)

diff --git a/send.go b/send.go
index c95c308..8534c2b 100644
--- a/send.go
+++ b/send.go
@@ -326,6 +326,23 @@ func (d *ABIDecoder) UnmarshalText(v []byte) error {
 	return DecodeABI([]byte(data), (*d)...)
 }
 
+// abitail returns the contents of the variable-length argument
+// whose head is at the given offset, made of 'elem'-byte elements
+func abitail(v []byte, head, elem int64) ([]byte, error) {
+	var word big.Int
+	size := int64(len(v))
+	word.SetBytes(v[head : head+32])
+	if !word.IsInt64() || word.Int64() < head+32 || word.Int64() > size-32 {
+		return nil, fmt.Errorf("bad offset %s for data length returned (%d)", &word, size)
+	}
+	pos := word.Int64() + 32
+	word.SetBytes(v[pos-32 : pos])
+	if !word.IsInt64() || word.Int64() > (size-pos)/elem {
+		return nil, fmt.Errorf("bad length %s for data length returned (%d)", &word, size)
+	}
+	return v[pos : pos+word.Int64()*elem], nil
+}
+
 // DecodeABI decodes a solidity return value into its
 // constituent arguments.
 //
@@ -346,25 +363,19 @@ func DecodeABI(v []byte, args ...interface{}) error {
 	cur := v
 	offset := int64(0)
 	for i, v := range args {
-		if len(cur[offset:]) == 0 {
+		if int64(len(cur)) < offset+32 {
 			return fmt.Errorf("no argument returned at position %d", i)
 		}
-		buf := cur[offset:]
-		if len(buf) > 32 {
-			buf = buf[:32]
-		}
+		buf := cur[offset : offset+32]
 
 		// easy cases that don't involve converting types
 		// or handling variable-length types
 		did := true
 		switch v := v.(type) {
 		case *Data:
-			if len(*v) < 32 {
-				*v = make([]byte, 32)
-			}
-			copy(*v, cur)
+			*v = append(Data(nil), buf...)
 		case *Address:
-			copy(v[:], cur[12:])
+			copy(v[:], buf[12:])
 		case *Int:
 			(*big.Int)(v).SetBytes(buf)
 		case *big.Int:
@@ -380,92 +391,51 @@ func DecodeABI(v []byte, args ...interface{}) error {
 		spare.SetBytes(buf)
 		switch v := v.(type) {
 		case *string:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad string offset %d for data length returned (%d)", doff, len(cur))
+			b, err := abitail(cur, offset, 1)
+			if err != nil {
+				return err
 			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+length >= int64(len(cur)) {
-				return fmt.Errorf("bad string length %d for data length returned (%d)", length, len(cur))
-			}
-			*v = string(cur[dpos : dpos+length])
+			*v = string(b)
 		case *[]byte:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad bytes offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+length > int64(len(cur)) {
-				return fmt.Errorf("bad bytes length %d for data length returned (%d)", length, len(cur))
+			b, err := abitail(cur, offset, 1)
+			if err != nil {
+				return err
 			}
-			*v = make([]byte, length)
-			copy(*v, cur[dpos:dpos+length])
+			*v = append([]byte{}, b...)
 		case *Bytes:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad bytes offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+length > int64(len(cur)) {
-				return fmt.Errorf("bad bytes length %d for data length returned (%d)", length, len(cur))
+			b, err := abitail(cur, offset, 1)
+			if err != nil {
+				return err
 			}
-			*v = make([]byte, length)
-			copy(*v, cur[dpos:dpos+length])
+			*v = append(Bytes{}, b...)
 		case *IntSlice:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
+			b, err := abitail(cur, offset, 32)
+			if err != nil {
+				return err
 			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+(length*32) > int64(len(cur)) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			s := make([]Int, length)
+			s := make([]Int, len(b)/32)
 			for i := range s {
-				o := int(dpos) + i*32
-				(*big.Int)(&s[i]).SetBytes(cur[o : o+32])
+				(*big.Int)(&s[i]).SetBytes(b[i*32 : i*32+32])
 			}
 			*v = IntSlice(s)
 		case *AddrSlice:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+(length*32) > int64(len(cur)) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
+			b, err := abitail(cur, offset, 32)
+			if err != nil {
+				return err
 			}
-			s := make([]Address, length)
+			s := make([]Address, len(b)/32)
 			for i := range s {
-				o := int(dpos) + i*32
-				copy(s[i][:], cur[o+12:o+32])
+				copy(s[i][:], b[i*32+12:i*32+32])
 			}
 			*v = AddrSlice(s)
 		case *DataSlice:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+(length*32) > int64(len(cur)) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
+			b, err := abitail(cur, offset, 32)
+			if err != nil {
+				return err
 			}
-			s := make([]Data, length)
+			s := make([]Data, len(b)/32)
 			for i := range s {
-				o := int(dpos) + i*32
-				copy(s[i][:], cur[o+12:o+32])
+				s[i] = append(Data(nil), b[i*32:i*32+32]...)
 			}
 			*v = DataSlice(s)
 		case *bool:
-- 
2.43.0


From b4f7751937e3872bb50b5f035847258a14a8f635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:17 +0000
Subject: [PATCH 17/63] fix: keep older snapshots of a tree that was emptied
 and rolled back

---
 tevm/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tevm/tree.go b/tevm/tree.go
index 85340ea..732e415 100644
--- a/tevm/tree.go
+++ b/tevm/tree.go
@@ -167,7 +167,7 @@ func (t *Tree) Get(key []byte) []byte {
 // Snapshot returns a snapshot number for the
 // current state of the tree
 func (t *Tree) Snapshot() int {
-	if t.Root == 0 {
+	if t.Root == 0 && len(t.Snaps) == 0 {
 		return -1
 	}
 	s := len(t.Snaps)
-- 
2.43.0


From 503068746c201107309fb568a646bc79c0ff1557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:18 +0000
Subject: [PATCH 18/63] fix: do not append to memory shared by a tree and its
 copies

---
 tevm/tree.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tevm/tree.go b/tevm/tree.go
index 732e415..5ee3257 100644
--- a/tevm/tree.go
+++ b/tevm/tree.go
@@ -195,7 +195,7 @@ func (t *Tree) CopyAt(snap int) Tree {
 	}
 	s := t.Snaps[snap]
 	return Tree{
-		Snaps: t.Snaps[:snap+1],
+		Snaps: t.Snaps[: snap+1 : snap+1],
 		Root:  s.Root,
 		// make sure any appends to the node list
 		// cause reallocation of the backing data
@@ -213,9 +213,11 @@ func (t *Tree) Rollback(snap int) {
 		return
 	}
 	s := t.Snaps[snap]
-	t.Snaps = t.Snaps[:snap+1]
+	// copies may still refer to what is cut off here,
+	// so it must not be overwritten by later appends
+	t.Snaps = t.Snaps[: snap+1 : snap+1]
 	t.Root = s.Root
-	t.All = t.All[:s.Allocated]
+	t.All = t.All[:s.Allocated:s.Allocated]
 	t.Epoch++
 }
 
-- 
2.43.0


From 7fc85d8e82ca9d846386b153bd4d624b644bb26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:19 +0000
Subject: [PATCH 19/63] fix: leave the balance alone in a transfer from an
 account to itself

---
 tevm/evm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 591a5f9..a7555fb 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -715,7 +715,7 @@ func dotransfer(s vm.StateDB, from, to common.Address, v *big.Int) {
 	if st.Trace != nil {
 		st.Trace("Transfer", from.String(), to.String(), v.String())
 	}
-	if v.Sign() == 0 {
+	if v.Sign() == 0 || from == to {
 		return
 	}
 
-- 
2.43.0


From 44f87dd718be5e66d51d2479239d68fd427b7d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:19 +0000
Subject: [PATCH 20/63] fix: take the balance of a contract that self-destructs

---
 tevm/evm.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index a7555fb..a870861 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -383,12 +383,15 @@ func (s *gethState) Suicide(addr common.Address) bool {
 	// out of the JSON-RPC API, so this may
 	// simply be wrong.
 	acct, ok := s.getAccount(&a)
-	if !ok || acct.Suicided() {
+	if !ok {
 		return false
 	}
+	first := !acct.Suicided()
+	// the beneficiary has been credited already
+	acct.SetBalance(&zero)
 	acct.SetSuicided(true)
 	s.setAccount(&a, &acct)
-	return true
+	return first
 }
 
 func (s *gethState) HasSuicided(addr common.Address) bool {
-- 
2.43.0


From 319bbf23469903af9c7d9c3432b1d5b858c05c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:20 +0000
Subject: [PATCH 21/63] fix: keep the balance of an address when a contract is
 created there

---
 tevm/evm.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index a870861..bf755e1 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -141,9 +141,11 @@ func (s *gethState) CreateAccount(addr common.Address) {
 	if s.Trace != nil {
 		s.Trace("CreateAccount", addr.String())
 	}
-	var empty Account
 	a := seth.Address(addr)
-	s.setAccount(&a, &empty)
+	old, _ := s.getAccount(&a)
+	var acct Account
+	copy(acct[:32], old[:32]) // the balance carries over
+	s.setAccount(&a, &acct)
 }
 
 func (s *gethState) getAccount(addr *seth.Address) (Account, bool) {
-- 
2.43.0


From 06dd23c541c434712811fc55a05adb4deadb063f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:21 +0000
Subject: [PATCH 22/63] fix: do not overwrite logs shared with copies after a
 revert

---
 tevm/evm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index bf755e1..a4117ed 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -420,7 +420,7 @@ func (s *gethState) RevertToSnapshot(v int) {
 	s.Storage.Rollback(ns.State)
 	s.Transactions.Rollback(ns.TXs)
 	s.Receipts.Rollback(ns.RXs)
-	s.Logs = s.Logs[:ns.LogLen]
+	s.Logs = s.Logs[:ns.LogLen:ns.LogLen]
 
 	// make sure we can't roll forward
 	snaps = snaps[:v]
-- 
2.43.0


From 5075f66a33915324f7981d181bba69f00414f8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:22 +0000
Subject: [PATCH 23/63] fix: undo a failed CreateAt

---
 tevm/evm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index a4117ed..f334e0f 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -789,6 +789,7 @@ func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 	c.mu.Lock()
 
 	evm := c.evm(*sender)
+	snap := evm.StateDB.Snapshot()
 	evm.StateDB.CreateAccount(common.Address(*addr))
 	evm.StateDB.SetNonce(common.Address(*addr), 1)
 
@@ -800,6 +801,7 @@ func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 	static := false
 	ret, err := evm.Interpreter().Run(contract, nil, static)
 	if err != nil {
+		evm.StateDB.RevertToSnapshot(snap)
 		c.mu.Unlock()
 		return err
 	}
-- 
2.43.0


From eb903e25e80705d8a51682f12d857307325f6c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:23 +0000
Subject: [PATCH 24/63] fix: set the gas price that contracts can ask for

---
 tevm/evm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index f334e0f..293a6a1 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -750,6 +750,7 @@ func (c *Chain) context(sender [20]byte) vm.Context {
 		Transfer:    dotransfer,
 		GetHash:     n2h,
 		Origin:      common.Address(sender),
+		GasPrice:    new(big.Int),
 		Coinbase:    common.Address(b.Miner),
 		GasLimit:    uint64(b.GasLimit),
 		BlockNumber: new(big.Int).SetInt64(int64(*b.Number)),
@@ -930,6 +931,7 @@ func (c *Chain) Mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 	var addr common.Address
 	status := 1
 	vm := c.evm(*tx.From)
+	vm.Context.GasPrice = tx.GasPrice.Big()
 	if tx.To == nil {
 		ret, addr, gas, err = vm.Create(s2r(tx.From), []byte(tx.Input), uint64(tx.Gas), tx.Value.Big())
 	} else {
-- 
2.43.0


From 1144d58ad7fae5a78c885743ff8769b6d4e659f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:23 +0000
Subject: [PATCH 25/63] fix: fill in the block and position of receipts and
 logs

---
 tevm/evm.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 293a6a1..574046a 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -950,17 +950,26 @@ func (c *Chain) Mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 	tx.Block = *b.Hash
 	tx.BlockNumber = *b.Number
 
-	for _, l := range c.State.Logs[l0:] {
+	index := 0
+	for _, rx := range c.pendingrx {
+		index += len(rx.Logs)
+	}
+	for i, l := range c.State.Logs[l0:] {
 		copy(l.TxHash[:], tx.Hash[:])
+		copy(l.BlockHash[:], b.Hash[:])
+		l.TxIndex = uint(*idx)
+		l.Index = uint(index + i)
 	}
 
 	rx := &seth.Receipt{
-		Hash:       tx.Hash,
-		Index:      *tx.TxIndex,
-		GasUsed:    seth.Uint64(used),
-		Cumulative: b.GasUsed,
-		Logs:       lconv(c.State.Logs[l0:]),
-		Status:     seth.Uint64(status),
+		Hash:        tx.Hash,
+		Index:       *tx.TxIndex,
+		BlockHash:   *b.Hash,
+		BlockNumber: *b.Number,
+		GasUsed:     seth.Uint64(used),
+		Cumulative:  b.GasUsed,
+		Logs:        lconv(c.State.Logs[l0:]),
+		Status:      seth.Uint64(status),
 	}
 	if tx.To == nil {
 		rx.Address = new(seth.Address)
-- 
2.43.0


From 73be8dd35f7531595215cdaf0774d507d78b22db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:24 +0000
Subject: [PATCH 26/63] fix: give the first block of a fork the hash of its
 number

---
 tevm/evm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index 574046a..0d647c0 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -680,7 +680,9 @@ func NewFork(c *seth.Client, blocknum int64) *Chain {
 
 	// For convenience, start our chain at blocknum+1
 	n := seth.Uint64(blocknum + 1)
+	h := seth.Hash(n2h(uint64(n)))
 	chain.State.Pending.Number = &n
+	chain.State.Pending.Hash = &h
 
 	chain.State.Fallback.Client = c
 	chain.State.Fallback.Block = blocknum
-- 
2.43.0


From aa9579a31b371995abfce6d6c00f3fe07274997c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:25 +0000
Subject: [PATCH 27/63] fix: do not keep the memory of a caller as a key of the
 account tree

---
 tevm/evm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 0d647c0..aeee024 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -124,7 +124,8 @@ func (s *gethState) treeAccount(addr *seth.Address) (Account, bool) {
 }
 
 func (s *gethState) setAccount(addr *seth.Address, acct *Account) {
-	s.Accounts.Insert(addr[:], acct[:])
+	key := *addr // the tree keeps the key
+	s.Accounts.Insert(key[:], acct[:])
 }
 
 type statesnap struct {
-- 
2.43.0


From afbc3fbedbf36a29ee007d3f37104c075d3f1d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:26 +0000
Subject: [PATCH 28/63] fix: see contracts without nonce and balance on a
 forked chain

---
 tevm/evm.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index aeee024..e8b4d6b 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -171,7 +171,8 @@ func (s *gethState) getAccount(addr *seth.Address) (Account, bool) {
 	if err != nil {
 		panic("fallback GetNonce: " + err.Error())
 	}
-	if nonce == 0 && bal.IsZero() {
+	// old contracts have no nonce
+	if nonce == 0 && bal.IsZero() && len(s.getCode(addr)) == 0 {
 		return acct, false
 	}
 
@@ -374,7 +375,7 @@ func (s *gethState) Empty(addr common.Address) bool {
 	a := seth.Address(addr)
 	acct, ok := s.getAccount(&a)
 	bal := acct.Balance()
-	return !ok || (acct.Nonce() == 0 && bal.IsZero() && len(s.Code.Get(a[:])) == 0)
+	return !ok || (acct.Nonce() == 0 && bal.IsZero() && len(s.getCode(&a)) == 0)
 }
 
 func (s *gethState) Suicide(addr common.Address) bool {
-- 
2.43.0


From f1e0eb5985c9a75aa331abcdf2097ca7fadf5eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:43 +0000
Subject: [PATCH 29/63] fix: copy the sealed blocks and pending receipts of a
 chain too

---
 tevm/evm.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index e8b4d6b..ffc44a7 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -541,11 +541,29 @@ func (c *Chain) Copy() *Chain {
 	// and grab a logical copy of the snapshot
 	c.State.atSnap(((*gethState)(&c.State)).Snapshot(), &cc.State)
 
-	p := *c.State.Pending
-	cc.State.Pending = &p
+	cc.State.Pending = copyBlock(c.State.Pending)
+	cc.State.Blocks = c.State.Blocks.CopyAt(c.State.Blocks.Snapshot())
+	cc.State.Preimage = c.State.Preimage.CopyAt(c.State.Preimage.Snapshot())
+	cc.block2snap = make(map[int64]int)
+	for n, snap := range c.block2snap {
+		cc.block2snap[n] = snap
+	}
+	for _, rx := range c.pendingrx {
+		r := *rx
+		cc.pendingrx = append(cc.pendingrx, &r)
+	}
 	return cc
 }
 
+func copyBlock(b *seth.Block) *seth.Block {
+	nb := *b
+	n := *b.Number
+	nb.Number = &n
+	// appending to one list must not write to the other
+	nb.Transactions = b.Transactions[:len(b.Transactions):len(b.Transactions)]
+	return &nb
+}
+
 // AtBlock returns the chain state at a given
 // block number. As a special case, -1 is interpreted
 // as the pending block (i.e. the current chain state),
-- 
2.43.0


From a0c5b6fc652b7d3f8f49e387fcdf89993b209111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:44 +0000
Subject: [PATCH 30/63] fix: keep changes to a historical view out of the chain

---
 tevm/evm.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index ffc44a7..18951fd 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -607,7 +607,13 @@ func (c *Chain) AtBlock(n int64) *Chain {
 	c.State.atSnap(snap, &cc.State)
 	cc.Debugf = c.Debugf
 	cc.State.Pending = nb
-	cc.block2snap = c.block2snap
+	cc.State.Blocks = c.State.Blocks.CopyAt(c.State.Blocks.Snapshot())
+	cc.block2snap = make(map[int64]int)
+	for bn, s := range c.block2snap {
+		if bn < n {
+			cc.block2snap[bn] = s
+		}
+	}
 	return cc
 }
 
-- 
2.43.0


From be5303e1dc7a7058794efad23707c4eb0e2a03cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:44 +0000
Subject: [PATCH 31/63] fix: save the receipts of the pending block with a
 chain

---
 tevm/evm.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 18951fd..84bb8d4 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -1057,7 +1057,8 @@ func (c *Chain) MarshalJSON() ([]byte, error) {
 	b, err := json.Marshal(&struct {
 		State      State
 		Block2snap map[int64]int
-	}{c.State, c.block2snap})
+		Pendingrx  []*seth.Receipt
+	}{c.State, c.block2snap, c.pendingrx})
 	c.mu.Unlock()
 	return b, err
 }
@@ -1067,6 +1068,7 @@ func (c *Chain) UnmarshalJSON(b []byte) error {
 	var s struct {
 		State      State
 		Block2snap map[int64]int
+		Pendingrx  []*seth.Receipt
 	}
 	if err := json.Unmarshal(b, &s); err != nil {
 		return err
@@ -1074,6 +1076,7 @@ func (c *Chain) UnmarshalJSON(b []byte) error {
 	c.mu.Lock()
 	c.State = s.State
 	c.block2snap = s.Block2snap
+	c.pendingrx = s.Pendingrx
 	c.mu.Unlock()
 	return nil
 }
-- 
2.43.0


From 6b49bba4381ce7c84d31ba492593a86eb8acbc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:45 +0000
Subject: [PATCH 32/63] fix: hold the lock of a chain in all its methods

---
 tevm/evm.go       | 24 ++++++++++++++++++++++++
 tevm/transport.go | 19 ++++++++++---------
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 84bb8d4..4a97faf 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -535,6 +535,8 @@ func (f *filter) matches(log *types.Log) bool {
 // Copy returns a new logical copy of the chain.
 // Copy avoids making a deep copy of the state.
 func (c *Chain) Copy() *Chain {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	cc := new(Chain)
 
 	// snapshot the current chain state
@@ -570,6 +572,12 @@ func copyBlock(b *seth.Block) *seth.Block {
 // and -2 is interpreted as the latest block (i.e. the
 // chain state just before the pending block).
 func (c *Chain) AtBlock(n int64) *Chain {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	return c.atBlock(n)
+}
+
+func (c *Chain) atBlock(n int64) *Chain {
 	var snap int
 	pending := int64(*c.State.Pending.Number)
 	switch n {
@@ -650,6 +658,8 @@ func lconv(l []*types.Log) []seth.Log {
 // the returned log values do not include logs
 // from that fallback chain.
 func (c *Chain) Logs() []seth.Log {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	return lconv(c.State.Logs)
 }
 
@@ -720,6 +730,8 @@ func NewFork(c *seth.Client, blocknum int64) *Chain {
 func (c *Chain) NewAccount(ether int) seth.Address {
 	var addr seth.Address
 	rand.Read(addr[:])
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	if ether == 0 {
 		c.State.StateDB().CreateAccount(common.Address(addr))
 		return addr
@@ -945,6 +957,12 @@ func pretty(v interface{}) []byte {
 // rather than offering all of the gas in the block to the transaction,
 // which more faithfully mimics the behavior of an actual ethereum node.
 func (c *Chain) Mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	return c.mine(tx)
+}
+
+func (c *Chain) mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error) {
 	b := c.State.Pending
 
 	// make up a tx hash:
@@ -1023,6 +1041,12 @@ func js(v interface{}) []byte {
 // same parameters (but with an update block number and hash,
 // and zeroed gas used).
 func (c *Chain) Seal() {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	c.seal()
+}
+
+func (c *Chain) seal() {
 	b := c.State.Pending
 
 	// for all transactions in the block,
diff --git a/tevm/transport.go b/tevm/transport.go
index 07249fa..4d99d7a 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -95,21 +95,22 @@ func (c *Chain) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
 
 	c.mu.Lock()
 	ret, err := c.execute(req.Method, req.Params)
+	if err == nil {
+		// the result may refer to the state of the chain
+		err = gross(ret, &res.Result)
+	}
 	c.mu.Unlock()
 	if err != nil {
 		res.Result = nil
 		res.Error.Code = -32601
 		res.Error.Message = err.Error()
 		res.Error.Data = nil
-		err = nil
-	} else {
-		err = gross(ret, &res.Result)
 	}
 
 	if c.Debugf != nil {
 		c.Debugf("response:\n%s\n", pretty(res))
 	}
-	return err
+	return nil
 }
 
 func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, error) {
@@ -291,7 +292,7 @@ func (c *Chain) deleteFilter(fd int) (bool, error) {
 
 // staticCall handles eth_call.
 func (c *Chain) staticCall(a *callArgs, blocknum int64) (seth.Data, error) {
-	c = c.AtBlock(blocknum)
+	c = c.atBlock(blocknum)
 	if c == nil {
 		return nil, fmt.Errorf("unknown block number %d", blocknum)
 	}
@@ -354,12 +355,12 @@ func (c *Chain) getBlock(h *seth.Hash, fulltx bool) (*seth.Block, error) {
 
 // send handles eth_sendTransaction
 func (c *Chain) send(a *seth.Transaction) (*seth.Hash, error) {
-	_, h, err := c.Mine(a)
+	_, h, err := c.mine(a)
 	if err != nil {
 		return nil, err
 	}
 	// For now, 1 tx per block.
-	c.Seal()
+	c.seal()
 	return &h, nil
 }
 
@@ -393,7 +394,7 @@ func (c *Chain) transaction(h seth.Hash) (*seth.Transaction, error) {
 
 // balance handles eth_getBalance.
 func (c *Chain) balance(addr *seth.Address, block int64) (*seth.Int, error) {
-	c = c.AtBlock(block)
+	c = c.atBlock(block)
 	if c == nil {
 		return nil, fmt.Errorf("unknown block number %d", block)
 	}
@@ -402,7 +403,7 @@ func (c *Chain) balance(addr *seth.Address, block int64) (*seth.Int, error) {
 
 // estimate handles eth_estimateGas.
 func (c *Chain) estimate(a *callArgs, blocknum int64) (seth.Uint64, error) {
-	c = c.AtBlock(blocknum)
+	c = c.atBlock(blocknum)
 	if c == nil {
 		return 0, fmt.Errorf("unknown block number %d", blocknum)
 	}
-- 
2.43.0


From e0d8203fd238887b41bb8ea4383a1e75c26a167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:46 +0000
Subject: [PATCH 33/63] fix: undo a gas estimate that fails

---
 tevm/transport.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index 4d99d7a..946e7b0 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -412,6 +412,7 @@ func (c *Chain) estimate(a *callArgs, blocknum int64) (seth.Uint64, error) {
 	// TODO: incorporate gas price
 	evm.Context.GasPrice = big.NewInt(0)
 	snap := evm.StateDB.Snapshot()
+	defer evm.StateDB.RevertToSnapshot(snap)
 
 	gas := uint64(c.State.Pending.GasLimit)
 	if a.Gas != 0 {
@@ -432,8 +433,6 @@ func (c *Chain) estimate(a *callArgs, blocknum int64) (seth.Uint64, error) {
 		gas -= rem
 	}
 
-	evm.StateDB.RevertToSnapshot(snap)
-
 	return seth.Uint64(gas), nil
 }
 
-- 
2.43.0


From 2c5bd602d6ce83de0c25465f8eeb16cece1589df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:18 +0000
Subject: [PATCH 34/63] fix: turn a failure to read the fallback chain into an
 error

---
 tevm/evm.go       | 99 +++++++++++++++++++++++++++++++++--------------
 tevm/transport.go | 27 +++++++++----
 2 files changed, 88 insertions(+), 38 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 4a97faf..bfc515b 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"encoding/json"
+	"fmt"
 	"math/big"
 	"math/rand"
 	"sync"
@@ -733,7 +734,8 @@ func (c *Chain) NewAccount(ether int) seth.Address {
 	c.mu.Lock()
 	defer c.mu.Unlock()
 	if ether == 0 {
-		c.State.StateDB().CreateAccount(common.Address(addr))
+		var empty Account
+		c.State.Accounts.Insert(addr[:], empty[:])
 		return addr
 	}
 	var b big.Int
@@ -813,13 +815,36 @@ func (c *Chain) evm(sender [20]byte) *vm.EVM {
 	return vm.NewEVM(c.context(sender), c.State.StateDB(), &theparams, theconfig)
 }
 
+// run executes f with the chain locked. If f panics, say because
+// the fallback chain cannot be read, then the state is left as it
+// was before, and run returns an error.
+func (c *Chain) run(f func() error) error {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	return c.try(f)
+}
+
+func (c *Chain) try(f func() error) (err error) {
+	st := (*gethState)(&c.State)
+	snap := st.Snapshot()
+	defer func() {
+		if e := recover(); e != nil {
+			st.RevertToSnapshot(snap)
+			err = fmt.Errorf("execution failed: %v", e)
+		}
+	}()
+	return f()
+}
+
 // Create executes a transation that deploys the given
 // code to a new contract address, and returns the address
 // of the newly created contract.
 func (c *Chain) Create(sender *seth.Address, code []byte) (seth.Address, error) {
-	c.mu.Lock()
-	_, addr, _, err := c.evm(*sender).Create(s2r(sender), code, defaultGasLimit, &zero)
-	c.mu.Unlock()
+	var addr common.Address
+	err := c.run(func() (err error) {
+		_, addr, _, err = c.evm(*sender).Create(s2r(sender), code, defaultGasLimit, &zero)
+		return err
+	})
 	return seth.Address(addr), err
 }
 
@@ -827,8 +852,12 @@ func (c *Chain) Create(sender *seth.Address, code []byte) (seth.Address, error)
 // bookkeeping in the same way that Create does. In particular, it does not
 // increment the sender nonce or enforce callstack limits.
 func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
-	c.mu.Lock()
+	return c.run(func() error {
+		return c.createAt(addr, sender, code)
+	})
+}
 
+func (c *Chain) createAt(addr, sender *seth.Address, code []byte) error {
 	evm := c.evm(*sender)
 	snap := evm.StateDB.Snapshot()
 	evm.StateDB.CreateAccount(common.Address(*addr))
@@ -843,14 +872,11 @@ func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 	ret, err := evm.Interpreter().Run(contract, nil, static)
 	if err != nil {
 		evm.StateDB.RevertToSnapshot(snap)
-		c.mu.Unlock()
 		return err
 	}
 
 	evm.StateDB.SetCode(common.Address(*addr), ret)
 
-	c.mu.Unlock()
-
 	return nil
 }
 
@@ -860,35 +886,44 @@ func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 //
 // 'sig' must be in the canonical method signature encoding.
 func (c *Chain) Call(sender, dst *seth.Address, sig string, args ...seth.EtherType) ([]byte, error) {
-	c.mu.Lock()
-	ret, _, err := c.evm(*sender).Call(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit, &zero)
-	c.mu.Unlock()
+	input := seth.ABIEncode(sig, args...)
+	var ret []byte
+	err := c.run(func() (err error) {
+		ret, _, err = c.evm(*sender).Call(s2r(sender), common.Address(*dst), input, defaultGasLimit, &zero)
+		return err
+	})
 	return ret, err
 }
 
 // StaticCall yields the result of the given transaction in
 // the pending block without comitting the state changes to the chain.
 func (c *Chain) StaticCall(sender, dst *seth.Address, sig string, args ...seth.EtherType) ([]byte, error) {
-	c.mu.Lock()
-	ret, _, err := c.evm(*sender).StaticCall(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit)
-	c.mu.Unlock()
+	input := seth.ABIEncode(sig, args...)
+	var ret []byte
+	err := c.run(func() (err error) {
+		ret, _, err = c.evm(*sender).StaticCall(s2r(sender), common.Address(*dst), input, defaultGasLimit)
+		return err
+	})
 	return ret, err
 }
 
 // EstimateGas estimates the amount of gas that the given transaction will use.
 func (c *Chain) EstimateGas(sender, dst *seth.Address, sig string, args ...seth.EtherType) (uint64, error) {
-	c.mu.Lock()
-	_, left, err := c.evm(*sender).StaticCall(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit)
-	c.mu.Unlock()
+	input := seth.ABIEncode(sig, args...)
+	var left uint64
+	err := c.run(func() (err error) {
+		_, left, err = c.evm(*sender).StaticCall(s2r(sender), common.Address(*dst), input, defaultGasLimit)
+		return err
+	})
 	return defaultGasLimit - left, err
 }
 
 // Send creates a transaction that sends ether from one address to another.
 func (c *Chain) Send(sender, dst *seth.Address, value *big.Int) error {
-	c.mu.Lock()
-	_, _, err := c.evm(*sender).Call(s2r(sender), common.Address(*dst), nil, defaultGasLimit, value)
-	c.mu.Unlock()
-	return err
+	return c.run(func() error {
+		_, _, err := c.evm(*sender).Call(s2r(sender), common.Address(*dst), nil, defaultGasLimit, value)
+		return err
+	})
 }
 
 // Client creates a seth.Client that talks to
@@ -909,15 +944,15 @@ func (c *Chain) Sender(from *seth.Address) *seth.Sender {
 // SubBalance subtracts from the balance of an account.
 func (c *Chain) SubBalance(addr *seth.Address, v *big.Int) {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.State.StateDB().SubBalance(common.Address(*addr), v)
-	c.mu.Unlock()
 }
 
 // AddBalance adds to the balance of an account.
 func (c *Chain) AddBalance(addr *seth.Address, v *big.Int) {
 	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.State.StateDB().AddBalance(common.Address(*addr), v)
-	c.mu.Unlock()
 }
 
 func (c *Chain) balanceOf(addr *seth.Address) *big.Int {
@@ -929,9 +964,8 @@ func (c *Chain) balanceOf(addr *seth.Address) *big.Int {
 // BalanceOf returns the balance of an address, in Wei.
 func (c *Chain) BalanceOf(addr *seth.Address) *big.Int {
 	c.mu.Lock()
-	b := c.balanceOf(addr)
-	c.mu.Unlock()
-	return b
+	defer c.mu.Unlock()
+	return c.balanceOf(addr)
 }
 
 func encode(v msgp.Marshaler) []byte {
@@ -978,10 +1012,15 @@ func (c *Chain) mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 	status := 1
 	vm := c.evm(*tx.From)
 	vm.Context.GasPrice = tx.GasPrice.Big()
-	if tx.To == nil {
-		ret, addr, gas, err = vm.Create(s2r(tx.From), []byte(tx.Input), uint64(tx.Gas), tx.Value.Big())
-	} else {
-		ret, gas, err = vm.Call(s2r(tx.From), common.Address(*tx.To), []byte(tx.Input), uint64(tx.Gas), tx.Value.Big())
+	if e := c.try(func() error {
+		if tx.To == nil {
+			ret, addr, gas, err = vm.Create(s2r(tx.From), []byte(tx.Input), uint64(tx.Gas), tx.Value.Big())
+		} else {
+			ret, gas, err = vm.Call(s2r(tx.From), common.Address(*tx.To), []byte(tx.Input), uint64(tx.Gas), tx.Value.Big())
+		}
+		return nil
+	}); e != nil {
+		return nil, h, e
 	}
 
 	if err != nil {
diff --git a/tevm/transport.go b/tevm/transport.go
index 946e7b0..ff08f84 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -93,14 +93,7 @@ func (c *Chain) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
 		c.Debugf("request:\n%s\n", pretty(req))
 	}
 
-	c.mu.Lock()
-	ret, err := c.execute(req.Method, req.Params)
-	if err == nil {
-		// the result may refer to the state of the chain
-		err = gross(ret, &res.Result)
-	}
-	c.mu.Unlock()
-	if err != nil {
+	if err := c.answer(req, res); err != nil {
 		res.Result = nil
 		res.Error.Code = -32601
 		res.Error.Message = err.Error()
@@ -113,6 +106,24 @@ func (c *Chain) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
 	return nil
 }
 
+// answer executes a request and sets its result. A panic, say because
+// the fallback chain cannot be read, is reported as an error.
+func (c *Chain) answer(req *seth.RPCRequest, res *seth.RPCResponse) (err error) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	defer func() {
+		if e := recover(); e != nil {
+			err = fmt.Errorf("%s: execution failed: %v", req.Method, e)
+		}
+	}()
+	ret, err := c.execute(req.Method, req.Params)
+	if err != nil {
+		return err
+	}
+	// the result may refer to the state of the chain
+	return gross(ret, &res.Result)
+}
+
 func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, error) {
 	var b blocknum
 	switch method {
-- 
2.43.0


From 1c9dfa3ebb9c2c98dace67b011f5b552e48c37d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:19 +0000
Subject: [PATCH 35/63] fix: understand block numbers written as hex strings

---
 tevm/transport.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index ff08f84..764dd03 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -51,7 +51,10 @@ func (b *blocknum) UnmarshalJSON(buf []byte) error {
 		*b = 0
 	default:
 		// should be an integer
-		i, err := strconv.ParseInt(string(buf), 10, 64)
+		if len(buf) > 2 && buf[0] == '"' && buf[len(buf)-1] == '"' {
+			buf = buf[1 : len(buf)-1]
+		}
+		i, err := strconv.ParseInt(string(buf), 0, 64)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 1649e161b7ad54f965eb7dc943f85cf5110513c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:20 +0000
Subject: [PATCH 36/63] fix: refuse requests whose parameters do not parse

---
 tevm/transport.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index 764dd03..16600b2 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -455,7 +455,9 @@ func marshal(from []json.RawMessage, to ...interface{}) error {
 		return fmt.Errorf("expected %d params; found %d", len(to), len(from))
 	}
 	for i := range from {
-		gross(from[i], to[i])
+		if err := gross(from[i], to[i]); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From e6217c7beabfd6a8ed88808764998092c6b5b65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:20 +0000
Subject: [PATCH 37/63] fix: allow filters from a given block on

---
 tevm/transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index 16600b2..c4824fe 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -238,7 +238,7 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 }
 
 func (c *Chain) newFilter(from, to blocknum, addr *seth.Address, topics []*seth.Hash) (int, error) {
-	if from > to {
+	if from >= 0 && to >= 0 && from > to {
 		return 0, fmt.Errorf("cannot filter block range [%d,%d)", from, to)
 	}
 	c.filtcount++
-- 
2.43.0


From 4a21f64732164e762fc2704f375155926f9250af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 38/63] fix: do not repeat logs already returned by a full
 filter query

---
 tevm/transport.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tevm/transport.go b/tevm/transport.go
index c4824fe..94ffa7c 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -273,6 +273,8 @@ func (c *Chain) filterLogs(fd int) ([]seth.Log, error) {
 			out = append(out, next)
 		}
 	}
+	// these are not changes any more
+	filt.lastlog = len(c.State.Logs)
 	return out, nil
 }
 
-- 
2.43.0


From 82c1fbc354cfd76a26b55179f6ed5c12a02eda21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:22 +0000
Subject: [PATCH 39/63] fix: leave the pending block alone when answering a
 query for it

---
 tevm/transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index 94ffa7c..8b237cc 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -331,7 +331,7 @@ func (c *Chain) staticCall(a *callArgs, blocknum int64) (seth.Data, error) {
 func (c *Chain) getBlock(h *seth.Hash, fulltx bool) (*seth.Block, error) {
 	var b *seth.Block
 	if bytes.Equal(h[:], c.State.Pending.Hash[:]) {
-		b = c.State.Pending
+		b = copyBlock(c.State.Pending)
 	} else {
 		buf := c.State.Blocks.Get(h[:])
 		if buf == nil {
-- 
2.43.0


From a4b6c4c572cfc91bc873c98108898e34e577c47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:57 +0000
Subject: [PATCH 40/63] fix: answer queries for the latest and pending blocks

---
 tevm/transport.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index 8b237cc..361c801 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -194,13 +194,23 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 		}
 		return c.getBlock(&h, all)
 	case "eth_getBlockByNumber":
-		var n seth.Int
 		var all bool
-		if err := marshal(params, &n, &all); err != nil {
+		if err := marshal(params, &b, &all); err != nil {
 			return nil, err
 		}
+		n := int64(b)
+		pending := int64(*c.State.Pending.Number)
+		switch n {
+		case -1:
+			n = pending
+		case -2:
+			n = pending - 1
+			if _, ok := c.block2snap[n]; !ok {
+				n = pending
+			}
+		}
 		// hack: block hashes are hashes of the block number
-		h := seth.Hash(n2h(uint64(n.Int64())))
+		h := seth.Hash(n2h(uint64(n)))
 		return c.getBlock(&h, all)
 	case "eth_newFilter":
 		type newFilterReq struct {
-- 
2.43.0


From 2aeaf4e012b0c43554afdb3fee076471c7f40468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:58 +0000
Subject: [PATCH 41/63] fix: do not run more gas than a block holds for a
 request

---
 tevm/transport.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index 361c801..9931dd6 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -324,7 +324,7 @@ func (c *Chain) staticCall(a *callArgs, blocknum int64) (seth.Data, error) {
 	}
 	evm := c.evm(a.From)
 	gas := uint64(c.State.Pending.GasLimit)
-	if a.Gas != 0 {
+	if a.Gas != 0 && uint64(a.Gas) < gas {
 		gas = uint64(a.Gas)
 	}
 	var to common.Address
@@ -381,6 +381,9 @@ func (c *Chain) getBlock(h *seth.Hash, fulltx bool) (*seth.Block, error) {
 
 // send handles eth_sendTransaction
 func (c *Chain) send(a *seth.Transaction) (*seth.Hash, error) {
+	if a.Gas > c.State.Pending.GasLimit {
+		return nil, fmt.Errorf("gas %d exceeds the block gas limit %d", uint64(a.Gas), uint64(c.State.Pending.GasLimit))
+	}
 	_, h, err := c.mine(a)
 	if err != nil {
 		return nil, err
@@ -441,7 +444,7 @@ func (c *Chain) estimate(a *callArgs, blocknum int64) (seth.Uint64, error) {
 	defer evm.StateDB.RevertToSnapshot(snap)
 
 	gas := uint64(c.State.Pending.GasLimit)
-	if a.Gas != 0 {
+	if a.Gas != 0 && uint64(a.Gas) < gas {
 		gas = uint64(a.Gas)
 	}
 
-- 
2.43.0


From 0a8ff468fdc6abea2dd0c3aaef54905fc046c75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:45 +0000
Subject: [PATCH 42/63] fix: let a filter without block range match up to the
 latest block

---
 tevm/transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index 9931dd6..3346ddf 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -219,7 +219,7 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 			Address   *seth.Address `json:"address,omitempty"`
 			Topics    []*seth.Hash  `json:"topics,omitempty"`
 		}
-		req := new(newFilterReq)
+		req := &newFilterReq{FromBlock: -2, ToBlock: -2} // latest
 		if err := marshal(params, req); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 140a3ef7b1f652a51018656cef1384d0534fb364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:46 +0000
Subject: [PATCH 43/63] fix: do not take large filter ids for those of other
 filters

---
 tevm/transport.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index 3346ddf..c1c246e 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -229,24 +229,33 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 		if err := marshal(params, &n); err != nil {
 			return nil, err
 		}
-		return c.filterChanges(int(n.Int64()))
+		return c.filterChanges(filterID(&n))
 	case "eth_getFilterLogs":
 		var n seth.Int
 		if err := marshal(params, &n); err != nil {
 			return nil, err
 		}
-		return c.filterLogs(int(n.Int64()))
+		return c.filterLogs(filterID(&n))
 	case "eth_uninstallFilter":
 		var n seth.Int
 		if err := marshal(params, &n); err != nil {
 			return nil, err
 		}
-		return c.deleteFilter(int(n.Int64()))
+		return c.deleteFilter(filterID(&n))
 	default:
 		return nil, errors.New(method + ": unsupported method")
 	}
 }
 
+// filterID returns the number of the filter that a request
+// is about. No filter has the number zero.
+func filterID(n *seth.Int) int {
+	if !n.Big().IsInt64() {
+		return 0
+	}
+	return int(n.Int64())
+}
+
 func (c *Chain) newFilter(from, to blocknum, addr *seth.Address, topics []*seth.Hash) (int, error) {
 	if from >= 0 && to >= 0 && from > to {
 		return 0, fmt.Errorf("cannot filter block range [%d,%d)", from, to)
-- 
2.43.0


From b8062e8ce6e5345518d71dd54eb34318e72fa3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:37 +0000
Subject: [PATCH 44/63] fix: hide blocks sealed later from a historical view

---
 tevm/evm.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index bfc515b..35ee92b 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -621,6 +621,10 @@ func (c *Chain) atBlock(n int64) *Chain {
 	for bn, s := range c.block2snap {
 		if bn < n {
 			cc.block2snap[bn] = s
+		} else {
+			// sealed later
+			h := n2h(uint64(bn))
+			cc.State.Blocks.Delete(h[:])
 		}
 	}
 	return cc
-- 
2.43.0


From 18a2eccadf69160c41f39ed1442fda47b2a3baa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:50 +0000
Subject: [PATCH 45/63] fix: give a historical view the refund counter of its
 block

---
 tevm/evm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 35ee92b..a2a7eb7 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -455,7 +455,7 @@ func (s *State) atSnap(n int, dst *State) {
 	ns := s.Snapshots[n]
 	dst.Fallback = s.Fallback
 	dst.Trace = s.Trace
-	dst.Refund = s.Refund
+	dst.Refund = ns.Refund
 	dst.Accounts = s.Accounts.CopyAt(ns.Accounts)
 	dst.Code = s.Code.CopyAt(ns.Code)
 	dst.Storage = s.Storage.CopyAt(ns.State)
-- 
2.43.0


From 780cc957259671dd75aa0f58d43d3689a54a3d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:41 +0000
Subject: [PATCH 46/63] fix: number the files of a bundle like the compiler
 does

---
 compile.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/compile.go b/compile.go
index ce1bc72..2c00cdf 100644
--- a/compile.go
+++ b/compile.go
@@ -248,18 +248,23 @@ func h2b(s string) []byte {
 	return bits
 }
 
-func (s *solcout) toBundle() *CompiledBundle {
+func (s *solcout) toBundle(bodies map[string]sourcefile) (*CompiledBundle, error) {
 	nc := 0
 	for _, cs := range s.Contracts {
 		nc += len(cs)
 	}
+	// not every source has contracts
 	b := &CompiledBundle{
-		Filenames: make([]string, len(s.Contracts)),
-		Sources:   make([]string, len(s.Contracts)),
+		Filenames: make([]string, len(s.Sources)),
+		Sources:   make([]string, len(s.Sources)),
 	}
 	// XXX: assume IDs are 0-indexed...
 	for name, id := range s.Sources {
+		if id.ID < 0 || id.ID >= len(b.Filenames) {
+			return nil, fmt.Errorf("unexpected id %d of source %q", id.ID, name)
+		}
 		b.Filenames[id.ID] = name
+		b.Sources[id.ID] = bodies[name].Content
 	}
 	for _, contracts := range s.Contracts {
 		for contract, out := range contracts {
@@ -271,7 +276,7 @@ func (s *solcout) toBundle() *CompiledBundle {
 			})
 		}
 	}
-	return b
+	return b, nil
 }
 
 // SourceOf returns the source line (text) of the given pc.
@@ -429,15 +434,15 @@ func compile(sources []Source) (*CompiledBundle, error) {
 	if err := compileError(jsout.Errors); err != nil {
 		return nil, fmt.Errorf("solc compilation error: %s", err)
 	}
-	b := jsout.toBundle()
+	b, err := jsout.toBundle(blob.Sources)
+	if err != nil {
+		return nil, fmt.Errorf("reading solc output: %s", err)
+	}
 	for i := range jsout.Errors {
 		if jsout.Errors[i].Type == "Warning" {
 			b.Warnings = append(b.Warnings, jsout.Errors[i].FormattedMessage)
 		}
 	}
-	for i := range b.Sources {
-		b.Sources[i] = sources[i].Body
-	}
 	return b, nil
 }
 
-- 
2.43.0


From 3f90289dce30b95c5d46fda8bb580e4158f06b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 47/63] fix: return an error for contracts whose code is not
 linked

---
 compile.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/compile.go b/compile.go
index 2c00cdf..cc4326e 100644
--- a/compile.go
+++ b/compile.go
@@ -240,14 +240,6 @@ func (c *CompiledBundle) Contract(name string) *CompiledContract {
 	return nil
 }
 
-func h2b(s string) []byte {
-	bits, err := hex.DecodeString(s)
-	if err != nil {
-		panic(err)
-	}
-	return bits
-}
-
 func (s *solcout) toBundle(bodies map[string]sourcefile) (*CompiledBundle, error) {
 	nc := 0
 	for _, cs := range s.Contracts {
@@ -268,9 +260,14 @@ func (s *solcout) toBundle(bodies map[string]sourcefile) (*CompiledBundle, error
 	}
 	for _, contracts := range s.Contracts {
 		for contract, out := range contracts {
+			// (the code of unlinked contracts is not all hex)
+			code, err := hex.DecodeString(out.EVM.Bytecode.Object)
+			if err != nil {
+				return nil, fmt.Errorf("code of contract %s: %s", contract, err)
+			}
 			b.Contracts = append(b.Contracts, CompiledContract{
 				Name:      contract,
-				Code:      h2b(out.EVM.Bytecode.Object),
+				Code:      code,
 				Sourcemap: out.EVM.Bytecode.Sourcemap,
 				ABI:       out.ABI,
 			})
-- 
2.43.0


From 46f5fe67afb378bcd37627f47cb5631ad1f64e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 48/63] fix: do not sort the list of sources of the caller of
 Compile

---
 compile.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compile.go b/compile.go
index cc4326e..b14d7d3 100644
--- a/compile.go
+++ b/compile.go
@@ -310,7 +310,8 @@ func short(h hash.Hash) string {
 	return hex.EncodeToString(h.Sum(nil))[:12]
 }
 
-func cachename(sources []Source) string {
+func cachename(list []Source) string {
+	sources := append([]Source(nil), list...) // the caller keeps its order
 	sort.Slice(sources, func(i, j int) bool {
 		return sources[i].Filename < sources[j].Filename
 	})
-- 
2.43.0


From 9d2a33e96ecc208580a50d1046a3c63d592cd9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:02 +0000
Subject: [PATCH 49/63] fix: tell sources apart that only differ in where they
 are split

---
 compile.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compile.go b/compile.go
index b14d7d3..f32d2fd 100644
--- a/compile.go
+++ b/compile.go
@@ -7,7 +7,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"hash"
-	"io"
 	"io/ioutil"
 	"os"
 	"os/exec"
@@ -318,8 +317,9 @@ func cachename(list []Source) string {
 	h0 := keccak.New256()
 	h1 := keccak.New256()
 	for i := range sources {
-		io.WriteString(h0, sources[i].Filename)
-		io.WriteString(h1, sources[i].Body)
+		// the lengths tell where one string ends and the next begins
+		fmt.Fprintf(h0, "%d:%s", len(sources[i].Filename), sources[i].Filename)
+		fmt.Fprintf(h1, "%d:%s", len(sources[i].Body), sources[i].Body)
 	}
 	// filename is 'name hash'-'content hash'.bundle
 	// so that we can to a quick glob search to remove
-- 
2.43.0


From b34a6e42b64cba912b89998c9fe559106307ac41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 50/63] fix: look for stale bundles in the cache directory only

---
 compile.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/compile.go b/compile.go
index f32d2fd..215e841 100644
--- a/compile.go
+++ b/compile.go
@@ -332,12 +332,13 @@ func cachedBundle(name string) (*CompiledBundle, bool) {
 	f, err := os.Open(name)
 	if err != nil {
 		// let's look for stale builds and clean them up
-		i := strings.IndexByte(name, '-')
-		if i != -1 && i != len(name)-1 {
-			all, err := filepath.Glob(name[:i+1] + "*")
-			if err == nil {
-				for i := range all {
-					os.Remove(all[i])
+		dir, base := filepath.Split(name)
+		prefix := base[:strings.IndexByte(base, '-')+1]
+		all, err := ioutil.ReadDir(dir)
+		if err == nil {
+			for i := range all {
+				if strings.HasPrefix(all[i].Name(), prefix) {
+					os.Remove(filepath.Join(dir, all[i].Name()))
 				}
 			}
 		}
-- 
2.43.0


From 336834a2641c687d68f3d1d7e5b9474372e262ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 51/63] fix: do not use cached bundles that are damaged

---
 compile.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/compile.go b/compile.go
index 215e841..2759937 100644
--- a/compile.go
+++ b/compile.go
@@ -350,8 +350,12 @@ func cachedBundle(name string) (*CompiledBundle, bool) {
 	if err != nil {
 		return nil, false
 	}
-	d := msgp.NewReader(r)
-	if err := b.DecodeMsg(d); err != nil {
+	// the checksum is only verified at the end
+	buf, err := ioutil.ReadAll(r)
+	if err != nil {
+		return nil, false
+	}
+	if left, err := b.UnmarshalMsg(buf); err != nil || len(left) > 0 {
 		return nil, false
 	}
 	return b, true
-- 
2.43.0


From 79157a7ddf186a587f2516dd3ee3246fa79cb35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 52/63] fix: keep a copy of the address of fetched code

---
 tevm/evm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index a2a7eb7..56a3082 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -266,7 +266,8 @@ func (s *gethState) getCode(addr *seth.Address) []byte {
 		if s.Trace != nil {
 			s.Trace("Fallback GetCode", addr.String())
 		}
-		s.Code.Insert(addr[:], buf)
+		key := *addr // addr may be memory of the caller
+		s.Code.Insert(key[:], buf)
 	}
 	return buf
 }
-- 
2.43.0


From bbb5f238fb405a3b5671958fa9f47d0b6732d769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 53/63] fix: keep a copy of the hash of a mined transaction

---
 tevm/evm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 56a3082..3f172c2 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -1068,7 +1068,8 @@ func (c *Chain) mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 
 	b.Transactions = append(b.Transactions, js(&tx.Hash))
 	c.pendingrx = append(c.pendingrx, rx)
-	c.State.Transactions.Insert(tx.Hash[:], encode(tx))
+	key := h // the caller may use tx again
+	c.State.Transactions.Insert(key[:], encode(tx))
 	return
 }
 
-- 
2.43.0


From 037243942709acbdecd254f71177ec8ed902493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 54/63] fix: keep the code of a contract when the caller
 modifies the result of Mine

---
 tevm/evm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index 3f172c2..31d4744 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -1020,6 +1020,8 @@ func (c *Chain) mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 	if e := c.try(func() error {
 		if tx.To == nil {
 			ret, addr, gas, err = vm.Create(s2r(tx.From), []byte(tx.Input), uint64(tx.Gas), tx.Value.Big())
+			// the caller may modify what it gets
+			ret = append([]byte(nil), ret...)
 		} else {
 			ret, gas, err = vm.Call(s2r(tx.From), common.Address(*tx.To), []byte(tx.Input), uint64(tx.Gas), tx.Value.Big())
 		}
-- 
2.43.0


From e28453db492cf07afdedf57df9b09b366102173c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 55/63] fix: hand out copies of the logs of a chain

---
 tevm/evm.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 31d4744..691834e 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -635,11 +635,12 @@ func l2l(l *types.Log, sl *seth.Log) {
 	sl.Address = seth.Address(l.Address)
 	sl.Topics = make([]seth.Data, len(l.Topics))
 	for i := range l.Topics {
-		sl.Topics[i] = seth.Data(l.Topics[i][:])
+		sl.Topics[i] = append(seth.Data{}, l.Topics[i][:]...)
 	}
-	sl.Data = seth.Data(l.Data)
-	sl.BlockHash = (*seth.Hash)(&l.BlockHash)
-	sl.TxHash = (*seth.Hash)(&l.TxHash)
+	sl.Data = append(seth.Data{}, l.Data...)
+	bh, th := seth.Hash(l.BlockHash), seth.Hash(l.TxHash)
+	sl.BlockHash = &bh
+	sl.TxHash = &th
 	index := seth.Uint64(l.Index)
 	sl.LogIndex = &index
 	txindex := seth.Uint64(l.TxIndex)
-- 
2.43.0


From 1d7349f78bb60b4be9757478c6467f5b039c71a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 56/63] fix: return an error for a key file whose iv has the
 wrong length

---
 keyfile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keyfile.go b/keyfile.go
index c01770a..74fb539 100644
--- a/keyfile.go
+++ b/keyfile.go
@@ -123,6 +123,9 @@ func aes128ctrDecipher(key, ciphertext []byte, jsparams json.RawMessage) error {
 	if err != nil {
 		return err
 	}
+	if len(iv) != block.BlockSize() {
+		return fmt.Errorf("bad aes-128-ctr iv: length %d", len(iv))
+	}
 	stream := cipher.NewCTR(block, iv)
 	stream.XORKeyStream(ciphertext, ciphertext)
 	return nil
-- 
2.43.0


From e2bc90872060f29abefa164bacb9f327b75aa022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 57/63] fix: refuse key files with unusable key derivation
 parameters

---
 keyfile.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/keyfile.go b/keyfile.go
index 74fb539..9e3308a 100644
--- a/keyfile.go
+++ b/keyfile.go
@@ -37,6 +37,21 @@ type Keyfile struct {
 	Meta    json.RawMessage `json:"meta"`
 }
 
+// limits on what the parameters of a key file may demand
+const (
+	minKeylen = 16      // bytes of key for the cipher, and for the MAC
+	maxKeylen = 1 << 16 //
+	maxIters  = 1 << 30 // pbkdf2 iterations, scrypt block mixes
+	maxMemory = 4 << 30 // bytes for scrypt
+)
+
+func checkKeylen(n int) error {
+	if n < minKeylen || n > maxKeylen {
+		return fmt.Errorf("bad derived key length %d", n)
+	}
+	return nil
+}
+
 func (k *Keyfile) ciphertext() ([]byte, error) {
 	return hex.DecodeString(k.Crypto.Ciphertext)
 }
@@ -52,6 +67,12 @@ func pbkdf2Derive(pass []byte, jsparams json.RawMessage) ([]byte, error) {
 	if err := json.Unmarshal(jsparams, p); err != nil {
 		return nil, fmt.Errorf("parsing pbkdf2 params: %q", err)
 	}
+	if err := checkKeylen(p.Keylen); err != nil {
+		return nil, err
+	}
+	if p.Iters < 1 || p.Iters > maxIters {
+		return nil, fmt.Errorf("bad pbkdf2 iteration count %d", p.Iters)
+	}
 	var h func() hash.Hash
 	switch strings.ToLower(p.Hashfn) {
 	case "hmac-sha512":
@@ -88,6 +109,12 @@ func scryptDerive(pass []byte, jsparams json.RawMessage) ([]byte, error) {
 	if err := json.Unmarshal(jsparams, p); err != nil {
 		return nil, fmt.Errorf("parsing scrypt params: %q", err)
 	}
+	if err := checkKeylen(p.Keylen); err != nil {
+		return nil, err
+	}
+	if p.N < 1 || p.R < 1 || p.P < 1 || p.N > maxMemory/128/p.R || p.P > maxIters/p.R/p.N {
+		return nil, fmt.Errorf("bad scrypt parameters n=%d r=%d p=%d", p.N, p.R, p.P)
+	}
 	salt, err := hex.DecodeString(p.Salt)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From e89c6eea0ad1fcddaa42eb280131f532448bad92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 58/63] fix: refuse key files whose private key has the wrong
 length

---
 keyfile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keyfile.go b/keyfile.go
index 9e3308a..7220ec1 100644
--- a/keyfile.go
+++ b/keyfile.go
@@ -204,6 +204,9 @@ func (k *Keyfile) Private(passphrase []byte) (*PrivateKey, error) {
 		return nil, err
 	}
 	priv := new(PrivateKey)
+	if len(ciphertext) != len(priv) {
+		return nil, fmt.Errorf("bad private key length %d", len(ciphertext))
+	}
 	copy(priv[:], ciphertext)
 	if k.Address != "" {
 		want, err := hex.DecodeString(k.Address)
-- 
2.43.0


From 4d32aee952837f834ac15935cd8c55ea7c3273df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 59/63] fix: sign with the key that matches rather than the
 last one listed

---
 cmd/eth/keys.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/eth/keys.go b/cmd/eth/keys.go
index b515f2f..56fe3c0 100644
--- a/cmd/eth/keys.go
+++ b/cmd/eth/keys.go
@@ -156,6 +156,7 @@ func signer() (seth.Signer, seth.Address) {
 		fatalf("bad keyspec %q\n", err)
 	}
 	for _, kd := range keys() {
+		kd := kd
 		if re.MatchString(kd.addr.String()) || re.MatchString(kd.id) {
 			if matched != nil {
 				fatalf("ambiguous key spec %q matches more than one key\n", spec)
-- 
2.43.0


From 7484e016c2168bfd893ef0e1ac08c5bf75e22318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:17 +0000
Subject: [PATCH 60/63] fix: a range of blocks from a pending block without a
 number crashes eth block

---
 cmd/eth/block.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/eth/block.go b/cmd/eth/block.go
index 8b4d0d9..0ff409d 100644
--- a/cmd/eth/block.go
+++ b/cmd/eth/block.go
@@ -47,7 +47,11 @@ func blockrange(c *seth.Client, spec string) {
 	// have to fetch the block to do this
 	start := blocknum(split[0])
 	if start < 0 {
-		start = int64(*(getblock(c, start, false).Number))
+		num := getblock(c, start, false).Number
+		if num == nil {
+			fatalf("the %s block has no number\n", split[0])
+		}
+		start = int64(*num)
 	}
 
 	diff, err := strconv.ParseInt(split[1], 0, 64)
-- 
2.43.0


From 8e19a4cda94abe70c39aaf6b655d2da3ae7b299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 61/63] fix: a range of blocks before the first shows the
 latest and pending blocks

---
 cmd/eth/block.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/eth/block.go b/cmd/eth/block.go
index 0ff409d..867215f 100644
--- a/cmd/eth/block.go
+++ b/cmd/eth/block.go
@@ -64,7 +64,11 @@ func blockrange(c *seth.Client, spec string) {
 	}
 
 	for i := int64(0); i < diff; i++ {
-		showblock(getblock(c, op(start, i), true))
+		num := op(start, i)
+		if num < 0 {
+			fatalf("no block %d\n", num)
+		}
+		showblock(getblock(c, num, true))
 	}
 }
 
-- 
2.43.0


From dd9bdda93299995616cb5451d0313a518e343c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 62/63] fix: reporting a bad or missing function crashes eth
 read and eth call

---
 cmd/eth/call.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index c19d13a..001483e 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -171,7 +171,7 @@ func parsefn(c *seth.Client, addr *seth.Address, fn string, args []string) []set
 	if lparen == -1 || rparen == -1 ||
 		rparen-lparen < 1 ||
 		rparen != len(fn)-1 {
-		fatalf("bad function signature %q (bad parens)\n", args[1])
+		fatalf("bad function signature %q (bad parens)\n", fn)
 	}
 
 	fname := fn[:lparen]
@@ -192,7 +192,7 @@ func parsefn(c *seth.Client, addr *seth.Address, fn string, args []string) []set
 			}
 		}
 		if !found {
-			fatalf("signature %q (jump table %x) not found in code\n", args[1], h[:4])
+			fatalf("signature %q (jump table %x) not found in code\n", fn, h[:4])
 		}
 	}
 
-- 
2.43.0


From 8c7bfd28cb2fdb0e15fd2aff59ae0f5274665119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:20 +0000
Subject: [PATCH 63/63] fix: a signature that nobody can have made recovers to
 some address

---
 signature.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/signature.go b/signature.go
index b83626f..d38c21a 100644
--- a/signature.go
+++ b/signature.go
@@ -114,6 +114,9 @@ func (z *Signature) Recover(hash *Hash) (*PublicKey, error) {
 	}
 
 	CurvePoint(&r, &ry, v)
+	if !curve.IsOnCurve(&r, &ry) {
+		return nil, errors.New("invalid signature")
+	}
 
 	ri.ModInverse(&r, order)
 	si.Mul(&ri, &s)
-- 
2.43.0

