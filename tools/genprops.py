import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=m[0],where=m[1]) for m in mech]))
    if state: d['anchors']['state']=[dict(name=s[0],meaning=s[1],where=s[2]) for s in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=None
    assert len(title)<=80,(id,len(title))
    P.append(d)

S,C,I,H,F,CF="schedules","crash_points","inputs","histories","fault_sequences","configurations"

p("C01","Concurrent calls on one connection each receive their own reply",
 "When any number of callers use one stream-connected client at the same time, every call that returns a value returns exactly the value the node sent in answer to that call's request. This holds whatever order and timing the node answers in, with stray, duplicated or late replies in between, and across lost and re-established connections: a reply is never delivered to another call, mixed with another reply, or delivered after the call has returned.",
 [S,H,F],"all interleavings of caller goroutines, reader goroutines and the node; all reply orders, delays, fragmentations, duplicates, stray replies and connection losses",
 "The tests exercise the client sequentially against an in-process chain or skip when no node is present; no test has two calls in flight or a reconnect, and response mix-ups need a specific interleaving of readers and callers.",
 ["client.go","seth.go","dial.go"],[("id -> pending-call table filled in before the request is written","client.go: RPCTransport.Execute"),("reader goroutine dispatching replies by id","client.go: RPCTransport.background"),("atomically increasing request ids","client.go: Client.Do")],
 [("pending","calls waiting for a reply, by id","client.go: RPCTransport.pending"),("conn, enc","current connection and its encoder","client.go: RPCTransport")],["return values of Client.Do and the typed methods","bytes seen by the node"])
p("C02","Every call completes when its connection fails, and later calls redial",
 "If a stream connection fails in any way (dial error, write error, read error, end of file, garbage on the stream) every call in flight on it returns an error, and nothing waits forever. A later call dials a new connection and succeeds once the node is reachable again; a failed connection never breaks calls made on its replacement, and the failed connection is closed.",
 [S,C,F],"all instants and kinds of connection failure relative to every step of concurrent callers and readers, including synchronous (unbuffered) transports",
 "Liveness under failure at arbitrary instants cannot be sampled by unit tests; no test breaks a connection at all.",
 ["client.go","dial.go"],[("abort: fail and release every pending call","client.go: RPCTransport.abort"),("reconnect on next call","client.go: RPCTransport.reconnect"),("stale-reader guard","client.go: RPCTransport.background")],
 [("pending","calls that must be released","client.go: RPCTransport.pending")],["calls returning","dial calls","Close on the connection"])
p("C03","A call reaches the node at most once, whole, in order and uniquely numbered",
 "Each client call puts at most one request on the wire, as one complete well-formed JSON-RPC 2.0 message carrying exactly the caller's method and parameters; concurrent requests never interleave their bytes. Request ids are never shared by two calls of one client, and a call is never silently re-sent after a failure, so a transaction submission can not be duplicated by the library.",
 [S,F],"all interleavings of concurrent callers with short, failed and blocked writes and reconnects, on stream and HTTP transports",
 "Duplicate or interleaved writes appear only under concurrent callers and mid-write failures, which no test produces.",
 ["client.go","seth.go","send.go"],[("writes serialised per connection","client.go: RPCTransport.Execute"),("id allocation","client.go: Client.Do"),("single POST/GET per call","client.go: HTTPTransport.Execute, InfuraTransport.Execute")],None,["requests received by the node"])
p("C04","A call's outcome is exactly what the node answered",
 "On every transport (stream, HTTP, Infura) a call returns success with the node's result exactly when the node answered this request with a complete result; a JSON-RPC error reply yields that same code and message; a null result yields the not-found error; a non-200 status, a truncated, garbled or missing reply yields an error. The submission and state-changing requests Infura takes by POST (raw transactions, gas estimates, submitted work and hash rates) are POSTed, never put in a URL, and no call reports success for an answer it did not get.",
 [I,F,S],"all methods, reply kinds, status codes and points of truncation or connection failure, with concurrent callers",
 "The tests never see an HTTP error, a truncated body or an RPC error reply; the fault positions are unbounded.",
 ["client.go","seth.go","send.go","personal.go"],[("error/null/result classification","client.go: Client.Do, RPCTransport.background"),("HTTP status check","client.go: HTTPTransport.Execute, infuraGet"),("method routing","client.go: InfuraTransport.Execute")],None,["error and value returned by each call","HTTP requests seen by the server"])
p("C05","No reply from a node, however damaged, can crash or wedge the client",
 "Whatever bytes a node answers with (truncated, corrupted, wrong type, hostile lengths or offsets), every client call returns in bounded time with either a value or an error: no panic in any goroutine, no hang, no unbounded allocation. A value decoded from a well-formed reply is the value the reply encodes, independent of what the destination variable held before.",
 [I,F],"all byte-level corruptions of replies to every typed call, including ABI-encoded call results, logs and blocks",
 "The decoders are tested with a few well-formed inputs; corrupted replies are an unbounded space and panics depend on specific offsets and lengths.",
 ["send.go","seth.go","hex.go","client.go"],[("bounds checks in ABI decoding","send.go: DecodeABI"),("hex parsing","hex.go: hexdecode, hexparse"),("text unmarshalers","seth.go: UnmarshalText/UnmarshalJSON methods")],None,["return values, panics"])
p("F01","A log filter delivers the node's logs in order, none lost or repeated",
 "The sequence of logs a consumer receives from a filter is, at every moment, a prefix of the concatenation of the log lists the node returned to that filter's polls, in order and unaltered; with a consumer that keeps receiving and no error it eventually equals it. Slow consumers, slow or failing nodes and timer jitter never drop, duplicate, reorder or alter a log; a failing poll ends the filter with that error instead of being skipped silently.",
 [S,F,H],"all interleavings of poller, consumer, closer and node; all batch sizes, consumer speeds, node delays and errors",
 "The one filter test (needs solc, never runs here) reads two logs; ordering under slow consumers, overlapping polls and errors is never exercised.",
 ["filter.go"],[("single polling goroutine feeding the channel","filter.go: frecv"),("error recording before channel close","filter.go: frecv, seterr")],
 [("out","buffered log channel","filter.go: Filter.out")],["Filter.Out, Filter.Err"])
p("F02","Closing a filter always ends it: channel closed, node notified once",
 "A filter may be closed any number of times from any goroutines at any moment without panic or deadlock. After close (or an error) the output channel is closed within bounded time even if nobody is receiving, its goroutine ends, and the node receives exactly one uninstall request per closed filter; an error is visible from Err by the time the channel is seen closed.",
 [S,F],"all interleavings of Close, Err, polling and consumption, with the node slow, failing or unreachable and the output buffer full or empty",
 "Lifecycle races need a particular interleaving of close, a full buffer and a poll; tests close once at the end.",
 ["filter.go"],[("closed flag under lock","filter.go: Filter.Close"),("exit channel","filter.go: frecv")],[("closed, exit, err","lifecycle state","filter.go: Filter")],["Out channel closure","uninstall requests at the node","goroutine count"])
p("B01","Block iteration yields every block once, in number order",
 "An iterator started at block N (or at the latest block) yields blocks N, N+1, N+2, ... without gap, repetition or reordering, each exactly as the node returned it, however often requests fail, time out or find no such block yet. Once the node serves a block and errors stop, the iterator delivers it within bounded time.",
 [S,F,H],"all sequences of node errors, not-yet-mined answers, delays, connection losses and consumer speeds",
 "No test iterates blocks; skips or repeats appear only when an error hits a specific fetch.",
 ["seth.go"],[("advance only after delivery; retry after error","seth.go: BlockIterator.getLoop")],[("block","next block number","seth.go: getLoop")],["BlockIterator.Next"])
p("B02","Stopping a block iterator always closes its channel and ends its goroutine",
 "After Stop, at whatever moment it is called and whether or not anyone is receiving, the iterator's channel is closed within bounded time once outstanding node calls return, its goroutine ends, and it sends no further requests.",
 [S,F],"all instants of Stop relative to fetch, retry sleep and delivery; full and empty buffers; failing node",
 "A blocked delivery after Stop is a leak only visible under a specific interleaving; no test calls Stop.",
 ["seth.go"],[("done channel","seth.go: BlockIterator.Stop, getLoop")],None,["channel closure, goroutine count, requests at node"])
p("S01","A sender submits exactly the requested transaction, at most once, or nothing",
 "For every call through a sender, the node receives at most one transaction submission, carrying exactly the requested recipient, value, data, gas and price, with the nonce given or else the node's pending nonce, and omitted gas and price filled in from the padded estimate and the sender's price; with a signer configured it is a raw transaction whose signature verifies for the sender's address. If any step fails or the signature belongs to another address, an error is returned and nothing is submitted; a reported success carries the hash the node returned, even with several goroutines sending at once and damaged replies.",
 [S,F,I],"all failure points in the estimate / nonce / sign / submit sequence, all call options, concurrent senders sharing a client",
 "Tests send a few transactions through a fault-free in-process chain without a signer; partial failures and wrong-key signers are not reached.",
 ["sender.go","send.go","transaction.go","signature.go"],[("estimate, pad, nonce, sign, verify, submit","sender.go: Sender.Call"),("raw encoding","transaction.go: Encode, HashToSign"),("CallOpts to transaction","send.go: CallOpts.Transaction")],None,["submissions seen by the node","returned hash/error"])
p("S02","Waiting on a transaction returns only once it is mined",
 "Wait on a transaction hash returns success only if the node reported that transaction as included in a block, and returns within bounded time after the node starts reporting so; a node error or unknown transaction is returned as an error, never as success.",
 [S,F,H],"all mining times, node errors and pending/mined/missing sequences, with virtual time",
 "Tests use a chain that mines instantly, so the waiting loop never iterates.",
 ["sender.go"],[("poll until an index is present","sender.go: Sender.Wait")],None,["return of Wait vs node history"])
p("S03","Contract creation reports an address only for a contract that was deployed",
 "Create returns a nil error only if the creation transaction was mined and succeeded, and then returns the address the node's receipt gives; in every other case (failed execution, missing receipt, node error at any step) it returns an error. It submits at most one creation transaction carrying exactly the given code and value.",
 [S,F,H],"all failure points in the estimate / submit / wait / receipt sequence and all receipts (failed, missing, without address)",
 "Tests create contracts on a fault-free instant-mining chain; failed or lost creations are never seen.",
 ["sender.go"],[("submit, wait, read receipt","sender.go: Sender.Create")],None,["returned address vs receipts at the node"])
p("S04","Drain returns only when the account has no pending transaction",
 "Drain returns success only if the pending block it last looked at contained no transaction from the sender's address, having waited for each such transaction; it calls the prompt for a transaction it waits on. Once the account's transactions are mined it returns within bounded time, and node errors are returned as errors.",
 [S,F,H],"all pool contents, arrival and mining orders and node errors over virtual time",
 "No test calls it: it needs a node with a pending pool that changes over time.",
 ["sender.go","seth.go"],[("look for own transactions in the pending block, wait, repeat","sender.go: Sender.Drain")],None,["return of Drain vs pool at the node"])
p("S05","Cancelling replaces the transaction or reports that it is too late",
 "Cancelling a transaction that the node reports as mined returns the cannot-cancel error and submits nothing; otherwise exactly one replacement is submitted, from and to the sender's own address with no value or data, with the same nonce and a strictly higher gas price than the original. Any node error is returned and nothing is submitted after it.",
 [S,F,I],"all original transactions (any price and nonce), mined/pending races and node errors at each step",
 "No test calls it; price comparison at the boundaries and errors between the steps are never exercised.",
 ["sender.go"],[("lookup, price bump, resubmit","sender.go: Sender.Cancel")],None,["submissions at the node"])
p("T01","Concurrent use of a test chain behaves as one call at a time",
 "Operations issued concurrently on one in-process chain (sends, calls, deployments, mining, sealing, queries, filter polls, copies; through Go methods or RPC) each take effect atomically at one instant between their start and end: the outcomes are those of some one-at-a-time order. No operation observes another half-done, deadlocks, or corrupts the chain.",
 [S,H],"all statement-level interleavings of concurrent callers of one chain",
 "Every chain test is single-threaded; atomicity violations need two callers inside the same window.",
 ["tevm/evm.go","tevm/transport.go"],[("chain mutex","tevm/evm.go: Chain.mu"),("RPC dispatch under the mutex","tevm/transport.go: Chain.Execute")],[("State, filters, block2snap, pendingrx","chain state","tevm/evm.go: Chain")],["results of all operations"])
p("T02","Ether is conserved by every chain operation",
 "The total ether in all accounts of a chain changes only by explicit credits, debits and funded account creation; transfers (including to oneself), calls with value, deployments with value, nested calls, self-destructs to another account (a contract that names itself destroys its ether) and failing or out-of-gas executions move or leave ether but never create or destroy it. A transfer moves exactly its value from sender to recipient or nothing, and never more than the sender has.",
 [S,H,F],"all sequences and interleavings of value-moving operations, aborted by gas exhaustion at any instruction, in any account topology including aliasing",
 "Tests move one balance back and forth between two distinct accounts; self-transfers, self-destructs, pre-funded addresses and mid-execution aborts are not covered.",
 ["tevm/evm.go"],[("transfer","tevm/evm.go: dotransfer"),("balance changes","tevm/evm.go: AddBalance, SubBalance, Suicide, CreateAccount")],[("Accounts","balances","tevm/evm.go: State.Accounts")],["balance queries"])
p("T03","A failed transaction changes nothing but its own record",
 "When an execution fails for any reason (revert, invalid instruction, out of gas at any point, insufficient balance, depth), every balance, storage slot, code and log is exactly as if it had not run, at any nesting level of failing inner calls; the failure is reported to the caller and, for a mined transaction, in a receipt with failed status and no logs. A creation that fails leaves no code at its address.",
 [F,H,S],"all abort points (gas limits) of all executed programs, nested to any depth, with other callers interleaved",
 "Rollback is tested once at chain level; partial effects left by an abort at a specific instruction are not.",
 ["tevm/evm.go","tevm/tree.go"],[("journal by snapshots","tevm/evm.go: Snapshot, RevertToSnapshot"),("tree rollback","tevm/tree.go: Rollback")],None,["state queries before and after"])
p("T04","A copy of a chain and its original are fully independent",
 "A copy of a chain has exactly the original's state at the instant of the copy (accounts, storage, code, sealed blocks, transactions, receipts, logs, pending block) and is fully usable; afterwards nothing done to either one, in any order, concurrently or not, to any depth of copies of copies, is observable in the other.",
 [S,H],"all interleavings of operations on original and copies, copies at arbitrary points, copies of copies and of historical views",
 "One test checks one balance in one direction after one copy; sharing bugs need particular sequences of snapshot, append and rollback on both sides.",
 ["tevm/evm.go","tevm/tree.go"],[("copy-on-write trees","tevm/tree.go: CopyAt"),("state copy","tevm/evm.go: Chain.Copy, atSnap")],None,["all queries on both chains"])
p("T05","Sealed history never changes",
 "Once a block is sealed, querying the chain at that block (balances, calls, the block itself, its transactions, receipts and logs) gives the same answers forever, equal to the state at the moment of sealing, whatever is executed, reverted, queried, copied or sealed later. A historical view can be modified without affecting the chain or other views.",
 [S,H,F],"all later histories, including failing executions, estimates and calls at old blocks, view mutations and concurrent callers",
 "One test looks one block back once; corruption of old snapshots needs a later operation that shares their memory.",
 ["tevm/evm.go","tevm/tree.go","tevm/transport.go"],[("per-block snapshots","tevm/evm.go: Seal, AtBlock"),("snapshot views","tevm/tree.go: CopyAt")],[("block2snap","sealed snapshots","tevm/evm.go: Chain.block2snap")],["historical queries over RPC and AtBlock"])
p("T06","Read-only operations have no side effects",
 "Constant calls, gas estimates (successful or failing), balance, block, transaction, receipt and log queries at any block, on the chain or over RPC, leave every observable part of the chain exactly as it was; the code they run may attempt anything. Two identical queries with no write in between give identical answers.",
 [S,H,F],"all programs run by constant calls and estimates, succeeding, failing or running out of gas at any point, interleaved with writers",
 "Tests never compare state before and after a query, nor estimates that fail.",
 ["tevm/transport.go","tevm/evm.go"],[("static calls","tevm/transport.go: staticCall"),("estimate rollback","tevm/transport.go: estimate")],None,["full state comparison around reads"])
p("T07","Receipts, transactions, blocks and logs of a chain agree with each other",
 "For every mined transaction: its hash is unique and appears in exactly one block at its index; its transaction record, its receipt (available once the block is sealed) and every log it emitted name the same block number, block hash, transaction hash and index; the receipt holds exactly the logs emitted; gas used sums up to the cumulative and block totals. Blocks are numbered consecutively and linked by parent hash.",
 [S,H,F],"all histories of mined transactions (several per block, failing, logging, creating), seals, copies, forks and restores, with concurrent callers",
 "No test looks at receipts' block fields, indices or several transactions per block.",
 ["tevm/evm.go","tevm/transport.go"],[("record keeping","tevm/evm.go: Mine, Seal"),("queries","tevm/transport.go: receipt, transaction, getBlock")],None,["RPC queries"])
p("T08","A chain's filters report each matching log once, in order",
 "Over RPC, a filter's full query returns exactly the logs matching its address, topics and block range, in emission order; its successive change polls return every log that matched and appeared since the previous poll or full query, exactly once and in order; a first poll returns at least those that appeared since its creation. A bound left out or negative is open. Polling one filter never affects another, failed transactions contribute nothing, and an uninstalled or unknown filter is an error.",
 [S,H],"all interleavings of log-emitting transactions with polls of several filters of all shapes by concurrent clients",
 "One solc-dependent test (never runs here) uses one filter sequentially.",
 ["tevm/transport.go","tevm/evm.go"],[("per-filter position","tevm/transport.go: filterChanges, filterLogs"),("matching","tevm/evm.go: filter.matches")],[("filters","installed filters","tevm/evm.go: Chain.filters")],["eth_newFilter, eth_getFilterLogs, eth_getFilterChanges, eth_uninstallFilter"])
p("T09","A forked chain is the upstream state at one block, overlaid by local writes",
 "On a fork every read returns the local value if that item was ever written locally, including writes of zero, and otherwise the upstream value at the fork block, however the upstream chain advances meanwhile. Local execution never modifies upstream and never asks it about any other block, and a reverted local write uncovers the right earlier value.",
 [H,S,F],"all programs over local and upstream accounts and slots, with upstream advancing, copies of the fork, reverts and concurrent callers",
 "The one fork test needs the Internet and reads one value.",
 ["tevm/evm.go"],[("fallback reads","tevm/evm.go: getAccount, getCode, GetState"),("zero stored explicitly","tevm/evm.go: SetState")],[("Fallback","upstream client and pinned block","tevm/evm.go: State.Fallback")],["fork reads","requests seen by upstream"])
p("T10","An upstream failure during forked execution is an error, and harmless",
 "If the upstream node fails at any request during an operation on a fork, that operation reports an error and has no effect on the chain; over RPC and in methods that return an error it does not crash the process (methods without an error result panic with the failure, leaving the chain usable), and it does not hang; later operations work normally, and once upstream recovers the same operation gives the same result as if nothing had failed.",
 [F,S,H],"all positions and kinds of upstream failure within every operation, on fork, copy and over RPC, with concurrent callers",
 "No test injects an upstream failure.",
 ["tevm/evm.go","tevm/transport.go"],[("fallback error handling","tevm/evm.go: getAccount, getCode, GetState"),("lock release","tevm/transport.go: Execute")],None,["operation results, later operations"])
p("T11","A chain restored from its saved form continues exactly like the original",
 "Saving a chain at any point of its history, also while other goroutines use it, and restoring it gives a chain on which every query, present and historical, and every subsequent operation gives the same result as on the original, save that installed filters and the connection to an upstream node are not saved. A truncated saved form gives an error and leaves the receiver unchanged; a corrupted one gives an error or a chain, never a panic while restoring.",
 [C,S,H],"all save points in all histories, restored and continued with all continuations; concurrent use while saving; truncated files",
 "One test compares one freshly created chain after one deployment by deep equality, without continuing it.",
 ["tevm/evm.go","tevm/tree.go"],[("serialisation of state and snapshots","tevm/evm.go: MarshalJSON, UnmarshalJSON")],None,["query results of original and restored chain"])
p("T12","State snapshots nest and revert exactly",
 "For any sequence of reads, writes, snapshots and reverts on the state database, reverting to a snapshot restores exactly the balances, nonces, code, storage, self-destruct marks, refund counter and logs at that snapshot, for any nesting and repetition, including snapshots of empty or emptied state, within one block. Reverting never affects sealed history, copies or other snapshots taken earlier.",
 [H,S],"all histories of writes, deletes, snapshots, reverts and copies on one state, by several actors",
 "Only a single rollback of the raw tree is tested; nested reverts, emptied trees and interactions with copies are not.",
 ["tevm/evm.go","tevm/tree.go"],[("composite snapshots","tevm/evm.go: Snapshot, RevertToSnapshot")],[("Snapshots","stack of composite snapshots","tevm/evm.go: State.Snapshots")],["vm.StateDB interface"])
p("T13","The persistent tree is an ordered map with exact snapshots and copies",
 "A tree behaves as an ordered map under insert, delete, get and in-order iteration; rolling back to any snapshot restores exactly the map at that time; a copy taken at any snapshot equals the map at that snapshot. Copies, copies of copies and the original never influence each other, whatever is later inserted, deleted, snapshotted or rolled back on any of them, by any owner in any order.",
 [H,S],"all interleavings of operations by the owners of a tree and of its copies",
 "The test uses 500 random keys with one snapshot and no copies.",
 ["tevm/tree.go"],[("copy-on-write by epoch","tevm/tree.go: setLeft, setRight, setPair"),("snapshots","tevm/tree.go: Snapshot, CopyAt, Rollback")],[("All, Root, Epoch, Snaps","tree state","tevm/tree.go")],["Tree API"])
p("T14","The chain's HTTP endpoint answers every request once and is never wedged",
 "Any HTTP request to a chain, however malformed, truncated or concurrent with others, gets exactly one answer in bounded time, and a well-formed JSON-RPC request (with an integer id) gets the same answer, with its own id, as the in-process call; a request or parameter that fails to parse changes nothing and is answered with an error. No request, including calls that crash or exhaust the virtual machine, ever makes later requests hang or fail.",
 [F,I,S],"all request bodies, truncation points and concurrent requests, with arbitrary contract code",
 "No test uses the HTTP handler.",
 ["tevm/transport.go","tevm/tevmd/main.go"],[("decode, execute, encode","tevm/transport.go: ServeHTTP, Execute")],None,["HTTP responses"])
p("K01","Cached compilation gives exactly what compiling would give",
 "Compiling sources through the cache gives the same bundle or the same failure as running the compiler on those sources, whatever is in the cache: after crashes at any point of writing it, torn, truncated, corrupted or junk cache files, full or failing disks, concurrent compilations in several processes, and earlier compilations of other or differently split sources. A failed compilation is never remembered, and cache trouble never makes a compilation fail.",
 [C,F,S,I],"all crash points, torn and failed writes, corruptions and interleavings of processes sharing one cache directory; all source sets",
 "The compiler tests need solc and never run here; none touches the cache under faults.",
 ["compile.go","compile_gen.go"],[("content-addressed cache name","compile.go: cachename"),("cache read and write","compile.go: cachedBundle, writeCache")],None,["Compile results, cache directory"])
p("K02","Compilation touches nothing outside its own cache entries",
 "Compiling reads the sources and creates, replaces or removes only cache entries for the same source file names in the cache directory; whatever the temporary directory is called and whatever else is in it or in the cache, no other file is created, changed or deleted. The caller's source list is left as given.",
 [CF,F,S],"all temporary directory names and contents, all prior cache contents, failures and concurrent compilations",
 "No test looks at the file system around a compilation.",
 ["compile.go"],[("stale entry cleanup","compile.go: cachedBundle"),("cache path","compile.go: cachename")],None,["file system before and after"])
p("W01","A damaged key file gives an error, never a crash or silently a wrong key",
 "Unlocking a stored key file with its passphrase gives exactly the private key that was stored. With any other passphrase, or after any truncation or corruption of the stored file, it gives that key or an error: it never panics or hangs, and it never returns a different key from a file that records its address or whose authenticated content was altered.",
 [C,F,I],"all truncations, bit flips, torn and field-level corruptions of stored key files, and all wrong passphrases",
 "Tests unlock a few intact files; the space of damaged files is unbounded.",
 ["keyfile.go","signature.go"],[("MAC check before decryption","keyfile.go: checkmac"),("address check","keyfile.go: Private")],None,["Keyfile.Private"])
p("W02","The command-line wallet signs only with the one key the user selected",
 "Every signature or transaction the eth tool produces is made with the unique stored key matching the user's key specification; if none or more than one usable key matches, if the file is unreadable or damaged or the passphrase wrong, it fails without producing a signature or submitting anything. Other files in the key directories, in whatever order they are listed, never change which key is used.",
 [CF,F,I],"all key directories (counts, orders, names, damaged and foreign files, read errors), key specifications and passphrases",
 "The command has no tests.",
 ["cmd/eth/keys.go","cmd/eth/sign.go","cmd/eth/call.go","keyfile.go"],[("key matching","cmd/eth/keys.go: signer, keys")],None,["signature output, submitted transactions, exit status"])
p("W03","Key generation succeeds only if the key is completely stored and usable",
 "If key generation exits successfully, the output holds a complete key file that unlocks with the entered passphrase to a fresh private key; on any error in obtaining randomness, reading the passphrase, or creating, writing or closing the file it exits with failure. Two generations never produce the same key, IV or salt.",
 [F,C],"all failing, short and torn writes, full disks, close errors and randomness failures during generation",
 "The command has no tests and key files are never written through failing storage.",
 ["cmd/eth/keygen.go","keyfile.go","signature.go"],[("write and close checks","cmd/eth/keygen.go: keygen"),("random iv and salt","keyfile.go: ToKeyfile")],None,["exit status, stored file"])
p("W04","The wallet's query commands report exactly what the node answered, or fail",
 "For balance, block, code, read, jumptab, post, recover and keys, the eth command asks the node exactly what was asked for, in order, and if it exits successfully its output holds exactly the node's answers in order (for recover, the only address that can have made the signature; for keys, every usable key file and none else). Each given raw transaction is posted exactly once and in order, and none at all if any input is unreadable or malformed. A lost or unusable answer, a failing file, or bad input ends it with failure, never with a crash, and with no output but what was answered before.",
 [CF,F,I],"all arguments, contract return data, block contents, input files and streams, with lost, failing and malformed answers at any position",
 "The command has no tests; its failure paths need a failing node, file or terminal.",
 ["cmd/eth/balance.go","cmd/eth/block.go","cmd/eth/code.go","cmd/eth/read.go","cmd/eth/jumptab.go","cmd/eth/post.go","cmd/eth/recover.go","cmd/eth/keylist.go","cmd/eth/keys.go","signature.go"],[("errors end the command","cmd/eth/main.go: fatalf"),("point must be on the curve","signature.go: Recover")],None,["standard output, requests at the node, exit status"])
p("H01","The hardware-module registry is safe and faithful under concurrent use",
 "Registering and finding hardware modules from any goroutines, including from inside a probe, never deadlocks, loses a registration or runs the wrong probe: a find after a registration of that name completed calls exactly the first probe registered under exactly that name, once, with the given hints, and returns its result; unknown names give none.",
 [S],"all interleavings of registrations and lookups, with probes that block, register, look up or panic",
 "No test uses the registry concurrently.",
 ["hsm.go"],[("registry lock, released before probing","hsm.go: RegisterHSM, FindHSM")],[("hsmprobes","registered probes","hsm.go")],["FindHSM results"])
p("X01","Hashing, signing and recovery give the same results under concurrency",
 "Any number of goroutines hashing, signing, recovering, encoding and parsing at the same time each get exactly the result the same operation gives when run alone; the inputs are never modified and no shared internal state leaks between operations. Signing is deterministic and every signature recovers to the signer's address, and recovery refuses a signature that nobody can have made.",
 [S],"all statement-level interleavings of concurrent operations on independent and shared inputs",
 "All tests are sequential; shared scratch state would only show under interleaving.",
 ["signature.go","transaction.go","keccak/sha3.go","ec/btcec.go","ec/precompute.go"],[("no shared mutable state","signature.go, keccak/sha3.go, ec/")],None,["operation results"])
p("M01","Binary stream decoding survives short, failing and truncated streams",
 "Encoding any block, transaction, receipt, log or compiled bundle to a stream and decoding it back gives an equal value however the stream is fragmented; if the stream fails or is cut at any byte, decoding returns an error, and an encoder whose stream fails reports the error. Corrupted bytes give a value or an error, never a panic.",
 [F,I],"all fragmentations, cut points, write failures and corruptions of encoded streams of all record kinds",
 "Generated tests round-trip zero values through in-memory buffers only.",
 ["seth_gen.go","compile_gen.go","seth.go"],[("generated codecs","seth_gen.go, compile_gen.go"),("integer codec","seth.go: Int.EncodeMsg/DecodeMsg")],None,["decoded values and errors"])
# not applicable
NA=[]
def na(id,title,statement,over,qtext,why,files,mech,reason):
    p(id,title,statement,over,qtext,why,files,mech); NA.append((id,reason))
na("P01","Contract call encoding follows the ABI specification",
 "For every supported argument list, the encoded call data is the one the Ethereum contract ABI defines, and decoding ABI data of the supported types gives the encoded values.",
 [I],"all signatures and argument values","Tests compare a few fixed encodings.",["send.go"],[("encoder","send.go: ABIEncode"),("decoder","send.go: DecodeABI")],
 "pure function of its arguments: no schedule, clock, I/O, fault or second party for a simulator to control (damaged replies reaching the decoder are decided under C05)")
na("P02","Transaction encoding and signing hash follow the Ethereum specification",
 "For every transaction the encoded bytes and the hash to sign are those defined by RLP and EIP-155 for main net.",
 [I],"all transactions","Tests compare a few fixed vectors.",["transaction.go"],[("RLP","transaction.go: rlpEncoder")],
 "pure function of its input; the sender's use of it under faults is decided by S01")
na("P03","Elliptic-curve and field arithmetic is secp256k1",
 "Every point and field operation gives the mathematically correct secp256k1 result for all inputs.",
 [I],"all scalars, points and field elements","Tests use fixed vectors.",["ec/btcec.go","ec/field.go"],[("field arithmetic","ec/field.go")],
 "pure arithmetic, no nondeterminism or faults; only its use under concurrency is a simulation target (X01)")
na("P04","The hash is Keccak-256/512 for every input and write pattern",
 "The digest of any byte string equals Keccak with the original padding, independent of how writes are split.",
 [I],"all byte strings and splits","Tests use fixed vectors indirectly.",["keccak/sha3.go","keccak/keccakf.go"],[("sponge","keccak/sha3.go")],
 "pure function; concurrent use is decided under X01")
na("P05","Currency amounts convert between text, integer and fractional form exactly",
 "Formatting and parsing currency amounts round-trips exactly for every amount and currency.",
 [I],"all amounts and currencies","Tests use sample values.",["cc/currency.go"],[("conversion","cc/currency.go")],
 "pure function of its input")
na("P06","Text and JSON forms of addresses, hashes, integers and records round-trip",
 "Every value printed in its text or JSON form parses back to the same value.",
 [I],"all values","Tests round-trip samples.",["hex.go","seth.go"],[("hex codec","hex.go")],
 "pure function; damaged text from a node is decided under C05, and stream codecs under M01")
na("P07","Generated Go bindings call the contract function they are named after",
 "For every compiled contract the generated binding compiles and encodes calls to exactly the described functions.",
 [I,"programs"],"all contract descriptions","One golden file is checked when solc is present.",["bindgen/main.go"],[("templates","bindgen/main.go")],
 "a batch source generator, a pure function of the compiler's output with no concurrency, time or faults to simulate; its compile step is decided under K01")
na("P08","Source maps lead from a program counter to its source text",
 "For every compiled contract and program counter, the source text returned is the one the compiler's source map designates.",
 [I],"all bundles and program counters","A solc-dependent test looks at one contract.",["compile.go"],[("source map decoding","compile.go: SourceOf")],
 "pure function of the bundle")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
json.dump([dict(property=a,reason=b) for a,b in NA],open('/verif/tools/na.json','w'))
print(len(P),len(NA))
