"""Per-property run counts and descriptions."""

DEFAULT = dict(quick=20000, quick_s=45, thorough=1000000, thorough_s=650, race_quick_s=12, race_thorough_s=100)

# Properties about concurrent use: also explored with the worker built with
# the race detector on the packages under test.
RACE = "C01 C02 C03 F01 F02 B01 B02 S01 S02 S04 T01 T04 T08 T09 T10 T11 T14 K01 H01 W01 X01 M01".split()

BUDGETS = {
    "C01": dict(text="1-5 goroutines calling one stream client against a simulated node that answers in any order, with duplicates, stray and late replies, fragmentation, delay and connection loss; each caller must get the value the node sent for its own request"),
    "C02": dict(text="connections that fail at every kind of point (dial, write, read, EOF, garbage, half-open) while 1-5 callers are active; every call must complete within a bound and later calls must redial and succeed once faults stop"),
    "C03": dict(text="the node's log of received requests is compared with the calls made: each call at most once on the wire, and exactly once if it succeeded"),
    "C04": dict(text="every kind of good, failing, malformed and mismatched reply (RPC errors with and without data, both result and error, null, HTTP statuses, damaged JSON) over stream, direct and HTTP transports; the call must return the value sent, or an error of the right kind, and never a value the node did not send"),
    "C05": dict(text="well-formed and byte-damaged replies to every typed call, hostile ABI encodings, and whole client operations against a node that answers anything; no panic, hang or huge allocation, and well-formed replies decode to the value they encode whatever the destination held"),
    "F01": dict(text="1-4 filters on one client over a direct, stream or HTTP node with faults; every log received is compared, in order, with what the node returned to that filter's polls; a filter that was not closed keeps polling or shows the error that ended it"),
    "F02": dict(text="filters closed by consumers that keep receiving or stop, at any moment, under the same faults; the channel must be closed, Close must return, one uninstall request per close, none otherwise, no goroutine left behind"),
    "B01": dict(text="iterators over a chain that grows while it is read, with lost, failing, null and damaged replies; the blocks received must be start, start+1, ... with the contents the node served, none skipped or repeated, and no further than the head"),
    "B02": dict(text="iterators stopped by consumers that keep receiving or do not, at any moment; channel closed and goroutine gone within a bound, no requests afterwards"),
    "S01": dict(text="senders with and without signers, shared by 1-3 goroutines, against a node with a transaction pool; each submission is decoded by an independent RLP/JSON decoder and compared field by field with what was asked for, the estimate and the pending nonce; faulty signers and lost or bad answers at any step"),
    "S02": dict(text="Wait against transactions mined at chosen times, dropped, or never known; success only after the node reported the transaction mined, and it returns once it does"),
    "S03": dict(text="contract creations that succeed, fail, or get lost; the address returned must be that of a receipt with success status for the submitted transaction"),
    "S04": dict(text="Drain against a pool of the sender's and other accounts' transactions; success only when the pending block has none of the sender's; every one found is prompted for and waited for"),
    "S05": dict(text="cancelling pending, mined and unknown transactions; same nonce, to self, no value or data, strictly higher price"),
    "T01": dict(text="2-4 goroutines issuing sends, calls, deployments, mining, sealing, queries, filter polls, copies and AtBlock views on one chain through Go methods, in-process RPC and HTTP; the recorded history is searched for a one-at-a-time order (starts and ends respected) that an executable reference model of the chain explains"),
    "T02": dict(text="programs of transfers (aliased, to self, above balance), calls with value, creations, self-destructs and nested calls of generated contracts, aborted by gas limits; the sum over all accounts is compared with explicit credits and debits after every operation, and every balance with the reference model"),
    "T03": dict(text="executions aborted by a gas limit drawn over the whole range the program uses, by reverts, invalid instructions, failing inner calls and creations at any depth; the whole chain state is compared before and after"),
    "T04": dict(text="chains, copies, copies of copies and of views used in any order, sequentially and concurrently; every query of every chain is compared with that chain's own reference model"),
    "T05": dict(text="dumps of every query at a sealed block are taken at sealing and compared after later transactions, reverts, failing estimates, view mutations, copies and seals"),
    "T06": dict(text="constant calls, estimates and queries (succeeding, failing, out of gas, at old blocks) between complete dumps of the chain that must be equal; repeated queries must agree"),
    "T07": dict(text="histories of mined, logging, failing and creating transactions, several per block; all records are fetched over RPC and cross-checked against each other and the reference model"),
    "T08": dict(text="several filters of all shapes polled in any interleaving with log-emitting transactions by sequential and concurrent clients; each answer is compared with a reference filter"),
    "T09": dict(text="a fork of a simulated upstream chain that advances meanwhile; reads are compared with upstream-at-fork overlaid by local writes, and every upstream request must name the fork block"),
    "T10": dict(text="upstream requests that fail, vanish or are damaged at any position of any operation on a fork, its copies, or over RPC; the operation must report an error, the chain dump must be unchanged, and after recovery the operation must give the reference result"),
    "T11": dict(text="chains saved at any point, also while other goroutines use them, restored and continued together with the original; saved forms truncated at any byte or corrupted"),
    "T12": dict(text="sequences of state-database reads, writes, snapshots and reverts, several actors with copies; every value is compared with a stack-of-maps model"),
    "T13": dict(text="insert, delete, get, iterate, snapshot, copy and rollback on a tree, copies and copies of copies, in any interleaving, compared with ordered-map models"),
    "T14": dict(text="well-formed, malformed, truncated and concurrent HTTP requests, with generated contract code, to the chain's handler; every answer is compared with the in-process answer of a twin chain, later requests must still be answered"),
    "K01": dict(text="1-3 simulated processes compile related sets of sources (other splits, orders, bodies, names) through one cache directory with a simulated compiler; open, read, write, close, rename and remove errors, short reads, full disks, process crashes in the middle of writes, power loss with torn files, damage at rest, failing compilers; every result is compared with what the compiler gives for those sources"),
    "K02": dict(text="the same workload with temporary directories of all kinds of names and other files around; every modification of the file system is attributed to the compilation that made it and must be within the cache directory, on an entry that compilations of the same file names made"),
    "H01": dict(text="goroutines register, look up and probe simulated key-storage modules whose constructors may block, fail or be called concurrently, in processes that start anew; the recorded history is compared with a reference registry"),
    "W01": dict(text="stored key files of all formats truncated, with flipped, removed or swapped bytes, with altered JSON fields and derivation parameters, opened with right and wrong passphrases by one and by several goroutines, also when randomness fails; unlocking must give the stored key or an error"),
    "W02": dict(text="the eth command (sign, call) executed as a process on a simulated machine with key directories of intact, damaged, unreadable and foreign files, hardware modules, wrong passphrases, failing terminals, input and output files, and a simulated node behind IPC or HTTP; whoever signed is recovered independently and compared with the one key the specification selects"),
    "W03": dict(text="eth keygen executed as a process on a simulated machine with failing randomness, terminal, file creation, short and failing writes, full disks, failing close, crashes, and closed or full standard output; and concurrent generations through the library; what was stored is decrypted independently"),
    "W04": dict(text="the eth command (balance, block, code, read, jumptab, post, recover, keys) executed as a process on a simulated machine with a simulated node behind IPC or HTTP; generated arguments, blocks, return values and code, answers that are lost, errors or malformed, failing files, standard input and output; requests, output and exit status are compared with what the node answered, recovered signers with an independent implementation"),
    "X01": dict(text="2-5 goroutines hashing, signing, recovering, encoding and parsing shared inputs, with preemption inside the hash, curve and encoder code; results are compared with independent implementations and with the same operation alone"),
    "M01": dict(text="records of all kinds encoded to and decoded from streams cut, failing or fragmented at any byte, from memory, into new and used variables, by concurrent goroutines, and with corrupted bytes"),
}

TEXT = dict(
    real="github.com/philhofer/seth (root package), seth/tevm, seth/ec, seth/keccak and cmd/eth, rebuilt from /repo's working tree with preemption points inserted; encoding/json, compress/gzip, msgp, go-ethereum's EVM interpreter and net/http's client run unmodified",
    stubs="network connections, HTTP round trips, Ethereum nodes, file system, child processes (solc), terminal, clock, goroutine scheduler, locks, randomness, password hashing (cheap deterministic stand-in)",
    assumptions=[
        "goroutines are preempted between statements, at channel, lock, sleep and I/O operations of seth's own packages; not inside the standard library, go-ethereum or msgp",
        "memory is sequentially consistent",
        "search is by seeded sampling: a clean batch is evidence, not proof",
    ],
)
