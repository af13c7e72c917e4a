#!/usr/bin/env python3
"""Writes known-findings.json: the repairs made in /repo (fixed, suppress
nothing) and the findings that are recorded instead of repaired (match)."""
import json, os, subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# subject of the fix commit (without "fix: ") -> property, what failed
FIXED = {
    "decode stream replies into a variable private to each connection's reader": ("C01", "the readers of two connections of one stream client shared one variable, so a reply on a new connection could be handed to the wrong caller or decoded into another reply while the old reader was still ending"),
    "do not hold the connection lock while writing a request": ("C02", "a write that blocks on a half-open connection kept the lock that aborting the connection needs: every caller hung forever"),
    "keep filter ids that do not fit 64 bits": ("F01", "the filter id was truncated to 64 bits, so the filter polled another filter or none"),
    "let a closed filter end although nobody receives its logs": ("F02", "a closed filter whose consumer stopped receiving never closed its channel and leaked its goroutine"),
    "let a stopped block iterator end although nobody receives its blocks": ("B02", "a stopped iterator whose consumer stopped receiving never ended"),
    "count on from the latest block when iterating from Latest": ("B01", "an iterator started from Latest went on with block 0"),
    "outbid gas prices that do not fit 64 bits when cancelling": ("S05", "the replacement price was computed in 64 bits and could be lower than the price of the transaction to replace"),
    "do not report the address of a contract whose creation failed": ("S03", "Create returned the address in the receipt of a creation whose status says it failed"),
    "drain the transactions of the sender from the pending block": ("S04", "Drain looked at the latest block instead of the pending one and compared address pointers, so it returned at once with transactions pending"),
    "refuse to sign a transaction whose gas does not fit 64 bits": ("S01", "a gas amount above 64 bits was truncated in the signed transaction"),
    "treat signatures with a recovery id other than 0 or 1 as invalid": ("S01", "a signer returning v+27 passed the sender's check and produced a raw transaction no node accepts"),
    "report a nonce that does not fit 64 bits as an error": ("S01", "a transaction was signed with a truncated nonce"),
    "encode the quantity zero as 0x0": ("S01", "a zero value, price or nonce was submitted as \"0x\", which is no quantity"),
    "decode hex into a destination that already holds a value": ("C05", "decoding a hash, address or other fixed-size value into a variable already used mixed the bits of both values"),
    "report quantities that do not fit in an int64": ("C05", "a hash rate, gas price or block number above 63 bits was returned as a negative number"),
    "check every bound while decoding ABI values": ("C05", "hostile or truncated ABI data made DecodeABI panic or allocate without bound; an address was always taken from the first argument; empty trailing strings were refused; bytes32[] elements panicked"),
    "keep older snapshots of a tree that was emptied and rolled back": ("T13", "rolling back to the snapshot of an emptied tree dropped every earlier snapshot, so a later rollback panicked or restored the wrong map"),
    "do not append to memory shared by a tree and its copies": ("T13", "a tree rolled back below a copy appended new nodes over the nodes and snapshots the copy still used"),
    "leave the balance alone in a transfer from an account to itself": ("T02", "a transfer to oneself created its value out of nothing"),
    "take the balance of a contract that self-destructs": ("T02", "the beneficiary was credited but the destroyed contract kept its ether"),
    "keep the balance of an address when a contract is created there": ("T02", "ether already at the address of a new contract was destroyed"),
    "do not overwrite logs shared with copies after a revert": ("T12", "after a revert new logs were appended over logs that a copy or historical view still listed"),
    "undo a failed CreateAt": ("T03", "a constructor that failed left an account, storage and logs behind"),
    "set the gas price that contracts can ask for": ("T14", "the GASPRICE instruction crashed and left the chain locked for ever"),
    "fill in the block and position of receipts and logs": ("T07", "receipts had no block number, index or cumulative gas and logs no index"),
    "give the first block of a fork the hash of its number": ("T09", "the first block of a fork had the hash of block 100, so it could not be found by its hash and a second block could share it"),
    "do not keep the memory of a caller as a key of the account tree": ("T09", "account keys pointed at memory of the caller, so changing that variable corrupted the account tree"),
    "see contracts without nonce and balance on a forked chain": ("T09", "an upstream contract without nonce and balance was taken for a missing account, and calls to it did nothing"),
    "copy the sealed blocks and pending receipts of a chain too": ("T04", "a copy had no sealed blocks or receipts of pending transactions, shared the pending block, and panicked when sealed"),
    "keep changes to a historical view out of the chain": ("T05", "changing or sealing a view of a block wrote to the chain or panicked"),
    "save the receipts of the pending block with a chain": ("T11", "receipts of transactions pending when the chain was saved were lost"),
    "hold the lock of a chain in all its methods": ("T01", "several methods did not take the lock and a panic left it locked"),
    "undo a gas estimate that fails": ("T06", "a gas estimate that failed left its changes in the pending state"),
    "turn a failure to read the fallback chain into an error": ("T10", "an upstream error crashed the process with the chain locked"),
    "understand block numbers written as hex strings": ("T05", "a query at a block number given as a hex string was refused"),
    "refuse requests whose parameters do not parse": ("T14", "parameters that did not parse were ignored and the request executed without them"),
    "allow filters from a given block on": ("T08", "a filter with a first block and no last block was refused"),
    "do not repeat logs already returned by a full filter query": ("T08", "a change poll returned the logs that a full query had already returned"),
    "leave the pending block alone when answering a query for it": ("T06", "querying the pending block with full transactions replaced the transaction list of the pending block"),
    "answer queries for the latest and pending blocks": ("T07", "latest and pending blocks were not found"),
    "let a filter without block range match up to the latest block": ("T08", "a filter created without a block range stopped matching at the block that was pending when it was created"),
    "do not take large filter ids for those of other filters": ("T08", "a filter id above 63 bits was truncated and polled or removed a different filter"),
    "hide blocks sealed later from a historical view": ("T05", "a view of a block returned blocks by number that were sealed after it"),
    "give a historical view the refund counter of its block": ("T12", "a view of a sealed block had the refund counter of the pending state"),
    "do not run more gas than a block holds for a request": ("T14", "a request with huge gas to a contract that loops never ended and blocked the chain"),
    "number the files of a bundle like the compiler does": ("K01", "a source without contracts made Compile panic (index out of range), and the sources of a bundle were listed in the caller's order instead of the compiler's"),
    "return an error for contracts whose code is not linked": ("K01", "Compile panicked on the output for a contract that needs a library linked"),
    "do not sort the list of sources of the caller of Compile": ("K02", "Compile sorted its caller's list of sources in place"),
    "tell sources apart that only differ in where they are split": ("K01", "sources with other file names or bodies but the same concatenation of all of them got the bundle cached for the others"),
    "look for stale bundles in the cache directory only": ("K02", "with a '-' in the path of the temporary directory Compile deleted every file and empty directory next to it with the same beginning; with wildcards in the path it deleted entries of other directories"),
    "do not use cached bundles that are damaged": ("K01", "the checksum of a cache entry was not verified, so a damaged entry, or one cut off by a crash or a full disk, could give a wrong bundle"),
    "keep a copy of the address of fetched code": ("T09", "code fetched from upstream was filed under an address in memory of the caller, who may use it again, so other contracts got that code"),
    "keep a copy of the hash of a mined transaction": ("T07", "the record of a mined transaction was filed under a hash in memory of the caller of Mine, so mining the same struct again lost the first record"),
    "keep the code of a contract when the caller modifies the result of Mine": ("T07", "Mine of a creation returned the memory of the stored code of the new contract"),
    "return an error for a key file whose iv has the wrong length": ("W01", "a key file whose iv is not 16 bytes long made Private panic"),
    "refuse key files with unusable key derivation parameters": ("W01", "a key file with derivation parameters that are zero, negative or huge (rounds, key length, n*r*p) made Private panic, hang, or run the process out of memory"),
    "refuse key files whose private key has the wrong length": ("W01", "a key file whose ciphertext is longer or shorter than a private key unlocked to a truncated or padded key"),
    "sign with the key that matches rather than the last one listed": ("W02", "with several keys in the key directories eth sign and eth call used the key listed last, whichever key matched"),
    "hand out copies of the logs of a chain": ("T07", "Chain.Logs handed out the memory of the chain's logs, so a caller that modified them changed records and receipts"),
    "a signature that nobody can have made recovers to some address": ("W04", "Signature.Recover (and eth recover) gave an address for an r that is not the x-coordinate of a point on the curve"),
    "reporting a bad or missing function crashes eth read and eth call": ("W04", "eth read and eth call indexed an argument that may not exist when reporting a malformed or missing function"),
    "a range of blocks before the first shows the latest and pending blocks": ("W04", "eth block with a range that reaches below block 0 asked for negative block numbers, which mean latest and pending"),
    "a range of blocks from a pending block without a number crashes eth block": ("W04", "eth block with a range that starts at a pending block dereferenced its missing number"),
}

KNOWN = [
    dict(property="M01", match="out-of-memory: decoding", what="a 32-bit array header in corrupted bytes (element count up to 4294967295) makes the generated decoders of Receipt.Logs, Block.Uncles, Log.Topics and CompiledBundle allocate that many elements at once, which ends the process; the code is generated by msgp v1.1.0, which has no limit option, and must not be edited by hand"),
]


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True, check=True).stdout
    out, seen = [], set()
    for line in reversed(log.strip().split("\n")):
        h, subj = line.split(" ", 1)
        if not subj.startswith("fix: "):
            continue
        prop, what = FIXED[subj[5:]]
        seen.add(subj[5:])
        out.append(dict(property=prop, fixed="fixed: property=%s %s %s" % (prop, h, what)))
    assert seen == set(FIXED), set(FIXED) - seen
    json.dump(dict(findings=KNOWN + out), open(os.path.join(HERE, "known-findings.json"), "w"), indent=1)
    print(len(KNOWN), "known,", len(out), "fixed")


if __name__ == "__main__":
    main()
