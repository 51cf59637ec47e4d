"""Single source of truth: the properties, the drivers that decide them, and
(python3 tools/props.py) the generated properties.jsonl and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BC = "src/CryptoNoteCore/Blockchain.cpp"
TP = "src/CryptoNoteCore/TransactionPool.cpp"
CORE = "src/CryptoNoteCore/Core.cpp"
CUR = "src/CryptoNoteCore/Currency.cpp"
TRUST = "Trusts: the reference model in harness/ (an independent transcription of the rules, compared with the node on every execution), the harness-owned clock and randomness, and the proof-of-work stub. Nothing is claimed beyond the stated bounds."

PROPS = []
def P(id, title, statement, over, text, why, files, mech, runs, level="model_checking", technique="", note="", observe=None, state=None, hook=None, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, runs=runs,
                      level=level, technique=technique, note=note, observe=observe or [], state=state or [], hook=hook, **kw))

CH = [("chain", [])]
TECH = "stateless model checking of the real node: every operation sequence over a closed block/transaction universe up to a depth, each step and end state compared with a reference ledger"
def NOTE(b): return "Exhaustive within: " + b + ". " + TRUST

P("C01", "State depends only on the current chain, not on how it was reached",
  "Whatever sequence of blocks, transactions, branch switches, rollbacks and restarts a node went through, everything it reports about the chain (blocks, transactions, spent outputs, output indexes, deposits, issued coins, difficulty, size limits) equals what a node that processed only the final chain would report. Transactions of abandoned blocks return to the pool unless the new branch contains them.",
  ["histories"], "all delivery orders and interleavings of blocks, transactions, rollbacks and restarts over branching histories",
  "The stable tests never switch branches or roll back; they see single linear histories, so state left behind by undoing a block is never observed.",
  [BC, "src/CryptoNoteCore/BlockIndex.cpp", "src/CryptoNoteCore/DepositIndex.cpp", TP],
  [("undo of a block", BC + " popBlock/popTransaction/removeLastBlock"), ("branch switch", BC + " switch_to_alternative_blockchain"), ("rollback", BC + " rollbackBlockchainTo")],
  CH, technique=TECH, observe=["core query interface after every history", "verdict of every further submission", "block template mined and re-submitted"],
  note=NOTE("13 blocks on 4 branches, 3 submissions, depth 4 (thorough 5); rollback universe of 7 blocks, 5 rollback targets, restart, depth 4 (thorough 6)"))
P("C02", "The node follows the valid branch with the most accumulated work",
  "Among the valid branches it has received, a node's main chain is always one with the greatest accumulated difficulty, independent of arrival order up to ties, and equal work never displaces the current chain. A branch containing an invalid block is never adopted and trying it leaves the previous chain exactly in force; each block's required difficulty and version follow from its own ancestry alone.",
  ["histories"], "all delivery orders of competing branches, including branches across upgrade heights and branches with an invalid block",
  "No stable test delivers a competing branch; fork choice depends on order and on cumulative difficulty of branches that unit tests never form.",
  [BC, CUR], [("alternative block handling", BC + " handle_alternative_block"), ("difficulty of a branch", BC + " get_next_difficulty_for_alternative_chain"), ("failed switch recovery", BC + " rollback_blockchain_switching")],
  CH, technique=TECH, observe=["main chain and alternative blocks after every delivery"],
  note=NOTE("branch universes of 7-13 blocks, depth 4-5 (thorough 5-7), three upgrade heights"))
P("C03", "No output is ever spent twice and only by its owner",
  "No accepted transaction or block spends an output that does not exist, is still locked, was already spent in the same chain, or whose signature was not made by the output's owner over exactly this transaction; amounts never overflow and outputs never exceed inputs. A transaction satisfying all rules is accepted.",
  ["inputs", "histories"], "every listed way a spend can be wrong, submitted directly and inside blocks, in every order with confirmations and reorganisations between",
  "Double-spend and ring-signature suites are not part of the stable tests; those that exist use single histories.",
  [BC, CORE, TP, "src/CryptoNoteCore/CryptoNoteFormatUtils.cpp", "src/crypto/crypto.cpp"],
  [("input validation", BC + " checkTransactionInputs/check_tx_input/validateInput"), ("semantic checks", CORE + " check_tx_semantic"), ("spent set", BC + " m_spent_keys")],
  CH, technique=TECH, observe=["accept/refuse verdict of each submission"],
  note=NOTE("about 25 malformed spends, submitted and mined, depth 2 (thorough 3), plus restarts"))
P("C04", "Coins are created only by the emission schedule, fees and deposit interest",
  "A block is accepted only if its miner transaction claims the scheduled reward (penalised for size over the median) plus the fees of its transactions, within the tolerated rounding; the total of issued coins the node reports equals the sum the schedule prescribes for the chain.",
  ["inputs", "histories"], "every coinbase shape and amount around the allowed one, block sizes around the median and its double, at every order of delivery",
  "Tests check a few heights of the schedule; they do not cover combinations of fees, size penalty, median changes and competing branches.",
  [BC, CUR], [("miner transaction check", BC + " validate_miner_transaction/prevalidate_miner_transaction"), ("reward", CUR + " getBlockReward/baseRewardFunction")],
  CH, technique=TECH, observe=["verdicts; total issued coins; per-height issued coins"],
  note=NOTE("30-40 coinbase/size variants, depth 2-3 (thorough 4), block versions 7 and 8"))
P("C05", "A deposit pays back once, after its term, with exactly the promised interest",
  "Deposited coins cannot be moved before the agreed term, can be withdrawn once by the required key holders, and pay exactly the interest the schedule promises for amount, term and lock height; withdrawing can never claim more. The locked amount and the interest the node reports equal the sums over the chain.",
  ["histories", "inputs"], "all orders of making, confirming, withdrawing and re-withdrawing deposits over two branches, with every listed malformed withdrawal",
  "Deposit tests are linear, use one deposit at a time and do not look at index totals after a withdrawal is undone.",
  [BC, CUR, "src/CryptoNoteCore/DepositIndex.cpp", CORE],
  [("multisignature inputs", BC + " validateInput"), ("interest", CUR + " calculateInterest/calculateTotalTransactionInterest"), ("deposit totals", "src/CryptoNoteCore/DepositIndex.cpp")],
  CH, technique=TECH, observe=["verdicts; deposit and interest totals per height"],
  note=NOTE("two deposits, 8 deposit variants, 15 withdrawal variants, two branches, two interest regimes, depth 3-5 (thorough 4-7)"))
P("C06", "A refused block or transaction leaves no trace",
  "When a block or transaction is refused for any reason, everything the node reports, and its answer to every later message, is the same as if it had never been sent; a valid version of the same block remains acceptable.",
  ["inputs", "histories"], "every kind of invalid block (work, version, time, size, reward, content, order) at every point of a short history",
  "Negative tests check that a bad block is refused, not that indexes, pool and later verdicts are untouched.",
  [BC, TP, CORE], [("block acceptance", BC + " pushBlock"), ("undo on failure", BC + " popTransactions")],
  CH, technique=TECH, observe=["complete dump of the node after every sequence"],
  note=NOTE("about 25 blocks of which 18 invalid, depth 3 (thorough 4)"))
P("C08", "The pool never holds conflicts and its block template is always acceptable",
  "The memory pool admits exactly the transactions that are valid on top of the chain and conflict with no pooled one, forgets them when they expire or are confirmed, survives restarts, and gives back those of undone blocks. A block template built from it always contains only includable transactions, no two in conflict, and once mined is accepted by the same node.",
  ["histories"], "all orders of submissions (own and from blocks), confirmations, branch switches, clock advances and restarts",
  "Pool tests use a stub chain and single submissions; template acceptance is never tested against the real validation after reorganisations.",
  [TP, CORE, BC], [("admission", TP + " add_tx"), ("template", TP + " fill_block_template; " + CORE + " get_block_template"), ("expiry", TP + " removeExpiredTransactions")],
  CH, technique=TECH, observe=["pool content; template; verdict on the mined template"],
  note=NOTE("10 transactions, 4 blocks, 3 clock advances, restart; depth 3 (thorough 4); block versions 7 and 8"))
P("C09", "Checkpointed heights only ever carry the checkpointed blocks",
  "At a checkpointed height no block but the checkpointed one is ever part of the main chain, branches from below a passed checkpoint are refused, and a node started with a chain that contradicts its checkpoints falls back to the last agreeing one. Above the last checkpoint full validation always applies.",
  ["histories", "configurations"], "all delivery orders over competing branches with several checkpoint lists, including restarts with a longer or contradicting list",
  "Checkpoint tests exercise the lookup class alone, never a chain that contradicts it.",
  ["src/CryptoNoteCore/Checkpoints.cpp", BC], [("lookup", "src/CryptoNoteCore/Checkpoints.cpp"), ("enforcement", BC + " pushBlock/handle_alternative_block/checkCheckpoints")],
  CH, technique=TECH, observe=["main chain after each operation"],
  note=NOTE("14 blocks on 5 branches, 4 checkpoint lists, depth 6 (thorough 7)"))

CD = [("codec", [])]
TECHD = "explicit-state enumeration: every point of the stated finite domains is executed on the real code and compared with an independently written reference"
P("C10", "Every block and transaction has exactly one byte form and one id",
  "Writing and reading back any well-formed block, transaction or extra field gives the same object; bytes that are accepted are exactly the bytes the object is written as, so no two byte strings mean the same object and any change to one is either refused or gives another id. Ids, prefix hashes, Merkle roots and the bytes the proof of work covers are those the format defines; shapes and sizes outside the format are refused.",
  ["inputs"], "all combinations of boundary field values, and every single-byte edit, insertion, removal, truncation and length-field change of a corpus of encodings",
  "Tests round-trip a few random objects; they do not show that no second encoding is accepted, nor compare ids with an independent implementation.",
  ["src/CryptoNoteCore/CryptoNoteSerialization.cpp", "src/Serialization/BinaryInputStreamSerializer.cpp", "src/CryptoNoteCore/TransactionExtra.cpp", "src/crypto/tree-hash.c", "src/Common/Varint.h"],
  [("object serialization", "src/CryptoNoteCore/CryptoNoteSerialization.cpp"), ("numbers", "src/Common/StreamTools.cpp readVarint; src/Common/Varint.h"), ("ids", "src/CryptoNoteCore/CryptoNoteFormatUtils.cpp get_block_hash/get_tx_tree_hash"), ("extra fields", "src/CryptoNoteCore/TransactionExtra.cpp")],
  CD, technique=TECHD, observe=["bytes written, objects read, ids computed"],
  note=NOTE("about 400k objects over boundary values, 515k single edits of 11 encodings, 65920 numbers, all triples of 21 extra fields, Merkle trees of 1-70 leaves"))
P("C11", "Signatures, keys and messages belong to their owner",
  "A signature, ring signature or transfer proof is accepted exactly when it was made with the right secret over exactly the given data, and an altered or malleated one is refused. One-time keys derived by the sender are recognised and spendable by the addressee and by nobody else, one key has one key image, and an encrypted message is readable by its addressee only and arrives unchanged.",
  ["inputs"], "every single-bit change of message, keys, images and signatures for rings of 1-4 and each signer position, scalar and point substitutions, all sender/receiver/reader pairs",
  "Crypto tests replay fixed vectors; they do not flip every bit of every component, nor check who else can read or spend.",
  ["src/crypto/crypto.cpp", "src/CryptoNoteCore/CryptoNoteFormatUtils.cpp", "src/CryptoNoteCore/TransactionExtra.cpp", "src/CryptoNoteCore/TransactionPrefixImpl.cpp", "src/crypto/chacha8.c"],
  [("signatures", "src/crypto/crypto.cpp check_signature/check_ring_signature/check_tx_proof"), ("output recognition", "src/CryptoNoteCore/TransactionUtils.cpp findOutputsToAccount"), ("messages", "src/CryptoNoteCore/TransactionExtra.cpp tx_extra_message")],
  CD, technique=TECHD, observe=["verification verdicts, outputs found, text decrypted"],
  note=NOTE("400 key pairs, about 31k altered signatures, 1792 message cases, 150 output searches") )
P("C12", "Text forms read back exactly or are refused",
  "Addresses, recovery phrases, amounts, ids and encoded binary text shown to a user read back as exactly the same value (letter case of phrases and ids does not matter), no two texts of one kind denote the same value by accident, and a mistyped one, one from another network, or one out of range is refused rather than read as something else.",
  ["inputs"], "every single-character edit of addresses, phrases and ids; all short texts over the relevant alphabets; boundary amounts",
  "Tests use a handful of literals; a text that is accepted with another meaning is only found by going through all of them.",
  ["src/Common/Base58.cpp", "src/Common/Base64.cpp", "src/Common/StringTools.cpp", "src/Mnemonics/Mnemonics.cpp", CUR, "src/CryptoNoteCore/CryptoNoteBasicImpl.cpp"],
  [("addresses", "src/Common/Base58.cpp decode_addr; src/CryptoNoteCore/CryptoNoteBasicImpl.cpp"), ("phrases", "src/Mnemonics/Mnemonics.cpp"), ("amounts", CUR + " parseAmount/formatAmount"), ("ids", "src/Common/StringTools.cpp fromHex/podFromHex")],
  CD, technique=TECHD, observe=["value read or refusal"],
  note=NOTE("51k address edits, 81k phrase edits (every word at every place), 2.4M amount texts of up to 7 characters, 266k base-58 texts, 16k id edits, 66k byte strings"))

NET = "src/Serialization/KVBinaryInputStreamSerializer.cpp"
TECHN = "exhaustive enumeration over the real readers and writers: every message type over boundary values, every way the bytes can be cut, every single-byte edit, against a reference reader"
P("C13", "Peers and clients read exactly what was sent, however the bytes arrive",
  "Every peer-to-peer and RPC message written by one side is read by the other with exactly the same field values, in binary and in JSON form, whatever the values are and however the transport cuts the byte stream; a value that does not fit its field is refused, not changed. HTTP requests and responses are read with the method, target, headers and body that were sent.",
  ["inputs", "schedules"], "all message types over boundary field values; all short texts and numbers; every division of the byte stream into reads and writes",
  "Tests send one sample of a few messages in one piece; values with quotes, extreme numbers, or a cut in the middle of a length never occur.",
  [NET, "src/Serialization/KVBinaryOutputStreamSerializer.cpp", "src/Common/JsonValue.cpp", "src/Serialization/JsonInputValueSerializer.cpp", "src/HTTP/HttpParser.cpp", "src/P2p/LevinProtocol.cpp", "src/Rpc/CoreRpcServerCommandsDefinitions.h"],
  [("binary messages", NET), ("JSON", "src/Common/JsonValue.cpp"), ("HTTP", "src/HTTP/HttpParser.cpp"), ("peer protocol framing", "src/P2p/LevinProtocol.cpp")],
  [("net", [])], technique=TECHN, observe=["values read by the receiver", "bytes on the wire"],
  note="Exhaustive within: all peer and RPC message types over boundary values per field, all JSON texts/numbers of bounded length over the relevant alphabet, every one- and two-cut division of the streams. Sockets are replaced by scripted ones.")
P("C14", "No message from outside crashes, hangs or exhausts the node",
  "Whatever bytes a peer or RPC client sends, reading them ends in a message or a refusal: no crash, no memory error, no endless loop, no memory or stack use out of proportion to the bytes received.",
  ["inputs"], "every single-byte edit, truncation, insertion and length-field change of a corpus covering all message types, nesting up to the size limits",
  "No stable test feeds the readers damaged input; the harmful ones are specific length, type or nesting bytes.",
  [NET, "src/Common/JsonValue.cpp", "src/HTTP/HttpParser.cpp", "src/P2p/LevinProtocol.cpp", "src/Serialization/BinaryInputStreamSerializer.cpp"],
  [("length fields", NET), ("nesting", "src/Common/JsonValue.cpp; " + NET), ("HTTP", "src/HTTP/HttpParser.cpp")],
  [("netasan", []), ("net", ["--only", "nesting"])], technique=TECHN, observe=["termination, sanitizer reports, peak allocation"],
  note="Exhaustive within: single edits of a corpus of all message types (address and undefined-behaviour sanitizers on), nesting to the largest accepted message size.")
WG = "src/Wallet/WalletGreen.cpp"
P("C15", "The wallet shows exactly what the chain and the pool say is its own",
  "After the wallet has heard of the current chain and pool, its balances (available, pending, locked and withdrawable deposits, per address and total), unspent outputs, transactions, transfers and deposits are exactly those a scan of that chain and pool with its keys finds, whatever happened before: payments, own sends, deposits, withdrawals, reorganisations, vanished transactions, late notifications, rescans, added and deleted addresses, and spends made elsewhere with the same keys.",
  ["histories"], "all sequences of chain events and wallet operations up to a depth",
  "The stable wallet tests use a generator without reorganisations of real blocks and look at single fields; none compares the whole view with a rescan.",
  [WG, "src/Transfers/TransfersContainer.cpp", "src/Transfers/TransfersConsumer.cpp", "src/Transfers/BlockchainSynchronizer.cpp", "src/Transfers/TransfersSubscription.cpp"],
  [("synchronisation", "src/Transfers/BlockchainSynchronizer.cpp"), ("own outputs and spends", "src/Transfers/TransfersContainer.cpp"), ("cached balances, deposits", WG)],
  [("wallet", [])], technique="stateless model checking: every sequence of chain events and wallet operations up to a depth on the real WalletGreen in front of a real node core, its complete view compared with an independent rescan after every step",
  observe=["balances, outputs, transactions, transfers, deposits after every step"],
  note="Exhaustive within: five sets of 7-10 events, depth 3 (thorough 4), from a base chain of 23 blocks. Trusts the independent rescan in harness/wsim.cpp; the node answers the wallet synchronously; not judged: pool transactions that spend an output the chain no longer has.")

P("C16", "The wallet sends exactly what was asked for, once, or nothing at all",
  "A transaction the wallet makes spends only its own unspent, available outputs of the addresses named, each once; pays every receiver exactly the amount asked for, the fee asked for, a donation within its threshold, and the whole rest as change to the right address; carries the unlock time, time to live, payment id, messages (each readable by its receiver only), mixin, deposit amount and term, or fusion asked for. More is never sent than there is, a malformed request never carried out, a covered and well-formed one never refused. A refused, rolled back or failed request leaves balance, outputs and node as they were; a prepared transaction can be committed once, before or after reopening, or taken back. Deposits can be withdrawn when and only when matured, once, in full. Requests made at the same time do not disturb each other.",
  ["inputs", "histories", "schedules"], "all combinations of request parameters, node behaviours and ways to send, and all orders of simultaneous requests, in stated finite domains",
  "The stable wallet tests check single sends against single fields of the record; none takes the sent transaction apart or follows refusals.",
  [WG, "src/Wallet/WalletUtils.cpp", "src/CryptoNoteCore/TransactionExtra.cpp", "src/Transfers/TransfersContainer.cpp"],
  [("selection, preparation, sending, commit, rollback, deposits, fusion", WG), ("outputs reserved by an unsent transaction", "src/Transfers/TransfersContainer.cpp")],
  [("wallet", [])], technique="exhaustive enumeration of request domains executed on the real WalletGreen in front of a real node core with a fault injector, each sent transaction decoded independently and judged with all receivers' keys, the wallet's complete view compared with a rescan in the pool, in a block and after refusal; plus exploration of all orders of simultaneous requests",
  observe=["the transaction sent", "the wallet's record of it", "complete view after sending, refusal, mining, reopening", "node pool"],
  note="Exhaustive within: receivers x sources x change x mixin (900), fee x ttl x unlock x payment id x messages (324), way to send x node behaviour x mixin x source (768), donations (180), deposits (1080) and fusion (1196); all orders of every pair (thorough: triple) of nine requests with the node's answer to a commit delayed. Choice of decoys is seeded, not enumerated; a transaction the node took but reported as an error may be shown as failed until it is in a block.")

P("C17", "A wallet file survives kills, failing writes and damage without losing a key",
  "Whenever the process is killed - in the middle of a save, rescan, import, deletion, password change, or of opening what an earlier kill left - the wallet file opens again with the old or the new password, holds every address that was there before and after, with its keys, and shows the chain. A file operation that fails makes the step fail or succeed cleanly: running wallet and file agree, and the step can be repeated. A wrong password is refused and changes nothing; exports open with the same keys and never overwrite a file; no two encrypted records share an initialisation vector under one password; a damaged file is refused or opens with the right keys, and never crashes the process.",
  ["crash points", "file errors", "inputs"], "every crash point, every failing file operation, every operation sequence up to a depth, every damaged byte of the key area",
  "The stable tests save and load undisturbed files; no kill, failing write or damaged byte can be sampled by them in any number.",
  [WG, "src/Common/FileMappedVector.h", "src/Platform/Linux/System/MemoryMappedFile.cpp", "src/Wallet/WalletSerializationV2.cpp"],
  [("atomic replacement", "src/Common/FileMappedVector.h"), ("records, passwords, exports, opening", WG)],
  [("wallet", [])], technique="stateless model checking with a fault injector: all operation sequences up to a depth on the real WalletGreen; at each announced change of a file the image a kill leaves (also in the middle of a store into the mapped file) is opened by a new process, itself explored for kills; every file operation fails in turn; every byte of the key area is changed or cut",
  observe=["addresses, keys, full view against the chain after reopening", "file bytes", "initialisation vectors"],
  note="Exhaustive within: 11 operations, depth 2 (thorough 3); kill model: file contents as of the last store (thorough also power cuts with any page subset for the file sizes reached); stores of several separate places between two system calls are not cut apart; a damaged cache may come back with wrong balances, as the format has no checksum over it: only keys and absence of crashes are judged there.")

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            o = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]], hook_needed=p["hook"]))
            f.write(json.dumps(o) + "\n")
    checks = []
    for p in PROPS:
        if p["runs"] is None: continue
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
                           technique=p["technique"], level=p["level"], level_note=p["note"]))
    m = dict(version=1, setup_cmd="python3 tools/build.py --all", checks=checks,
             not_applicable=[dict(property=p["id"], reason=p["na"]) for p in PROPS if p["runs"] is None])
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__":
    main()
