#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)

YIELD = "none in /repo: statement-level yield points are compiled in from a build overlay"

p("C01", "Transactions cross an unreliable network intact or are refused",
  "A transaction serialised by one party and delivered whole is rebuilt by every receiver, over any number of hops, with the same fields, the same bytes and the same transaction id. A delivery that was cut short at any byte, extended or altered in transit is either refused with an error or rebuilt as exactly the transaction its bytes denote, and it never crashes the receiver.",
  ["inputs", "fault_sequences", "schedules", "crash_points"],
  "every transaction (any number of inputs and outputs, any script sizes), every sequence of relay hops, losses, repeats, delays, truncations, extensions and bit changes, every crash of a relaying node",
  "The tests parse six well-formed hex strings and never compare what was re-serialised; no damaged, truncated or large transaction is ever delivered.",
  ["transaction/Transaction.go", "transaction/input/Input.go", "transaction/output/Output.go", "utils/VarInt.go", "utils/ByteManipulation.go"],
  [("NewFromBytes / NewFromString", "transaction/Transaction.go"), ("ToBytes / GetTxID", "transaction/Transaction.go"), ("VarInt / DecodeVarInt", "utils/VarInt.go")],
  observe=["transaction.NewFromBytes", "transaction.NewFromString", "Transaction.ToBytes", "Transaction.GetTxID"], hook=YIELD)

p("C02", "A parsed transaction shares no memory with its buffer or its other parts",
  "Once parsed, a transaction keeps its value: reusing or overwriting the buffer it was read from, or editing or extending one of its scripts, never changes any other part of it, any other transaction, or the buffer. Bytes handed out by serialisation can be modified freely without affecting the transaction they came from.",
  ["histories", "schedules"],
  "every history of receiving into a reused buffer, parsing, editing scripts, serialising and overwriting handed-out bytes",
  "Tests parse one string and drop it; aliasing only shows in a later, unrelated step of a longer history.",
  ["transaction/Transaction.go", "transaction/input/Input.go", "transaction/output/Output.go", "script/Script.go"],
  [("input.NewFromBytes / output.NewFromBytes take scripts out of the receive buffer", "transaction/input/Input.go, transaction/output/Output.go"), ("Script append operations", "script/Script.go")],
  state=[("UnlockingScript, LockingScript", "script bytes owned by one input or output", "transaction/input/Input.go, transaction/output/Output.go")],
  observe=["Transaction.ToBytes", "Script.AppendPushData", "Script.AppendOpCode"], hook=YIELD)

p("C03", "Inputs and outputs are read from a stream at exact record boundaries",
  "When the inputs or outputs in a byte stream are decoded one after another while the stream arrives in arbitrary pieces, each record is recovered exactly and its reported size equals its encoded length. An incomplete record is always refused with an error, never decoded early and never crashing the reader, so retrying as more bytes arrive recovers the whole sequence.",
  ["inputs", "schedules", "fault_sequences"],
  "every sequence of encoded inputs and outputs, every way the stream is cut into pieces, every stall, connection loss and resumption",
  "One complete input and one complete output are decoded by the tests; no partial record ever is.",
  ["transaction/input/Input.go", "transaction/output/Output.go", "utils/VarInt.go"],
  [("input.NewFromBytes returns the bytes consumed", "transaction/input/Input.go"), ("output.NewFromBytes returns the bytes consumed", "transaction/output/Output.go"), ("DecodeVarInt", "utils/VarInt.go")],
  observe=["input.NewFromBytes", "output.NewFromBytes"], hook=YIELD)

p("C04", "Signatures from independent signers assemble into a valid transaction",
  "When several parties sign their inputs of one shared transaction in any order, over a network that loses, repeats, delays and reorders messages, with parties crashing and recovering, every unlocking script produced holds a valid signature by the right key over the ForkID signature hash of exactly that transaction and input, in the strict encoding the network demands, followed by the requested flag and the public key. Once faults stop, the assembled transaction becomes completely and validly signed.",
  ["schedules", "fault_sequences", "crash_points", "inputs"],
  "every number of parties, keys and inputs, every order of signing and merging, every loss, repeat, delay, reordering, crash and restart of a party",
  "One input is signed by one key with one flag in the tests.",
  ["transaction/signature/InternalSigner.go", "transaction/SignatureHash.go", "transaction/Transaction.go", "script/UnlockingScript.go"],
  [("InternalSigner.Sign / SignAuto", "transaction/signature/InternalSigner.go"), ("GetInputSignatureHash", "transaction/SignatureHash.go"), ("ApplyUnlockingScript", "transaction/Transaction.go"), ("NewP2PKHUnlockingScript", "script/UnlockingScript.go")],
  observe=["Transaction.Sign", "Transaction.SignAuto", "Transaction.ApplyUnlockingScript", "Transaction.ToBytes"], hook=YIELD)

p("C05", "A signature covers exactly what its flag says, under any later edits",
  "After an input is signed, an edit by any party to the version, lock time, inputs, sequence numbers, outputs, or the spent amount and script makes that signature invalid if and only if the edited part is covered by its ForkID signature-hash flag (ALL, NONE or SINGLE, each with or without ANYONECANPAY). This holds for every sequence of edits and signings, and undoing an edit makes the signature valid again.",
  ["histories", "schedules", "inputs"],
  "every interleaving of signing and editing by several parties, all six ForkID flag combinations, every transaction shape including fewer outputs than inputs",
  "Three fixed transactions are hashed with a single flag; no transaction is ever edited after signing.",
  ["transaction/SignatureHash.go", "transaction/signature/sighash/SigHashFlag.go", "transaction/signature/InternalSigner.go", "transaction/output/Output.go"],
  [("GetInputSignatureHash and its per-flag parts", "transaction/SignatureHash.go"), ("flag values", "transaction/signature/sighash/SigHashFlag.go")],
  observe=["Transaction.GetInputSignatureHash", "Transaction.Sign"], hook=YIELD)

p("C06", "Automatic signing signs the key's own inputs and nothing else",
  "Automatic signing with a key gives a valid unlocking script to every input that spends a pay-to-public-key-hash output of that key and whose previous output is known, and leaves every other input, every output and all other fields byte for byte as they were. This holds for any mix of foreign, missing and damaged previous scripts and any order, repetition and interleaving of signers; repeating it changes nothing.",
  ["histories", "schedules", "inputs", "fault_sequences"],
  "every mix of inputs owned by several keys, with foreign, absent or damaged previous scripts; every order and repetition of signers, interleaved on other transactions",
  "The only test signs a transaction whose single input belongs to the key.",
  ["transaction/signature/InternalSigner.go", "script/Script.go", "transaction/Transaction.go"],
  [("InternalSigner.SignAuto matches previous scripts to the key", "transaction/signature/InternalSigner.go"), ("GetPublicKeyHash", "script/Script.go")],
  observe=["Transaction.SignAuto", "Transaction.ToBytes"], hook=YIELD)

p("C07", "A failed signing request changes nothing and can be retried",
  "If signing an input fails, because the external signer reports an error or returns no transaction, the input does not exist or its previous output is not known, the caller gets an error, never a crash, and the transaction is left exactly as it was; when the cause is removed the same request succeeds with the result it would have had without the failure. If signing succeeds, the transaction becomes exactly what the signer returned. Automatic signing never reports success when an input it matched could not be signed.",
  ["fault_sequences", "histories"],
  "every sequence of signing requests to local and external signers, failing at any point of the sequence and retried",
  "No test makes a signer fail or asks for an input that cannot be signed.",
  ["transaction/Transaction.go", "transaction/Signer.go", "transaction/signature/InternalSigner.go", "transaction/SignatureHash.go"],
  [("Transaction.Sign / SignAuto over the Signer interface", "transaction/Transaction.go"), ("ApplyUnlockingScript bounds", "transaction/Transaction.go"), ("missing previous output errors", "transaction/SignatureHash.go")],
  observe=["Transaction.Sign", "Transaction.SignAuto", "Transaction.ApplyUnlockingScript"], hook=YIELD)

p("C08", "Cosigners derive the same multisig script and address in any key order",
  "Parties that collect the same cosigner keys, in any order and with any interleaving of reads, obtain the same redeem script, script hash and address: an m-of-n script listing each collected key once in ascending order. Importing the equivalent Electrum redeem script gives the same result as adding the keys one by one. A damaged extended key is refused without changing the keys collected so far, a damaged Electrum script never crashes the importer, and reading the script or address never changes what later reads return.",
  ["schedules", "fault_sequences", "histories", "inputs"],
  "every threshold 2..15 and number of keys up to 15, every delivery order, every damage to a delivered key or script, every interleaving of readers",
  "Two fixed keys are added in both orders; no damaged key is delivered and readers never overlap.",
  ["script/RedeemScript.go", "utils/ByteManipulation.go", "script/address/Address.go"],
  [("GetRedeemScript sorts keys", "script/RedeemScript.go"), ("AddPublicKey derivation", "script/RedeemScript.go"), ("NewRedeemScriptFromElectrum", "script/RedeemScript.go")],
  state=[("RedeemScript.PublicKeys", "keys collected so far", "script/RedeemScript.go")],
  observe=["RedeemScript.GetRedeemScript", "RedeemScript.GetAddress", "RedeemScript.GetRedeemScriptHash"], hook=YIELD)

p("C09", "Concurrent use gives the sequential results and never races",
  "Any number of threads may use the library at once, calling its functions, serialising, hashing, inspecting and parsing shared transactions, scripts, redeem scripts and buffers, or signing different transactions with one shared signer: under every interleaving each call returns what it would return alone, without data races. No such call writes to the shared objects it reads or to memory around the slices it is given.",
  ["schedules", "programs"],
  "every program of reading calls on shared objects and of any calls on private ones, over two or more threads, under every interleaving of their statements",
  "Every test is single-threaded.",
  ["script/RedeemScript.go", "transaction/signature/InternalSigner.go", "block/BuildMerkleRootFromCoinbase.go", "crypto/Encryption.go", "utils/ByteManipulation.go", "transaction/Transaction.go", "script/Script.go"],
  [("reading calls leave their receivers and arguments unwritten", "all packages"), ("no mutable package-level state", "all packages")],
  observe=["every exported function and method"], hook=YIELD)

p("C10", "Miners and pool agree on coinbase, Merkle root and block header",
  "For every block template and any assignment of extra nonces, the coinbase a miner joins from the two halves, the Merkle root it computes from the branches and the header it builds from the job are exactly those of the block the pool assembles from the share, whatever the loss, repetition, delay and staleness of jobs and shares, and a share solves the block exactly when its hash does not exceed the expanded target. The coinbase is a well-formed transaction that pays the whole value to the pool's address, carries the witness commitment and miner id outputs requested, starts its input data with the height and never exceeds 100 bytes of input data. Malformed target bits, addresses and commitments are refused with an error, never a crash.",
  ["schedules", "inputs", "fault_sequences"],
  "every template (any number of transactions, height, value, text, commitment, miner id), every number of miners, every delivery order of jobs and shares, every damage to the textual job fields",
  "One Merkle path and three target values are computed; no coinbase or header is ever built by a test.",
  ["block/GetCoinbaseParts.go", "block/GetMerkleBranches.go", "block/BuildMerkleRootFromCoinbase.go", "block/BuildBlockHeader.go", "block/Difficulty.go"],
  [("GetCoinbaseParts / BuildCoinbase", "block/GetCoinbaseParts.go"), ("GetMerkleBranches", "block/GetMerkleBranches.go"), ("BuildMerkleRootFromCoinbase", "block/BuildMerkleRootFromCoinbase.go"), ("BuildBlockHeader", "block/BuildBlockHeader.go"), ("ExpandTargetFrom, ExpandTargetFromAsInt", "block/Difficulty.go")],
  observe=["block.GetCoinbaseParts", "block.BuildCoinbase", "block.GetMerkleBranches", "block.BuildMerkleRootFromCoinbase", "block.BuildBlockHeader", "block.ExpandTargetFrom", "block.ExpandTargetFromAsInt"], hook=YIELD)

p("C11", "Damaged or misplaced Merkle proofs never verify",
  "For every transaction of every block, its Merkle path delivered intact recomputes to the block's Merkle root. A path, position or transaction id whose value was damaged (its hex digits' case aside), cut short, extended, reordered or swapped with that of another transaction or block is refused or recomputes to a different root (except that a node paired with itself may be placed on either side), and never crashes the verifier.",
  ["inputs", "fault_sequences", "schedules"],
  "every block size and position, every damage to path, position and transaction id in transit from one or more proof servers",
  "One valid path is verified; no damaged proof is ever tried.",
  ["block/GetMerkleBranches.go"],
  [("MerkleRootFromBranches", "block/GetMerkleBranches.go")],
  observe=["block.MerkleRootFromBranches"], hook=YIELD)

p("C12", "A damaged address is never accepted or paid",
  "Every address derived from a public key or its hash, on either network, is accepted wherever addresses are validated, parsed or paid to, and paying it locks the coins to exactly that hash. An address changed in transit, by characters altered, lost, added, repeated or swapped, is refused by validation, by parsing and by every way of paying to an address, as are texts of other kinds such as pay-to-script-hash addresses, and the refusal leaves the transaction being built unchanged.",
  ["inputs", "fault_sequences", "histories"],
  "every key and hash, both networks, every sequence of payment requests whose address text is damaged in transit (text whose version and checksum are again those of a supported address excepted)",
  "Two valid, one short and one unsupported address are tried; no address with a wrong checksum is.",
  ["script/address/Address.go", "script/address/AddressValidation.go", "script/Script.go", "transaction/Transaction.go", "transaction/output/Output.go", "block/GetCoinbaseParts.go"],
  [("NewFromString", "script/address/Address.go"), ("ValidateAddress", "script/address/AddressValidation.go"), ("NewP2PKHFromAddress, PayTo", "script/Script.go, transaction/output/Output.go, transaction/Transaction.go")],
  observe=["address.ValidateAddress", "address.NewFromString", "Transaction.PayTo", "output.NewP2PKHFromAddress", "script.NewP2PKHFromAddress"], hook=YIELD)

p("C13", "BIP276 texts decode to what was encoded and damaged ones are refused",
  "A script or template encoded as a BIP276 text for any network and version from 1 to 255 is decoded by every receiver to the same prefix, network, version and data, and a bitcoin-script text is accepted by address validation. A text altered (other than in the case of its hex digits), cut short or extended in transit is refused with an error, by decoding and by validation, and never crashes the receiver.",
  ["inputs", "fault_sequences"],
  "every data, network and version, every damage to the text in transit (text whose checksum is again correct excepted)",
  "One text with network and version 1 is decoded; no damaged text is.",
  ["script/address/BIP276.go", "script/address/AddressValidation.go"],
  [("EncodeBIP276 / DecodeBIP276", "script/address/BIP276.go"), ("ValidateAddress prefix dispatch", "script/address/AddressValidation.go")],
  observe=["address.EncodeBIP276", "address.DecodeBIP276", "address.ValidateAddress"], hook=YIELD)

p("C14", "Encryption uses fresh randomness for every message or fails",
  "Every ciphertext begins with a 16-byte initialisation vector made of bytes the system randomness source delivered during that call and to no other call, however the source splits its reads and however callers interleave. If the source fails before delivering enough, encryption reports an error and returns no ciphertext, and later calls succeed once the source recovers.",
  ["fault_sequences", "schedules"],
  "every sequence and interleaving of encryptions with the randomness source returning short reads, errors or end of file at any byte",
  "Encryption has no test at all, and a test cannot make the randomness source fail at each point.",
  ["crypto/Encryption.go"],
  [("Encrypt reads its initialisation vector from crypto/rand.Reader", "crypto/Encryption.go")],
  observe=["crypto.Encrypt"], hook="crypto/rand.Reader, an existing seam; " + YIELD)

p("C15", "A stored ciphertext can be decrypted again and again, from any thread",
  "Decrypting an intact ciphertext with its key returns exactly the plaintext, any number of times, after restarts and from any number of concurrent readers of the same stored bytes, and leaves those bytes and the plaintext given to encryption unchanged. A ciphertext torn off inside its initialisation vector is refused with an error, and no damaged ciphertext crashes the reader.",
  ["histories", "schedules", "crash_points", "fault_sequences"],
  "every plaintext and key, every history of stores, reads, crashes with torn or lost writes and restarts, every interleaving of readers sharing the stored bytes",
  "Decryption has no test at all; reuse of the same stored bytes needs a history of several reads.",
  ["crypto/Encryption.go"],
  [("Decrypt", "crypto/Encryption.go"), ("Encrypt", "crypto/Encryption.go")],
  observe=["crypto.Encrypt", "crypto.Decrypt"], hook=YIELD)

p("C16", "Scripts received damaged are inspected without crashing or misreading",
  "Any bytes a peer delivers as a script, including scripts cut short, extended or altered in transit, can be split into parts, disassembled, classified and searched for a public key hash without a crash. Splitting returns exactly the opcodes and pushed data in order, and reports an error exactly when a push runs past the end of the script. Pay-to-public-key-hash, pay-to-public-key, pay-to-script-hash, multisig and data scripts that arrive intact are recognised as what they are and as nothing else, a damaged script is taken for one of them only if its opcodes are of that kind, and the public key hash found is the one paid to.",
  ["inputs", "fault_sequences"],
  "every script and every truncation, extension, bit change and damaged push length in transit",
  "One well-formed script per kind and two short malformed pushes are tried.",
  ["script/OpPushdata.go", "script/Script.go"],
  [("DecodeParts", "script/OpPushdata.go"), ("IsP2PKH, IsP2PK, IsP2SH, IsData, IsMultisigOut, GetPublicKeyHash, ToASM", "script/Script.go")],
  observe=["script.DecodeParts", "script.DecodeStringParts", "Script.ToASM", "Script.Is*", "Script.GetPublicKeyHash"], hook=YIELD)

p("C17", "Data put into scripts is recovered whole by every reader",
  "Non-empty data items of any size published in a data-carrier output, or appended to a script by any sequence of append operations, are recovered in order and byte for byte by every reader of the relayed transaction, and are pushed with the shortest length prefix for their size. An append that fails leaves the script exactly as it was.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of successful and failing append operations and every list of data items, relayed over a network with losses, repeats and truncations",
  "Items of two to three hundred bytes are encoded by the tests and never decoded; no append ever fails.",
  ["script/OpPushdata.go", "script/Script.go", "transaction/output/Output.go"],
  [("EncodeParts / GetPushDataPrefix / DecodeParts", "script/OpPushdata.go"), ("Append* operations", "script/Script.go"), ("NewOpReturn / NewOpReturnParts / NewHashPuzzle", "transaction/output/Output.go")],
  observe=["Script.AppendPushData*", "script.DecodeParts", "output.NewOpReturnParts"], hook=YIELD)

p("C18", "Building a transaction is all-or-nothing, step by step",
  "After every step of any history of adding inputs, spending unspent outputs, adding payments, adding outputs, applying unlocking scripts and editing or removing what was added before, the transaction's counts, output total, coinbase test, serialised bytes and id are those of exactly the steps that succeeded. A step refused because a delivered detail was malformed (an unspent output's script or transaction id, an address, a public key hash that is not 20 bytes, an input position) reports an error, never a crash, and leaves the transaction as it was.",
  ["histories", "fault_sequences", "inputs"],
  "every history of building steps whose details arrive over a network that damages, repeats and reorders them, with crash and recovery from the serialised form at any point",
  "Each constructor is tested once on well-formed arguments; no history of steps is checked against a model.",
  ["transaction/Transaction.go", "transaction/input/Input.go", "transaction/output/Output.go"],
  [("From, AddInput, PayTo, AddOutput, ApplyUnlockingScript", "transaction/Transaction.go"), ("NewFromUTXO", "transaction/input/Input.go"), ("toBytesHelper", "transaction/Transaction.go")],
  observe=["Transaction.ToBytes", "Transaction.GetTxID", "Transaction.GetTotalOutputSatoshis", "Transaction.InputCount", "Transaction.OutputCount", "Transaction.IsCoinbase"], hook=YIELD)

p("C23", "Coins paid to an address can be spent by its owner, and by nobody else",
  "Along any chain of payments over an unreliable network, a payment built, signed and sent with the library to an address or invoice of a wallet is accepted by independent nodes, is recognised by that wallet and by no other once a block contains it, and can be spent by that wallet, alone or in a payment signed jointly with others. Nobody else can spend it: not by signing with other keys, nor by redirecting or altering a signed payment on its way. Blocks built over the payments are accepted, no value appears or is lost, keys survive crashes in encrypted files, and once faults stop every payment its payer can afford is made and every wallet agrees with the network about its coins.",
  ["histories", "fault_sequences", "crash_points", "schedules"],
  "every history of payments, joint payments, thefts, blocks and rescans between wallets on either network, with every loss, repetition, reordering and alteration of invoices, payments, offers and proofs, and every crash of a wallet",
  "No test takes a payment from an address through signing, a block and a proof to the next payment; each function is tried alone on fixed values.",
  ["transaction/Transaction.go", "transaction/SignatureHash.go", "transaction/signature/InternalSigner.go", "script/Script.go", "script/address/Address.go", "block/GetCoinbaseParts.go", "block/GetMerkleBranches.go", "crypto/Encryption.go"],
  [("From, PayTo, AddOutput, SignAuto, ToBytes, GetTxID", "transaction/Transaction.go"), ("sighash preimage", "transaction/SignatureHash.go"), ("InternalSigner.SignAuto and Sign", "transaction/signature/InternalSigner.go"), ("IsP2PKH, GetPublicKeyHash", "script/Script.go"), ("NewFromPublicKey, NewFromString", "script/address/Address.go"), ("GetCoinbaseParts, GetMerkleBranches, MerkleRootFromBranches, BuildBlockHeader", "block/")],
  observe=["Transaction.ToBytes", "Transaction.GetTxID", "block.MerkleRootFromBranches", "Script.GetPublicKeyHash", "address.NewFromPublicKey"], hook="crypto/rand.Reader, an existing seam; " + YIELD)

p("C24", "A long-running process answers exactly like a newly started one",
  "The answer to a call depends only on what the call is given. Whatever a process has asked the library before, in any order and from any number of handlers, including calls that failed, and whatever its callers have since done to the arguments and results of finished calls, it answers every call exactly as a process that was started a moment ago does: a repeated question gets the same answer, and a party that crashed and restarted agrees with the parties that did not. (Encryption is judged by what decryption gives back.)",
  ["histories", "crash_points", "schedules", "fault_sequences"],
  "every history of calls, repeated, nearly equal, failing and interleaved, by callers that reuse what they own, with a restart at any point",
  "Each test makes a few calls on fresh values in a new process and never overwrites a result.",
  ["transaction/Transaction.go", "transaction/SignatureHash.go", "script/Script.go", "script/OpPushdata.go", "script/RedeemScript.go", "script/address/Address.go", "block/Difficulty.go", "crypto/Hash.go", "utils/VarInt.go"],
  [("every exported function; package-level variables tmpl, opCodeStrings, genesisDiff, regDiff", "script/address/AddressValidation.go, script/Opcodes.go, block/Difficulty.go"), ("GetInputSignatureHash, Sign, SignAuto", "transaction/"), ("GetPushDataPrefix, EncodeParts, DecodeParts", "script/OpPushdata.go"), ("VarInt", "utils/VarInt.go")],
  observe=["every exported function of the library"], hook="crypto/rand.Reader, an existing seam; " + YIELD)

p("C19", "Hash functions equal their published standards",
  "SHA-256, double SHA-256, RIPEMD-160 and HASH160 of any byte string equal the values the standards define.",
  ["inputs"], "every byte string", "Six strings are hashed by the tests.",
  ["crypto/Hash.go"], [("Sha256, Sha256d, Ripemd160, Hash160", "crypto/Hash.go")])
p("C20", "Difficulty and hash rate follow from the compact target",
  "For every well-formed compact target the reported difficulty is the ratio of the difficulty-one target to it, and the estimated hash rate is proportional to difficulty and inversely proportional to the target time.",
  ["inputs"], "every compact target, difficulty and target time", "Three targets and two hash rates are computed by the tests.",
  ["block/Difficulty.go", "utils/HumanHash.go"], [("DifficultyFromBits, DifficultyToHashrate", "block/Difficulty.go"), ("HumanHash", "utils/HumanHash.go")])
p("C21", "Script assembly text round-trips",
  "Disassembling a script and assembling the text again gives back a script with the same opcodes and data.",
  ["inputs"], "every script", "One script is disassembled and one text assembled by the tests.",
  ["script/Script.go", "script/Opcodes.go"], [("NewFromASM / ToASM and the opcode tables", "script/Script.go, script/Opcodes.go")])
p("C22", "Byte and hex helpers are exact inverses",
  "Reversing bytes or hex twice gives the original, sorting byte strings yields an ordered permutation, and equality and fixed-size decoding agree with the bytes given.",
  ["inputs"], "every byte string and hex string", "Three hex strings are reversed by the tests.",
  ["utils/ByteManipulation.go"], [("ReverseBytes, ReverseHexString, SortByteArrays, Equals, Decode32Byte", "utils/ByteManipulation.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
