#!/usr/bin/env python3
# Writes properties.jsonl.
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Portable-storage wire codec is lossless and canonical",
"Every message value the node can send is encoded into exactly the bytes of the portable storage format of the CryptoNote network, and decoding these bytes gives an equal value. Encoding is deterministic, also when many goroutines encode and decode at once.",
["inputs","schedules"],"all message types and all field values: integers of every width and sign, strings and blobs of every length class, nested and repeated sections, empty and maximal collections",
"Tests encode one sample structure and a few captured messages; boundaries of the four variable-length size classes and the field type combinations are a space that samples do not cover.",
["encoding/binary/encode.go","encoding/binary/decode.go","encoding/binary/metadata.go","p2p/command.go","p2p/command_handshake.go","p2p/notification.go"],
[("KV encoder and decoder driven by struct tags","encoding/binary/encode.go, encoding/binary/decode.go"),("variable-length size prefix","encoding/binary/decode.go")],
["return values of Marshal/Unmarshal"],"accessors of the varint reader and writer, added by build overlay")
p("C02","Hostile bytes never crash, hang or exhaust any decoder",
"Whatever bytes a peer or a file supplies, decoding them as a message, block, transaction, transaction extra, address or packet returns a value or an error. It never panics, never loops without bound, and never takes memory out of proportion to the input size.",
["inputs"],"all byte strings given to every exported decoder",
"Existing tests decode a handful of genuine fixtures; hostile length prefixes, counts, nesting and truncations are never given to the decoders.",
["encoding/binary/decode.go","cryptonote/block.go","cryptonote/block_parent.go","cryptonote/transaction.go","cryptonote/transaction_extra.go","crypto/base58/base58.go","cryptonote/address.go","p2p/levin.go"],
[("length checks before allocation and error returns","all decoders")],["panics, allocation counters and time of each decode call"])
p("C03","Malformed or truncated wire messages are rejected, never misread",
"A message is decoded successfully only when its bytes are a well-formed portable-storage document that matches the expected message, and then every field holds exactly the value the bytes carry. Truncation at any offset, wrong types, bad signatures, unknown fields or wrong lengths give an error.",
["inputs"],"all byte strings, in particular every truncation and every single-byte alteration of valid messages of every type",
"Tests decode genuine captured messages only, so silent misreading of damaged input is invisible.",
["encoding/binary/decode.go"],[("type and length validation in the decoder","encoding/binary/decode.go")],["accept/reject verdict and decoded value, compared with a reference decoder"])
p("C04","Levin framing survives any segmentation and rejects corrupt frames",
"A stream of packets is delivered as the same sequence of commands and payloads however the transport splits or delays it. Frames with a wrong signature, an oversized length or an unexpected response command are refused with an error, and concurrent senders never interleave bytes of their frames.",
["inputs","schedules","fault_sequences"],"all packet sequences, all segmentations of the byte stream, all truncation points and all concurrent senders",
"No test covers the framing layer; TCP segmentation is decided by the network and never exercised by unit tests.",
["p2p/levin.go"],[("full reads of header and payload, header validation","p2p/levin.go"),("one write per frame","p2p/levin.go")],["bytes on a monitored in-memory connection"],"accessor of the packet reader, added by build overlay")
p("C05","Block and transaction binary format is lossless and canonical",
"Serializing a block or transaction and parsing the result gives an equal object, and the bytes are exactly those of the CryptoNote binary format for every block version, merge-mining parent and every input and output kind the node supports. Parsing any byte string either fails or gives an object whose serialization is that same string.",
["inputs"],"all blocks and transactions of every version, with coinbase and key inputs, all varint magnitudes and all ring sizes; all byte strings for parsing",
"Tests round-trip seven fixtures from main net; rare shapes (multisignature, parent block branches, large varints, empty lists) are not among them.",
["cryptonote/block.go","cryptonote/block_parent.go","cryptonote/transaction.go","cryptonote/signature.go"],
[("serializers and deserializers with minimal varints","cryptonote/*.go")],["Serialize/Deserialize results against a reference serializer"])
p("C06","Identifiers of blocks and transactions commit to their whole content",
"Block and transaction ids, transaction prefix hashes and Merkle roots equal the Keccak commitments that CryptoNote defines over the serialized content, so changing any committed byte, transaction or its order changes the id. Asking for an id never alters the object and always gives the same answer.",
["inputs","histories"],"all blocks and transactions, all transaction list lengths, all single changes of their content, any order of queries",
"Tests compare ids of a few fixtures; the Merkle tree shape depends on the number of leaves and header layout depends on version, most of which fixtures miss.",
["cryptonote/block.go","cryptonote/transaction.go","crypto/hash.go"],[("hashing blobs and Merkle tree","cryptonote/block.go, crypto/hash.go")],["Hash results against independent Keccak and tree"])
p("C07","Addresses are bijective with their content and protected by a checksum",
"Encoding then decoding any address returns the same tag and keys, and distinct contents give distinct text. Text that is not the encoding of some content — wrong alphabet, impossible length, overflowing block, altered character, bad checksum or redundant tag — is rejected.",
["inputs"],"all tags, all key pairs, all byte strings and all texts",
"Tests check fixed vectors; the block-wise base58 has overflow and length classes that a few vectors cannot exhaust.",
["crypto/base58/base58.go","cryptonote/address.go"],[("block-wise base58 with overflow checks, 4-byte checksum","crypto/base58/base58.go, cryptonote/address.go")],["encode/decode results against a reference codec"],"accessors of unexported address helpers, added by build overlay")
p("C08","Transaction extra is parsed exactly as the format defines",
"For any extra bytes, parsing returns exactly the public key, nonce, merge-mining tag and padding that the bytes carry or reports an error when they are malformed. Truncated fields, oversized nonces and unknown tags are never read as valid content.",
["inputs"],"all byte strings as the extra field",
"One or two fixtures are parsed in tests; field order, lengths and truncation are an open input space.",
["cryptonote/transaction_extra.go"],[("tag-length-value parser","cryptonote/transaction_extra.go")],["parse result against a reference parser"])
p("C09","Signatures are complete, sound, non-malleable and use fresh nonces",
"A signature made with a secret key always verifies for its hash and public key, and a verification succeeds only for scalars in canonical form and decodable keys for which the signature equation holds with a non-trivial commitment. Nonces of different signatures are unrelated and uniformly distributed, and out-of-range secrets are refused.",
["inputs","histories"],"all hashes, keys and signature byte strings, honest and forged, and all sequences of signing calls",
"Fixtures sample some signatures; forgeries that need small-order keys, identity commitments or scalars plus the group order are not among them, and nonce reuse needs a history.",
["crypto/signature.go","crypto/key.go","crypto/crypto.go"],[("canonical scalar checks, point decoding, challenge comparison","crypto/signature.go")],["Check/Sign results against a big-integer verifier; nonces recovered with the secret key"])
p("C10","Ring signatures and key images are sound, linkable and non-malleable",
"A ring signature made for any ring and signer position verifies with the signer's unique key image, and a verification succeeds only when the ring equation holds for canonical scalars, decodable keys and, when asked, an image of the prime-order subgroup. Any change of message, ring, image or signature invalidates it, and wrong requests to sign are refused.",
["inputs","histories"],"all rings, signer positions, messages, images (also with torsion components) and altered signatures",
"Fixtures include honest rings of few sizes; the torsion images that allow spending an output eight times are not sampled.",
["crypto/signature.go","crypto/key_image.go","crypto/edwards25519/edwards25519.go"],[("ring equation, subgroup check of the image","crypto/signature.go")],["verdicts against a big-integer verifier"])
p("C11","One-time key derivation agrees between sender and receiver",
"Sender and receiver compute the same shared secret, the one-time public key always corresponds to the one-time secret key, and the recipient is recovered from it for its output index only. Undecodable keys and out-of-range secrets are refused, and a view key is a fixed function of the spend key.",
["inputs"],"all key pairs, foreign public keys of any order, and all output indexes",
"Fixtures are fixed triples; algebraic agreement for every key and index, varint boundaries and hostile keys are not reached.",
["crypto/key_derivation.go","crypto/key.go"],[("8aR derivation and index hashing","crypto/key_derivation.go")],["results against big-integer algebra"],"accessors of the unexported derive functions, added by build overlay")
p("C12","Curve, scalar and hash-to-point arithmetic is exact",
"Field, scalar and group operations give the mathematically exact result for every operand in their domain, point decoding accepts exactly the canonical encodings of curve points, the subgroup check accepts exactly the prime-order subgroup, and hashing to a point is total and lands in it.",
["inputs"],"all operands: limb bounds, carries, multiples of the order and of the field prime, torsion points, non-canonical encodings",
"Random or fixture operands hit carry and reduction edge cases with negligible probability.",
["crypto/edwards25519/edwards25519.go","crypto/edwards25519/const.go","crypto/hash.go"],[("ref10 style limb arithmetic and precomputed tables","crypto/edwards25519")],["results against math/big"],"accessor of hash to point, added by build overlay")
p("C13","The chain is a hash-linked list that rejected blocks never change",
"After any sequence of accepted and rejected blocks the chain has contiguous heights, each block links to its predecessor, every query (height, top block, block by hash or height, sizes, timestamps, difficulties, generated coins, key images) agrees with the accepted blocks, and a rejected block leaves everything as it was. The same block is never added twice.",
["histories","inputs","fault_sequences"],"all sequences of block submissions: valid, invalid in any rule, duplicated, orphaned, reordered",
"Tests add a block or two; state divergence appears only over histories that mix rejections and acceptances.",
["cryptonote/chain.go","cryptonote/storage_memory.go","cryptonote/block_info.go"],[("validate then push","cryptonote/chain.go")],["state digest before and after each AddBlock"],None,[("stored blocks and block infos","the chain","cryptonote/storage_memory.go")])
p("C14","A block is accepted if and only if every consensus rule for it holds",
"A block is added only when its version, parent, timestamp, size, miner transaction, declared transactions, reward, proof of work, checkpoint and (from version 5) signature all satisfy the rules in force at its height. A block that satisfies all of them is added.",
["inputs","histories","configurations"],"all candidate blocks at all heights and versions, in particular those that violate exactly one rule at its boundary",
"Tests add genuine early blocks; boundaries of rules at upgrade heights are never reached by unit tests because they need long chains.",
["cryptonote/chain.go","cryptonote/block.go","config/network.go"],[("AddBlock and validateBlock","cryptonote/chain.go")],["accept/reject and error of AddBlock against a reference model"])
p("C15","Transactions in blocks obey amounts, fees, ring and double-spend rules",
"A block is accepted only when every transaction in it has well-formed non-overflowing amounts, valid unique keys, allowed mixin, size, extra and fee for its height, unlocked existing inputs, valid signatures, and key images that were never spent before in the chain, the block or the transaction. Transactions that satisfy the rules are not refused.",
["inputs","histories","configurations"],"all transactions at all heights, in particular those that violate exactly one rule at its boundary, and all spending histories",
"Transaction validation has a few tests on fixtures only; overflow, duplicate image and boundary conditions are not covered.",
["cryptonote/transaction_validator.go","cryptonote/chain.go"],[("block transactions validator","cryptonote/transaction_validator.go")],["validator verdict and fee against a reference model"])
p("C16","Emission: every block pays exactly the allowed reward",
"For all sizes, medians and supplies the block reward plus fees equals the exact value of the emission formula with its size penalty, oversized blocks get no reward, and the total of generated coins recorded by the chain is the sum of all emissions.",
["inputs","histories"],"all (version, median size, block size, generated coins, fee) tuples and all chains",
"Unit tests cover no reward arithmetic; the 128-bit penalty computation overflows or rounds wrongly only for particular operands.",
["config/network.go","utils/math.go","cryptonote/chain.go"],[("GetBlockReward with 128-bit penalty","config/network.go")],["reward against math/big; coins recorded by the chain"])
p("C17","Difficulty is the exact deterministic function of chain history",
"For every history of timestamps and cumulative difficulties and for every block version, the next difficulty equals the value the network's algorithm for that version defines, never panics or divides by zero and never falls below the floor its version sets. Honest histories of any length, including the shortest, are handled.",
["inputs","histories","configurations"],"all window lengths, timestamp orders (also equal and decreasing) and difficulties, all versions and heights around upgrades",
"There are no tests of difficulty algorithms; clamps and special heights are only reached by specific histories.",
["config/network.go","cryptonote/difficulty.go","cryptonote/chain.go"],[("five difficulty algorithms","config/network.go")],["NextDifficulty against a reference model; difficulty stored by the chain"])
p("C18","Protocol parameters are a deterministic function of height and version",
"Block version, size limits, timestamp windows, fees, mixin and fusion limits are those of the network schedule at every height; versions never decrease with height, size limits never shrink, and every upgrade takes effect at exactly its height.",
["inputs","configurations"],"all heights and versions of main and test networks",
"Unit tests do not sample the schedule around upgrade heights.",
["config/network.go","config/params.go"],[("parameter functions of height","config/network.go")],["returned parameters against a reference table"])
p("C19","Checkpoints pin history and never block the node",
"A block at a checkpointed height is valid only with the checkpointed hash, the checkpoint zone is exactly the heights up to the last checkpoint, alternative blocks are refused behind checkpoints or too deep, and the first registered hash of a height stays. Concurrent registration and queries never deadlock or race.",
["inputs","schedules"],"all checkpoint sets and query sequences, all concurrent schedules of registrations and queries",
"Tests use a few checkpoints in a single goroutine; lock misuse shows only in concurrent schedules.",
["config/checkpoints.go"],[("sorted heights and map under a lock","config/checkpoints.go")],["answers against a map model, race detector, operation timeouts"])
p("C20","Concurrent use of the chain is linearizable and race free",
"Goroutines that add blocks and query the chain at once observe results consistent with some order of whole operations: each block is accepted exactly once, readers never see a partially added block, and heights never go back. No data race, deadlock or panic occurs.",
["schedules","histories"],"all interleavings of concurrent AddBlock and query calls",
"Unit tests are sequential, no schedule other than one is ever exercised.",
["cryptonote/chain.go","cryptonote/storage_memory.go"],[("locks of the chain and of the storage","cryptonote/chain.go, cryptonote/storage_memory.go")],["recorded call/return history checked with porcupine, race detector"])
p("C21","The node survives hostile and concurrent peers and shuts down cleanly",
"No sequence of bytes, commands, disconnects or stalls of any number of peers makes the node panic, deadlock, race or stop serving well-behaved peers. Every connection is released when its peer leaves, stopping the node returns promptly, and nothing outside the node's own state is touched.",
["fault_sequences","schedules","inputs"],"all peer behaviours: garbage, half frames, floods, wrong order of commands, abrupt resets; all timings of shutdown",
"Tests of p2p only decode captured messages; no test opens a connection or drives a peer.",
["p2p/node.go","p2p/peer.go","p2p/peerstore.go","p2p/levin.go","p2p/node.go"],[("per-connection goroutines with error isolation","p2p/node.go, p2p/peer.go")],["race detector, goroutine and descriptor census, liveness probes over real TCP"],"accessors of the unexported handlers, added by build overlay")
p("C22","Handshake and timed sync follow the protocol and tell the truth",
"A connection becomes a peer only after a handshake with the right network id; handshake and timed sync replies carry this node's actual height, top block hash and known peers. Repeated handshakes, handshakes from another network or on outgoing connections are refused, and a timed sync before the handshake changes nothing.",
["inputs","histories"],"all handshake contents, all orders of commands, any chain height",
"Tests of p2p only decode captured messages; no test opens a connection or drives a peer.",
["p2p/node.go","p2p/command.go"],[("HandleHandshake and command dispatcher","p2p/node.go")],["replies on the wire, peer state"],"accessors of the unexported handlers, added by build overlay")
p("C23","Synchronization converges and accepts nothing that was not requested",
"Given a peer whose valid chain extends the node's own, the node requests every missing block exactly once in bounded batches, applies them in order and reaches the peer's height. Unrequested, missing, duplicated, reordered or invalid blocks never enter the chain, never stall it, and the offending peer is dropped.",
["histories","fault_sequences","inputs"],"all remote chain lengths and batch boundaries, all misbehaving responses, several peers serving at once",
"Tests of p2p only decode captured messages; convergence is a property of whole message histories.",
["p2p/peer.go","p2p/notification.go","cryptonote/chain.go"],[("needed and requested block lists of a peer","p2p/peer.go")],["messages sent by the node on a monitored connection, chain state"],"accessors of the unexported handlers, added by build overlay")
p("C24","Amount decomposition and wide arithmetic are exact",
"Splitting an amount into denominations conserves its value, yields only canonical denominations in order plus dust below the threshold, and agrees with the canonical-denomination test. 128-bit multiplication and division, medians, clamps and slice predicates return exact results for all operands.",
["inputs"],"all amounts, thresholds, operands and slices",
"Tests sample a few amounts; carries and boundary digits are not covered.",
["cryptonote/utils.go","utils/math.go","utils/slices.go","config/network.go"],[("digit decomposition and 128-bit helpers","cryptonote/utils.go, utils")],["results against math/big and definitions"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: 
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
