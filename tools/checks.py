SIM="Holds on every generated history; trusts the reference chain model in harness/sim and harness/ref. "
REF="Holds on every generated execution; trusts the reference implementation in harness/ref and the generators. "
CHECKS={
"C09":("runtime monitoring: differential oracle (math/big verifier) over honest, altered and forged signatures, nonce distribution monitor",REF+"Nonce uniformity is observed statistically (10 sigma)."),
"C10":("runtime monitoring: differential oracle (math/big verifier) over rings, torsion images and malleated signatures",REF),
"C11":("runtime monitoring: algebraic and differential oracle over generated keys and indexes",REF),
"C12":("runtime monitoring: differential oracle (math/big) over edge-laden operands of every curve, scalar and field operation",REF),
"C01":("runtime monitoring: differential oracle (independent document writer) over generated messages, prefix boundaries through a hook, concurrent use of shared values",REF),
"C02":("runtime monitoring: panic, allocation and time monitors around every decoder fed with damaged and hostile inputs, address space limit",REF+"Proportional memory is a fixed linear bound."),
"C03":("runtime monitoring: differential oracle (reference decoder) of verdict and value over cuts, alterations and structured mutants",REF),
"C05":("runtime monitoring: differential oracle (reference codec) of bytes, objects, verdicts and bytes left over generated and damaged blocks and transactions",REF),
"C06":("runtime monitoring: differential oracle (independent Keccak and Merkle tree) with random orders of queries and sensitivity to every accepted change",REF),
"C07":("runtime monitoring: differential oracle (math/big base58 and checksum) over generated, altered and sealed texts",REF),
"C08":("runtime monitoring: differential oracle (reference parser) over composed and damaged extra fields",REF),
"C24":("runtime monitoring: differential oracle (math/big and definitions) over edge operands",REF),
"C13":("runtime monitoring: state digest before and after every submission, model of the accepted chain, over mixed histories of valid, invalid, duplicated and orphaned blocks",SIM),
"C14":("runtime monitoring: reference rule model against AddBlock verdicts at rule boundaries over simulated chains through every upgrade",SIM+"Proof of work is decided by a test double of the slow hash."),
"C15":("runtime monitoring: reference rule model against the transaction validator, one rule broken at a time, over simulated spending histories",SIM),
"C16":("runtime monitoring: differential oracle (math/big) of the reward and of the coins recorded by simulated chains",SIM),
"C17":("runtime monitoring: differential oracle (math/big) of the next difficulty over generated windows and simulated chains",SIM),
"C18":("runtime monitoring: reference table of the schedule over heights around every upgrade and sampled heights",SIM),
"C19":("runtime monitoring: race detector, linearizability of recorded histories (porcupine), operation timeouts, map model of checkpoints",SIM+"Schedules are sampled, with delays injected through the logger."),
"C20":("runtime monitoring: race detector, linearizability of recorded histories (porcupine) with delays injected into the storage",SIM+"Schedules are sampled."),
"C04":("runtime monitoring: stream monitor (reference framing) over cut, delayed, damaged and concurrently written connections, race detector",REF+"Schedules are sampled."),
"C21":("runtime monitoring: race detector, panic and hang monitors, liveness probes, socket, descriptor, goroutine and file census around a node under hostile peers over loopback TCP",REF+"Schedules are sampled. A reply within 30 s and a stop within 20 s count as prompt."),
"C22":("runtime monitoring: model of the peer and of the known peers against replies and states, over command sequences and clients over loopback TCP while the chain grows, race detector",REF),
"C23":("runtime monitoring: monitor of requested and delivered blocks between the node and scripted honest and misbehaving peers, in memory and over loopback TCP, race detector",SIM+"Schedules are sampled."),
}
NA={}
