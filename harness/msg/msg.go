// Package msg generates the wire messages together with the documents they must be encoded to.
package msg

import (
	"encoding/binary"
	"math"
	"math/rand"
	"reflect"

	"github.com/google/uuid"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/p2p"
	"verifharness/gen"
	"verifharness/ref"
)

// Msg is a message value and its document.
type Msg struct {
	Name  string
	ID    uint32
	Kind  byte // 'n' notification, 'c' command, 0 is only a structure
	Value interface{}
	Node  *ref.Node
}

// blobLen is a length around the boundaries of the size prefix.
func blobLen(r *rand.Rand, big bool) int {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return 62 + r.Intn(4)
	case 2:
		if big {
			return 16382 + r.Intn(4)
		}
		return r.Intn(5)
	default:
		return r.Intn(80)
	}
}

func blob(r *rand.Rand, big bool) []byte { return gen.Bytes(r, blobLen(r, big)) }

func hashes(r *rand.Rand, big bool) []crypto.Hash {
	n := 0
	switch r.Intn(6) {
	case 0:
	case 1:
		n = 1 + r.Intn(3)
	case 2:
		if big {
			n = 511 + r.Intn(3) // 16384 bytes
		} else {
			n = 2
		}
	default:
		n = r.Intn(6)
	}
	hs := make([]crypto.Hash, n)
	for i := range hs {
		hs[i] = gen.B32(r)
	}
	return hs
}

func cat(hs []crypto.Hash) (b []byte) {
	for _, h := range hs {
		b = append(b, h[:]...)
	}
	return
}

func basic(r *rand.Rand) (p2p.BasicNodeData, *ref.Node) {
	d := p2p.BasicNodeData{Version: byte(r.Intn(256)), PeerID: gen.U64(r), LocalTime: gen.U64(r), MyPort: gen.U32(r)}
	copy(d.NetworkID[:], gen.Bytes(r, 16))
	if r.Intn(8) == 0 {
		d.NetworkID = uuid.UUID{}
	}
	return d, ref.Obj("node_data", ref.Bin("network_id", d.NetworkID[:]), ref.U("version", ref.KVUint8, uint64(d.Version)),
		ref.U("peer_id", ref.KVUint64, d.PeerID), ref.U("local_time", ref.KVUint64, d.LocalTime), ref.U("my_port", ref.KVUint32, uint64(d.MyPort)))
}

func sync(r *rand.Rand) (p2p.SyncData, *ref.Node) {
	d := p2p.SyncData{CurrentHeight: gen.U32(r), TopBlockHash: gen.B32(r)}
	return d, ref.Obj("payload_data", ref.U("current_height", ref.KVUint32, uint64(d.CurrentHeight)), ref.Bin("top_id", d.TopBlockHash[:]))
}

func peers(r *rand.Rand) ([]p2p.PeerEntry, *ref.Node) {
	n := []int{0, 1, 2, 3, 5, 250}[r.Intn(6)]
	var b []byte
	ps := make([]p2p.PeerEntry, n)
	for i := range ps {
		ps[i] = p2p.PeerEntry{Address: p2p.NetworkAddress{IP: gen.U32(r), Port: gen.U32(r)}, ID: gen.U64(r), LastSeen: gen.U64(r)}
		var e [24]byte
		binary.LittleEndian.PutUint32(e[0:], ps[i].Address.IP)
		binary.LittleEndian.PutUint32(e[4:], ps[i].Address.Port)
		binary.LittleEndian.PutUint64(e[8:], ps[i].ID)
		binary.LittleEndian.PutUint64(e[16:], ps[i].LastSeen)
		b = append(b, e[:]...)
	}
	return ps, ref.Bin("local_peerlist", b)
}

func rawBlock(r *rand.Rand, name string, big bool) (p2p.RawBlock, *ref.Node) {
	rb := p2p.RawBlock{Block: blob(r, big)}
	var txs *ref.Node
	if n := r.Intn(4); n > 0 {
		txs = ref.Arr("txs", ref.KVBinary)
		for i := 0; i < n; i++ {
			t := blob(r, false)
			rb.Transactions = append(rb.Transactions, t)
			txs.Items = append(txs.Items, ref.Bin("", t))
		}
	}
	return rb, ref.Obj(name, ref.Bin("block", rb.Block), txs)
}

// Kinds is a number of message kinds.
const Kinds = 16

// Gen makes a message of the kind.
func Gen(r *rand.Rand, kind int, big bool) Msg {
	switch kind % Kinds {
	case 0:
		d, dn := basic(r)
		s, sn := sync(r)
		return Msg{"handshake request", CommandHandshake, 'c', p2p.HandshakeRequest{NodeData: d, PayloadData: s}, ref.Obj("", dn, sn)}
	case 1:
		d, dn := basic(r)
		s, sn := sync(r)
		p, pn := peers(r)
		return Msg{"handshake response", 0, 0, p2p.HandshakeResponse{NodeData: d, PayloadData: s, Peers: p}, ref.Obj("", dn, sn, pn)}
	case 2:
		s, sn := sync(r)
		return Msg{"timed sync request", CommandTimedSync, 'c', p2p.TimedSyncRequest{PayloadData: s}, ref.Obj("", sn)}
	case 3:
		s, sn := sync(r)
		p, pn := peers(r)
		lt := gen.U64(r)
		return Msg{"timed sync response", 0, 0, p2p.TimedSyncResponse{LocalTime: lt, PayloadData: s, Peers: p}, ref.Obj("", ref.U("local_time", ref.KVUint64, lt), sn, pn)}
	case 4:
		return Msg{"ping request", 0, 0, p2p.PingRequest{}, ref.Obj("")}
	case 5:
		st, id := string(blob(r, big)), gen.U64(r)
		return Msg{"ping response", 0, 0, p2p.PingResponse{Status: st, PeerID: id}, ref.Obj("", ref.Bin("status", []byte(st)), ref.U("peer_id", ref.KVUint64, id))}
	case 6:
		rb, rn := rawBlock(r, "b", big)
		h, hop := gen.U32(r), gen.U32(r)
		return Msg{"new block", NoticeNewBlock, 'n', p2p.NotificationNewBlock{Block: rb, CurrentBlockchainHeight: h, Hop: hop},
			ref.Obj("", rn, ref.U("current_blockchain_height", ref.KVUint32, uint64(h)), ref.U("hop", ref.KVUint32, uint64(hop)))}
	case 7:
		hs, stem := hashes(r, big), r.Intn(2) == 0
		return Msg{"new transactions", NoticeNewTxs, 'n', p2p.NotificationNewTransactions{Stem: stem, Transactions: hs},
			ref.Obj("", ref.B("stem", stem), ref.Bin("txs", cat(hs)))}
	case 8:
		a, b := hashes(r, big), hashes(r, big)
		return Msg{"request objects", NoticeGetObjects, 'n', p2p.NotificationRequestGetObjects{Transactions: a, Blocks: b},
			ref.Obj("", ref.Bin("txs", cat(a)), ref.Bin("blocks", cat(b)))}
	case 9:
		v := p2p.NotificationResponseGetObjects{CurrentBlockchainHeight: gen.U32(r)}
		bn := ref.Arr("blocks", ref.KVObject)
		n := r.Intn(4)
		if big && r.Intn(4) == 0 {
			n = 60 + r.Intn(10)
		}
		for i := 0; i < n; i++ {
			rb, rn := rawBlock(r, "", big && n < 4)
			v.Blocks = append(v.Blocks, rb)
			bn.Items = append(bn.Items, rn)
		}
		var mn *ref.Node
		if r.Intn(2) == 0 {
			v.MissedIds = append(hashes(r, big), crypto.Hash(gen.B32(r)))
			mn = ref.Bin("missed_ids", cat(v.MissedIds))
		}
		return Msg{"response objects", NoticeObjects, 'n', v,
			ref.Obj("", bn, ref.U("current_blockchain_height", ref.KVUint32, uint64(v.CurrentBlockchainHeight)), mn)}
	case 10:
		hs := hashes(r, big)
		return Msg{"request chain", NoticeChainRequest, 'n', p2p.NotificationRequestChain{Blocks: hs}, ref.Obj("", ref.Bin("block_ids", cat(hs)))}
	case 11:
		hs := hashes(r, big)
		s, t := gen.U32(r), gen.U32(r)
		return Msg{"chain entry", NoticeChainEntry, 'n', p2p.NotificationResponseChainEntry{StartHeight: s, TotalHeight: t, BlocksHashes: hs},
			ref.Obj("", ref.U("start_height", ref.KVUint32, uint64(s)), ref.U("total_height", ref.KVUint32, uint64(t)), ref.Bin("m_block_ids", cat(hs)))}
	case 12:
		hs := hashes(r, big)
		return Msg{"tx pool", NoticeTxPool, 'n', p2p.NotificationTxPool{Transactions: hs}, ref.Obj("", ref.Bin("txs", cat(hs)))}
	case 13:
		b, h, hop := blob(r, big), gen.U32(r), gen.U32(r)
		return Msg{"new lite block", NoticeNewLiteBlock, 'n', p2p.NotificationNewLiteBlock{CurrentBlockchainHeight: h, Hop: hop, Block: b},
			ref.Obj("", ref.U("current_blockchain_height", ref.KVUint32, uint64(h)), ref.U("hop", ref.KVUint32, uint64(hop)), ref.Bin("block", b))}
	default:
		v, n := wide(r, big)
		return Msg{"generic structure", 0, 0, v, n}
	}
}

// Inner is a nested structure.
type Inner struct {
	A uint8  `binary:"a"`
	S string `binary:"s"`
}

// Wide has a field of every kind that the codec supports.
type Wide struct {
	U8                                       uint8         `binary:"u8"`
	U16                                      uint16        `binary:"u16"`
	U32                                      uint32        `binary:"u32"`
	U64                                      uint64        `binary:"u64"`
	I8                                       int8          `binary:"i8"`
	I16                                      int16         `binary:"i16"`
	I32                                      int32         `binary:"i32"`
	I64                                      int64         `binary:"i64"`
	F64                                      float64       `binary:"f64"`
	Flag                                     bool          `binary:"flag"`
	Str                                      string        `binary:"str"`
	Bin                                      []byte        `binary:"bin"`
	Arr5                                     [5]byte       `binary:"arr5"`
	Words                                    []uint16      `binary:"words,binary"`
	Hashes                                   []crypto.Hash `binary:"hashes,binary"`
	In                                       Inner         `binary:"in"`
	InOmit                                   Inner         `binary:"in_omit,omitempty"`
	List                                     []Inner       `binary:"list,array"`
	U64s                                     []uint64      `binary:"u64s,array"`
	I16s                                     []int16       `binary:"i16s,array"`
	Flags                                    []bool        `binary:"flags,array"`
	Strs                                     []string      `binary:"strs,array"`
	Bins                                     [][]byte      `binary:"bins,array"`
	Omit                                     uint32        `binary:"omit,omitempty"`
	OmitBin                                  []byte        `binary:"omit_bin,omitempty"`
	LongLongLongLongLongLongLongLongLongName uint8         `binary:"a_name_that_is_longer_than_sixty_three_bytes_so_its_length_is_not_a_size_prefix_but_one_byte"`
	Skipped                                  uint32
}

func wide(r *rand.Rand, big bool) (Wide, *ref.Node) {
	in := func(name string) (Inner, *ref.Node) {
		v := Inner{byte(r.Intn(256)), string(blob(r, false))}
		return v, ref.Obj(name, ref.U("a", ref.KVUint8, uint64(v.A)), ref.Bin("s", []byte(v.S)))
	}
	var w Wide
	root := ref.Obj("")
	add := func(n *ref.Node) { root.Fields = append(root.Fields, n) }
	w.U8, w.U16, w.U32, w.U64 = uint8(gen.U64(r)), uint16(gen.U64(r)), uint32(gen.U64(r)), gen.U64(r)
	w.I8, w.I16, w.I32, w.I64 = int8(gen.U64(r)), int16(gen.U64(r)), int32(gen.U64(r)), int64(gen.U64(r))
	add(ref.U("u8", ref.KVUint8, uint64(w.U8)))
	add(ref.U("u16", ref.KVUint16, uint64(w.U16)))
	add(ref.U("u32", ref.KVUint32, uint64(w.U32)))
	add(ref.U("u64", ref.KVUint64, w.U64))
	add(ref.U("i8", ref.KVInt8, uint64(w.I8)))
	add(ref.U("i16", ref.KVInt16, uint64(w.I16)))
	add(ref.U("i32", ref.KVInt32, uint64(w.I32)))
	add(ref.U("i64", ref.KVInt64, uint64(w.I64)))
	w.F64 = []float64{0, math.Copysign(0, -1), math.Inf(1), math.NaN(), r.NormFloat64(), math.MaxFloat64, math.SmallestNonzeroFloat64}[r.Intn(7)]
	add(ref.F("f64", w.F64))
	w.Flag = r.Intn(2) == 0
	add(ref.B("flag", w.Flag))
	w.Str = string(blob(r, big))
	add(ref.Bin("str", []byte(w.Str)))
	w.Bin = blob(r, big)
	add(ref.Bin("bin", w.Bin))
	copy(w.Arr5[:], gen.Bytes(r, 5))
	add(ref.Bin("arr5", w.Arr5[:]))
	var wb []byte
	for i := r.Intn(40); i > 0; i-- {
		v := uint16(gen.U64(r))
		w.Words = append(w.Words, v)
		wb = append(wb, byte(v), byte(v>>8))
	}
	add(ref.Bin("words", wb))
	w.Hashes = hashes(r, big)
	add(ref.Bin("hashes", cat(w.Hashes)))
	v, n := in("in")
	w.In = v
	add(n)
	if r.Intn(2) == 0 {
		v, n := in("in_omit")
		v.A |= 1
		n.Fields[0].Raw[0] |= 1
		w.InOmit = v
		add(n)
	}
	count := func() int {
		if r.Intn(5) == 0 {
			return 62 + r.Intn(4)
		}
		return r.Intn(4)
	}
	an := ref.Arr("list", ref.KVObject)
	for i := count(); i > 0; i-- {
		v, n := in("")
		w.List = append(w.List, v)
		an.Items = append(an.Items, n)
	}
	add(an)
	an = ref.Arr("u64s", ref.KVUint64)
	for i := count(); i > 0; i-- {
		v := gen.U64(r)
		w.U64s = append(w.U64s, v)
		an.Items = append(an.Items, ref.U("", ref.KVUint64, v))
	}
	add(an)
	an = ref.Arr("i16s", ref.KVInt16)
	for i := count(); i > 0; i-- {
		v := int16(gen.U64(r))
		w.I16s = append(w.I16s, v)
		an.Items = append(an.Items, ref.U("", ref.KVInt16, uint64(v)))
	}
	add(an)
	an = ref.Arr("flags", ref.KVBool)
	for i := count(); i > 0; i-- {
		v := r.Intn(2) == 0
		w.Flags = append(w.Flags, v)
		an.Items = append(an.Items, ref.B("", v))
	}
	add(an)
	an = ref.Arr("strs", ref.KVBinary)
	for i := count(); i > 0; i-- {
		v := string(blob(r, false))
		w.Strs = append(w.Strs, v)
		an.Items = append(an.Items, ref.Bin("", []byte(v)))
	}
	add(an)
	an = ref.Arr("bins", ref.KVBinary)
	for i := count(); i > 0; i-- {
		v := blob(r, false)
		w.Bins = append(w.Bins, v)
		an.Items = append(an.Items, ref.Bin("", v))
	}
	add(an)
	if r.Intn(2) == 0 {
		w.Omit = 1 + uint32(r.Intn(1000))
		add(ref.U("omit", ref.KVUint32, uint64(w.Omit)))
	}
	if r.Intn(2) == 0 {
		w.OmitBin = append(blob(r, false), 1)
		add(ref.Bin("omit_bin", w.OmitBin))
	}
	w.LongLongLongLongLongLongLongLongLongName = byte(r.Intn(256))
	add(ref.U("a_name_that_is_longer_than_sixty_three_bytes_so_its_length_is_not_a_size_prefix_but_one_byte", ref.KVUint8, uint64(w.LongLongLongLongLongLongLongLongLongName)))
	return w, root
}

// New is a pointer to zero value of the message type.
func (m Msg) New() reflect.Value { return reflect.New(reflect.TypeOf(m.Value)) }
