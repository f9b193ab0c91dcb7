package ref

import (
	"encoding/binary"
	"math"
	"reflect"
	"strings"
)

// Portable storage ("KV") format, written from the format and not from the code.

// KVHeader starts every document.
var KVHeader = []byte{0x01, 0x11, 0x01, 0x01, 0x01, 0x01, 0x02, 0x01, 0x01}

// Types of the values.
const (
	KVInt64, KVInt32, KVInt16, KVInt8     byte = 1, 2, 3, 4
	KVUint64, KVUint32, KVUint16, KVUint8 byte = 5, 6, 7, 8
	KVFloat, KVBinary, KVBool, KVObject   byte = 9, 10, 11, 12
	KVArrayType, KVArray                  byte = 13, 0x80
)

// Node is a value of the document. Width of its size prefix can be forced.
type Node struct {
	Name   string
	Type   byte
	Raw    []byte  // simple value or content of the binary value
	Fields []*Node // of an object
	Items  []*Node // of an array, their Type is ignored
	Width  int     // 0 is the shortest prefix, otherwise 1, 2, 4, 8
	Count  *uint64 // overrides the real count or size
}

// KVSize is a size prefix.
func KVSize(n uint64, width int) []byte {
	if width == 0 {
		switch {
		case n < 1<<6:
			width = 1
		case n < 1<<14:
			width = 2
		case n < 1<<30:
			width = 4
		default:
			width = 8
		}
	}
	var b [8]byte
	m := map[int]uint64{1: 0, 2: 1, 4: 2, 8: 3}[width]
	binary.LittleEndian.PutUint64(b[:], n<<2|m)
	return append([]byte{}, b[:width]...)
}

func (n *Node) count(real int) uint64 {
	if n.Count != nil {
		return *n.Count
	}
	return uint64(real)
}

// Value is the encoded value without its name and type.
func (n *Node) Value(typ byte) (b []byte) {
	switch {
	case typ&KVArray != 0:
		b = append(b, KVSize(n.count(len(n.Items)), n.Width)...)
		for _, i := range n.Items {
			b = append(b, i.Value(typ&^KVArray)...)
		}
	case typ == KVObject:
		b = append(b, KVSize(n.count(len(n.Fields)), n.Width)...)
		for _, f := range n.Fields {
			b = append(b, byte(len(f.Name)))
			b = append(b, f.Name...)
			b = append(b, f.Type)
			b = append(b, f.Value(f.Type)...)
		}
	case typ == KVBinary:
		b = append(b, KVSize(n.count(len(n.Raw)), n.Width)...)
		b = append(b, n.Raw...)
	default:
		b = append(b, n.Raw...)
	}
	return
}

// Doc is the whole document of the root object.
func (n *Node) Doc() []byte {
	return append(append([]byte{}, KVHeader...), n.Value(KVObject)...)
}

// Clone is a deep copy.
func (n *Node) Clone() *Node {
	c := *n
	c.Fields, c.Items = nil, nil
	c.Raw = append([]byte{}, n.Raw...)
	for _, f := range n.Fields {
		c.Fields = append(c.Fields, f.Clone())
	}
	for _, f := range n.Items {
		c.Items = append(c.Items, f.Clone())
	}
	return &c
}

// Walk visits all the nodes below the root.
func (n *Node) Walk(f func(parent, node *Node)) {
	for _, c := range n.Fields {
		f(n, c)
		c.Walk(f)
	}
	for _, c := range n.Items {
		f(n, c)
		c.Walk(f)
	}
}

// Constructors.

// Obj is an object.
func Obj(name string, fields ...*Node) *Node {
	var fs []*Node
	for _, f := range fields {
		if f != nil {
			fs = append(fs, f)
		}
	}
	return &Node{Name: name, Type: KVObject, Fields: fs}
}

// U is an unsigned number of the given type.
func U(name string, typ byte, v uint64) *Node {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], v)
	n := map[byte]int{KVUint8: 1, KVInt8: 1, KVUint16: 2, KVInt16: 2, KVUint32: 4, KVInt32: 4, KVUint64: 8, KVInt64: 8, KVFloat: 8}[typ]
	return &Node{Name: name, Type: typ, Raw: append([]byte{}, b[:n]...)}
}

// F is a double.
func F(name string, v float64) *Node { return U(name, KVFloat, math.Float64bits(v)) }

// B is a bool.
func B(name string, v bool) *Node {
	n := &Node{Name: name, Type: KVBool, Raw: []byte{0}}
	if v {
		n.Raw[0] = 1
	}
	return n
}

// Bin is a binary value.
func Bin(name string, v []byte) *Node { return &Node{Name: name, Type: KVBinary, Raw: v} }

// Arr is an array.
func Arr(name string, typ byte, items ...*Node) *Node {
	return &Node{Name: name, Type: typ | KVArray, Items: items}
}

// Reference decoder. The Go structure is used only as a schema.

type kvReader struct {
	b []byte
}

func (r *kvReader) take(n uint64) ([]byte, bool) {
	if n > uint64(len(r.b)) {
		return nil, false
	}
	res := r.b[:n]
	r.b = r.b[n:]
	return res, true
}

func (r *kvReader) size() (uint64, bool) {
	if len(r.b) == 0 {
		return 0, false
	}
	b, ok := r.take(1 << (r.b[0] & 3))
	if !ok {
		return 0, false
	}
	var full [8]byte
	copy(full[:], b)
	return binary.LittleEndian.Uint64(full[:]) >> 2, true
}

func kvTag(f reflect.StructField) (string, bool) {
	s, ok := f.Tag.Lookup("binary")
	return strings.Split(s, ",")[0], ok
}

func (r *kvReader) object(t reflect.Type) (reflect.Value, bool) {
	v := reflect.New(t).Elem()
	n, ok := r.size()
	if !ok {
		return v, false
	}
	for ; n > 0; n-- {
		l, ok := r.take(1)
		if !ok {
			return v, false
		}
		name, ok := r.take(uint64(l[0]))
		if !ok {
			return v, false
		}
		idx := -1
		for i := 0; i < t.NumField(); i++ {
			if s, ok := kvTag(t.Field(i)); ok && s == string(name) {
				idx = i
			}
		}
		if idx < 0 {
			return v, false
		}
		tb, ok := r.take(1)
		if !ok {
			return v, false
		}
		x, ok := r.value(t.Field(idx).Type, tb[0])
		if !ok {
			return v, false
		}
		v.Field(idx).Set(x)
	}
	return v, true
}

var kvKinds = map[byte]reflect.Kind{KVInt64: reflect.Int64, KVInt32: reflect.Int32, KVInt16: reflect.Int16, KVInt8: reflect.Int8,
	KVUint64: reflect.Uint64, KVUint32: reflect.Uint32, KVUint16: reflect.Uint16, KVUint8: reflect.Uint8, KVFloat: reflect.Float64, KVBool: reflect.Bool}

// fixed is a size of the plain little endian value, -1 when it has none.
func fixed(t reflect.Type) int {
	switch t.Kind() {
	case reflect.Bool, reflect.Int8, reflect.Uint8:
		return 1
	case reflect.Int16, reflect.Uint16:
		return 2
	case reflect.Int32, reflect.Uint32, reflect.Float32:
		return 4
	case reflect.Int64, reflect.Uint64, reflect.Float64:
		return 8
	case reflect.Array:
		if e := fixed(t.Elem()); e >= 0 {
			return e * t.Len()
		}
	case reflect.Struct:
		s := 0
		for i := 0; i < t.NumField(); i++ {
			e := fixed(t.Field(i).Type)
			if e < 0 {
				return -1
			}
			s += e
		}
		return s
	}
	return -1
}

func plain(t reflect.Type, b []byte) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Array:
		s := fixed(t.Elem())
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(plain(t.Elem(), b[i*s:(i+1)*s]))
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			s := fixed(t.Field(i).Type)
			v.Field(i).Set(plain(t.Field(i).Type, b[:s]))
			b = b[s:]
		}
	default:
		var full [8]byte
		copy(full[:], b)
		u := binary.LittleEndian.Uint64(full[:])
		switch t.Kind() {
		case reflect.Bool:
			v.SetBool(b[0] != 0)
		case reflect.Int8:
			v.SetInt(int64(int8(u)))
		case reflect.Int16:
			v.SetInt(int64(int16(u)))
		case reflect.Int32:
			v.SetInt(int64(int32(u)))
		case reflect.Int64:
			v.SetInt(int64(u))
		case reflect.Float64:
			v.SetFloat(math.Float64frombits(u))
		default:
			v.SetUint(u)
		}
	}
	return v
}

func (r *kvReader) value(t reflect.Type, typ byte) (reflect.Value, bool) {
	none := reflect.Value{}
	if typ&KVArray != 0 {
		if t.Kind() != reflect.Slice || typ == KVArray {
			return none, false
		}
		n, ok := r.size()
		if !ok {
			return none, false
		}
		v := reflect.New(t).Elem()
		for ; n > 0; n-- {
			x, ok := r.value(t.Elem(), typ&^KVArray)
			if !ok {
				return none, false
			}
			v = reflect.Append(v, x)
		}
		return v, true
	}
	if k, ok := kvKinds[typ]; ok {
		if t.Kind() != k {
			return none, false
		}
		b, ok := r.take(uint64(fixed(t)))
		if !ok {
			return none, false
		}
		return plain(t, b), true
	}
	switch typ {
	case KVBinary:
		n, ok := r.size()
		if !ok {
			return none, false
		}
		b, ok := r.take(n)
		if !ok {
			return none, false
		}
		switch t.Kind() {
		case reflect.String:
			return reflect.ValueOf(string(b)).Convert(t), true
		case reflect.Array:
			if t.Elem().Kind() != reflect.Uint8 || len(b) != t.Len() {
				return none, false
			}
			return plain(t, b), true
		case reflect.Slice:
			s := fixed(t.Elem())
			if s <= 0 || len(b)%s != 0 {
				return none, false
			}
			v := reflect.New(t).Elem()
			for ; len(b) > 0; b = b[s:] {
				v = reflect.Append(v, plain(t.Elem(), b[:s]))
			}
			return v, true
		}
	case KVObject:
		if t.Kind() == reflect.Struct {
			return r.object(t)
		}
	}
	return none, false
}

// KVDecode decodes document into a new value of the type.
func KVDecode(b []byte, t reflect.Type) (v reflect.Value, ok bool) {
	if len(b) < len(KVHeader) || string(b[:len(KVHeader)]) != string(KVHeader) {
		return reflect.Value{}, false
	}
	r := &kvReader{b[len(KVHeader):]}
	return r.object(t)
}

// Same compares values, nil and empty slices are the same and NaN equals itself.
func Same(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !Same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !Same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	default:
		return reflect.DeepEqual(a.Interface(), b.Interface())
	}
}
