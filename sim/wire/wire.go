// Package wire is an independent implementation of the two HAProxy wire
// formats (SPOP 2.0 and peers 2.1), written from the protocol descriptions.
// It shares no code with the tree under test; the stub HAProxy and the
// oracles use it.
package wire

import (
	"encoding/binary"
	"errors"
	"fmt"
)

// ErrShort reports a truncated value.
var ErrShort = errors.New("truncated")

// AppendVarint appends v in HAProxy's variable length encoding.
func AppendVarint(b []byte, v uint64) []byte {
	if v < 240 {
		return append(b, byte(v))
	}
	b = append(b, byte(v)|0xf0)
	v = (v - 240) >> 4
	for v >= 128 {
		b = append(b, byte(v)|0x80)
		v = (v - 128) >> 7
	}
	return append(b, byte(v))
}

// Varint decodes one value and returns the rest.
func Varint(b []byte) (uint64, []byte, error) {
	if len(b) == 0 {
		return 0, nil, ErrShort
	}
	v := uint64(b[0])
	if v < 240 {
		return v, b[1:], nil
	}
	shift := uint(4)
	for i := 1; ; i++ {
		if i >= len(b) || i > 10 {
			return 0, nil, ErrShort
		}
		v += uint64(b[i]) << shift
		shift += 7
		if b[i] < 128 {
			return v, b[i+1:], nil
		}
	}
}

// AppendBytes appends a length-prefixed string.
func AppendBytes(b, s []byte) []byte { return append(AppendVarint(b, uint64(len(s))), s...) }

// Bytes decodes a length-prefixed string.
func Bytes(b []byte) ([]byte, []byte, error) {
	n, r, err := Varint(b)
	if err != nil {
		return nil, nil, err
	}
	if n > uint64(len(r)) {
		return nil, nil, ErrShort
	}
	return r[:n], r[n:], nil
}

// SPOP data types.
const (
	TNull = iota
	TBool
	TInt32
	TUint32
	TInt64
	TUint64
	TIPv4
	TIPv6
	TString
	TBinary
)

// Val is one typed value.
type Val struct {
	T int    `json:"t"`
	N uint64 `json:"n,omitempty"` // integers (two's complement) and booleans
	B []byte `json:"b,omitempty"` // addresses, strings and binaries
}

// AppendVal appends type and value.
func AppendVal(b []byte, v Val) []byte {
	switch v.T {
	case TBool:
		if v.N != 0 {
			return append(b, TBool|0x10)
		}
		return append(b, TBool)
	case TInt32, TUint32, TInt64, TUint64:
		return AppendVarint(append(b, byte(v.T)), v.N)
	case TIPv4, TIPv6:
		return append(append(b, byte(v.T)), v.B...)
	case TString, TBinary:
		return AppendBytes(append(b, byte(v.T)), v.B)
	default:
		return append(b, TNull)
	}
}

// DecodeVal decodes type and value.
func DecodeVal(b []byte) (Val, []byte, error) {
	var v Val
	if len(b) == 0 {
		return v, nil, ErrShort
	}
	v.T = int(b[0] & 15)
	flag := b[0] >> 4
	b = b[1:]
	var err error
	switch v.T {
	case TNull:
	case TBool:
		v.N = uint64(flag & 1)
	case TInt32, TUint32, TInt64, TUint64:
		v.N, b, err = Varint(b)
	case TIPv4, TIPv6:
		n := 4
		if v.T == TIPv6 {
			n = 16
		}
		if len(b) < n {
			return v, nil, ErrShort
		}
		v.B, b = b[:n], b[n:]
	case TString, TBinary:
		v.B, b, err = Bytes(b)
	default:
		err = fmt.Errorf("unknown data type %d", v.T)
	}
	return v, b, err
}

// KV is a named value.
type KV struct {
	K string `json:"k"`
	V Val    `json:"v"`
}

// AppendKV appends name and value.
func AppendKV(b []byte, kv KV) []byte { return AppendVal(AppendBytes(b, []byte(kv.K)), kv.V) }

// DecodeKVs decodes a list of named values that fills b.
func DecodeKVs(b []byte) ([]KV, error) {
	var out []KV
	for len(b) > 0 {
		k, r, err := Bytes(b)
		if err != nil {
			return out, err
		}
		v, r, err := DecodeVal(r)
		if err != nil {
			return out, err
		}
		out = append(out, KV{string(k), v})
		b = r
	}
	return out, nil
}

// SPOP frame types.
const (
	FHaproxyHello      = 1
	FHaproxyDisconnect = 2
	FNotify            = 3
	FAgentHello        = 101
	FAgentDisconnect   = 102
	FAck               = 103
)

// AppendFrame appends a whole frame with its length prefix.
func AppendFrame(b []byte, typ byte, flags uint32, stream, frame uint64, payload []byte) []byte {
	h := []byte{typ}
	h = binary.BigEndian.AppendUint32(h, flags)
	h = AppendVarint(h, stream)
	h = AppendVarint(h, frame)
	b = binary.BigEndian.AppendUint32(b, uint32(len(h)+len(payload)))
	b = append(b, h...)
	return append(b, payload...)
}

// Frame is a decoded frame.
type Frame struct {
	Type          byte
	Flags         uint32
	Stream, Frame uint64
	Payload       []byte
	Len           int // declared length
	End           int // stream offset just after the frame
}

// DecodeFrame decodes the first frame of b. ok is false if b is too short.
func DecodeFrame(b []byte) (f Frame, n int, ok bool, err error) {
	if len(b) < 4 {
		return f, 0, false, nil
	}
	l := binary.BigEndian.Uint32(b)
	f.Len = int(l)
	if uint64(len(b)-4) < uint64(l) {
		// report obvious garbage early
		if len(b) > 4 && b[4] != FAgentHello && b[4] != FAgentDisconnect && b[4] != FAck {
			return f, 0, false, fmt.Errorf("incomplete frame of declared length %d has type %d", l, b[4])
		}
		return f, 0, false, nil
	}
	p := b[4 : 4+l]
	if len(p) < 7 {
		return f, 0, false, fmt.Errorf("frame of %d bytes", l)
	}
	f.Type = p[0]
	f.Flags = binary.BigEndian.Uint32(p[1:])
	p = p[5:]
	if f.Stream, p, err = Varint(p); err != nil {
		return f, 0, false, fmt.Errorf("stream id: %w", err)
	}
	if f.Frame, p, err = Varint(p); err != nil {
		return f, 0, false, fmt.Errorf("frame id: %w", err)
	}
	f.Payload = p
	return f, 4 + int(l), true, nil
}

// Action is a decoded or planned ACK action.
type Action struct {
	Unset bool   `json:"unset,omitempty"`
	Scope byte   `json:"scope"`
	Name  string `json:"name"`
	V     Val    `json:"v"`
	// Call selects the library call that issues a planned action:
	// null bool i32 u32 i64 u64 addr badaddr str strb bin unset
	Call string `json:"call,omitempty"`
}

// DecodeActions decodes an ACK payload.
func DecodeActions(b []byte) ([]Action, error) {
	var out []Action
	for len(b) > 0 {
		if len(b) < 3 {
			return out, ErrShort
		}
		var a Action
		switch {
		case b[0] == 1 && b[1] == 3:
		case b[0] == 2 && b[1] == 2:
			a.Unset = true
		default:
			return out, fmt.Errorf("action type %d with %d arguments", b[0], b[1])
		}
		a.Scope = b[2]
		if a.Scope > 4 {
			return out, fmt.Errorf("action scope %d", a.Scope)
		}
		n, r, err := Bytes(b[3:])
		if err != nil {
			return out, fmt.Errorf("action name: %w", err)
		}
		a.Name = string(n)
		if !a.Unset {
			if a.V, r, err = DecodeVal(r); err != nil {
				return out, fmt.Errorf("action value: %w", err)
			}
		}
		out = append(out, a)
		b = r
	}
	return out, nil
}

// ---- peers ----

// Peers message classes and types.
const (
	ClassControl = 0
	ClassError   = 1
	ClassTable   = 10

	MUpdate      = 128
	MInc         = 129
	MDefine      = 130
	MSwitch      = 131
	MAck         = 132
	MUpdateTimed = 133
	MIncTimed    = 134
)

// Col is a column of a table definition.
type Col struct {
	T       int    `json:"t"`
	Counter uint64 `json:"c,omitempty"`
	Period  uint64 `json:"p,omitempty"`
}

// Def is a table definition.
type Def struct {
	ID     uint64 `json:"id"`
	Name   string `json:"name"`
	KeyT   int    `json:"kt"`
	KeyLen uint64 `json:"kl"`
	Expiry uint64 `json:"exp"`
	Cols   []Col  `json:"cols"`
}

// Key types.
const (
	KInt  = 2
	KIPv4 = 4
	KIPv6 = 5
	KStr  = 6
	KBin  = 7
)

// ColKind is the encoding of a column.
type ColKind int

// Column kinds.
const (
	ColSigned ColKind = iota
	ColU32
	ColU64
	ColFreq
	ColDict
)

// KindOf returns the encoding of HAProxy's column type t.
func KindOf(t int) ColKind {
	switch t {
	case 0:
		return ColSigned
	case 3, 5, 8, 10, 12, 14, 16, 18, 21, 26:
		return ColFreq
	case 13, 15:
		return ColU64
	case 19:
		return ColDict
	default:
		return ColU32
	}
}

// Scalar lists the column types with a fixed layout (no arrays).
var Scalar = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 25, 26}

// EncodeDef encodes a definition payload.
func EncodeDef(d *Def) []byte {
	b := AppendVarint(nil, d.ID)
	b = AppendBytes(b, []byte(d.Name))
	b = AppendVarint(b, uint64(d.KeyT))
	b = AppendVarint(b, d.KeyLen)
	var bits uint64
	for _, c := range d.Cols {
		bits |= 1 << c.T
	}
	b = AppendVarint(b, bits)
	b = AppendVarint(b, d.Expiry)
	for _, c := range d.Cols {
		if KindOf(c.T) == ColFreq {
			b = AppendVarint(b, c.Counter)
			b = AppendVarint(b, c.Period)
		}
	}
	return b
}

// DecodeDef decodes a definition payload.
func DecodeDef(b []byte) (*Def, error) {
	d := &Def{}
	var err error
	var n []byte
	var u uint64
	if d.ID, b, err = Varint(b); err != nil {
		return nil, err
	}
	if n, b, err = Bytes(b); err != nil {
		return nil, err
	}
	d.Name = string(n)
	if u, b, err = Varint(b); err != nil {
		return nil, err
	}
	d.KeyT = int(u)
	if d.KeyLen, b, err = Varint(b); err != nil {
		return nil, err
	}
	var bits uint64
	if bits, b, err = Varint(b); err != nil {
		return nil, err
	}
	if d.Expiry, b, err = Varint(b); err != nil {
		return nil, err
	}
	for t := 0; t < 64; t++ {
		if bits>>t&1 == 0 {
			continue
		}
		c := Col{T: t}
		if KindOf(t) == ColFreq {
			if c.Counter, b, err = Varint(b); err != nil {
				return nil, err
			}
			if c.Period, b, err = Varint(b); err != nil {
				return nil, err
			}
		}
		d.Cols = append(d.Cols, c)
	}
	if len(b) != 0 {
		return nil, fmt.Errorf("%d bytes after the definition", len(b))
	}
	return d, nil
}

// Cell is one column value.
type Cell struct {
	U [3]uint64 `json:"u"` // scalar in U[0]; frequency tick, current, last; dictionary id
	B []byte    `json:"b"` // dictionary value; none and an empty one are different
}

// Upd is an entry update.
type Upd struct {
	Kind   int    `json:"kind"` // MUpdate, MInc, MUpdateTimed, MIncTimed
	ID     uint32 `json:"id"`
	Expiry uint32 `json:"exp,omitempty"`
	KeyN   int32  `json:"kn,omitempty"`
	KeyB   []byte `json:"kb,omitempty"`
	Cells  []Cell `json:"cells"`
}

// HasID reports whether the kind carries an explicit update id.
func HasID(kind int) bool { return kind == MUpdate || kind == MUpdateTimed }

// HasExpiry reports whether the kind carries an expiry.
func HasExpiry(kind int) bool { return kind == MUpdateTimed || kind == MIncTimed }

// EncodeUpd encodes an entry update payload for table d.
func EncodeUpd(d *Def, u *Upd) []byte {
	var b []byte
	if HasID(u.Kind) {
		b = binary.BigEndian.AppendUint32(b, u.ID)
	}
	if HasExpiry(u.Kind) {
		b = binary.BigEndian.AppendUint32(b, u.Expiry)
	}
	switch d.KeyT {
	case KInt:
		b = binary.BigEndian.AppendUint32(b, uint32(u.KeyN))
	case KStr:
		b = AppendBytes(b, u.KeyB)
	default:
		b = append(b, u.KeyB...)
	}
	for i, c := range d.Cols {
		v := u.Cells[i]
		switch KindOf(c.T) {
		case ColSigned:
			b = AppendVarint(b, uint64(int64(int32(v.U[0]))))
		case ColU32, ColU64:
			b = AppendVarint(b, v.U[0])
		case ColFreq:
			b = AppendVarint(b, v.U[0])
			b = AppendVarint(b, v.U[1])
			b = AppendVarint(b, v.U[2])
		case ColDict:
			if v.U[0] == 0 {
				b = AppendVarint(b, 0)
				continue
			}
			x := AppendVarint(nil, v.U[0])
			if v.B != nil {
				x = AppendBytes(x, v.B)
			}
			b = AppendVarint(b, uint64(len(x)))
			b = append(b, x...)
		}
	}
	return b
}

// DecodeUpd decodes an entry update payload for table d.
func DecodeUpd(d *Def, kind int, b []byte) (*Upd, error) {
	u := &Upd{Kind: kind}
	var err error
	if HasID(kind) {
		if len(b) < 4 {
			return nil, ErrShort
		}
		u.ID, b = binary.BigEndian.Uint32(b), b[4:]
	}
	if HasExpiry(kind) {
		if len(b) < 4 {
			return nil, ErrShort
		}
		u.Expiry, b = binary.BigEndian.Uint32(b), b[4:]
	}
	take := func(n uint64) error {
		if n > uint64(len(b)) {
			return ErrShort
		}
		u.KeyB, b = b[:n], b[n:]
		return nil
	}
	switch d.KeyT {
	case KInt:
		if len(b) < 4 {
			return nil, ErrShort
		}
		u.KeyN, b = int32(binary.BigEndian.Uint32(b)), b[4:]
	case KIPv4:
		err = take(4)
	case KIPv6:
		err = take(16)
	case KStr:
		u.KeyB, b, err = Bytes(b)
	case KBin:
		err = take(d.KeyLen)
	default:
		err = fmt.Errorf("key type %d", d.KeyT)
	}
	if err != nil {
		return nil, fmt.Errorf("key: %w", err)
	}
	for _, c := range d.Cols {
		var v Cell
		switch KindOf(c.T) {
		case ColSigned, ColU32, ColU64:
			v.U[0], b, err = Varint(b)
			if KindOf(c.T) == ColSigned {
				v.U[0] = uint64(int64(int32(v.U[0])))
			}
		case ColFreq:
			for i := 0; i < 3 && err == nil; i++ {
				v.U[i], b, err = Varint(b)
			}
		case ColDict:
			var x []byte
			x, b, err = Bytes(b)
			if err == nil && len(x) > 0 {
				v.U[0], x, err = Varint(x)
				if err == nil && v.U[0] == 0 {
					err = errors.New("dictionary id 0")
				}
				if err == nil && len(x) > 0 {
					var val []byte
					val, x, err = Bytes(x)
					v.B = append([]byte{}, val...)
					if err == nil && len(x) != 0 {
						err = errors.New("bytes after a dictionary value")
					}
				}
			}
		}
		if err != nil {
			return nil, fmt.Errorf("column %d: %w", c.T, err)
		}
		u.Cells = append(u.Cells, v)
	}
	if len(b) != 0 {
		return nil, fmt.Errorf("%d bytes after the entry", len(b))
	}
	return u, nil
}

// AppendMsg appends a peers message; payload is used for types from 128.
func AppendMsg(b []byte, class, typ byte, payload []byte) []byte {
	b = append(b, class, typ)
	if typ >= 128 {
		b = AppendBytes(b, payload)
	}
	return b
}

// Msg is a decoded peers message.
type Msg struct {
	Class, Type byte
	Payload     []byte
	End         int // stream offset just after the message
}

// DecodeMsg decodes the first message of b. ok is false if b is too short.
func DecodeMsg(b []byte) (m Msg, n int, ok bool, err error) {
	if len(b) < 2 {
		return m, 0, false, nil
	}
	m.Class, m.Type = b[0], b[1]
	switch m.Class {
	case ClassControl:
		if m.Type > 4 {
			return m, 0, false, fmt.Errorf("control message type %d", m.Type)
		}
	case ClassError:
		if m.Type > 1 {
			return m, 0, false, fmt.Errorf("error message type %d", m.Type)
		}
	case ClassTable:
		if m.Type < 128 || m.Type > 134 {
			return m, 0, false, fmt.Errorf("stick-table message type %d", m.Type)
		}
	default:
		return m, 0, false, fmt.Errorf("message class %d", m.Class)
	}
	if m.Type < 128 {
		return m, 2, true, nil
	}
	l, r, err := Varint(b[2:])
	if err != nil {
		if len(b) > 13 {
			return m, 0, false, errors.New("bad message length")
		}
		return m, 0, false, nil
	}
	if l > 1<<24 {
		return m, 0, false, fmt.Errorf("message length %d", l)
	}
	if uint64(len(r)) < l {
		return m, 0, false, nil
	}
	m.Payload = r[:l]
	return m, len(b) - len(r) + int(l), true, nil
}
