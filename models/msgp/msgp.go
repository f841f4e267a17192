// Package msgp models github.com/tinylib/msgp/msgp for list level checks: one
// cell of a byte slice holds one whole msgpack object header or scalar, so
// that encoded integers stay symbolic without forking on their encoded size.
// The real package is used for the codec checks and for native replay.
package msgp

import (
	"errors"
	"io"
	"math"
	"time"
)

func vvCell(kind string, v interface{}) byte
func vvKind(b byte) string
func vvGet(b byte) interface{}

const (
	Int64Size        = 9
	IntSize          = Int64Size
	UintSize         = Int64Size
	Int8Size         = 2
	Int16Size        = 3
	Int32Size        = 5
	Uint8Size        = 2
	ByteSize         = Uint8Size
	Uint16Size       = 3
	Uint32Size       = 5
	Uint64Size       = Int64Size
	Float64Size      = 9
	Float32Size      = 5
	TimeSize         = 15
	BoolSize         = 1
	NilSize          = 1
	MapHeaderSize    = 5
	ArrayHeaderSize  = 5
	BytesPrefixSize  = 5
	StringPrefixSize = 5
)

type Type byte

const (
	InvalidType Type = iota
	StrType
	BinType
	MapType
	ArrayType
	Float64Type
	Float32Type
	BoolType
	IntType
	UintType
	NilType
	DurationType
	ExtensionType
)

// Error is implemented by all errors of this package.
type Error interface {
	error
	Resumable() bool
}

type errShort struct{}

func (errShort) Error() string   { return "msgp: too few bytes left to read object" }
func (errShort) Resumable() bool { return false }

var ErrShortBytes error = errShort{}
var Nowhere *Writer = NewWriter(nil)

type typeErr struct{ want, got string }

func (e *typeErr) Error() string { return "msgp: attempted to decode type " + e.got + " with method for " + e.want }

type ArrayError struct{ Wanted, Got uint32 }

func (a ArrayError) Error() string { return "msgp: wanted array of a different size" }

type IntOverflow struct{ Value int64 }

func (i IntOverflow) Error() string { return "msgp: int overflow" }

type UintOverflow struct{ Value uint64 }

func (u UintOverflow) Error() string { return "msgp: uint overflow" }

func (e *typeErr) Resumable() bool     { return true }
func (a ArrayError) Resumable() bool   { return true }
func (i IntOverflow) Resumable() bool  { return true }
func (u UintOverflow) Resumable() bool { return true }

func WrapError(err error, ctx ...interface{}) error { return err }
func Cause(e error) error                            { return e }
func Resumable(e error) bool                         { return true }

type Sizer interface{ Msgsize() int }
type Marshaler interface {
	MarshalMsg([]byte) ([]byte, error)
}
type Unmarshaler interface {
	UnmarshalMsg([]byte) ([]byte, error)
}
type Encodable interface{ EncodeMsg(*Writer) error }
type Decodable interface{ DecodeMsg(*Reader) error }

func UnsafeString(b []byte) string { return string(b) }
func UnsafeBytes(s string) []byte  { return []byte(s) }
func Require(old []byte, extra int) []byte {
	return old
}

// ---- append ----

func AppendMapHeader(b []byte, sz uint32) []byte   { return append(b, vvCell("m", sz)) }
func AppendArrayHeader(b []byte, sz uint32) []byte { return append(b, vvCell("a", sz)) }
func AppendNil(b []byte) []byte                    { return append(b, 0xc0) }
func AppendFloat64(b []byte, f float64) []byte     { return append(b, vvCell("f", f)) }
func AppendInt64(b []byte, i int64) []byte         { return append(b, vvCell("i", i)) }
func AppendInt(b []byte, i int) []byte             { return AppendInt64(b, int64(i)) }
func AppendInt32(b []byte, i int32) []byte         { return AppendInt64(b, int64(i)) }
func AppendInt16(b []byte, i int16) []byte         { return AppendInt64(b, int64(i)) }
func AppendInt8(b []byte, i int8) []byte           { return AppendInt64(b, int64(i)) }
func AppendUint64(b []byte, u uint64) []byte       { return append(b, vvCell("u", u)) }
func AppendUint(b []byte, u uint) []byte           { return AppendUint64(b, uint64(u)) }
func AppendUint32(b []byte, u uint32) []byte       { return AppendUint64(b, uint64(u)) }
func AppendUint16(b []byte, u uint16) []byte       { return AppendUint64(b, uint64(u)) }
func AppendUint8(b []byte, u uint8) []byte         { return append(b, u) }
func AppendByte(b []byte, u byte) []byte           { return append(b, u) }
func AppendBytes(b []byte, bts []byte) []byte {
	return append(b, vvCell("b", append([]byte{}, bts...)))
}
func AppendBool(b []byte, t bool) []byte {
	return append(b, vvCell("t", t))
}
func AppendString(b []byte, s string) []byte { return append(b, vvCell("s", s)) }
func AppendStringFromBytes(b []byte, s []byte) []byte {
	return append(b, vvCell("s", string(s)))
}

func kind(b byte) string {
	k := vvKind(b)
	if k != "" {
		return k
	}
	if b == 0xc0 {
		return "n"
	}
	if b < 0x80 {
		return "c"
	}
	return "?"
}

// ---- read from bytes ----

func ReadMapHeaderBytes(b []byte) (sz uint32, o []byte, err error) {
	if len(b) < 1 {
		return 0, b, ErrShortBytes
	}
	if kind(b[0]) != "m" {
		return 0, b, &typeErr{"map", kind(b[0])}
	}
	return vvGet(b[0]).(uint32), b[1:], nil
}

func ReadArrayHeaderBytes(b []byte) (sz uint32, o []byte, err error) {
	if len(b) < 1 {
		return 0, b, ErrShortBytes
	}
	if kind(b[0]) != "a" {
		return 0, b, &typeErr{"array", kind(b[0])}
	}
	return vvGet(b[0]).(uint32), b[1:], nil
}

func ReadNilBytes(b []byte) ([]byte, error) {
	if len(b) < 1 {
		return nil, ErrShortBytes
	}
	if kind(b[0]) != "n" {
		return b, &typeErr{"nil", kind(b[0])}
	}
	return b[1:], nil
}

func IsNil(b []byte) bool { return len(b) != 0 && kind(b[0]) == "n" }

func NextType(b []byte) Type {
	if len(b) == 0 {
		return InvalidType
	}
	switch kind(b[0]) {
	case "t":
		return BoolType
	case "m":
		return MapType
	case "a":
		return ArrayType
	case "s":
		return StrType
	case "b":
		return BinType
	case "n":
		return NilType
	case "f":
		return Float64Type
	case "u":
		return UintType
	}
	return IntType
}

func ReadFloat64Bytes(b []byte) (f float64, o []byte, err error) {
	if len(b) < 1 {
		return 0, b, ErrShortBytes
	}
	if kind(b[0]) != "f" {
		return 0, b, &typeErr{"float64", kind(b[0])}
	}
	return vvGet(b[0]).(float64), b[1:], nil
}

func ReadBoolBytes(b []byte) (bool, []byte, error) {
	if len(b) < 1 {
		return false, b, ErrShortBytes
	}
	if kind(b[0]) != "t" {
		return false, b, &typeErr{"bool", kind(b[0])}
	}
	return vvGet(b[0]).(bool), b[1:], nil
}

func ReadInt64Bytes(b []byte) (i int64, o []byte, err error) {
	if len(b) < 1 {
		return 0, b, ErrShortBytes
	}
	switch kind(b[0]) {
	case "i":
		return vvGet(b[0]).(int64), b[1:], nil
	case "c":
		return int64(b[0]), b[1:], nil
	case "u":
		u := vvGet(b[0]).(uint64)
		if u > math.MaxInt64 {
			return 0, b, UintOverflow{u}
		}
		return int64(u), b[1:], nil
	}
	return 0, b, &typeErr{"int", kind(b[0])}
}

func ReadIntBytes(b []byte) (int, []byte, error) {
	i, b, err := ReadInt64Bytes(b)
	return int(i), b, err
}

func ReadUint64Bytes(b []byte) (u uint64, o []byte, err error) {
	if len(b) < 1 {
		return 0, b, ErrShortBytes
	}
	switch kind(b[0]) {
	case "u":
		return vvGet(b[0]).(uint64), b[1:], nil
	case "c":
		return uint64(b[0]), b[1:], nil
	case "i":
		i := vvGet(b[0]).(int64)
		if i < 0 {
			return 0, b, IntOverflow{i}
		}
		return uint64(i), b[1:], nil
	}
	return 0, b, &typeErr{"uint", kind(b[0])}
}

func ReadUint32Bytes(b []byte) (uint32, []byte, error) {
	v, o, err := ReadUint64Bytes(b)
	if err == nil && v > math.MaxUint32 {
		return 0, b, UintOverflow{v}
	}
	return uint32(v), o, err
}

func ReadUint16Bytes(b []byte) (uint16, []byte, error) {
	v, o, err := ReadUint64Bytes(b)
	if err == nil && v > math.MaxUint16 {
		return 0, b, UintOverflow{v}
	}
	return uint16(v), o, err
}

func ReadUint8Bytes(b []byte) (uint8, []byte, error) {
	v, o, err := ReadUint64Bytes(b)
	if err == nil && v > math.MaxUint8 {
		return 0, b, UintOverflow{v}
	}
	return uint8(v), o, err
}

func ReadInt32Bytes(b []byte) (int32, []byte, error) {
	v, o, err := ReadInt64Bytes(b)
	if err == nil && (v > math.MaxInt32 || v < math.MinInt32) {
		return 0, b, IntOverflow{v}
	}
	return int32(v), o, err
}

func ReadByteBytes(b []byte) (byte, []byte, error) { return ReadUint8Bytes(b) }

func ReadBytesBytes(b []byte, scratch []byte) (v []byte, o []byte, err error) {
	if len(b) < 1 {
		return nil, b, ErrShortBytes
	}
	if kind(b[0]) != "b" {
		return nil, b, &typeErr{"bin", kind(b[0])}
	}
	src := vvGet(b[0]).([]byte)
	if cap(scratch) >= len(src) {
		v = scratch[0:len(src)]
	} else {
		v = make([]byte, len(src))
	}
	copy(v, src)
	return v, b[1:], nil
}

func ReadStringBytes(b []byte) (string, []byte, error) {
	if len(b) < 1 {
		return "", b, ErrShortBytes
	}
	if kind(b[0]) != "s" {
		return "", b, &typeErr{"str", kind(b[0])}
	}
	return vvGet(b[0]).(string), b[1:], nil
}

func ReadStringZC(b []byte) ([]byte, []byte, error) {
	s, o, err := ReadStringBytes(b)
	return []byte(s), o, err
}

func ReadMapKeyZC(b []byte) ([]byte, []byte, error) {
	if len(b) > 0 && kind(b[0]) == "b" {
		return ReadBytesBytes(b, nil)
	}
	return ReadStringZC(b)
}

func Skip(b []byte) ([]byte, error) {
	if len(b) < 1 {
		return b, ErrShortBytes
	}
	n := uint32(0)
	switch kind(b[0]) {
	case "m":
		n = 2 * vvGet(b[0]).(uint32)
	case "a":
		n = vvGet(b[0]).(uint32)
	}
	b = b[1:]
	var err error
	for i := uint32(0); i < n; i++ {
		b, err = Skip(b)
		if err != nil {
			return b, err
		}
	}
	return b, nil
}

// ---- Writer ----

type Writer struct {
	w   io.Writer
	buf []byte
}

func NewWriter(w io.Writer) *Writer               { return &Writer{w: w} }
func NewWriterSize(w io.Writer, sz int) *Writer   { return &Writer{w: w} }
func (mw *Writer) Reset(w io.Writer)              { mw.w = w; mw.buf = nil }
func (mw *Writer) Buffered() int                  { return len(mw.buf) }
func (mw *Writer) Flush() error {
	if len(mw.buf) == 0 {
		return nil
	}
	b := mw.buf
	mw.buf = nil
	n, err := mw.w.Write(b)
	if err == nil && n < len(b) {
		err = io.ErrShortWrite
	}
	return err
}
func (mw *Writer) Write(p []byte) (int, error)          { mw.buf = append(mw.buf, p...); return len(p), nil }
func (mw *Writer) WriteString(s string) error           { mw.buf = AppendString(mw.buf, s); return nil }
func (mw *Writer) Append(b ...byte) error               { mw.buf = append(mw.buf, fix(b)...); return nil }
func (mw *Writer) WriteMapHeader(sz uint32) error       { mw.buf = AppendMapHeader(mw.buf, sz); return nil }
func (mw *Writer) WriteArrayHeader(sz uint32) error     { mw.buf = AppendArrayHeader(mw.buf, sz); return nil }
func (mw *Writer) WriteNil() error                      { mw.buf = AppendNil(mw.buf); return nil }
func (mw *Writer) WriteFloat64(f float64) error         { mw.buf = AppendFloat64(mw.buf, f); return nil }
func (mw *Writer) WriteInt64(i int64) error             { mw.buf = AppendInt64(mw.buf, i); return nil }
func (mw *Writer) WriteInt(i int) error                 { return mw.WriteInt64(int64(i)) }
func (mw *Writer) WriteInt32(i int32) error             { return mw.WriteInt64(int64(i)) }
func (mw *Writer) WriteUint64(u uint64) error           { mw.buf = AppendUint64(mw.buf, u); return nil }
func (mw *Writer) WriteUint(u uint) error               { return mw.WriteUint64(uint64(u)) }
func (mw *Writer) WriteUint32(u uint32) error           { return mw.WriteUint64(uint64(u)) }
func (mw *Writer) WriteUint16(u uint16) error           { return mw.WriteUint64(uint64(u)) }
func (mw *Writer) WriteUint8(u uint8) error             { mw.buf = append(mw.buf, u); return nil }
func (mw *Writer) WriteByte(u byte) error               { mw.buf = append(mw.buf, u); return nil }
func (mw *Writer) WriteBytes(b []byte) error            { mw.buf = AppendBytes(mw.buf, b); return nil }
func (mw *Writer) WriteBool(b bool) error               { mw.buf = AppendBool(mw.buf, b); return nil }
func (mw *Writer) WriteTime(t time.Time) error          { return errors.New("model: time not supported") }

// fix turns the raw header bytes the generator emits into cells.
func fix(b []byte) []byte {
	var o []byte
	for i := 0; i < len(b); {
		c := b[i]
		switch {
		case c&0xf0 == 0x80:
			o = AppendMapHeader(o, uint32(c&0x0f))
			i++
		case c&0xf0 == 0x90:
			o = AppendArrayHeader(o, uint32(c&0x0f))
			i++
		case c == 0xde:
			o = AppendMapHeader(o, uint32(b[i+1])<<8|uint32(b[i+2]))
			i += 3
		case c == 0xdc:
			o = AppendArrayHeader(o, uint32(b[i+1])<<8|uint32(b[i+2]))
			i += 3
		case c&0xe0 == 0xa0:
			n := int(c & 0x1f)
			o = AppendString(o, string(b[i+1:i+1+n]))
			i += 1 + n
		case c == 0xd9:
			n := int(b[i+1])
			o = AppendString(o, string(b[i+2:i+2+n]))
			i += 2 + n
		default:
			o = append(o, c)
			i++
		}
	}
	return o
}

// ---- Reader ----

type Reader struct {
	r   io.Reader
	buf []byte
	err error
}

func NewReader(r io.Reader) *Reader             { return &Reader{r: r} }
func NewReaderSize(r io.Reader, sz int) *Reader { return &Reader{r: r} }
func (m *Reader) Reset(r io.Reader)             { m.r = r; m.buf = nil; m.err = nil }
func (m *Reader) fill() error {
	for len(m.buf) == 0 {
		if m.err != nil {
			return m.err
		}
		tmp := make([]byte, 64)
		n, err := m.r.Read(tmp)
		m.buf = tmp[:n]
		m.err = err
		if n == 0 && err == nil {
			m.err = io.ErrNoProgress
		}
	}
	return nil
}
func (m *Reader) Read(p []byte) (int, error) {
	if err := m.fill(); err != nil {
		return 0, err
	}
	n := copy(p, m.buf)
	m.buf = m.buf[n:]
	return n, nil
}
func (m *Reader) NextType() (Type, error) {
	if err := m.fill(); err != nil {
		return InvalidType, err
	}
	return NextType(m.buf), nil
}
func (m *Reader) IsNil() bool { return m.fill() == nil && IsNil(m.buf) }
func (m *Reader) Skip() error {
	if err := m.fill(); err != nil {
		return err
	}
	n := uint32(0)
	switch kind(m.buf[0]) {
	case "m":
		n = 2 * vvGet(m.buf[0]).(uint32)
	case "a":
		n = vvGet(m.buf[0]).(uint32)
	}
	m.buf = m.buf[1:]
	for i := uint32(0); i < n; i++ {
		if err := m.Skip(); err != nil {
			if err == io.EOF {
				err = io.ErrUnexpectedEOF
			}
			return err
		}
	}
	return nil
}
func (m *Reader) ReadMapHeader() (sz uint32, err error) {
	if err = m.fill(); err == nil {
		sz, m.buf, err = ReadMapHeaderBytes(m.buf)
	}
	return
}
func (m *Reader) ReadArrayHeader() (sz uint32, err error) {
	if err = m.fill(); err == nil {
		sz, m.buf, err = ReadArrayHeaderBytes(m.buf)
	}
	return
}
func (m *Reader) ReadMapKey(scratch []byte) ([]byte, error) { return m.ReadMapKeyPtr() }
func (m *Reader) ReadMapKeyPtr() (k []byte, err error) {
	if err = m.fill(); err == nil {
		k, m.buf, err = ReadMapKeyZC(m.buf)
	}
	return
}
func (m *Reader) ReadNil() (err error) {
	if err = m.fill(); err == nil {
		m.buf, err = ReadNilBytes(m.buf)
	}
	return
}
func (m *Reader) ReadFloat64() (f float64, err error) {
	if err = m.fill(); err == nil {
		f, m.buf, err = ReadFloat64Bytes(m.buf)
	}
	return
}
func (m *Reader) ReadBool() (f bool, err error) {
	if err = m.fill(); err == nil {
		f, m.buf, err = ReadBoolBytes(m.buf)
	}
	return
}
func (m *Reader) ReadInt64() (f int64, err error) {
	if err = m.fill(); err == nil {
		f, m.buf, err = ReadInt64Bytes(m.buf)
	}
	return
}
func (m *Reader) ReadInt() (int, error) {
	f, err := m.ReadInt64()
	return int(f), err
}
func (m *Reader) ReadInt32() (f int32, err error) {
	if err = m.fill(); err == nil {
		f, m.buf, err = ReadInt32Bytes(m.buf)
	}
	return
}
func (m *Reader) ReadUint64() (f uint64, err error) {
	if err = m.fill(); err == nil {
		f, m.buf, err = ReadUint64Bytes(m.buf)
	}
	return
}
func (m *Reader) ReadUint() (uint, error) {
	f, err := m.ReadUint64()
	return uint(f), err
}
func (m *Reader) ReadUint32() (f uint32, err error) {
	if err = m.fill(); err == nil {
		f, m.buf, err = ReadUint32Bytes(m.buf)
	}
	return
}
func (m *Reader) ReadUint16() (f uint16, err error) {
	if err = m.fill(); err == nil {
		f, m.buf, err = ReadUint16Bytes(m.buf)
	}
	return
}
func (m *Reader) ReadUint8() (f uint8, err error) {
	if err = m.fill(); err == nil {
		f, m.buf, err = ReadUint8Bytes(m.buf)
	}
	return
}
func (m *Reader) ReadByte() (byte, error) { return m.ReadUint8() }
func (m *Reader) ReadBytes(scratch []byte) (b []byte, err error) {
	if err = m.fill(); err == nil {
		b, m.buf, err = ReadBytesBytes(m.buf, scratch)
	}
	return
}
func (m *Reader) ReadString() (s string, err error) {
	if err = m.fill(); err == nil {
		s, m.buf, err = ReadStringBytes(m.buf)
	}
	return
}

// Encode encodes e to w.
func Encode(w io.Writer, e Encodable) error {
	wr := NewWriter(w)
	err := e.EncodeMsg(wr)
	if err == nil {
		err = wr.Flush()
	}
	return err
}

// Decode decodes d from r.
func Decode(r io.Reader, d Decodable) error {
	return d.DecodeMsg(NewReader(r))
}

// Raw is one encoded value.
type Raw []byte

func (r Raw) MarshalMsg(b []byte) ([]byte, error) {
	if len(r) == 0 {
		return AppendNil(b), nil
	}
	return append(b, r...), nil
}

func (r *Raw) UnmarshalMsg(b []byte) ([]byte, error) {
	l := len(b)
	out, err := Skip(b)
	if err != nil {
		return b, err
	}
	*r = append((*r)[:0], b[:l-len(out)]...)
	return out, nil
}

func (r Raw) EncodeMsg(w *Writer) error {
	if len(r) == 0 {
		return w.WriteNil()
	}
	w.buf = append(w.buf, r...)
	return nil
}

func (r *Raw) DecodeMsg(f *Reader) error {
	*r = (*r)[:0]
	return r.next(f)
}

func (r *Raw) next(f *Reader) error {
	if err := f.fill(); err != nil {
		return err
	}
	n := uint32(0)
	switch kind(f.buf[0]) {
	case "m":
		n = 2 * vvGet(f.buf[0]).(uint32)
	case "a":
		n = vvGet(f.buf[0]).(uint32)
	}
	*r = append(*r, f.buf[0])
	f.buf = f.buf[1:]
	for i := uint32(0); i < n; i++ {
		if err := r.next(f); err != nil {
			return err
		}
	}
	return nil
}

func (r Raw) Msgsize() int { return len(r) + 1 }
