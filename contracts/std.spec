// Contracts assumed about the Go standard library (never verified here; listed as trusted in the evidence).
package std
ghostfield bufio.Reader.rest seq[int]
ghostfield bufio.Reader.term error
ghostfield bufio.Reader.buf []byte
ghostfield io.Reader.rest seq[int]
ghostfield io.Reader.term error

extern func "bufio.NewReader"(r) (b)
  modifies nothing
  ensures b != nil && isfresh(b)
  ensures b.rest == r.rest && b.term == r.term
  ensures isfresh(b.buf) && allocated(b.buf)

// the next line including its delimiter, a chunk without delimiter when the buffer is full, or all that is left
// together with the reader's terminal error.  The result lies in the reader's own buffer.
extern func "(*bufio.Reader).ReadSlice"(b, delim) (line, err)
  modifies b.rest, elems(b.buf)
  ensures line == nil || base(line) == base(b.buf)
  ensures seq(line) ++ b.rest == old(b.rest)
  ensures len(line) <= len(old(b.rest))
  ensures err == nil ==> len(line) > 0 && line[len(line)-1] == delim && (forall i int {line[i]} :: 0 <= i && i < len(line)-1 ==> line[i] != delim)
  ensures err != nil ==> (forall i int {line[i]} :: 0 <= i && i < len(line) ==> line[i] != delim)
  ensures err != nil && err != bufio.ErrBufferFull ==> len(b.rest) == 0 && err == b.term
  ensures err == bufio.ErrBufferFull ==> len(line) > 0

// ---- bytes.Buffer: the unread content
ghostfield bytes.Buffer.data seq[int]
extern func "bytes.NewBuffer"(b) (r)
  modifies nothing
  ensures r != nil && isfresh(r) && r.data == seq(b)
spec func isLE(o binary.ByteOrder) bool = typeis(o, binary.littleEndian)
spec func s8(s seq[int], i int) int = s[i]
spec func u16le(s seq[int], i int) int = s[i] + 256*s[i+1]
spec func u32le(s seq[int], i int) int = s[i] + 256*s[i+1] + 65536*s[i+2] + 16777216*s[i+3]
spec func u64le(s seq[int], i int) int = u32le(s, i) + 4294967296*u32le(s, i+4)
extern func "encoding/binary.Read[*int16]"(r, order, data) (err)
  modifies as(r, *bytes.Buffer).data
  ensures typeis(r, *bytes.Buffer) && isLE(order) && len(old(as(r, *bytes.Buffer).data)) >= 2 ==> err == nil && *data == int16(u16le(old(as(r, *bytes.Buffer).data), 0)) && as(r, *bytes.Buffer).data == seq(old(as(r, *bytes.Buffer).data), 2, len(old(as(r, *bytes.Buffer).data)))
extern func "encoding/binary.Read[*uint16]"(r, order, data) (err)
  modifies as(r, *bytes.Buffer).data
  ensures typeis(r, *bytes.Buffer) && isLE(order) && len(old(as(r, *bytes.Buffer).data)) >= 2 ==> err == nil && *data == u16le(old(as(r, *bytes.Buffer).data), 0) && as(r, *bytes.Buffer).data == seq(old(as(r, *bytes.Buffer).data), 2, len(old(as(r, *bytes.Buffer).data)))
extern func "encoding/binary.Read[*int32]"(r, order, data) (err)
  modifies as(r, *bytes.Buffer).data
  ensures typeis(r, *bytes.Buffer) && isLE(order) && len(old(as(r, *bytes.Buffer).data)) >= 4 ==> err == nil && *data == int32(u32le(old(as(r, *bytes.Buffer).data), 0)) && as(r, *bytes.Buffer).data == seq(old(as(r, *bytes.Buffer).data), 4, len(old(as(r, *bytes.Buffer).data)))
extern func "encoding/binary.Read[*uint32]"(r, order, data) (err)
  modifies as(r, *bytes.Buffer).data
  ensures typeis(r, *bytes.Buffer) && isLE(order) && len(old(as(r, *bytes.Buffer).data)) >= 4 ==> err == nil && *data == u32le(old(as(r, *bytes.Buffer).data), 0) && as(r, *bytes.Buffer).data == seq(old(as(r, *bytes.Buffer).data), 4, len(old(as(r, *bytes.Buffer).data)))
extern func "encoding/binary.Read[*int64]"(r, order, data) (err)
  modifies as(r, *bytes.Buffer).data
  ensures typeis(r, *bytes.Buffer) && isLE(order) && len(old(as(r, *bytes.Buffer).data)) >= 8 ==> err == nil && *data == int64(u64le(old(as(r, *bytes.Buffer).data), 0)) && as(r, *bytes.Buffer).data == seq(old(as(r, *bytes.Buffer).data), 8, len(old(as(r, *bytes.Buffer).data)))
extern func "encoding/binary.Read[*uint64]"(r, order, data) (err)
  modifies as(r, *bytes.Buffer).data
  ensures typeis(r, *bytes.Buffer) && isLE(order) && len(old(as(r, *bytes.Buffer).data)) >= 8 ==> err == nil && *data == u64le(old(as(r, *bytes.Buffer).data), 0) && as(r, *bytes.Buffer).data == seq(old(as(r, *bytes.Buffer).data), 8, len(old(as(r, *bytes.Buffer).data)))
extern func "(encoding/binary.littleEndian).PutUint16"(o, b, v)
  requires len(b) >= 2
  modifies elems(b)
  ensures mem(b) == upd(upd(old(mem(b)), off(b), v % 256), off(b)+1, v / 256)

extern func "errors.New"(text) (err)
  modifies nothing
  ensures err != nil

extern func "fmt.Errorf"(format, a) (err)
  modifies nothing
  ensures err != nil

// ---- strings, strconv: only shape and the facts stated
// the fields of a line
spec func nFields(s seq[int]) int
spec func fieldAt(s seq[int], i int) seq[int]
extern func "strings.Fields"(s) (r)
  modifies nothing
  ensures isfresh(r) && len(r) == nFields(seq(s)) && (forall i int {r[i]} :: 0 <= i && i < len(r) ==> r[i] == fieldAt(seq(s), i))
  ensures forall i int {r[i]} :: 0 <= i && i < len(r) ==> len(r[i]) > 0
extern func "strings.Split"(s, sep) (r)
  modifies nothing
  ensures isfresh(r) && (len(sep) > 0 ==> len(r) >= 1)
  ensures len(sep) > 0 ==> len(r) == nColumns(seq(s), seq(sep)) && (forall i int {r[i]} :: 0 <= i && i < len(r) ==> r[i] == columnAt(seq(s), seq(sep), i))
// the parts of a text between separators
spec func nColumns(s seq[int], sep seq[int]) int
spec func columnAt(s seq[int], sep seq[int], i int) seq[int]
extern func "strings.HasPrefix"(s, prefix) (b)
  modifies nothing
  ensures b == startsWith(seq(s), seq(prefix))
extern func "strconv.ParseUint"(s, b, bits) (v, err)
  modifies nothing
  ensures err == nil && b == 16 ==> v == hexVal(seq(s))
  ensures err == nil && bits == 31 ==> v <= 2147483647
  ensures b == 16 && bits == 31 ==> (err == nil) == isHex31(seq(s))
// hexadecimal digits of a number below 2^31
spec func isHex31(s seq[int]) bool
// ---- writing into a bytes.Buffer (running out of memory aside, it does not fail)
spec func le2(v int) seq[int] = [v % 256, v / 256]
spec func le4(v int) seq[int] = [v % 256, v / 256 % 256, v / 65536 % 256, v / 16777216]
spec func le8(v int) seq[int] = le4(v % 4294967296) ++ le4(v / 4294967296)
extern func "encoding/binary.Write[uint16]"(w, order, data) (err)
  modifies as(w, *bytes.Buffer).data
  ensures typeis(w, *bytes.Buffer) && isLE(order) ==> err == nil && as(w, *bytes.Buffer).data == old(as(w, *bytes.Buffer).data) ++ le2(as(data, uint16))
extern func "encoding/binary.Write[uint32]"(w, order, data) (err)
  modifies as(w, *bytes.Buffer).data
  ensures typeis(w, *bytes.Buffer) && isLE(order) ==> err == nil && as(w, *bytes.Buffer).data == old(as(w, *bytes.Buffer).data) ++ le4(as(data, uint32))
extern func "encoding/binary.Write[uint64]"(w, order, data) (err)
  modifies as(w, *bytes.Buffer).data
  ensures typeis(w, *bytes.Buffer) && isLE(order) ==> err == nil && as(w, *bytes.Buffer).data == old(as(w, *bytes.Buffer).data) ++ le8(as(data, uint64))
extern func "(*bytes.Buffer).WriteByte"(b, c) (err)
  modifies b.data
  ensures err == nil && b.data == old(b.data) ++ [c]
extern func "(*bytes.Buffer).WriteString"(b, s) (n, err)
  modifies b.data
  ensures err == nil && n == len(s) && b.data == old(b.data) ++ seq(s)
extern func "(*bytes.Buffer).Write"(b, p) (n, err)
  modifies b.data
  ensures err == nil && n == len(p) && b.data == old(b.data) ++ seq(p)
extern func "(*bytes.Buffer).Reset"(b)
  modifies b.data
  ensures len(b.data) == 0
extern func "(*bytes.Buffer).Bytes"(b) (p)
  modifies nothing
  ensures seq(p) == b.data
extern func "bytes.IndexByte"(b, c) (i)
  modifies nothing
  ensures i >= 0 - 1 && i < len(b)
  ensures i >= 0 ==> b[i] == c && (forall k int {b[k]} :: 0 <= k && k < i ==> b[k] != c)
  ensures i < 0 ==> (forall k int {b[k]} :: 0 <= k && k < len(b) ==> b[k] != c)
spec func utf16of(r seq[int]) seq[int]
spec func fromUtf16(u seq[int]) seq[int]
extern func "unicode/utf16.Encode"(s) (u)
  modifies nothing
  ensures isfresh(u) && seq(u) == utf16of(seq(s))
extern func "unicode/utf16.Decode"(s) (r)
  modifies nothing
  ensures isfresh(r) && seq(r) == fromUtf16(seq(s))
axiom utf16Round(r seq[int])
  requires validRunes(r)
  ensures fromUtf16(utf16of(r)) == r
  note "UTF-16 gives back the characters it encodes"
extern func "strconv.Atoi"(s) (v, err)
  modifies nothing
  ensures (err == nil) == isInt(seq(s)) && (err == nil ==> v == intVal(seq(s)))
// a decimal number an int has room for, and its value
spec func isInt(s seq[int]) bool
spec func intVal(s seq[int]) int
