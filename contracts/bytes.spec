package dictionary
properties C11

func bufferToInt16(b, offset) (end, res)
  requires 0 <= offset && offset + 2 <= len(b)
  modifies nothing
  ensures[val] res == int16(u16le(seq(b), offset))
  ensures[end] end == offset + 2
func bufferToUint16(b, offset) (end, res)
  requires 0 <= offset && offset + 2 <= len(b)
  modifies nothing
  ensures[val] res == u16le(seq(b), offset)
  ensures[end] end == offset + 2
func bufferToInt32(b, offset) (end, res)
  requires 0 <= offset && offset + 4 <= len(b)
  modifies nothing
  ensures[val] res == int32(u32le(seq(b), offset))
  ensures[end] end == offset + 4
func bufferToUint32(b, offset) (end, res)
  requires 0 <= offset && offset + 4 <= len(b)
  modifies nothing
  ensures[val] res == u32le(seq(b), offset)
  ensures[end] end == offset + 4
func bufferToInt64(b, offset) (end, res)
  requires 0 <= offset && offset + 8 <= len(b)
  modifies nothing
  ensures[val] res == int64(u64le(seq(b), offset))
  ensures[end] end == offset + 8
func bufferToUint64(b, offset) (end, res)
  requires 0 <= offset && offset + 8 <= len(b)
  modifies nothing
  ensures[val] res == u64le(seq(b), offset)
  ensures[end] end == offset + 8
