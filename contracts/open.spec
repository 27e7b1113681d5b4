// C20: only files that carry the header of a dictionary of the wanted kind are opened.
// The version numbers of the file format: 8315566796372513255 is 0x7366d3f18bd111e7 (system), 11893779122403545575 is 0xa50f31188bd211e7 and 11519844634338056296 is 0x9fdeb5a90168d868 (user, without and with grammar).
package dictionary
properties C20

ghostfield os.File.content seq[int]
ghostfield fs.FileInfo.size int
// the bytes a file holds when it is opened (the file system is the environment: nothing is assumed about it)
spec func fileOf(name string) seq[int]
extern func "os.OpenFile"(name, flag, perm) (f, err)
  modifies nothing
  ensures err == nil ==> f != nil && isfresh(f) && f.content == fileOf(name)
extern func "(*os.File).Stat"(f) (fi, err)
  modifies nothing
  ensures err == nil ==> fi != nil && fi.size == len(f.content)
extern func "fs.FileInfo.Size"(fi) (n)
  modifies nothing
  ensures n == fi.size
extern func "(*os.File).Close"(f) (err)
  modifies nothing
  ensures true
trusted func NewGrammar(bytebuffer, offset, utf16string) (g)
  modifies nothing
  ensures g != nil && isfresh(g) && isfresh(g.posList) && g.connectTableBytes == bytebuffer
trusted func NewDoubleArrayLexicon(bytebuffer, offset, utf16string) (l)
  modifies nothing
  ensures l != nil && isfresh(l)

// the file a lexicon was read from
ghostfield dictionary.DoubleArrayLexicon.file string
func NewBinaryDictionary(filename, utf16string) (d, err)
  property C20, C27
  modifies nothing
  at call NewGrammar before { assert[how] $arg1 == 272 && $arg2 == utf16string }
  at call NewDoubleArrayLexicon before { assert[how] $arg2 == utf16string }
  at call NewDoubleArrayLexicon after { letv made := $result ghost made.file := filename }
  ensures[file] err == nil ==> d.Lexicon.file == filename
  ensures[own] err == nil ==> isfresh(d.Lexicon) && (d.Grammar != nil ==> isfresh(d.Grammar) && isfresh(d.Grammar.posList) && isfresh(d.Grammar.connectTableBytes))
  ensures[accept] err == nil ==> d != nil && isfresh(d) && d.Header != nil && len(fileOf(filename)) >= 272
  ensures[error] err != nil ==> d == nil
  ensures[kind] err == nil ==> d.Header.Version == 8315566796372513255 || d.Header.Version == 11893779122403545575 || d.Header.Version == 11519844634338056296
  ensures[version] err == nil ==> d.Header.Version == u64le(fileOf(filename), 0)
  ensures[time] err == nil ==> d.Header.CreateTime == int64(u64le(fileOf(filename), 8))
  ensures[description] err == nil ==> seq(d.Header.Description) == seq(fileOf(filename), 16, nulEnd(fileOf(filename), 16, 272))
  ensures[parts] err == nil ==> d.Lexicon != nil && (d.Grammar != nil) == (d.Header.Version != 11893779122403545575)
func ReadSystemDictionary(filename, utf16string) (d, err)
  property C20, C27
  modifies nothing
  at call NewBinaryDictionary before { assert[how] $arg0 == filename && $arg1 == utf16string }
  ensures[file] err == nil ==> d.Lexicon.file == filename
  ensures[own] err == nil ==> isfresh(d) && isfresh(d.Lexicon) && (d.Grammar != nil ==> isfresh(d.Grammar) && isfresh(d.Grammar.posList) && isfresh(d.Grammar.connectTableBytes))
  ensures[error] err != nil ==> d == nil
  ensures[kind] err == nil ==> d != nil && d.Header != nil && len(fileOf(filename)) >= 272 && u64le(fileOf(filename), 0) == 8315566796372513255
  ensures[fields] err == nil ==> d.Header.Version == u64le(fileOf(filename), 0) && d.Header.CreateTime == int64(u64le(fileOf(filename), 8)) && seq(d.Header.Description) == seq(fileOf(filename), 16, nulEnd(fileOf(filename), 16, 272))
  ensures[parts] err == nil ==> d.Lexicon != nil && d.Grammar != nil
func ReadUserDictionary(filename, utf16string) (d, err)
  property C20, C27
  modifies nothing
  at call NewBinaryDictionary before { assert[how] $arg0 == filename && $arg1 == utf16string }
  ensures[file] err == nil ==> d.Lexicon.file == filename
  ensures[own] err == nil ==> isfresh(d) && isfresh(d.Lexicon) && (d.Grammar != nil ==> isfresh(d.Grammar) && isfresh(d.Grammar.posList) && isfresh(d.Grammar.connectTableBytes))
  ensures[error] err != nil ==> d == nil
  ensures[kind] err == nil ==> d != nil && d.Header != nil && len(fileOf(filename)) >= 272 && (u64le(fileOf(filename), 0) == 11893779122403545575 || u64le(fileOf(filename), 0) == 11519844634338056296)
  ensures[fields] err == nil ==> d.Header.Version == u64le(fileOf(filename), 0) && d.Header.CreateTime == int64(u64le(fileOf(filename), 8)) && seq(d.Header.Description) == seq(fileOf(filename), 16, nulEnd(fileOf(filename), 16, 272))
  ensures[parts] err == nil ==> d.Lexicon != nil && (d.Grammar != nil) == (d.Header.Version != 11893779122403545575)
func IsUserDictionary(version) (b)
  property C20
  modifies nothing
  ensures b == (version == 11893779122403545575 || version == 11519844634338056296)
