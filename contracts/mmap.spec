// the system call behind it is not verified: what is mapped is the file's content
package mmap
properties C20
trusted func Mmap(fd, writable, offset, size) (b, err)
  modifies nothing
  ensures err == nil ==> isfresh(b) && (offset == 0 && 0 <= size && size == len(fd.content) ==> seq(b) == fd.content)
trusted func Munmap(b) (err)
  modifies nothing
  ensures true
