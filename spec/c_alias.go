package ipldgit

import "io"

// Memory: decoding leaves its input alone and the node shares nothing with it.

// overwrite changes all of a buffer.
func overwrite(buf []byte) {
	s := vAny[string]("later")
	vAssume(func() bool { return len(s) == len(buf) })
	vWriteInto(buf, s)
	vAssert("the buffer is changed", func() bool { return string(buf) == s })
}

func theorem_alias_blob() {
	rest := vAny[string]("rest")
	buf := []byte("blob " + rest)
	n, err := ParseObjectFromBuffer(buf)
	vAssert("the buffer is not changed", func() bool { return string(buf) == "blob "+rest })
	overwrite(buf)
	checkBlob(rest, io.EOF, n, err)
}

func theorem_alias_tag() {
	rest := vAny[string]("rest")
	buf := []byte("tag " + rest)
	n, err := ParseObjectFromBuffer(buf)
	vAssert("the buffer is not changed", func() bool { return string(buf) == "tag "+rest })
	overwrite(buf)
	checkTag(specTagOf(rest, io.EOF), io.EOF, n, err)
}

func theorem_alias_commit() {
	rest := vAny[string]("rest")
	buf := []byte("commit " + rest)
	n, err := ParseObjectFromBuffer(buf)
	vAssert("the buffer is not changed", func() bool { return string(buf) == "commit "+rest })
	overwrite(buf)
	checkCommit(specCommitOf(rest, io.EOF), io.EOF, n, err)
}

func theorem_alias_tree() {
	rest := vAny[string]("rest")
	buf := []byte("tree " + rest)
	n, err := ParseObjectFromBuffer(buf)
	vAssert("the buffer is not changed", func() bool { return string(buf) == "tree "+rest })
	overwrite(buf)
	checkTree(specTreeOf(rest, io.EOF), io.EOF, n, err)
}

func theorem_alias_untyped() {
	s := vAny[string]("s")
	buf := []byte(s)
	ParseObjectFromBuffer(buf)
	vAssert("the buffer is not changed", func() bool { return string(buf) == s })
}

func theorem_alias_block() {
	b := vAny[*f_blocks_Block]("b")
	rest := vAny[string]("rest")
	b.data = []byte("blob " + rest)
	vAssume(func() bool { return specGitPrefix(b.c) })
	n, err := DecodeBlock(b)
	vAssert("the block is not changed", func() bool { return string(b.data) == "blob "+rest })
	overwrite(b.data)
	checkBlob(rest, io.EOF, n, err)
}
