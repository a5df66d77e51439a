package ipldgit

// Entry points: every one of them is a way to run the same decoder.

import (
	"io"
	"strings"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipld/go-ipld-prime"
)

func entryDecoder() func(ipld.NodeAssembler, io.Reader) error {
	mGitDecoder = nil
	vRunInit()
	d := mGitDecoder
	vAssert("a decoder is registered for git", func() bool { return d != nil })
	return d
}

// ---- blobs ----

func checkBlob(rest string, end error, n ipld.Node, err error) {
	vAssert("accepts well-formed blobs only", func() bool { return (err == nil) == specBlobOK(rest) })
	vAssert("read errors are reported", func() bool { return !specBlobCut(rest, end) || err == end })
	if err == nil {
		vReach("a blob is accepted")
		b, ok := n.(*_Blob)
		vAssert("the node is a blob", func() bool { return ok })
		vAssert("the blob's bytes", func() bool { return string(b.x) == specBlob(rest) })
	} else {
		vReach("a blob is rejected")
		vAssert("no node with an error", func() bool { return n == nil })
	}
}

func theorem_entry_blob_buffer() {
	rest := vAny[string]("rest")
	n, err := ParseObjectFromBuffer([]byte("blob " + rest))
	checkBlob(rest, io.EOF, n, err)
}

func theorem_entry_blob_zlib() {
	rest := vAny[string]("rest")
	end := vAny[error]("end")
	vAssume(func() bool { return end != nil })
	n, err := ParseCompressedObject(&f_zlib_Reader{"blob " + rest, end})
	checkBlob(rest, end, n, err)
}

func theorem_entry_blob_registry() {
	rest := vAny[string]("rest")
	end := vAny[error]("end")
	vAssume(func() bool { return end != nil })
	d := entryDecoder()
	na := Type.Blob.NewBuilder()
	err := d(na, &f_io_Reader{data: "blob " + rest, end: end})
	var n ipld.Node
	if err == nil {
		n = na.Build()
	}
	checkBlob(rest, end, n, err)
}

// ---- tags ----

func checkTag(s sTag, end error, n ipld.Node, err error) {
	vAssert("accepts well-formed tags only", func() bool { return (err == nil) == s.ok })
	vAssert("read errors are reported", func() bool { return !s.cut || err == end })
	if err == nil {
		vReach("a tag is accepted")
		t, ok := n.(*_Tag)
		vAssert("the node is a tag", func() bool { return ok })
		vAssert("the tag's fields", func() bool { return vEq(*t, s.t) })
	} else {
		vReach("a tag is rejected")
		vAssert("no node with an error", func() bool { return n == nil })
	}
}

func theorem_entry_tag_buffer() {
	rest := vAny[string]("rest")
	n, err := ParseObjectFromBuffer([]byte("tag " + rest))
	checkTag(specTagOf(rest, io.EOF), io.EOF, n, err)
}

func theorem_entry_tag_zlib() {
	rest := vAny[string]("rest")
	end := vAny[error]("end")
	vAssume(func() bool { return end != nil })
	n, err := ParseCompressedObject(&f_zlib_Reader{"tag " + rest, end})
	checkTag(specTagOf(rest, end), end, n, err)
}

func theorem_entry_tag_registry() {
	rest := vAny[string]("rest")
	end := vAny[error]("end")
	vAssume(func() bool { return end != nil })
	d := entryDecoder()
	na := Type.Tag.NewBuilder()
	err := d(na, &f_io_Reader{data: "tag " + rest, end: end})
	var n ipld.Node
	if err == nil {
		n = na.Build()
	}
	checkTag(specTagOf(rest, end), end, n, err)
}

func theorem_entry_tag_assembler() {
	rest := vAny[string]("rest")
	end := vAny[error]("end")
	vAssume(func() bool { return end != nil })
	a := vAny[*f_datamodel_NodeAssembler]("na")
	vAssume(func() bool { return a.calls == 0 && !a.isB })
	err := Decode(a, &f_io_Reader{data: "tag " + rest, end: end})
	s := specTagOf(rest, end)
	vAssert("well-formed tags are assigned, others are not", func() bool { return (a.calls == 1) == s.ok })
	if a.calls == 1 {
		t, ok := a.node.(*_Tag)
		vAssert("a tag is assigned", func() bool { return ok && !a.isB })
		vAssert("the tag's fields", func() bool { return vEq(*t, s.t) })
		vAssert("the assembler's error is returned", func() bool { return err == a.err })
	} else {
		vAssert("an error if nothing was assigned", func() bool { return err != nil && a.calls == 0 })
		vAssert("read errors are reported", func() bool { return !s.cut || err == end })
	}
}

// ---- commits ----

func theorem_entry_commit_buffer() {
	rest := vAny[string]("rest")
	n, err := ParseObjectFromBuffer([]byte("commit " + rest))
	checkCommit(specCommitOf(rest, io.EOF), io.EOF, n, err)
}

func theorem_entry_commit_zlib() {
	rest := vAny[string]("rest")
	end := vAny[error]("end")
	vAssume(func() bool { return end != nil })
	n, err := ParseCompressedObject(&f_zlib_Reader{"commit " + rest, end})
	checkCommit(specCommitOf(rest, end), end, n, err)
}

func theorem_entry_commit_registry() {
	rest := vAny[string]("rest")
	end := vAny[error]("end")
	vAssume(func() bool { return end != nil })
	d := entryDecoder()
	na := Type.Commit.NewBuilder()
	err := d(na, &f_io_Reader{data: "commit " + rest, end: end})
	var n ipld.Node
	if err == nil {
		n = na.Build()
	}
	checkCommit(specCommitOf(rest, end), end, n, err)
}

func theorem_entry_commit_assembler() {
	rest := vAny[string]("rest")
	end := vAny[error]("end")
	vAssume(func() bool { return end != nil })
	a := vAny[*f_datamodel_NodeAssembler]("na")
	vAssume(func() bool { return a.calls == 0 && !a.isB })
	err := Decode(a, &f_io_Reader{data: "commit " + rest, end: end})
	s := specCommitOf(rest, end)
	vAssert("well-formed commits are assigned, others are not", func() bool { return (a.calls == 1) == s.ok })
	if a.calls == 1 {
		c, ok := a.node.(*_Commit)
		vAssert("a commit is assigned", func() bool { return ok && !a.isB })
		vAssert("the commit's fields", func() bool { return vEq(*c, s.c) })
		vAssert("the assembler's error is returned", func() bool { return err == a.err })
	} else {
		vAssert("an error if nothing was assigned", func() bool { return err != nil && a.calls == 0 })
		vAssert("read errors are reported", func() bool { return !s.cut || err == end })
	}
}

// ---- trees ----

func theorem_entry_tree_buffer() {
	rest := vAny[string]("rest")
	n, err := ParseObjectFromBuffer([]byte("tree " + rest))
	checkTree(specTreeOf(rest, io.EOF), io.EOF, n, err)
}

func theorem_entry_tree_zlib() {
	rest := vAny[string]("rest")
	end := vAny[error]("end")
	vAssume(func() bool { return end != nil })
	n, err := ParseCompressedObject(&f_zlib_Reader{"tree " + rest, end})
	checkTree(specTreeOf(rest, end), end, n, err)
}

func theorem_entry_tree_registry() {
	rest := vAny[string]("rest")
	end := vAny[error]("end")
	vAssume(func() bool { return end != nil })
	d := entryDecoder()
	na := Type.Tree.NewBuilder()
	err := d(na, &f_io_Reader{data: "tree " + rest, end: end})
	var n ipld.Node
	if err == nil {
		n = na.Build()
	}
	checkTree(specTreeOf(rest, end), end, n, err)
}

func theorem_entry_tree_assembler() {
	rest := vAny[string]("rest")
	end := vAny[error]("end")
	vAssume(func() bool { return end != nil })
	a := vAny[*f_datamodel_NodeAssembler]("na")
	vAssume(func() bool { return a.calls == 0 && !a.isB })
	err := Decode(a, &f_io_Reader{data: "tree " + rest, end: end})
	s := specTreeOf(rest, end)
	vAssert("well-formed trees are assigned, others are not", func() bool { return (a.calls == 1) == s.ok })
	if a.calls == 1 {
		t, ok := a.node.(*_Tree)
		vAssert("a tree is assigned", func() bool { return ok && !a.isB })
		vAssert("the tree's entries", func() bool { return vEq(t.t, s.t) && vEq(t.m, specTreeMap(s.t)) })
		vAssert("the assembler's error is returned", func() bool { return err == a.err })
	} else {
		vAssert("an error if nothing was assigned", func() bool { return err != nil && a.calls == 0 })
		vAssert("read errors are reported", func() bool { return !s.cut || err == end || end == io.EOF })
	}
}

// ---- what is not an object ----

// specTyped: the data starts with a known type word.
func specTyped(data string) bool {
	return strings.HasPrefix(data, "tree ") || strings.HasPrefix(data, "commit ") || strings.HasPrefix(data, "blob ") || strings.HasPrefix(data, "tag ")
}

func theorem_entry_untyped() {
	data := vAny[string]("data")
	end := vAny[error]("end")
	vAssume(func() bool { return end != nil && !specTyped(data) })
	n, err := ParseObject(&f_io_Reader{data: data, end: end})
	vAssert("an input without a known type word is rejected", func() bool { return err != nil && n == nil })
	vAssert("read errors are reported", func() bool {
		return strings.Contains(data, " ") || err == end || end == io.EOF && err == io.ErrUnexpectedEOF
	})
}

func theorem_entry_untyped_assembler() {
	data := vAny[string]("data")
	end := vAny[error]("end")
	vAssume(func() bool { return end != nil && !specTyped(data) })
	a := vAny[*f_datamodel_NodeAssembler]("na")
	vAssume(func() bool { return a.calls == 0 })
	err := Decode(a, &f_io_Reader{data: data, end: end})
	vAssert("an input without a known type word is rejected", func() bool { return err != nil && a.calls == 0 })
	vAssert("read errors are reported", func() bool {
		return strings.Contains(data, " ") || err == end || end == io.EOF && err == io.ErrUnexpectedEOF
	})
}

func theorem_entry_untyped_zlib() {
	data := vAny[string]("data")
	end := vAny[error]("end")
	vAssume(func() bool { return end != nil && !specTyped(data) })
	n, err := ParseCompressedObject(&f_zlib_Reader{data, end})
	vAssert("an input without a known type word is rejected", func() bool { return err != nil && n == nil })
}

func theorem_entry_notzlib() {
	r := vAny[*f_io_Reader]("r")
	vAssume(func() bool { return r.end != nil && !uf_zlibOK(r.data) })
	n, err := ParseCompressedObject(r)
	vAssert("an input that is not compressed is rejected", func() bool { return err != nil && n == nil })
}

func theorem_entry_untyped_buffer() {
	data := vAny[string]("data")
	vAssume(func() bool { return !specTyped(data) })
	n, err := ParseObjectFromBuffer([]byte(data))
	vAssert("an input without a known type word is rejected", func() bool { return err != nil && n == nil })
}

func theorem_entry_encoder() {
	mGitEncoder = nil
	vRunInit()
	f := mGitEncoder
	vAssert("an encoder is registered for git", func() bool { return f != nil })
	n := vAny[*_Blob]("n")
	x := string(n.x)
	w := vAny[*f_io_Writer]("w")
	vAssume(func() bool { return w.left < 0 && w.out == "" })
	err := f(n, w)
	vAssert("it writes blobs", func() bool { return err == nil && w.out == x })
}

func theorem_entry_encoder_tag() {
	mGitEncoder = nil
	vRunInit()
	f := mGitEncoder
	n := vAny[*_Tag]("n")
	w := vAny[*f_io_Writer]("w")
	vAssume(func() bool { return w.left < 0 && w.out == "" })
	t := vSnap(*n)
	err := f(n, w)
	vAssert("it refuses tags that cannot be written only", func() bool { return (err == nil) == specLinkOK(t.object.x) })
	vAssert("it writes tags", func() bool { return err != nil || w.out == specFrame("tag", specOpaqueTagBody(t)) })
}

// ---- blocks ----

func specGitPrefix(c cid.Cid) bool {
	p := c.Prefix()
	return p.Codec == cid.GitRaw && p.MhType == 0x11 && p.MhLength == 20
}

func theorem_block_refused() {
	b := vAny[*f_blocks_Block]("b")
	vAssume(func() bool { return !specGitPrefix(b.c) })
	n, err := DecodeBlock(b)
	vReach("there are other blocks")
	vAssert("a block that is not named as a git object is refused", func() bool { return err != nil && n == nil })
}

func theorem_block_blob() {
	b := vAny[*f_blocks_Block]("b")
	rest := vAny[string]("rest")
	b.data = []byte("blob " + rest)
	vAssume(func() bool { return specGitPrefix(b.c) })
	n, err := DecodeBlock(b)
	checkBlob(rest, io.EOF, n, err)
}

func theorem_block_tag() {
	b := vAny[*f_blocks_Block]("b")
	rest := vAny[string]("rest")
	b.data = []byte("tag " + rest)
	vAssume(func() bool { return specGitPrefix(b.c) })
	n, err := DecodeBlock(b)
	checkTag(specTagOf(rest, io.EOF), io.EOF, n, err)
}

func theorem_block_untyped() {
	b := vAny[*f_blocks_Block]("b")
	data := vAny[string]("data")
	b.data = []byte(data)
	vAssume(func() bool { return specGitPrefix(b.c) && !specTyped(data) })
	n, err := DecodeBlock(b)
	vAssert("an input without a known type word is rejected", func() bool { return err != nil && n == nil })
}

func theorem_block_commit() {
	b := vAny[*f_blocks_Block]("b")
	rest := vAny[string]("rest")
	b.data = []byte("commit " + rest)
	vAssume(func() bool { return specGitPrefix(b.c) })
	n, err := DecodeBlock(b)
	checkCommit(specCommitOf(rest, io.EOF), io.EOF, n, err)
}

func theorem_block_tree() {
	b := vAny[*f_blocks_Block]("b")
	rest := vAny[string]("rest")
	b.data = []byte("tree " + rest)
	vAssume(func() bool { return specGitPrefix(b.c) })
	n, err := DecodeBlock(b)
	checkTree(specTreeOf(rest, io.EOF), io.EOF, n, err)
}
