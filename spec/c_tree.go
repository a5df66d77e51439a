package ipldgit

import (
	"bufio"
	"io"
	"strings"

	ipld "github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/schema"
)

// DecodeTreeEntry on its own.
func theorem_tree_entry() {
	r := vAny[*f_io_Reader]("r")
	vAssume(func() bool { return r.end != nil })
	rd := bufio.NewReader(r)
	m := vModel[m_bufio_Reader](rd)
	s := specOpaqueEntry(m.rest)
	name, n, err := DecodeTreeEntry(rd)
	vAssert("accepts whole entries only", func() bool { return (err == nil) == s.ok })
	vAssert("the end of the input, or its error", func() bool { return !s.none || err == r.end })
	vAssert("an entry that is cut", func() bool {
		return !s.cut || err == r.end && r.end != io.EOF || err != io.EOF && r.end == io.EOF
	})
	if err != nil {
		vReach("an entry is rejected")
		vAssert("no node with an error", func() bool { return n == nil })
		return
	}
	vReach("an entry is accepted")
	vAssert("the entry's name", func() bool { return name == s.name })
	te, ok := n.(*_TreeEntry)
	vAssert("the entry's mode and hash", func() bool { return ok && te != nil && vEq(*te, specTreeEntry(s)) })
	vAssert("what follows it", func() bool { return m.rest == s.rest })
}

func fact_specOpaqueEntry__len(rest string) bool {
	e := specOpaqueEntry(rest)
	return !e.ok || len(e.rest) < len(rest)
}

func loopcons_tree(rd *bufio.Reader, t _Tree) sTree {
	m := vModel[m_bufio_Reader](rd)
	return specTree(m.rest, m.end, t.t)
}

func loopinv_tree(t _Tree) bool { return vEq(t.m, specTreeMap(t.t)) }

// The assembler is between entries: the last one may still have to be tidied.
func loopinv_treeAssembler(a _Tree__ReprAssembler) bool {
	return a.state == maState_initial && a.cm == schema.Maybe_Absent || a.state == maState_midValue && a.cm == schema.Maybe_Value
}

func checkTree(s sTree, end error, n ipld.Node, err error) {
	vAssert("accepts well-formed trees only", func() bool { return (err == nil) == s.ok })
	vAssert("read errors are reported", func() bool { return !s.cut || err == end || end == io.EOF })
	if err == nil {
		vReach("a tree is accepted")
		t, ok := n.(*_Tree)
		vAssert("the node is a tree", func() bool { return ok })
		vAssert("the tree's entries", func() bool { return vEq(t.t, s.t) })
		vAssert("the tree's index", func() bool { return vEq(t.m, specTreeMap(s.t)) })
	} else {
		vReach("a tree is rejected")
		vAssert("no node with an error", func() bool { return n == nil })
	}
}

func theorem_tree_parse() {
	r := vAny[*f_io_Reader]("r")
	rest := vAny[string]("rest")
	r.data = "tree " + rest
	vAssume(func() bool { return r.end != nil })
	n, err := ParseObject(r)
	checkTree(specTreeOf(rest, r.end), r.end, n, err)
}

func loopcons_treeBody(it _Tree__MapItr, buf vText) string {
	return string(buf) + specTreeBody(it.n.t[it.idx:])
}

func loopcons_treeLinks(it _Tree__MapItr) bool { return specTreeLinksOK(it.n.t[it.idx:]) }

func loopinv_treeItr(it _Tree__MapItr) bool { return 0 <= it.idx && it.idx <= len(it.n.t) }

func loopvar_treeItr(it _Tree__MapItr) int { return len(it.n.t) - it.idx }

func theorem_tree_encode() {
	n := vAny[*_Tree]("n")
	w := vAny[*f_io_Writer]("w")
	vAssume(func() bool { return w.left < 0 || w.err != nil })
	out0, left := w.out, w.left
	t := vSnap(*n)
	err := Encode(n, w)
	vAssert("the node is not changed", func() bool { return vEq(*n, t) })
	if !specTreeLinksOK(t.t) {
		vAssert("links that are not git hashes are refused", func() bool { return err != nil && w.out == out0 })
		return
	}
	vReach("a tree is encoded")
	s := specFrame("tree", specTreeBody(t.t))
	if left < 0 || left >= len(s) {
		vAssert("the object is written", func() bool { return err == nil && w.out == out0+s })
	} else {
		vReach("the writer fails")
		vAssert("the writer's error is returned", func() bool { return err == w.err })
		vAssert("a prefix is written", func() bool { return strings.HasPrefix(out0+s, w.out) })
	}
}

func lemma_treeSnoc(es []_Tree__entry, e _Tree__entry) {
	vDecreases(len(es))
	vProof(func() {
		if len(es) > 0 {
			lemma_treeSnoc(es[1:], e)
		}
	})
	vEnsures("one entry more", func() bool {
		return specTreeBody(append(es, e)) == specTreeBody(es)+specTreeBody([]_Tree__entry{e})
	})
}

// What the entries read are written as is what was read.
func lemma_treeBytes(rest string, t []_Tree__entry) {
	vRequires(func() bool { return specTree(rest, io.EOF, t).ok })
	vDecreases(len(rest))
	vProof(func() {
		e := specOpaqueEntry(rest)
		if e.ok {
			x := _Tree__entry{_String{e.name}, specTreeEntry(e)}
			lemma_treeSnoc(t, x)
			vAssert("the entry's text", func() bool { return specTreeBody([]_Tree__entry{x})+e.rest == rest })
			lemma_treeBytes(e.rest, append(t, x))
		}
	})
	vEnsures("the bytes read", func() bool {
		return specTreeBody(specTree(rest, io.EOF, t).t) == specTreeBody(t)+rest
	})
}

// A decoded tree's links are links to git objects.
func lemma_treeLinks(rest string, t []_Tree__entry) {
	vRequires(func() bool { return specTree(rest, io.EOF, t).ok && specTreeLinksOK(t) })
	vDecreases(len(rest))
	vProof(func() {
		e := specOpaqueEntry(rest)
		if e.ok {
			x := _Tree__entry{_String{e.name}, specTreeEntry(e)}
			lemma_treeLinksSnoc(t, x)
			lemma_treeLinks(e.rest, append(t, x))
		}
	})
	vEnsures("links", func() bool { return specTreeLinksOK(specTree(rest, io.EOF, t).t) })
}

func lemma_treeLinksSnoc(es []_Tree__entry, e _Tree__entry) {
	vRequires(func() bool { return specTreeLinksOK(es) && specLinkOK(e.v.hash.x) })
	vDecreases(len(es))
	vProof(func() {
		if len(es) > 0 {
			lemma_treeLinksSnoc(es[1:], e)
		}
	})
	vEnsures("one entry more", func() bool { return specTreeLinksOK(append(es, e)) })
}

// The entries' serialised form reads back as the entries.
func lemma_treeRead(pre, es []_Tree__entry) {
	vRequires(func() bool { return specTreeWF(es) && specNamesNew(pre, es) })
	vDecreases(len(es))
	vProof(func() {
		if len(es) > 0 {
			e := specOpaqueEntry(specTreeBody(es))
			vAssert("an entry", func() bool {
				return e.ok && e.name == es[0].k.x && e.mode == es[0].v.mode.x && e.sha == specLinkSha(es[0].v.hash.x) && e.rest == specTreeBody(es[1:])
			})
			vAssert("the entry", func() bool { return vEq(specTreeEntry(e), es[0].v) })
			lemma_treeRead(append(pre, es[0]), es[1:])
		}
	})
	vEnsures("the entries", func() bool {
		return vEq(specTree(specTreeBody(es), io.EOF, pre), sTree{ok: true, t: append(pre, es...)})
	})
}

func theorem_tree_reproduced() {
	body := vAny[string]("body")
	vAssume(func() bool { return specTree(body, io.EOF, nil).ok })
	obj := specFrame("tree", body)
	vAssert("the number", func() bool { return !strings.Contains(vIntToStr(len(body)), "\x00") })
	lemma_treeBytes(body, nil)
	lemma_treeLinks(body, nil)
	n, err := ParseObjectFromBuffer([]byte(obj))
	vAssert("a tree object is accepted", func() bool { return err == nil })
	w := vAny[*f_io_Writer]("w")
	vAssume(func() bool { return w.left < 0 && w.out == "" })
	err = Encode(n, w)
	vAssert("a decoded tree can be encoded", func() bool { return err == nil })
	vAssert("encoding gives back the object", func() bool { return w.out == obj })
}

func theorem_tree_roundtrip() {
	t := vAny[_Tree]("t")
	vAssume(func() bool {
		return specTreeWF(t.t) && specNamesNew(nil, t.t) && vEq(t.m, specTreeMap(t.t))
	})
	lemma_treeRead(nil, t.t)
	obj := specFrame("tree", specTreeBody(t.t))
	vAssert("the number", func() bool { return !strings.Contains(vIntToStr(len(specTreeBody(t.t))), "\x00") })
	n, err := ParseObjectFromBuffer([]byte(obj))
	vAssert("an encoded tree is accepted", func() bool { return err == nil })
	d, ok := n.(*_Tree)
	vAssert("it is a tree", func() bool { return ok })
	vAssert("it is the tree", func() bool { return vEq(*d, t) })
}
