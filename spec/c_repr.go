package ipldgit

import (
	"strings"

	"github.com/ipld/go-ipld-prime/schema"
)

// Encoding does not depend on how a node is represented.

func theorem_repr_tag() {
	n := vAny[*_Tag]("n")
	w := vAny[*f_io_Writer]("w")
	vAssume(func() bool { return w.left < 0 || w.err != nil })
	out0, left := w.out, w.left
	t := vSnap(*n)
	err := Encode(n.Representation(), w)
	vAssert("the node is not changed", func() bool { return vEq(*n, t) })
	if !specLinkOK(t.object.x) {
		vAssert("a link that is not a git hash is refused", func() bool { return err != nil && w.out == out0 })
		return
	}
	vReach("a tag is encoded")
	s := specFrame("tag", specOpaqueTagBody(t))
	if left < 0 || left >= len(s) {
		vAssert("the object is written", func() bool { return err == nil && w.out == out0+s })
	} else {
		vAssert("the writer's error is returned", func() bool { return err == w.err })
		vAssert("a prefix is written", func() bool { return strings.HasPrefix(out0+s, w.out) })
	}
}

func theorem_repr_tree() {
	n := vAny[*_Tree]("n")
	w := vAny[*f_io_Writer]("w")
	vAssume(func() bool { return w.left < 0 || w.err != nil })
	out0, left := w.out, w.left
	t := vSnap(*n)
	err := Encode(n.Representation(), w)
	vAssert("the node is not changed", func() bool { return vEq(*n, t) })
	if !specTreeLinksOK(t.t) {
		vAssert("links that are not git hashes are refused", func() bool { return err != nil && w.out == out0 })
		return
	}
	vReach("a tree is encoded")
	s := specFrame("tree", specTreeBody(t.t))
	if left < 0 || left >= len(s) {
		vAssert("the object is written", func() bool { return err == nil && w.out == out0+s })
	} else {
		vAssert("the writer's error is returned", func() bool { return err == w.err })
		vAssert("a prefix is written", func() bool { return strings.HasPrefix(out0+s, w.out) })
	}
}

func theorem_repr_blob() {
	n := vAny[*_Blob]("n")
	x := string(n.x)
	w := vAny[*f_io_Writer]("w")
	out0, left := w.out, w.left
	vAssume(func() bool { return w.err != nil })
	err := Encode(n.Representation(), w)
	vAssert("the node's bytes are written, or the writer's error returned", func() bool {
		if left >= 0 && left < len(x) {
			return err == w.err
		}
		return err == nil && w.out == out0+x
	})
	vAssert("the node is not changed", func() bool { return string(n.x) == x })
}

func loopcons_treeReprBody(it _Tree__ReprMapItr, buf vText) string {
	return string(buf) + specTreeBody(it.n.t[it.idx:])
}

func loopcons_treeReprLinks(it _Tree__ReprMapItr) bool { return specTreeLinksOK(it.n.t[it.idx:]) }

func loopinv_treeReprItr(it _Tree__ReprMapItr) bool { return 0 <= it.idx && it.idx <= len(it.n.t) }

func loopvar_treeReprItr(it _Tree__ReprMapItr) int { return len(it.n.t) - it.idx }

func theorem_generic_tag() {
	t := vAny[_Tag]("t")
	w := vAny[*f_io_Writer]("w")
	vAssume(func() bool { return w.left < 0 || w.err != nil })
	out0, left := w.out, w.left
	err := Encode(gTag(t), w)
	if !specLinkOK(t.object.x) {
		vAssert("a link that is not a git hash is refused", func() bool { return err != nil && w.out == out0 })
		return
	}
	vReach("a tag is encoded")
	s := specFrame("tag", specOpaqueTagBody(t))
	if left < 0 || left >= len(s) {
		vAssert("the object is written", func() bool { return err == nil && w.out == out0+s })
	} else {
		vAssert("the writer's error is returned", func() bool { return err == w.err })
		vAssert("a prefix is written", func() bool { return strings.HasPrefix(out0+s, w.out) })
	}
}

func theorem_generic_blob() {
	x := vAny[string]("x")
	w := vAny[*f_io_Writer]("w")
	out0, left := w.out, w.left
	vAssume(func() bool { return w.err != nil })
	err := Encode(gBytes{x: []byte(x)}, w)
	vAssert("the node's bytes are written, or the writer's error returned", func() bool {
		if left >= 0 && left < len(x) {
			return err == w.err
		}
		return err == nil && w.out == out0+x
	})
}

// A generic tag may also lack the tagger.
func theorem_generic_tag_plain() {
	t := vAny[_Tag]("t")
	t.tagger = _PersonInfo{}
	w := vAny[*f_io_Writer]("w")
	vAssume(func() bool { return w.left < 0 && w.out == "" })
	err := Encode(gMap{es: []gEntry{{"object", gLink{x: t.object.x}}, {"type", gString{x: t.typ.x}}, {"tag", gString{x: t.tag.x}},
		{"message", gString{x: t.message.x}}}}, w)
	vAssert("links are git hashes", func() bool { return (err == nil) == specLinkOK(t.object.x) })
	vAssert("the object is written", func() bool { return err != nil || w.out == specFrame("tag", specOpaqueTagBody(t)) })
}

// Lists copied element by element.

func loopcons_linksCopy(it _Commit_Link_List__ReprListItr, l _Commit_Link_List) []_Commit_Link {
	return append(l.x, it.n.x[it.idx:]...)
}

func loopinv_linksItr(it _Commit_Link_List__ReprListItr) bool {
	return 0 <= it.idx && it.idx <= len(it.n.x)
}

func loopvar_linksItr(it _Commit_Link_List__ReprListItr) int { return len(it.n.x) - it.idx }

func loopinv_linksAssembler(a _Commit_Link_List__ReprAssembler) bool {
	return a.state == laState_initial && a.cm == schema.Maybe_Absent || a.state == laState_midValue && a.cm == schema.Maybe_Value
}

func loopcons_linesCopy(it _String_List__ReprListItr, l _String_List) []_String {
	return append(l.x, it.n.x[it.idx:]...)
}

func loopinv_linesItr(it _String_List__ReprListItr) bool {
	return 0 <= it.idx && it.idx <= len(it.n.x)
}

func loopvar_linesItr(it _String_List__ReprListItr) int { return len(it.n.x) - it.idx }

func loopinv_linesAssembler(a _String_List__ReprAssembler) bool {
	return a.state == laState_initial && a.cm == schema.Maybe_Absent || a.state == laState_midValue && a.cm == schema.Maybe_Value
}

func loopcons_tagsCopy(it _Tag_List__ReprListItr, l _Tag_List) []_Tag {
	return append(l.x, it.n.x[it.idx:]...)
}

func loopinv_tagsItr(it _Tag_List__ReprListItr) bool {
	return 0 <= it.idx && it.idx <= len(it.n.x)
}

func loopvar_tagsItr(it _Tag_List__ReprListItr) int { return len(it.n.x) - it.idx }

// The assembler of an element is as new before each.
func loopinv_tagsAssembler(a _Tag_List__ReprAssembler) bool {
	if a.va.cm != schema.Maybe_Absent || a.va.ca_tagger.cm != schema.Maybe_Absent {
		return false
	}
	return a.state == laState_initial && a.cm == schema.Maybe_Absent && a.va.state == maState_initial && a.va.s == 0 &&
		a.va.ca_tagger.state == maState_initial && a.va.ca_tagger.s == 0 ||
		a.state == laState_midValue && a.cm == schema.Maybe_Value
}

func theorem_repr_lines() {
	n := vAny[*_String_List]("n")
	a := Type.String_List__Repr.NewBuilder()
	x := vSnap(n.x)
	err := a.AssignNode(n.Representation())
	vAssert("accepted", func() bool { return err == nil })
	d := a.Build().(*_String_List)
	vAssert("copied", func() bool { return vEq(d.x, x) })
}

func theorem_repr_tags() {
	n := vAny[*_Tag_List]("n")
	a := Type.Tag_List__Repr.NewBuilder()
	x := vSnap(n.x)
	err := a.AssignNode(n.Representation())
	vAssert("accepted", func() bool { return err == nil })
	d := a.Build().(*_Tag_List)
	vAssert("copied", func() bool { return vEq(d.x, x) })
}

func theorem_repr_links() {
	n := vAny[*_Commit_Link_List]("n")
	a := Type.Commit_Link_List__Repr.NewBuilder()
	x := vSnap(n.x)
	err := a.AssignNode(n.Representation())
	vAssert("accepted", func() bool { return err == nil })
	d := a.Build().(*_Commit_Link_List)
	vAssert("copied", func() bool { return vEq(d.x, x) })
}
