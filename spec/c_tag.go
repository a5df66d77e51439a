package ipldgit

import (
	"bufio"
	"io"
	"strings"
)

func loopcons_tag(rd *bufio.Reader, out _Tag) sTag {
	m := vModel[m_bufio_Reader](rd)
	return specTag(m.rest, m.end, out)
}

func theorem_tag_parse() {
	r := vAny[*f_io_Reader]("r")
	rest := vAny[string]("rest")
	r.data = "tag " + rest
	vAssume(func() bool { return r.end != nil })
	s := specTagOf(rest, r.end)
	n, err := ParseObject(r)
	checkTag(s, r.end, n, err)
}

func theorem_tag_encode() {
	n := vAny[*_Tag]("n")
	w := vAny[*f_io_Writer]("w")
	vAssume(func() bool { return w.left < 0 || w.err != nil })
	out0, left := w.out, w.left
	t := vSnap(*n)
	err := Encode(n, w)
	vAssert("the node is not changed", func() bool { return vEq(*n, t) })
	if !specLinkOK(t.object.x) {
		vAssert("a link that is not a git hash is refused", func() bool { return err != nil && w.out == out0 })
		return
	}
	vReach("a tag is encoded")
	s := specFrame("tag", specOpaqueTagBody(t))
	if left < 0 || left >= len(s) {
		vAssert("the object is written", func() bool { return err == nil && w.out == out0+s })
	} else {
		vReach("the writer fails")
		vAssert("the writer's error is returned", func() bool { return err == w.err })
		vAssert("a prefix is written", func() bool { return strings.HasPrefix(out0+s, w.out) })
	}
}

// The serialised form of a tag reads back as the tag.
func lemma_tag(t _Tag) {
	vRequires(func() bool { return specTagWF(t) && t.message.x != "" })
	vProof(func() {
		m := "\n" + t.message.x
		g := m
		if !specNoPerson(t.tagger) {
			g = "tagger " + specOpaquePersonStr(t.tagger) + "\n" + m
		}
		n := "tag " + t.tag.x + "\n" + g
		y := "type " + t.typ.x + "\n" + n
		o := "object " + uf_hexenc(specLinkSha(t.object.x)) + "\n" + y
		l := _Link{specGitLink(specLinkSha(t.object.x))}
		t0 := _Tag{}
		t1 := _Tag{object: l}
		t2 := _Tag{object: l, typ: t.typ}
		t3 := _Tag{object: l, typ: t.typ, tag: t.tag}
		t4 := _Tag{object: l, typ: t.typ, tag: t.tag, tagger: t.tagger}
		h := specLinkSha(t.object.x)
		vAssert("hash", func() bool { return specHexShaOK(uf_hexenc(h)) && uf_hexdec(uf_hexenc(h)) == h })
		vAssert("object", func() bool { return vEq(specTag(o, io.EOF, t0), specTag(y, io.EOF, t1)) })
		vAssert("type", func() bool { return vEq(specTag(y, io.EOF, t1), specTag(n, io.EOF, t2)) })
		vAssert("tag", func() bool { return vEq(specTag(n, io.EOF, t2), specTag(g, io.EOF, t3)) })
		if !specNoPerson(t.tagger) {
			lemma_opaquePerson("tagger", t.tagger)
		}
		vAssert("tagger", func() bool { return vEq(specTag(g, io.EOF, t3), specTag(m, io.EOF, t4)) })
		vAssert("link", func() bool { return l.x == t.object.x })
		vAssert("message", func() bool { return vEq(specTag(m, io.EOF, t4), sTag{ok: true, t: t}) })
		vAssert("body", func() bool { return specOpaqueTagBody(t) == o })
	})
	vEnsures("the tag", func() bool {
		return vEq(specTag(specOpaqueTagBody(t), io.EOF, _Tag{}), sTag{ok: true, t: t})
	})
}

func theorem_tag_roundtrip() {
	t := vAny[_Tag]("t")
	vAssume(func() bool { return specTagWF(t) && t.message.x != "" })
	lemma_tag(t)
	vAssert("the number", func() bool { return !strings.Contains(vIntToStr(len(specOpaqueTagBody(t))), "\x00") })
	n, err := ParseObjectFromBuffer([]byte(specFrame("tag", specOpaqueTagBody(t))))
	vAssert("an object in git's layout is accepted", func() bool { return err == nil })
	d, ok := n.(*_Tag)
	vAssert("it is a tag", func() bool { return ok })
	vAssert("with the fields it was made from", func() bool { return vEq(*d, t) })
	w := vAny[*f_io_Writer]("w")
	vAssume(func() bool { return w.left < 0 && w.out == "" })
	err = Encode(n, w)
	vAssert("it can be encoded", func() bool { return err == nil })
	vAssert("encoding gives back the object", func() bool { return w.out == specFrame("tag", specOpaqueTagBody(t)) })
}
