package ipldgit

// Commits read back as what they were made from.

import (
	"io"
	"strings"

	"github.com/ipld/go-ipld-prime/schema"
)

func lemma_line(line, rest string, c _Commit) {
	vRequires(func() bool { return !strings.Contains(line, "\n") })
	vEnsures("a line", func() bool {
		return vEq(specCommit(false, "", line+"\n"+rest, io.EOF, c), specCommit(true, line, rest, io.EOF, c))
	})
}

func specWithParents(c _Commit, ps []_Commit_Link) _Commit {
	c.parents.x = append(c.parents.x, ps...)
	return c
}

func lemma_parents(ps []_Commit_Link, c _Commit, rest string) {
	vRequires(func() bool { return specParentsWF(ps) })
	vDecreases(len(ps))
	vProof(func() {
		if len(ps) > 0 {
			h := specLinkSha(ps[0].x)
			line := "parent " + uf_hexenc(h)
			vAssert("hash", func() bool { return specHexShaOK(uf_hexenc(h)) && uf_hexdec(uf_hexenc(h)) == h })
			vAssert("link", func() bool { return specGitLink(h) == ps[0].x })
			c1 := c
			c1.parents.x = append(c.parents.x, ps[0])
			r := specParents(ps[1:]) + rest
			lemma_line(line, r, c)
			vAssert("parent", func() bool { return vEq(specCommit(true, line, r, io.EOF, c), specCommit(false, "", r, io.EOF, c1)) })
			lemma_parents(ps[1:], c1, rest)
		}
	})
	vEnsures("the parents", func() bool {
		return vEq(specCommit(false, "", specParents(ps)+rest, io.EOF, c), specCommit(false, "", rest, io.EOF, specWithParents(c, ps)))
	})
}

func specWithOther(c _Commit, ls []_String) _Commit {
	c.other.x = append(c.other.x, ls...)
	return c
}

func lemma_others(ls []_String, c _Commit, rest string) {
	vRequires(func() bool { return specOthersWF(ls) })
	vDecreases(len(ls))
	vProof(func() {
		if len(ls) > 0 {
			c1 := c
			c1.other.x = append(c.other.x, ls[0])
			r := specLines(ls[1:]) + rest
			lemma_line(ls[0].x, r, c)
			vAssert("line", func() bool { return vEq(specCommit(true, ls[0].x, r, io.EOF, c), specCommit(false, "", r, io.EOF, c1)) })
			lemma_others(ls[1:], c1, rest)
		}
	})
	vEnsures("the lines", func() bool {
		return vEq(specCommit(false, "", specLines(ls)+rest, io.EOF, c), specCommit(false, "", rest, io.EOF, specWithOther(c, ls)))
	})
}

func lemma_sigLines(s, acc, rest string) {
	vRequires(func() bool { return specSigWF(s) })
	vDecreases(len(s))
	vProof(func() {
		if s != "" {
			lemma_sigLines(specTail(s, "\n"), acc+specHead(s, "\n")+"\n", rest)
		}
	})
	vEnsures("the signature", func() bool {
		return vEq(specSigLines(s+" -----END PGP SIGNATURE-----\n"+rest, io.EOF, acc), sSig{ok: true, sig: acc + s, rest: rest})
	})
}

func lemma_mergeMsg(m, acc, next, rest string, t _Tag) {
	vRequires(func() bool {
		return specMsgWF(m) && !strings.Contains(next, "\n") && !strings.HasPrefix(next, " ")
	})
	vDecreases(len(m))
	vProof(func() {
		if m != "" {
			lemma_mergeMsg(specTail(m, "\n"), acc+specHead(m, "\n")+"\n", next, rest, t)
		}
	})
	vEnsures("the message", func() bool {
		t1 := t
		t1.message.x = acc + m
		return vEq(specMergeMsg(m+next+"\n"+rest, io.EOF, t, acc), sMerge{ok: true, t: t1, more: true, next: next, rest: rest})
	})
}

// specMergeRest is a merge tag's text after its first line.
func specMergeRest(t _Tag) string {
	s := " type " + t.typ.x + "\n tag " + t.tag.x + "\n"
	if !specNoPerson(t.tagger) {
		s += " tagger " + specOpaquePersonStr(t.tagger) + "\n"
	}
	return s + " \n" + t.message.x
}

func specMergeHead(t _Tag) string { return "mergetag object " + uf_hexenc(specLinkSha(t.object.x)) }

func lemma_merge(t _Tag, next, rest string) {
	vRequires(func() bool {
		return specMergeWF(t) && !strings.Contains(next, "\n") && !strings.HasPrefix(next, " ")
	})
	vProof(func() {
		b := t.message.x + next + "\n" + rest
		m := " \n" + b
		g := m
		if !specNoPerson(t.tagger) {
			g = " tagger " + specOpaquePersonStr(t.tagger) + "\n" + m
		}
		n := " tag " + t.tag.x + "\n" + g
		y := " type " + t.typ.x + "\n" + n
		t0 := _Tag{object: t.object}
		t1 := _Tag{object: t.object, typ: t.typ}
		t2 := _Tag{object: t.object, typ: t.typ, tag: t.tag}
		t3 := _Tag{object: t.object, typ: t.typ, tag: t.tag, tagger: t.tagger}
		vAssert("type", func() bool { return vEq(specMerge(y, io.EOF, t0), specMerge(n, io.EOF, t1)) })
		vAssert("tag", func() bool { return vEq(specMerge(n, io.EOF, t1), specMerge(g, io.EOF, t2)) })
		if !specNoPerson(t.tagger) {
			lemma_opaquePerson("tagger", t.tagger)
		}
		vAssert("tagger", func() bool { return vEq(specMerge(g, io.EOF, t2), specMerge(m, io.EOF, t3)) })
		vAssert("blank", func() bool { return vEq(specMerge(m, io.EOF, t3), specMergeMsg(b, io.EOF, t3, "")) })
		lemma_mergeMsg(t.message.x, "", next, rest, t3)
		vAssert("text", func() bool { return specMergeRest(t)+next+"\n"+rest == y })
	})
	vEnsures("the merge tag", func() bool {
		return vEq(specMerge(specMergeRest(t)+next+"\n"+rest, io.EOF, _Tag{object: t.object}), sMerge{ok: true, t: t, more: true, next: next, rest: rest})
	})
}

func specWithMerges(c _Commit, ts []_Tag) _Commit {
	c.mergetag.x = append(c.mergetag.x, ts...)
	return c
}

func lemma_merges(ts []_Tag, c _Commit, next, rest string) {
	vRequires(func() bool {
		return specMergesWF(ts) && !strings.Contains(next, "\n") && !strings.HasPrefix(next, " ")
	})
	vDecreases(len(ts))
	vProof(func() {
		if len(ts) > 0 {
			t := ts[0]
			h := specLinkSha(t.object.x)
			vAssert("hash", func() bool { return specHexShaOK(uf_hexenc(h)) && uf_hexdec(uf_hexenc(h)) == h })
			vAssert("link", func() bool { return specGitLink(h) == t.object.x })
			c1 := c
			c1.mergetag.x = append(c.mergetag.x, t)
			n2, r2 := next, rest
			if len(ts) > 1 {
				n2, r2 = specMergeHead(ts[1]), specMergeRest(ts[1])+specMerges(ts[2:])+next+"\n"+rest
			}
			vAssert("what follows", func() bool { return specMerges(ts[1:])+next+"\n"+rest == n2+"\n"+r2 })
			lemma_merge(t, n2, r2)
			r1 := specMergeRest(t) + n2 + "\n" + r2
			vAssert("merge tag", func() bool {
				return vEq(specCommit(true, specMergeHead(t), r1, io.EOF, c), specCommit(true, n2, r2, io.EOF, c1))
			})
			vAssert("text", func() bool { return specMerges(ts)+next+"\n"+rest == specMergeHead(t)+"\n"+r1 })
			lemma_line(specMergeHead(t), r1, c)
			lemma_line(n2, r2, c1)
			lemma_merges(ts[1:], c1, next, rest)
		}
	})
	vEnsures("the merge tags", func() bool {
		return vEq(specCommit(false, "", specMerges(ts)+next+"\n"+rest, io.EOF, c), specCommit(true, next, rest, io.EOF, specWithMerges(c, ts)))
	})
}

func lemma_sig(s, rest string) {
	vRequires(func() bool { return specSigFirst(s) && specSigWF(specTail(s, "\n")) })
	vProof(func() { lemma_sigLines(specTail(s, "\n"), specHead(s, "\n")+"\n", rest) })
	vEnsures("the signature", func() bool {
		return vEq(specOpaqueSig(s+" -----END PGP SIGNATURE-----\n"+rest, io.EOF), sSig{ok: true, sig: s, rest: rest})
	})
}

func specSame(rest string, c _Commit, rest2 string, c2 _Commit) bool {
	return vEq(specCommit(false, "", rest, io.EOF, c), specCommit(false, "", rest2, io.EOF, c2))
}

func lemma_author(p _PersonInfo__Maybe, c _Commit, rest string) {
	vRequires(func() bool { return specMaybePersonWF(p) && vEq(c.author, _PersonInfo__Maybe{}) })
	vProof(func() {
		if p.m == schema.Maybe_Value {
			lemma_opaquePerson("author", *p.v)
			lemma_line("author "+specOpaquePersonStr(*p.v), rest, c)
		}
	})
	vEnsures("the author", func() bool {
		c1 := c
		c1.author = p
		return specSame(specAuthor("author ", p)+rest, c, rest, c1)
	})
}

func lemma_committer(p _PersonInfo__Maybe, c _Commit, rest string) {
	vRequires(func() bool { return specMaybePersonWF(p) && vEq(c.committer, _PersonInfo__Maybe{}) })
	vProof(func() {
		if p.m == schema.Maybe_Value {
			lemma_opaquePerson("committer", *p.v)
			lemma_line("committer "+specOpaquePersonStr(*p.v), rest, c)
		}
	})
	vEnsures("the committer", func() bool {
		c1 := c
		c1.committer = p
		return specSame(specAuthor("committer ", p)+rest, c, rest, c1)
	})
}

func lemma_encoding(p _String__Maybe, c _Commit, rest string) {
	vRequires(func() bool { return specEncodingWF(p) && vEq(c.encoding, _String__Maybe{}) })
	vProof(func() {
		if p.m == schema.Maybe_Value {
			lemma_line("encoding "+p.v.x, rest, c)
		}
	})
	vEnsures("the encoding", func() bool {
		c1 := c
		c1.encoding = p
		return specSame(specEncoding(p)+rest, c, rest, c1)
	})
}

func lemma_gpg(p _GpgSig__Maybe, c _Commit, rest string) {
	vRequires(func() bool { return specGpgWF(p) && vEq(c.signature, _GpgSig__Maybe{}) })
	vProof(func() {
		if p.m == schema.Maybe_Value {
			lemma_sig(p.v.x, rest)
			lemma_line("gpgsig -----BEGIN PGP SIGNATURE-----", p.v.x+" -----END PGP SIGNATURE-----\n"+rest, c)
		}
	})
	vEnsures("the signature", func() bool {
		c1 := c
		c1.signature = p
		return specSame(specGpg(p)+rest, c, rest, c1)
	})
}

func lemma_message(c _Commit, msg string) {
	vProof(func() { lemma_line("", msg, c) })
	vEnsures("the message", func() bool {
		c1 := c
		c1.message.x = msg
		return vEq(specCommit(false, "", "\n"+msg, io.EOF, c), sCommit{ok: true, c: c1})
	})
}

// What follows the merge tags, by its first line.
func specTailNext(c _Commit) string {
	if c.signature.m == schema.Maybe_Value {
		return "gpgsig -----BEGIN PGP SIGNATURE-----"
	}
	if len(c.other.x) > 0 {
		return c.other.x[0].x
	}
	return ""
}

func specTailRest(c _Commit) string {
	if c.signature.m == schema.Maybe_Value {
		return c.signature.v.x + " -----END PGP SIGNATURE-----\n" + specLines(c.other.x) + "\n" + c.message.x
	}
	if len(c.other.x) > 0 {
		return specLines(c.other.x[1:]) + "\n" + c.message.x
	}
	return c.message.x
}

func specTailText(c _Commit) string {
	return specGpg(c.signature) + specLines(c.other.x) + "\n" + c.message.x
}

func lemma_commitTail(c _Commit) {
	vRequires(func() bool { return specGpgWF(c.signature) && specOthersWF(c.other.x) })
	vEnsures("its first line", func() bool {
		return specTailText(c) == specTailNext(c)+"\n"+specTailRest(c) && !strings.Contains(specTailNext(c), "\n") &&
			strings.HasPrefix(specTailNext(c), " ") == !specMergesEnd(c)
	})
}

func lemma_commitMerges(c, c1 _Commit) {
	vRequires(func() bool { return specCommitWF(c) })
	vProof(func() {
		lemma_commitTail(c)
		if len(c.mergetag.x) > 0 {
			lemma_merges(c.mergetag.x, c1, specTailNext(c), specTailRest(c))
			lemma_line(specTailNext(c), specTailRest(c), specWithMerges(c1, c.mergetag.x))
		}
	})
	vEnsures("the merge tags", func() bool {
		return specSame(specMerges(c.mergetag.x)+specTailText(c), c1, specTailText(c), specWithMerges(c1, c.mergetag.x))
	})
}

// The serialised form of a commit reads back as the commit.
func lemma_commit(c _Commit) {
	vRequires(func() bool { return specCommitWF(c) })
	vProof(func() {
		b8 := "\n" + c.message.x
		b7 := specLines(c.other.x) + b8
		b6 := specTailText(c)
		b5 := specMerges(c.mergetag.x) + b6
		b4 := specEncoding(c.encoding) + b5
		b3 := specAuthor("committer ", c.committer) + b4
		b2 := specAuthor("author ", c.author) + b3
		b1 := specParents(c.parents.x) + b2
		h := specLinkSha(c.tree.x)
		line := "tree " + uf_hexenc(h)
		c0 := _Commit{}
		c1 := _Commit{tree: c.tree}
		c2 := _Commit{tree: c.tree, parents: c.parents}
		c3 := _Commit{tree: c.tree, parents: c.parents, author: c.author}
		c4 := _Commit{tree: c.tree, parents: c.parents, author: c.author, committer: c.committer}
		c5 := _Commit{tree: c.tree, parents: c.parents, author: c.author, committer: c.committer, encoding: c.encoding}
		c6 := _Commit{tree: c.tree, parents: c.parents, author: c.author, committer: c.committer, encoding: c.encoding, mergetag: c.mergetag}
		c7 := _Commit{tree: c.tree, parents: c.parents, author: c.author, committer: c.committer, encoding: c.encoding, mergetag: c.mergetag, signature: c.signature}
		c8 := _Commit{tree: c.tree, parents: c.parents, author: c.author, committer: c.committer, encoding: c.encoding, mergetag: c.mergetag, signature: c.signature, other: c.other}
		vAssert("hash", func() bool { return specHexShaOK(uf_hexenc(h)) && uf_hexdec(uf_hexenc(h)) == h })
		vAssert("link", func() bool { return specGitLink(h) == c.tree.x })
		lemma_line(line, b1, c0)
		vAssert("tree", func() bool { return specSame(line+"\n"+b1, c0, b1, c1) })
		lemma_parents(c.parents.x, c1, b2)
		vAssert("parents", func() bool { return specSame(b1, c1, b2, c2) })
		lemma_author(c.author, c2, b3)
		vAssert("author", func() bool { return specSame(b2, c2, b3, c3) })
		lemma_committer(c.committer, c3, b4)
		vAssert("committer", func() bool { return specSame(b3, c3, b4, c4) })
		lemma_encoding(c.encoding, c4, b5)
		vAssert("encoding", func() bool { return specSame(b4, c4, b5, c5) })
		lemma_commitMerges(c, c5)
		vAssert("merge tags", func() bool { return specSame(b5, c5, b6, c6) })
		lemma_gpg(c.signature, c6, b7)
		vAssert("signature", func() bool { return specSame(b6, c6, b7, c7) })
		lemma_others(c.other.x, c7, b8)
		vAssert("other headers", func() bool { return specSame(b7, c7, b8, c8) })
		lemma_message(c8, c.message.x)
		vAssert("text", func() bool { return specOpaqueCommitBody(c) == line+"\n"+b1 })
	})
	vEnsures("the commit", func() bool {
		return vEq(specCommit(false, "", specOpaqueCommitBody(c), io.EOF, _Commit{}), sCommit{ok: true, c: c})
	})
}

// An object made from a commit is read as that commit.
func theorem_commit_roundtrip() {
	c := vAny[_Commit]("c")
	vAssume(func() bool { return specCommitWF(c) })
	lemma_commit(c)
	vReach("there are such commits")
	body := specOpaqueCommitBody(c)
	vAssert("the number", func() bool { return !strings.Contains(vIntToStr(len(body)), "\x00") })
	n, err := ParseObjectFromBuffer([]byte(specFrame("commit", body)))
	vAssert("an object in git's layout is accepted", func() bool { return err == nil })
	d, ok := n.(*_Commit)
	vAssert("it is a commit", func() bool { return ok })
	vAssert("with the fields it was made from", func() bool { return vEq(*d, c) })
}

// lemma_parentLinks: links to git objects are links that can be encoded.
func lemma_parentLinks(ps []_Commit_Link) {
	vRequires(func() bool { return specParentsWF(ps) })
	vDecreases(len(ps))
	vProof(func() {
		if len(ps) > 0 {
			lemma_parentLinks(ps[1:])
		}
	})
	vEnsures("links", func() bool { return specParentsOK(ps) })
}

func lemma_mergeLinks(ts []_Tag) {
	vRequires(func() bool { return specMergesWF(ts) })
	vDecreases(len(ts))
	vProof(func() {
		if len(ts) > 0 {
			lemma_mergeLinks(ts[1:])
		}
	})
	vEnsures("links", func() bool { return specMergesOK(ts) })
}

func lemma_commitLinks(c _Commit) {
	vRequires(func() bool { return specCommitWF(c) })
	vProof(func() {
		lemma_parentLinks(c.parents.x)
		lemma_mergeLinks(c.mergetag.x)
	})
	vEnsures("links", func() bool { return specCommitLinksOK(c) })
}

// A commit that was read from such an object is encoded to that object (with
// theorem_commit_roundtrip, which says what is read from it).
func theorem_commit_reencode() {
	n := vAny[*_Commit]("n")
	vAssume(func() bool { return specCommitWF(*n) && specCommitSane(*n) })
	c := vSnap(*n)
	lemma_commitLinks(c)
	vReach("there are such commits")
	w := vAny[*f_io_Writer]("w")
	vAssume(func() bool { return w.left < 0 && w.out == "" })
	err := Encode(n, w)
	vAssert("it can be encoded", func() bool { return err == nil })
	vAssert("encoding gives back the object", func() bool { return w.out == specFrame("commit", specOpaqueCommitBody(c)) })
}
