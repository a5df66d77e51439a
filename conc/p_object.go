package ipldgit

// Objects of every kind, generated and compared with the specification.

import (
	"bytes"
	"errors"
	"io"
	"strconv"
	"strings"

	"github.com/ipld/go-ipld-prime/schema"

	ipld "github.com/ipld/go-ipld-prime"
)

// vWant is what the specification says of an input.
type vWant struct {
	ok, cut bool
	kind    string
	node    any // what the node points to
}

func vSpec(obj string, end error) vWant {
	i := strings.Index(obj, " ")
	if i < 0 {
		return vWant{cut: true}
	}
	kind, rest := obj[:i], obj[i+1:]
	switch kind {
	case "blob":
		if !specBlobOK(rest) {
			return vWant{cut: specBlobCut(rest, end), kind: kind}
		}
		return vWant{true, false, kind, _Blob{[]byte(specBlob(rest))}}
	case "tree":
		s := specTreeOf(rest, end)
		if !s.ok {
			return vWant{cut: s.cut, kind: kind}
		}
		return vWant{true, false, kind, _Tree{m: specTreeMap(s.t), t: s.t}}
	case "commit":
		s := specCommitOf(rest, end)
		return vWant{s.ok, s.cut, kind, s.c}
	case "tag":
		s := specTagOf(rest, end)
		return vWant{s.ok, s.cut, kind, s.t}
	}
	return vWant{}
}

func vDumpNode(n ipld.Node) string {
	s := vDump(n)
	// the same node may come as a pointer of another name
	return s[strings.Index(s, ":")+1:]
}

// vDiffers tells how what an entry point returned differs from want.
func (w vWant) vDiffers(entry, obj string, end error, n ipld.Node, err error) string {
	if (err == nil) != w.ok {
		return entry + " of " + q(obj) + ": error " + vErr(err) + ", but accepted should be " + strconv.FormatBool(w.ok)
	}
	if err != nil {
		if n != nil {
			return entry + " gives a node with an error for " + q(obj)
		}
		if w.cut && end != io.EOF && !errors.Is(err, end) {
			return entry + " of " + q(obj) + " loses the read error: " + vErr(err)
		}
		return ""
	}
	if n == nil {
		return entry + " of " + q(obj) + " gives no node and no error"
	}
	if got, want := vDump(n), vDump(w.node); got != want {
		return entry + " of " + q(obj) + " gives " + got + " instead of " + want
	}
	switch n.(type) {
	case *_Blob:
		w.kind = strings.TrimPrefix(w.kind, "blob")
	case *_Tree:
		w.kind = strings.TrimPrefix(w.kind, "tree")
	case *_Commit:
		w.kind = strings.TrimPrefix(w.kind, "commit")
	case *_Tag:
		w.kind = strings.TrimPrefix(w.kind, "tag")
	}
	if w.kind != "" {
		return entry + " of " + q(obj) + " gives another kind of node than " + w.kind
	}
	return ""
}

func vErr(err error) string {
	if err == nil {
		return "none"
	}
	return strconv.Quote(err.Error())
}

// ---- trees ----

func (g *gen) treeName() string {
	if g.chance(8) {
		return strings.ReplaceAll(g.text(), "\x00", "")
	}
	return g.pick("a", "b", "c", "a.txt", "", " ", "x y", g.word(), g.word(), g.word(), "\n", "é", strings.Repeat("n", g.size()))
}

func (g *gen) treeMode() string {
	if g.chance(12) {
		return strings.ReplaceAll(g.line(), " ", "")
	}
	return g.pick("100644", "100755", "40000", "120000", "160000", "040000", "", "0", "\x00", "x", "100644\n", "1\x00")
}

func (g *gen) treeEntries() []_Tree__entry {
	var es []_Tree__entry
	n := g.Intn(6)
	if g.chance(15) {
		n = g.Intn(60)
	}
	for i := 0; i < n; i++ {
		name := g.treeName()
		if g.chance(2) {
			name += strconv.Itoa(i)
		}
		es = append(es, _Tree__entry{_String{name}, _TreeEntry{_String{g.treeMode()}, _Link{g.gitLink()}}})
	}
	return es
}

// treeNode has no name twice.
func (g *gen) treeNode() *_Tree {
	t := &_Tree{m: map[_String]*_TreeEntry{}}
	for _, e := range g.treeEntries() {
		if t.m[e.k] == nil {
			t.t = append(t.t, e)
			t.m[e.k] = nil
			v := e.v
			t.m[e.k] = &v
		}
	}
	for i := range t.t {
		t.m[t.t[i].k] = &t.t[i].v
	}
	return t
}

func (g *gen) tree() string {
	s := specTreeBody(g.treeEntries())
	if g.chance(3) {
		s = specTreeBody(g.treeNode().t)
	}
	if g.chance(4) {
		s = g.mutate(s)
	} else if g.chance(6) {
		s = s[:g.Intn(len(s)+1)]
	}
	return g.frame("tree", s)
}

func (g *gen) frame(kind, body string) string {
	num := strconv.Itoa(len(body))
	if g.chance(10) {
		num = g.number()
	}
	s := kind + " " + num + "\x00" + body
	if g.chance(25) {
		s = g.mutate(s)
	}
	return s
}

// ---- commits ----

func (g *gen) sigText() string {
	first := g.pick(" \n", " Version: GnuPG v1\n", " Comment: x\n", " Version: "+g.line()+"\n")
	var s string
	for n := g.Intn(5); n > 0; n-- {
		s += g.pick("", " ", " ", " ") + g.pick("iQIzBAABCAAdFiEE", "", "=abcd", g.line(), "-----END PGP SIGNATURE----", "-----BEGIN PGP SIGNATURE-----") + "\n"
	}
	return first + s
}

func (g *gen) mergeText() string {
	s := "mergetag object " + g.hex() + "\n"
	if g.chance(4) {
		for n := g.Intn(5); n > 0; n-- {
			s += g.pick(" type commit", " tag v1", " tagger "+g.personText(), " x", " ", " type ", " tagger", " object x", " "+g.line()) + "\n"
		}
	} else {
		s += " type " + g.pick("commit", "", g.line()) + "\n tag " + g.pick("v1", "", g.line()) + "\n"
		if !g.chance(3) {
			s += " tagger " + g.personText() + "\n"
		}
	}
	if !g.chance(3) {
		s += " \n"
		for n := g.Intn(4); n > 0; n-- {
			s += " " + g.pick("", "message", g.line()) + "\n"
		}
	}
	return s
}

func (g *gen) commitLine() string {
	switch g.Intn(14) {
	case 0:
		return "tree " + g.hex() + "\n"
	case 1, 2:
		return "parent " + g.hex() + "\n"
	case 3:
		return "author " + g.personText() + "\n"
	case 4:
		return "committer " + g.personText() + "\n"
	case 5:
		return "encoding " + g.pick("UTF-8", "", g.line()) + "\n"
	case 6, 7, 8:
		return g.mergeText()
	case 9, 10:
		return "gpgsig -----BEGIN PGP SIGNATURE-----\n" + g.sigText() + " -----END PGP SIGNATURE-----\n"
	case 11:
		return g.line() + "\n"
	case 12:
		return g.pick("HG:extra x", " continued", "gpgsig -----BEGIN SSH SIGNATURE-----", "gpgsig-sha256 x", "mergetag x", "mergetag object ", "tree", "parent", "author", "committer", "encoding", "gpgsig", "\r", " ", "message x") + "\n"
	}
	if g.chance(3) {
		return "\n"
	}
	return g.word() + " " + g.line() + "\n"
}

func (g *gen) commit() string {
	var s string
	switch g.Intn(3) {
	case 0:
		for n := g.Intn(10); n > 0; n-- {
			s += g.commitLine()
		}
		if g.chance(2) {
			s += "\n" + g.text()
		}
	default:
		c := g.commitNode(true)
		s = specOpaqueCommitBody(*c)
		if g.chance(2) {
			s = g.mutate(s)
		}
	}
	return g.frame("commit", s)
}

// mergeTag is a merge tag whose text reads back as it.
func (g *gen) mergeTag(good bool) _Tag {
	t := g.tagNode()
	if good {
		t.object.x = g.gitLink()
		for !specPersonWF(t.tagger) || specPersonNL(t.tagger) {
			t.tagger = g.person()
		}
		t.typ.x = strings.ReplaceAll(t.typ.x, "\n", "")
		t.tag.x = strings.ReplaceAll(t.tag.x, "\n", "")
		t.message.x = ""
		for n := g.Intn(4); n > 0; n-- {
			t.message.x += " " + g.pick("", "message", g.line()) + "\n"
		}
	}
	return t
}

// commitNode is a commit; good: one whose text reads back as it.
func (g *gen) commitNode(good bool) *_Commit {
	link := func() ipld.Link {
		if good || !g.chance(4) {
			return g.gitLink()
		}
		return g.link()
	}
	person := func() _PersonInfo__Maybe {
		if g.chance(6) {
			return _PersonInfo__Maybe{}
		}
		p := g.person()
		for good && (!specPersonWF(p) || specPersonNL(p)) {
			p = g.person()
		}
		return _PersonInfo__Maybe{m: schema.Maybe_Value, v: &p}
	}
	line := func() string {
		if good {
			return g.line()
		}
		return g.text()
	}
	c := &_Commit{tree: _Tree_Link{link()}}
	for n := g.Intn(4); n > 0; n-- {
		c.parents.x = append(c.parents.x, _Commit_Link{link()})
	}
	c.author, c.committer = person(), person()
	if g.chance(3) {
		c.encoding = _String__Maybe{m: schema.Maybe_Value, v: _String{g.pick("ISO-8859-1", "", line())}}
	}
	if g.chance(2) {
		for n := g.Intn(4); n > 0; n-- {
			c.mergetag.x = append(c.mergetag.x, g.mergeTag(good))
		}
	}
	if g.chance(3) {
		s := g.sigText()
		for good && strings.Contains("\n"+s, "\n -----END PGP SIGNATURE-----\n") {
			s = g.sigText()
		}
		c.signature = _GpgSig__Maybe{m: schema.Maybe_Value, v: _GpgSig{s}}
	}
	if g.chance(3) {
		for n := g.Intn(4); n > 0; n-- {
			x := g.pick("HG:extra x", "gpgsig-sha256 x", " continued", "x", line(), line(), "mergetag x", "message m")
			if good && (x == "" || vHeader(x) || len(c.mergetag.x) > 0 && len(c.other.x) == 0 && c.signature.m != schema.Maybe_Value && strings.HasPrefix(x, " ")) {
				continue
			}
			c.other.x = append(c.other.x, _String{x})
		}
	}
	c.message.x = g.pick("", "msg\n", "\n", g.text(), g.text(), "%s%n", "a\n\nb")
	return c
}

// vHeader: the line is one of the headers commits have.
func vHeader(x string) bool {
	for _, h := range []string{"tree ", "parent ", "author ", "committer ", "encoding ", "mergetag object "} {
		if strings.HasPrefix(x, h) {
			return true
		}
	}
	return x == "gpgsig -----BEGIN PGP SIGNATURE-----"
}

func (g *gen) object() string {
	switch g.Intn(9) {
	case 0:
		return g.blob()
	case 1, 2:
		return g.tree()
	case 3, 4, 5:
		return g.commit()
	case 6, 7:
		return g.tag()
	}
	return g.pick("blob", "tree", "commit", "tag", "Tree", "blob\x00", "", "tags", "tre", "commits", g.word(), g.text()) + g.pick(" ", " ", "", "\x00", "\n") + g.pick("0\x00", g.text())
}

// ---- encoding ----

// vEncodes checks that n, which is a kind of object, is encoded as want; as
// refused if !ok.
func (g *gen) vEncodes(n ipld.Node, ok bool, want string) string {
	before := vDump(n)
	var out bytes.Buffer
	err := Encode(n, &out)
	if vDump(n) != before {
		return "encoding changes " + before
	}
	if !ok {
		if err == nil {
			return before + " is not refused"
		}
		if out.Len() > 0 {
			return before + " is refused, but " + q(out.String()) + " is written"
		}
		return ""
	}
	if err != nil || out.String() != want {
		return before + " is encoded as " + q(out.String()) + ", " + vErr(err) + ", instead of " + q(want)
	}
	return ""
}

// vWriteErrors checks what encoding n as want does with writers that fail.
func (g *gen) vWriteErrors(n ipld.Node, want string) string {
	for j := 0; j < 4; j++ {
		k := g.Intn(len(want) + 1)
		if j == 0 && g.chance(3) {
			k = 0
		}
		w := &limitWriter{n: k}
		if k == len(want) {
			if err := Encode(n, w); err != nil || w.b.String() != want {
				return "encoding " + vDump(n) + " to a writer of just its size gives " + vErr(err)
			}
			continue
		}
		if err := Encode(n, w); !errors.Is(err, errTest) {
			return "encoding " + vDump(n) + " to a writer that fails after " + strconv.Itoa(k) + " bytes gives error " + vErr(err)
		}
		if got := w.b.String(); !strings.HasPrefix(want, got) {
			return "encoding " + vDump(n) + " to a writer that fails after " + strconv.Itoa(k) + " bytes writes " + q(got)
		}
	}
	return ""
}

// vForm is the specification's serialised form of what a node points to.
func vForm(x any) (ok bool, form string) {
	switch x := x.(type) {
	case _Blob:
		return true, string(x.x)
	case _Tree:
		if specTreeLinksOK(x.t) {
			return true, specFrame("tree", specTreeBody(x.t))
		}
	case _Commit:
		if specCommitLinksOK(x) {
			return true, specFrame("commit", specOpaqueCommitBody(x))
		}
	case _Tag:
		if specLinkOK(x.object.x) {
			return true, specFrame("tag", specOpaqueTagBody(x))
		}
	}
	return false, ""
}

// node is any node that can be encoded, with what it holds.
func (g *gen) node(good bool) (ipld.Node, any) {
	switch g.Intn(7) {
	case 0:
		b := &_Blob{[]byte(g.text())}
		return b, *b
	case 1, 2:
		t := g.treeNode()
		if !good && len(t.t) > 0 {
			t.t[g.Intn(len(t.t))].v.hash.x = g.link()
			if g.chance(3) {
				t.t[len(t.t)-1].v.hash.x = g.link()
			}
		}
		if good {
			for i := range t.t {
				t.t[i].v.mode.x = strings.ReplaceAll(t.t[i].v.mode.x, " ", "")
			}
		}
		return t, *t
	case 3, 4:
		t := g.tagNode()
		if good {
			t.object.x = g.gitLink()
			t.typ.x = strings.ReplaceAll(t.typ.x, "\n", "")
			t.tag.x = strings.ReplaceAll(t.tag.x, "\n", "")
			for !specPersonWF(t.tagger) || specPersonNL(t.tagger) {
				t.tagger = g.person()
			}
			if t.message.x == "" {
				t.message.x = "m"
			}
		}
		return &t, t
	}
	c := g.commitNode(good)
	return c, *c
}
