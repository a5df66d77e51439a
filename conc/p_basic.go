package ipldgit

import (
	"bytes"
	"encoding/hex"
	"errors"
	"io"
	"strconv"
	"strings"
	"testing"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipld/go-ipld-prime"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	mh "github.com/multiformats/go-multihash"
)

var errTest = errors.New("test error")

// limitWriter takes n bytes, then fails.
type limitWriter struct {
	b bytes.Buffer
	n int
}

func (w *limitWriter) Write(p []byte) (int, error) {
	if len(p) <= w.n {
		w.n -= len(p)
		return w.b.Write(p)
	}
	n, _ := w.b.Write(p[:w.n])
	w.n = 0
	return n, errTest
}

// ---- blobs ----

func (g *gen) number() string {
	return g.pick("0", "1", "-1", "+5", "007", "", " 3", "3 ", "99999999999999999999", "2147483648", "0x10", strconv.Itoa(g.size()), "1e3", "5\n")
}

func (g *gen) blob() string {
	body := g.text()
	s := "blob " + strconv.Itoa(len(body)) + "\x00" + body
	switch g.Intn(6) {
	case 0:
		return g.mutate(s)
	case 1:
		return "blob " + g.number() + "\x00" + body
	case 2:
		return s + g.text()
	}
	return s
}

func TestVerifP01(t *testing.T) {
	vLoop(t, "P01", func(g *gen, i int) string {
		g.max = 70000
		s := g.blob()
		vTry("blob object %s", q(s))
		if !strings.HasPrefix(s, "blob ") {
			return ""
		}
		end := io.EOF
		if g.chance(5) {
			end = errTest
		}
		ok := specBlobOK(s[5:])
		buf := []byte(s)
		var n ipld.Node
		var err error
		if end == io.EOF && g.chance(2) {
			n, err = ParseObjectFromBuffer(buf)
		} else {
			n, err = ParseObject(g.reader(s, end))
		}
		if (err == nil) != ok {
			return "blob " + q(s) + ": accepted is not " + strconv.FormatBool(ok)
		}
		nb := basicnode.Prototype.Any.NewBuilder()
		if derr := Decode(nb, g.reader(s, end)); (derr == nil) != ok {
			return "Decode disagrees on " + q(s)
		}
		if !ok {
			if n != nil {
				return "node with an error for " + q(s)
			}
			return ""
		}
		want := specBlob(s[5:])
		for i := range buf {
			buf[i] ^= 0x55
		}
		b, err := n.AsBytes()
		if err != nil || string(b) != want {
			return "blob " + q(s) + " gives " + q(string(b))
		}
		if _, isBlob := n.(*_Blob); !isBlob || n.Kind() != ipld.Kind_Bytes {
			return "not a blob node for " + q(s)
		}
		b2, err := nb.Build().AsBytes()
		if err != nil || string(b2) != want {
			return "Decode of " + q(s) + " gives " + q(string(b2))
		}
		for _, x := range []ipld.Node{n, nb.Build(), basicnode.NewBytes([]byte(want))} {
			var out bytes.Buffer
			if err := Encode(x, &out); err != nil || out.String() != want {
				return "encoding the blob of " + q(s) + " gives " + q(out.String())
			}
		}
		if strings.HasPrefix(s, want) == false && specFrame("blob", want[strings.Index(want, "\x00")+1:]) != want {
			return "not canonical: " + q(want)
		}
		k := g.Intn(len(want))
		w := &limitWriter{n: k}
		if err := Encode(n, w); !errors.Is(err, errTest) || w.b.String() != want[:k] {
			return "write error lost"
		}
		return ""
	})
}

// ---- persons ----

func (g *gen) personText() string {
	if g.chance(8) {
		return g.line()
	}
	name := g.pick("A U Thor", "A", "", " ", "A  B", g.line(), g.word()+" "+g.word(), "A <b", "<x", " lead", "trail ")
	mail := g.pick("a@b.c", "", " ", "a b", "a  b", "<a>", "a> b", "a <b", g.word(), g.line(), " a", "a ")
	s := name + g.pick(" ", " ", " ", "", "  ") + "<" + mail + ">"
	if !g.chance(6) {
		s += g.pick(" ", " ", " ", "", "  ") + g.pick("1234567890", "0", "-5", "", g.word())
		if !g.chance(6) {
			s += " " + g.pick("+0000", "-0130", "+1400", "", g.word())
			if g.chance(8) {
				s += " " + g.word()
			}
		}
	}
	if g.chance(8) {
		return strings.ReplaceAll(g.mutate(s), "\n", " ")
	}
	return s
}

func (g *gen) person() _PersonInfo {
	var p _PersonInfo
	p.name.x = g.pick("A U Thor", "A", "", "A  B", "trail ", "a  ", g.line(), g.word(), g.word()+" "+g.word(), "%s", "a<b", "a >")
	p.email.x = g.pick("a@b.c", "", " ", "a b", "a  b", "<", "a<b", ">", g.line(), g.word(), "%d")
	p.date.x = g.pick("1234567890", "0", "", "-1", g.word(), "<", ">")
	p.timezone.x = g.pick("+0000", "-0130", "", g.word(), ">")
	return p
}

func TestVerifP06(t *testing.T) {
	vLoop(t, "P06", func(g *gen, i int) string {
		key := g.pick("author", "committer", "tagger", "x")
		line := key + g.pick(" ", " ", " ", " ", "  ", "") + g.personText()
		vTry("person line %s", q(line))
		if bad := vPerson(line); bad != "" {
			return bad
		}
		p := g.person()
		vTry("person %#v", p)
		s := p.GitString()
		if want := specOpaquePersonStr(p); s != want {
			return "text of " + vDump(p) + " is " + q(s) + " instead of " + q(want)
		}
		if specPersonWF(p) {
			if r, err := vParsePerson("author " + s); err != nil || *r != p {
				return "text " + q(s) + " of " + vDump(p) + " reads back as " + vDump(r)
			}
		}
		return vPerson("author " + s)
	})
}

// vParsePerson reads a person line as part of an object.
func vParsePerson(line string) (PersonInfo, error) {
	i := strings.Index(line, " ")
	if i < 0 {
		i = len(line)
	}
	switch line[:i] {
	case "author", "committer":
		n, err := ParseObjectFromBuffer([]byte("commit 9\x00tree " + strings.Repeat("12", 20) + "\n" + line + "\n\nm"))
		if err != nil {
			return nil, err
		}
		c := n.(*_Commit)
		if line[:i] == "author" {
			return c.author.v, nil
		}
		return c.committer.v, nil
	}
	n, err := ParseObjectFromBuffer([]byte("tag 9\x00object " + strings.Repeat("12", 20) + "\ntype commit\ntag v\n" + line + "\n\nm"))
	if err != nil {
		return nil, err
	}
	return &n.(*_Tag).tagger, nil
}

var vParsePersonInfo func([]byte) (PersonInfo, error)

func vPerson(line string) string {
	want := specOpaquePersonOf(line)
	check := func(p PersonInfo, err error) string {
		if (err == nil) != want.ok {
			return "person line " + q(line) + ": accepted is not " + strconv.FormatBool(want.ok)
		}
		if err == nil && *p != want.p {
			return "person line " + q(line) + " gives " + vDump(p) + " instead of " + vDump(want.p)
		}
		return ""
	}
	for _, k := range []string{"author ", "committer ", "tagger "} {
		if strings.HasPrefix(line, k) && !strings.Contains(line, "\n") {
			if bad := check(vParsePerson(line)); bad != "" {
				return bad
			}
		}
	}
	if vParsePersonInfo == nil {
		return ""
	}
	buf := []byte(line)
	p, err := vParsePersonInfo(buf)
	if string(buf) != line {
		return "person line changed: " + q(line)
	}
	for i := range buf {
		buf[i] ^= 0x55
	}
	if err != nil && p != nil {
		return "person with an error: " + q(line)
	}
	return check(p, err)
}

// ---- links ----

func (g *gen) anyCid() cid.Cid {
	d := make([]byte, g.Intn(40))
	g.Read(d)
	if g.chance(2) {
		d = []byte(g.sha())
	}
	code := []uint64{mh.SHA1, mh.SHA2_256, mh.IDENTITY, mh.SHA1, mh.BLAKE2B_MAX}[g.Intn(5)]
	h, err := mh.Encode(d, code)
	if err != nil {
		h, _ = mh.Encode(d, mh.IDENTITY)
	}
	if g.chance(30) {
		return cid.Undef
	}
	return cid.NewCidV1([]uint64{cid.GitRaw, cid.GitRaw, cid.Raw, cid.DagCBOR, 0}[g.Intn(5)], h)
}

type oddLink struct{ cidlink.Link }

// vP08 checks the package's own conversions.
var vP08 []func(g *gen) string

func TestVerifP08(t *testing.T) {
	vLoop(t, "P08", func(g *gen, i int) string {
		h := g.sha()
		vTry("sha %x", h)
		// hash to link, in every place
		x := hex.EncodeToString([]byte(h))
		where := g.Intn(6)
		var obj string
		var get func(n ipld.Node) (ipld.Node, error)
		field := func(path ...string) func(n ipld.Node) (ipld.Node, error) {
			return func(n ipld.Node) (ipld.Node, error) {
				var err error
				for _, p := range path {
					if n.Kind() == ipld.Kind_List {
						n, err = n.LookupByIndex(0)
					} else {
						n, err = n.LookupByString(p)
					}
					if err != nil {
						return nil, err
					}
				}
				return n, nil
			}
		}
		other := strings.Repeat("ab", 20)
		switch where {
		case 0:
			obj, get = specFrame("tag", "object "+x+"\ntype commit\ntag v\n\nm"), field("object")
		case 1:
			obj, get = specFrame("commit", "tree "+x+"\n\nm"), field("tree")
		case 2:
			obj, get = specFrame("commit", "tree "+other+"\nparent "+x+"\n\nm"), field("parents", "0")
		case 3:
			obj, get = specFrame("commit", "tree "+other+"\nmergetag object "+x+"\n type commit\n tag v\n \n m\n\nm"), field("mergetag", "0", "object")
		default:
			obj, get = specFrame("tree", "100644 a\x00"+h), field("a", "hash")
		}
		n, err := ParseObjectFromBuffer([]byte(obj))
		if err != nil {
			return q(obj) + " is rejected"
		}
		l, err := get(n)
		if err != nil {
			return q(obj) + " has no link: " + err.Error()
		}
		lnk, err := l.AsLink()
		if err != nil {
			return "not a link in " + q(obj)
		}
		cl, ok := lnk.(cidlink.Link)
		if !ok || cl.Cid.KeyString() != "\x01\x78\x11\x14"+h {
			return "the link in " + q(obj) + " is " + lnk.String()
		}
		var out bytes.Buffer
		if err := Encode(n, &out); err != nil || out.String() != obj {
			return q(obj) + " is encoded as " + q(out.String())
		}
		// lengths of a hash that are not those of a hash
		k := []int{0, 1, 19, 21, 22, 32, 40, 64}[g.Intn(8)]
		if bad := strings.Replace(obj, x, strings.Repeat("5a", k), 1); bad != obj {
			if n, err := ParseObjectFromBuffer([]byte(bad)); err == nil || n != nil {
				return q(bad) + " is accepted"
			}
		}
		// link to hash, in every place
		nl := g.link()
		if g.chance(2) {
			nl = cidlink.Link{Cid: g.anyCid()}
		}
		vTry("link %s", vDump(nl))
		var nn ipld.Node
		var x2 any
		switch where {
		case 0:
			t := _Tag{object: _Link{nl}}
			nn, x2 = &t, t
		case 1:
			c := _Commit{tree: _Tree_Link{nl}}
			nn, x2 = &c, c
		case 2:
			c := _Commit{tree: _Tree_Link{g.gitLink()}, parents: _Commit_Link_List{[]_Commit_Link{{nl}}}}
			nn, x2 = &c, c
		case 3:
			c := _Commit{tree: _Tree_Link{g.gitLink()}, mergetag: _Tag_List{[]_Tag{{object: _Link{nl}}}}}
			nn, x2 = &c, c
		default:
			tn := g.treeNode()
			tn.t = append(tn.t, _Tree__entry{_String{"zz new"}, _TreeEntry{_String{"1"}, _Link{nl}}})
			tn.m[_String{"zz new"}] = &tn.t[len(tn.t)-1].v
			nn, x2 = tn, *tn
		}
		fok, form := vForm(x2)
		if bad := g.vEncodes(nn, fok, form); bad != "" {
			return bad
		}
		for _, f := range vP08 {
			if bad := f(g); bad != "" {
				return bad
			}
		}
		return ""
	})
}
