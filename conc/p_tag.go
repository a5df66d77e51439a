package ipldgit

import (
	"bytes"
	"encoding/hex"
	"errors"
	"io"
	"strconv"
	"strings"
	"testing"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipld/go-ipld-prime"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
)

func (g *gen) hex() string {
	h := hex.EncodeToString([]byte(g.sha()))
	switch g.Intn(12) {
	case 0:
		return strings.ToUpper(h)
	case 1:
		return g.mutate(h)
	case 2:
		return h[:g.Intn(41)]
	case 3:
		return h + g.word()
	}
	return h
}

func (g *gen) tagLine() string {
	switch g.Intn(9) {
	case 0, 1:
		return "object " + g.hex()
	case 2:
		return "type " + g.pick("commit", "tree", "", " ", g.line())
	case 3:
		return "tag " + g.pick("v1", "", " ", g.line())
	case 4, 5:
		return "tagger " + g.personText()
	case 6:
		return ""
	case 7:
		return g.line()
	}
	return g.pick("object", "objects x", "type", "tag", "tagger", " ", "object\t", "gpgsig x", "\r")
}

func (g *gen) tag() string {
	var s string
	if g.chance(3) {
		for n := g.Intn(10); n > 0; n-- {
			s += g.tagLine() + "\n"
		}
		if g.chance(2) {
			s += g.text()
		}
	} else {
		t := g.tagNode()
		t.object.x = g.gitLink()
		s = specOpaqueTagBody(t)
		if g.chance(2) {
			s = g.mutate(s)
		}
	}
	num := strconv.Itoa(len(s))
	if g.chance(8) {
		num = g.number()
	}
	s = "tag " + num + "\x00" + s
	if g.chance(20) {
		s = g.mutate(s)
	}
	return s
}

func (g *gen) gitLink() ipld.Link {
	c := cid.NewCidV1(cid.GitRaw, []byte("\x11\x14"+g.sha()))
	return cidlink.Link{Cid: c}
}

func (g *gen) link() ipld.Link {
	switch g.Intn(30) {
	case 0:
		return nil
	case 1:
		return cidlink.Link{Cid: g.anyCid()}
	case 2:
		return oddLink{}
	}
	return g.gitLink()
}

func (g *gen) tagNode() _Tag {
	var t _Tag
	t.object.x = g.link()
	for !specIsGitLink(t.object.x) && !g.chance(3) {
		t.object.x = g.gitLink()
	}
	t.typ.x = g.pick("commit", "tree", "", g.line(), g.word(), "%s")
	t.tag.x = g.pick("v1", "", g.line(), g.word(), "%d")
	if !g.chance(4) {
		t.tagger = g.person()
	}
	t.message.x = g.pick("", "msg\n", "\n", g.text(), g.text(), "%s%n", "a\n\nb")
	return t
}

func TestVerifP05(t *testing.T) {
	vLoop(t, "P05", func(g *gen, i int) string {
		s := g.tag()
		vTry("tag object %s", q(s))
		if strings.HasPrefix(s, "tag ") {
			end := io.EOF
			if g.chance(5) {
				end = errTest
			}
			want := specTagOf(s[4:], end)
			buf := []byte(s)
			var n ipld.Node
			var err error
			if end == io.EOF && g.chance(2) {
				n, err = ParseObjectFromBuffer(buf)
			} else {
				n, err = ParseObject(g.reader(s, end))
			}
			if (err == nil) != want.ok {
				return "tag " + q(s) + ": accepted is not " + strconv.FormatBool(want.ok)
			}
			if err != nil && n != nil {
				return "node with an error for " + q(s)
			}
			if err == nil {
				for i := range buf {
					buf[i] ^= 0x55
				}
				d, ok := n.(*_Tag)
				if !ok || vDump(*d) != vDump(want.t) {
					return "tag " + q(s) + " gives " + vDump(n) + " instead of " + vDump(want.t)
				}
				if bad := vTagEncode(g, d); bad != "" {
					return bad
				}
			}
		}
		w := g.tagNode()
		vTry("tag node %s", vDump(w))
		if bad := vTagEncode(g, &w); bad != "" {
			return bad
		}
		if specTagWF(w) && w.message.x != "" {
			b := specFrame("tag", specOpaqueTagBody(w))
			n, err := ParseObjectFromBuffer([]byte(b))
			if err != nil || vDump(n) != vDump(&w) {
				return "tag " + vDump(w) + " reads back as " + vDump(n)
			}
		}
		return ""
	})
}

func vTagEncode(g *gen, t *_Tag) string {
	before := vDump(t)
	var out bytes.Buffer
	err := Encode(t, &out)
	if vDump(t) != before {
		return "encoding changes " + before
	}
	if !specLinkOK(t.object.x) {
		if err == nil || out.Len() > 0 {
			return "a bad link is encoded: " + before
		}
		return ""
	}
	want := specFrame("tag", specOpaqueTagBody(*t))
	if err != nil || out.String() != want {
		return "tag " + before + " is encoded as " + q(out.String()) + " instead of " + q(want)
	}
	var out2 bytes.Buffer
	if err := Encode(t.Representation(), &out2); err != nil || out2.String() != want {
		return "representation of " + before + " is encoded as " + q(out2.String()) + " instead of " + q(want)
	}
	k := g.Intn(len(want))
	lw := &limitWriter{n: k}
	if err := Encode(t, lw); !errors.Is(err, errTest) || lw.b.String() != want[:k] {
		return "write error lost"
	}
	return ""
}

// A tag whose message is empty but for the blank line before it.
func TestVerifKnownP05(t *testing.T) {
	body := "object " + strings.Repeat("12", 20) + "\ntype commit\ntag v1\n\n"
	s := specFrame("tag", body)
	n, err := ParseObjectFromBuffer([]byte(s))
	if err != nil {
		return
	}
	var out bytes.Buffer
	if err := Encode(n, &out); err == nil && out.String()+"" == specFrame("tag", body[:len(body)-1]) {
		vKnown("a tag that ends with the blank line before an empty message is encoded without that line")
	}
}
