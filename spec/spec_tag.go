package ipldgit

// Annotated tags.

import (
	"io"
	"strings"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipld/go-ipld-prime"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
)

// specHexShaOK: s is the hexadecimal form of a sha1.
func specHexShaOK(s string) bool { return uf_hexok(s) && len(uf_hexdec(s)) == 20 }

// specGitLink is the link to the git object with a given sha1.
func specGitLink(sha string) ipld.Link {
	return cidlink.Link{Cid: vCast[cid.Cid](specCid(sha))}
}

// sTag is what a tag is read as. cut: the input ends inside.
type sTag struct {
	ok, cut bool
	t       _Tag
}

// specTag reads the lines of a tag, given the fields read so far.
func specTag(rest string, end error, t _Tag) sTag {
	if !specOpaqueHasLine(rest, end) {
		return sTag{end == io.EOF, end != io.EOF, t}
	}
	line, after := specOpaqueLine(rest), specOpaqueAfter(rest)
	switch {
	case strings.HasPrefix(line, "object "):
		if !specHexShaOK(line[7:]) {
			return sTag{}
		}
		t.object.x = specGitLink(uf_hexdec(line[7:]))
	case strings.HasPrefix(line, "tag "):
		t.tag.x = line[4:]
	case strings.HasPrefix(line, "tagger "):
		p := specOpaquePersonOf(line)
		if !p.ok {
			return sTag{}
		}
		t.tagger = p.p
	case strings.HasPrefix(line, "type "):
		t.typ.x = line[5:]
	case line == "":
		t.message.x = after
		return sTag{end == io.EOF, end != io.EOF, t}
	}
	return specTag(after, end, t)
}

// specTagOf reads a tag object after "tag ": what comes before the NUL is not
// looked at.
func specTagOf(data string, end error) sTag {
	if !strings.Contains(data, "\x00") {
		return sTag{cut: true}
	}
	return specTag(specTail(data, "\x00"), end, _Tag{})
}

func specNoPerson(p _PersonInfo) bool {
	return p.name.x == "" && p.email.x == "" && p.date.x == "" && p.timezone.x == ""
}

// specOpaqueTagBody is the body of a tag object.
func specOpaqueTagBody(t _Tag) string {
	s := "object " + uf_hexenc(specLinkSha(t.object.x)) + "\ntype " + t.typ.x + "\ntag " + t.tag.x + "\n"
	if !specNoPerson(t.tagger) {
		s += "tagger " + specOpaquePersonStr(t.tagger) + "\n"
	}
	if t.message.x != "" {
		s += "\n" + t.message.x
	}
	return s
}

// specTagWF: the tag has a serialised form that can be told apart.
func specTagWF(t _Tag) bool {
	return specIsGitLink(t.object.x) && !strings.Contains(t.typ.x, "\n") && !strings.Contains(t.tag.x, "\n") &&
		specPersonWF(t.tagger) && !specPersonNL(t.tagger)
}

func specPersonNL(p _PersonInfo) bool { return strings.Contains(specOpaquePersonStr(p), "\n") }

// specIsGitLink: l is the link to a git object as the decoder makes it.
func specIsGitLink(l ipld.Link) bool {
	cl, ok := l.(cidlink.Link)
	if !ok {
		return false
	}
	c := vCast[string](cl.Cid)
	return len(c) == 24 && strings.HasPrefix(c, "\x01\x78\x11\x14")
}
