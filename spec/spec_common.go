package ipldgit

// Specification functions shared by all object types.

import (
	"io"
	"strings"

	ipld "github.com/ipld/go-ipld-prime"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
)

// specHead is s up to the first d; specTail what follows it.
func specHead(s, d string) string { return s[:strings.Index(s, d)] }
func specTail(s, d string) string { return s[strings.Index(s, d)+len(d):] }

// A line is available: one that is terminated, or a last one at a regular end.
func specOpaqueHasLine(rest string, end error) bool {
	return strings.Contains(rest, "\n") || end == io.EOF && rest != ""
}

// specOpaqueLine is the next line without its terminator; specOpaqueAfter what follows.
func specOpaqueLine(rest string) string {
	if strings.Contains(rest, "\n") {
		return specHead(rest, "\n")
	}
	return rest
}

func specOpaqueAfter(rest string) string {
	if strings.Contains(rest, "\n") {
		return specTail(rest, "\n")
	}
	return ""
}

// specSize reads the header's number: everything up to the NUL.
func specSizeOK(rest string) bool {
	return strings.Contains(rest, "\x00") && uf_atoiOK(specHead(rest, "\x00"))
}

func specSize(rest string) int { return uf_atoi(specHead(rest, "\x00")) }

// specFrame is the git serialisation of a body.
func specFrame(typ, body string) string {
	return typ + " " + vIntToStr(len(body)) + "\x00" + body
}

// specCid is the CID of the git object with a given sha1.
func specCid(sha string) string { return "\x01\x78\x11\x14" + sha }

// specShaOf is the sha1 in a CID that holds one.
func specIsSha(c string) bool {
	h := uf_cidHash(c)
	return len(h) == 22 && strings.HasPrefix(h, "\x11\x14")
}

func specShaOf(c string) string { return uf_cidHash(c)[2:] }

// specLinkOK: the link names a git object.
func specLinkOK(l ipld.Link) bool {
	cl, ok := l.(cidlink.Link)
	return ok && specIsSha(vCast[string](cl.Cid))
}

func specLinkSha(l ipld.Link) string {
	cl, ok := l.(cidlink.Link)
	if !ok {
		return ""
	}
	return specShaOf(vCast[string](cl.Cid))
}
