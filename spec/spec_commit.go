package ipldgit

// Commits.

import (
	"io"
	"strings"

	"github.com/ipld/go-ipld-prime/schema"
)

// sMerge is a merge tag read, and the line after it if there is one. cut: the
// input ends inside.
type sMerge struct {
	ok, cut    bool
	t          _Tag
	more       bool
	next, rest string
}

// specMerge reads the lines of a merge tag, given the fields read so far.
func specMerge(rest string, end error, t _Tag) sMerge {
	if !specOpaqueHasLine(rest, end) {
		return sMerge{ok: end == io.EOF, cut: end != io.EOF, t: t}
	}
	line, after := specOpaqueLine(rest), specOpaqueAfter(rest)
	switch {
	case strings.HasPrefix(line, " type "):
		t.typ.x = line[6:]
	case strings.HasPrefix(line, " tag "):
		t.tag.x = line[5:]
	case strings.HasPrefix(line, " tagger "):
		p := specOpaquePersonOf(line[1:])
		if !p.ok {
			return sMerge{}
		}
		t.tagger = p.p
	case line == " ":
		return specMergeMsg(after, end, t, "")
	case !strings.HasPrefix(line, " "):
		return sMerge{ok: true, t: t, more: true, next: line, rest: after}
	}
	return specMerge(after, end, t)
}

// specMergeMsg reads a merge tag's message, which another line must follow.
func specMergeMsg(rest string, end error, t _Tag, msg string) sMerge {
	if !specOpaqueHasLine(rest, end) {
		return sMerge{cut: true}
	}
	line, after := specOpaqueLine(rest), specOpaqueAfter(rest)
	if !strings.HasPrefix(line, " ") {
		t.message.x = msg
		return sMerge{ok: true, t: t, more: true, next: line, rest: after}
	}
	return specMergeMsg(after, end, t, msg+line+"\n")
}

type sSig struct {
	ok, cut   bool
	sig, rest string
}

// specOpaqueSig reads a signature after its first line.
func specOpaqueSig(rest string, end error) sSig {
	if !specOpaqueHasLine(rest, end) {
		return sSig{cut: true}
	}
	line := specOpaqueLine(rest)
	if line != " " && !strings.HasPrefix(line, " Version: ") && !strings.HasPrefix(line, " Comment: ") {
		return sSig{}
	}
	return specSigLines(specOpaqueAfter(rest), end, line+"\n")
}

func specSigLines(rest string, end error, sig string) sSig {
	if !specOpaqueHasLine(rest, end) {
		return sSig{cut: true}
	}
	line, after := specOpaqueLine(rest), specOpaqueAfter(rest)
	if line == " -----END PGP SIGNATURE-----" {
		return sSig{ok: true, sig: sig, rest: after}
	}
	return specSigLines(after, end, sig+line+"\n")
}

type sStep struct {
	ok, cut    bool
	c          _Commit
	more       bool
	next, rest string
}

// specOpaqueStep reads one line of a commit, and those that belong to it.
func specOpaqueStep(line, rest string, end error, c _Commit) sStep {
	switch {
	case strings.HasPrefix(line, "tree "):
		if !specHexShaOK(line[5:]) {
			return sStep{}
		}
		c.tree.x = specGitLink(uf_hexdec(line[5:]))
	case strings.HasPrefix(line, "parent "):
		if !specHexShaOK(line[7:]) {
			return sStep{}
		}
		c.parents.x = append(c.parents.x, _Commit_Link{specGitLink(uf_hexdec(line[7:]))})
	case strings.HasPrefix(line, "author "):
		p := specOpaquePersonOf(line)
		if !p.ok {
			return sStep{}
		}
		c.author = _PersonInfo__Maybe{m: schema.Maybe_Value, v: &p.p}
	case strings.HasPrefix(line, "committer "):
		p := specOpaquePersonOf(line)
		if !p.ok {
			return sStep{}
		}
		c.committer = _PersonInfo__Maybe{m: schema.Maybe_Value, v: &p.p}
	case strings.HasPrefix(line, "encoding "):
		c.encoding = _String__Maybe{m: schema.Maybe_Value, v: _String{line[9:]}}
	case strings.HasPrefix(line, "mergetag object "):
		if !specHexShaOK(line[16:]) {
			return sStep{}
		}
		var t _Tag
		t.object.x = specGitLink(uf_hexdec(line[16:]))
		m := specMerge(rest, end, t)
		if !m.ok {
			return sStep{cut: m.cut}
		}
		c.mergetag.x = append(c.mergetag.x, m.t)
		return sStep{true, false, c, m.more, m.next, m.rest}
	case line == "gpgsig -----BEGIN PGP SIGNATURE-----":
		s := specOpaqueSig(rest, end)
		if !s.ok {
			return sStep{cut: s.cut}
		}
		c.signature = _GpgSig__Maybe{m: schema.Maybe_Value, v: _GpgSig{s.sig}}
		return sStep{ok: true, c: c, rest: s.rest}
	case line == "":
		if end != io.EOF {
			return sStep{cut: true}
		}
		c.message.x = rest
		return sStep{ok: true, c: c}
	default:
		c.other.x = append(c.other.x, _String{line})
	}
	return sStep{ok: true, c: c, rest: rest}
}

type sCommit struct {
	ok, cut bool
	c       _Commit
}

// specCommit reads the lines of a commit, given what was read so far and, if
// has, the line to go on with.
func specCommit(has bool, line, rest string, end error, c _Commit) sCommit {
	if !has {
		if !specOpaqueHasLine(rest, end) {
			return sCommit{end == io.EOF, end != io.EOF, c}
		}
		return specCommit(true, specOpaqueLine(rest), specOpaqueAfter(rest), end, c)
	}
	s := specOpaqueStep(line, rest, end, c)
	if !s.ok {
		return sCommit{cut: s.cut}
	}
	return specCommit(s.more, s.next, s.rest, end, s.c)
}

// specCommitOf reads a commit object after "commit ".
func specCommitOf(data string, end error) sCommit {
	if !specSizeOK(data) {
		return sCommit{cut: !strings.Contains(data, "\x00")}
	}
	return specCommit(false, "", specTail(data, "\x00"), end, _Commit{})
}

func specParents(ps []_Commit_Link) string {
	if len(ps) == 0 {
		return ""
	}
	return "parent " + uf_hexenc(specLinkSha(ps[0].x)) + "\n" + specParents(ps[1:])
}

func specParentsOK(ps []_Commit_Link) bool {
	return len(ps) == 0 || specLinkOK(ps[0].x) && specParentsOK(ps[1:])
}

// specOpaqueMerge is the text of a merge tag.
func specOpaqueMerge(t _Tag) string {
	s := "mergetag object " + uf_hexenc(specLinkSha(t.object.x)) + "\n type " + t.typ.x + "\n tag " + t.tag.x + "\n"
	if !specNoPerson(t.tagger) {
		s += " tagger " + specOpaquePersonStr(t.tagger) + "\n"
	}
	return s + " \n" + t.message.x
}

func specMerges(ts []_Tag) string {
	if len(ts) == 0 {
		return ""
	}
	return specOpaqueMerge(ts[0]) + specMerges(ts[1:])
}

func specMergesOK(ts []_Tag) bool {
	return len(ts) == 0 || specLinkOK(ts[0].object.x) && specMergesOK(ts[1:])
}

func specLines(ls []_String) string {
	if len(ls) == 0 {
		return ""
	}
	return ls[0].x + "\n" + specLines(ls[1:])
}

func specAuthor(key string, p _PersonInfo__Maybe) string {
	if p.m != schema.Maybe_Value {
		return ""
	}
	return key + specOpaquePersonStr(*p.v) + "\n"
}

func specEncoding(e _String__Maybe) string {
	if e.m != schema.Maybe_Value {
		return ""
	}
	return "encoding " + e.v.x + "\n"
}

func specGpg(s _GpgSig__Maybe) string {
	if s.m != schema.Maybe_Value {
		return ""
	}
	return "gpgsig -----BEGIN PGP SIGNATURE-----\n" + s.v.x + " -----END PGP SIGNATURE-----\n"
}

// specOpaqueCommitBody is the body of a commit object.
func specOpaqueCommitBody(c _Commit) string {
	return "tree " + uf_hexenc(specLinkSha(c.tree.x)) + "\n" + specParents(c.parents.x) +
		specAuthor("author ", c.author) + specAuthor("committer ", c.committer) +
		specEncoding(c.encoding) + specMerges(c.mergetag.x) + specGpg(c.signature) +
		specLines(c.other.x) + "\n" + c.message.x
}

func specCommitLinksOK(c _Commit) bool {
	return specLinkOK(c.tree.x) && specParentsOK(c.parents.x) && specMergesOK(c.mergetag.x)
}

// ---- commits that can be told apart in their serialised form ----

func specParentsWF(ps []_Commit_Link) bool {
	return len(ps) == 0 || specIsGitLink(ps[0].x) && specParentsWF(ps[1:])
}

// specOtherOK: a header line that is not one commits have.
func specOtherOK(l string) bool {
	return l != "" && !strings.Contains(l, "\n") && !strings.HasPrefix(l, "tree ") && !strings.HasPrefix(l, "parent ") &&
		!strings.HasPrefix(l, "author ") && !strings.HasPrefix(l, "committer ") && !strings.HasPrefix(l, "encoding ") &&
		!strings.HasPrefix(l, "mergetag object ") && l != "gpgsig -----BEGIN PGP SIGNATURE-----"
}

func specOthersWF(ls []_String) bool {
	return len(ls) == 0 || specOtherOK(ls[0].x) && specOthersWF(ls[1:])
}

// specMsgWF: lines that start with a space, each ended.
func specMsgWF(m string) bool {
	return m == "" || strings.HasPrefix(m, " ") && strings.Contains(m, "\n") && specMsgWF(specTail(m, "\n"))
}

func specMergeWF(t _Tag) bool {
	return specIsGitLink(t.object.x) && !strings.Contains(t.typ.x, "\n") && !strings.Contains(t.tag.x, "\n") &&
		specPersonWF(t.tagger) && !specPersonNL(t.tagger) && specMsgWF(t.message.x)
}

func specMergesWF(ts []_Tag) bool {
	return len(ts) == 0 || specMergeWF(ts[0]) && specMergesWF(ts[1:])
}

// specSigWF: lines none of which ends the signature, each ended.
func specSigWF(s string) bool {
	return s == "" || strings.Contains(s, "\n") && specHead(s, "\n") != " -----END PGP SIGNATURE-----" && specSigWF(specTail(s, "\n"))
}

// specSigFirst: the first line of a signature.
func specSigFirst(s string) bool {
	l := specHead(s, "\n")
	return strings.Contains(s, "\n") && (l == " " || strings.HasPrefix(l, " Version: ") || strings.HasPrefix(l, " Comment: "))
}

func specMaybePersonWF(p _PersonInfo__Maybe) bool {
	if p.m == schema.Maybe_Absent {
		return p.v == nil
	}
	return p.m == schema.Maybe_Value && p.v != nil && specPersonWF(*p.v) && !specPersonNL(*p.v)
}

func specEncodingWF(e _String__Maybe) bool {
	if e.m == schema.Maybe_Absent {
		return e.v.x == ""
	}
	return e.m == schema.Maybe_Value && !strings.Contains(e.v.x, "\n")
}

func specGpgWF(s _GpgSig__Maybe) bool {
	if s.m == schema.Maybe_Absent {
		return s.v.x == ""
	}
	return s.m == schema.Maybe_Value && specSigFirst(s.v.x) && specSigWF(specTail(s.v.x, "\n"))
}

// specMergesEnd: what follows the merge tags is not taken for a part of the last.
func specMergesEnd(c _Commit) bool {
	return c.signature.m == schema.Maybe_Value || len(c.other.x) == 0 || !strings.HasPrefix(c.other.x[0].x, " ")
}

// specCommitWF: the commit has a serialised form that can be told apart.
func specCommitWF(c _Commit) bool {
	return specIsGitLink(c.tree.x) && specParentsWF(c.parents.x) && specMaybePersonWF(c.author) &&
		specMaybePersonWF(c.committer) && specEncodingWF(c.encoding) && specMergesWF(c.mergetag.x) &&
		specGpgWF(c.signature) && specOthersWF(c.other.x) && (len(c.mergetag.x) == 0 || specMergesEnd(c))
}
