package ipldgit

import (
	"bufio"

	"strings"

	ipld "github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/schema"
)

func loopcons_merge(rd *bufio.Reader, out _Tag) sMerge {
	m := vModel[m_bufio_Reader](rd)
	return specMerge(m.rest, m.end, out)
}

func loopcons_mergemsg(rd *bufio.Reader, out _Tag, msg vText) sMerge {
	m := vModel[m_bufio_Reader](rd)
	return specMergeMsg(m.rest, m.end, out, string(msg))
}

func contract_readMergeTag(hash []byte, rd *bufio.Reader) {
	m := vModel[m_bufio_Reader](rd)
	vRequires(func() bool { return m.end != nil })
	rest0, h := m.rest, string(hash)
	vModifies(&m.rest)
	t, line, err := readMergeTag(hash, rd)
	var t0 _Tag
	t0.object.x = specGitLink(h)
	s := specMerge(rest0, m.end, t0)
	vEnsures("accepts well-formed merge tags", func() bool { return (err == nil) == (len(h) == 20 && s.ok) })
	vEnsures("the tag", func() bool { return err != nil || t != nil && vEq(*t, s.t) })
	vEnsures("the line after it", func() bool { return err != nil || vIsNil(line) != s.more && string(line) == s.next })
	vEnsures("what follows", func() bool { return err != nil || m.rest == s.rest })
	vEnsures("a read error is reported", func() bool { return len(h) != 20 || !s.cut || err == m.end })
}

func loopcons_sig(rd *bufio.Reader, sig vText) sSig {
	m := vModel[m_bufio_Reader](rd)
	return specSigLines(m.rest, m.end, string(sig))
}

func contract_decodeGpgSig(rd *bufio.Reader) {
	m := vModel[m_bufio_Reader](rd)
	vRequires(func() bool { return m.end != nil })
	rest0 := m.rest
	vModifies(&m.rest)
	g, err := decodeGpgSig(rd)
	s := specOpaqueSig(rest0, m.end)
	vEnsures("accepts whole signatures", func() bool { return (err == nil) == s.ok })
	vEnsures("the signature, and what follows", func() bool { return err != nil || g.x == s.sig && m.rest == s.rest })
	vEnsures("a read error is reported", func() bool { return !s.cut || err == m.end })
}

func contract_decodeCommitLine(c Commit, line []byte, rd *bufio.Reader) {
	m := vModel[m_bufio_Reader](rd)
	vRequires(func() bool { return m.end != nil && c != nil })
	rest0, c0, l0 := m.rest, *c, string(line)
	vModifies(&m.rest, c)
	next, err := decodeCommitLine(c, line, rd)
	s := specOpaqueStep(l0, rest0, m.end, c0)
	vEnsures("accepts well-formed lines", func() bool { return (err == nil) == s.ok })
	vEnsures("the commit", func() bool { return err != nil || vEq(*c, s.c) })
	vEnsures("the line read ahead", func() bool { return err != nil || vIsNil(next) != s.more && string(next) == s.next })
	vEnsures("what follows", func() bool { return err != nil || m.rest == s.rest })
	vEnsures("a read error is reported", func() bool { return !s.cut || err == m.end })
}

// Reading never gives back what was read.
func fact_specMergeMsg__len(rest string, end error, t _Tag, msg string) bool {
	s := specMergeMsg(rest, end, t, msg)
	return !s.ok || len(s.rest) < len(rest)
}

func fact_specMerge__len(rest string, end error, t _Tag) bool {
	s := specMerge(rest, end, t)
	return !s.ok || len(s.rest) <= len(rest) && (!s.more || len(s.rest) < len(rest))
}

func fact_specSigLines__len(rest string, end error, sig string) bool {
	s := specSigLines(rest, end, sig)
	return !s.ok || len(s.rest) < len(rest)
}

func fact_specOpaqueSig__len(rest string, end error) bool {
	s := specOpaqueSig(rest, end)
	return !s.ok || len(s.rest) < len(rest)
}

func fact_specOpaqueStep__len(line, rest string, end error, c _Commit) bool {
	s := specOpaqueStep(line, rest, end, c)
	return !s.ok || len(s.rest) <= len(rest) && (!s.more || len(s.rest) < len(rest))
}

func loopcons_commit(rd *bufio.Reader, c _Commit) sCommit {
	m := vModel[m_bufio_Reader](rd)
	return specCommit(false, "", m.rest, m.end, c)
}

func loopcons_commitline(rd *bufio.Reader, c _Commit, line []byte) sCommit {
	m := vModel[m_bufio_Reader](rd)
	return specCommit(!vIsNil(line), string(line), m.rest, m.end, c)
}

func checkCommit(s sCommit, end error, n ipld.Node, err error) {
	vAssert("accepts well-formed commits only", func() bool { return (err == nil) == s.ok })
	vAssert("read errors are reported", func() bool { return !s.cut || err == end })
	if err == nil {
		vReach("a commit is accepted")
		c, ok := n.(*_Commit)
		vAssert("the node is a commit", func() bool { return ok })
		vAssert("the commit's fields", func() bool { return vEq(*c, s.c) })
	} else {
		vReach("a commit is rejected")
		vAssert("no node with an error", func() bool { return n == nil })
	}
}

func theorem_commit_parse() {
	r := vAny[*f_io_Reader]("r")
	rest := vAny[string]("rest")
	r.data = "commit " + rest
	vAssume(func() bool { return r.end != nil })
	n, err := ParseObject(r)
	checkCommit(specCommitOf(rest, r.end), r.end, n, err)
}

func loopcons_parents(at int, ps []_Commit_Link, buf vText) string {
	return string(buf) + specParents(ps[at:])
}

func loopcons_parentsOK(at int, ps []_Commit_Link) bool { return specParentsOK(ps[at:]) }

func loopcons_merges(at int, ts []_Tag, buf vText) string { return string(buf) + specMerges(ts[at:]) }

func loopcons_mergesOK(at int, ts []_Tag) bool { return specMergesOK(ts[at:]) }

func loopcons_lines(at int, ls []_String, buf vText) string { return string(buf) + specLines(ls[at:]) }

func loopinv_parents(at int, ps []_Commit_Link) bool { return 0 <= at && at <= len(ps) }
func loopinv_merges(at int, ts []_Tag) bool          { return 0 <= at && at <= len(ts) }
func loopinv_lines(at int, ls []_String) bool        { return 0 <= at && at <= len(ls) }

// specCommitSane: what is said to be present is.
func specCommitSane(c _Commit) bool {
	return (c.author.m != schema.Maybe_Value || c.author.v != nil) && (c.committer.m != schema.Maybe_Value || c.committer.v != nil)
}

func theorem_commit_encode() {
	n := vAny[*_Commit]("n")
	w := vAny[*f_io_Writer]("w")
	vAssume(func() bool { return (w.left < 0 || w.err != nil) && specCommitSane(*n) })
	out0, left := w.out, w.left
	c := vSnap(*n)
	err := Encode(n, w)
	vAssert("the node is not changed", func() bool { return vEq(*n, c) })
	if !specCommitLinksOK(c) {
		vAssert("links that are not git hashes are refused", func() bool { return err != nil && w.out == out0 })
		return
	}
	vReach("a commit is encoded")
	s := specFrame("commit", specOpaqueCommitBody(c))
	if left < 0 || left >= len(s) {
		vAssert("the object is written", func() bool { return err == nil && w.out == out0+s })
	} else {
		vReach("the writer fails")
		vAssert("the writer's error is returned", func() bool { return err == w.err })
		vAssert("a prefix is written", func() bool { return strings.HasPrefix(out0+s, w.out) })
	}
}
