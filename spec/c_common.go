package ipldgit

// Contracts of the helpers.

import (
	"bufio"
	"io"
	"strings"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipld/go-ipld-prime"
)

func contract_readNullTerminatedNumber(rd *bufio.Reader) {
	m := vModel[m_bufio_Reader](rd)
	vRequires(func() bool { return m.end != nil })
	rest0 := m.rest
	vModifies(&m.rest)
	n, err := readNullTerminatedNumber(rd)
	vEnsures("accepts decimal numbers ended by NUL", func() bool { return (err == nil) == specSizeOK(rest0) })
	vEnsures("the reader's error", func() bool { return strings.Contains(rest0, "\x00") || err == m.end })
	vEnsures("number and what follows", func() bool {
		return err != nil || n == specSize(rest0) && m.rest == specTail(rest0, "\x00")
	})
}

func contract_readLine(rd *bufio.Reader) {
	m := vModel[m_bufio_Reader](rd)
	vRequires(func() bool { return m.end != nil })
	rest0 := m.rest
	vModifies(&m.rest)
	line, err := readLine(rd)
	vEnsures("a line iff there is one", func() bool { return (err == nil) == specOpaqueHasLine(rest0, m.end) })
	vEnsures("the line, verbatim and whole", func() bool { return err != nil || string(line) == specOpaqueLine(rest0) })
	vEnsures("what follows it", func() bool { return err != nil && m.rest == "" || err == nil && m.rest == specOpaqueAfter(rest0) })
	vEnsures("the line is not nil", func() bool { return err != nil || !vIsNil(line) })
	vEnsures("the reader's error", func() bool { return err == nil || err == m.end })
}

func fact_specOpaqueAfter__len(rest string) bool {
	return rest == "" || len(specOpaqueAfter(rest)) < len(rest)
}

func fact_specOpaqueHasLine__ne(rest string, end error) bool {
	return !specOpaqueHasLine(rest, end) || rest != ""
}

func loopvar_reader(rd *bufio.Reader) int { return len(vModel[m_bufio_Reader](rd).rest) }

// a line to go on with counts as well
func loopvar_readerline(rd *bufio.Reader, line []byte) int {
	n := 2 * len(vModel[m_bufio_Reader](rd).rest)
	if !vIsNil(line) {
		n++
	}
	return n
}

func contract_noEOF(err error) {
	r := noEOF(err)
	vEnsures("EOF is replaced", func() bool { return r != io.EOF && (err == nil) == (r == nil) && (err == io.EOF || r == err) })
}

func contract_shaToCid(s []byte) {
	c, err := shaToCid(s)
	vEnsures("accepts 20 bytes", func() bool { return (err == nil) == (len(s) == 20) })
	vEnsures("the git-raw sha1 CID of the hash", func() bool { return err != nil || vCast[string](c) == specCid(string(s)) })
}

func contract_cidToSha(c cid.Cid) {
	b, err := cidToSha(c)
	vEnsures("accepts sha1 multihashes only", func() bool { return (err == nil) == specIsSha(vCast[string](c)) })
	vEnsures("the hash in the CID", func() bool { return err != nil || string(b) == specShaOf(vCast[string](c)) })
}

func contract_sha(l ipld.Link) {
	b, err := sha(l)
	vEnsures("accepts CIDs of git objects only", func() bool { return (err == nil) == specLinkOK(l) })
	vEnsures("the hash in the link", func() bool { return err != nil || string(b) == specLinkSha(l) })
}
