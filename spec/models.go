package ipldgit

// Models of the dependencies: what the verifier assumes about them. The ones
// with executable bodies are compared with the real functions on every run.

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"errors"
	"io"
	"strconv"
	"strings"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/datamodel"
	mh "github.com/multiformats/go-multihash"
)

// ---- readers ----

// m_bufio_Reader models *bufio.Reader: what is left to read, and the error
// that follows it.
type m_bufio_Reader struct {
	rest string
	end  error
}

type m_bytes_Reader struct {
	rest string
}

type m_strings_Reader struct {
	rest string
}

// f_io_Reader is an arbitrary io.Reader: some data, then an error (io.EOF or
// another).
type f_io_Reader struct {
	data string
	end  error
}

func (r *f_io_Reader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, r.end
	}
	n := copy(p, r.data)
	r.data = r.data[n:]
	return n, nil
}

// mInflater is what zlib.NewReader returns.
type mInflater struct {
	data string
	end  error
}

func (r *mInflater) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, r.end
	}
	n := copy(p, r.data)
	r.data = r.data[n:]
	return n, nil
}

func (r *mInflater) Close() error { return uf_closeErr(r.data) }

func uf_closeErr(s string) error { return nil }

func fact_uf_closeErr(s string) bool { return true }

func model_bufio_NewReader(r io.Reader) *m_bufio_Reader {
	switch s := r.(type) {
	case *f_io_Reader:
		return &m_bufio_Reader{s.data, s.end}
	case *mInflater:
		return &m_bufio_Reader{s.data, s.end}
	case *bytes.Reader:
		return &m_bufio_Reader{vModel[m_bytes_Reader](s).rest, io.EOF}
	case *strings.Reader:
		return &m_bufio_Reader{vModel[m_strings_Reader](s).rest, io.EOF}
	case *bytes.Buffer:
		return &m_bufio_Reader{string(vModel[m_bytes_Buffer](s).b), io.EOF}
	case *bufio.Reader:
		return vModel[m_bufio_Reader](s)
	}
	vUnreachable("reader of unknown type")
	return nil
}

func model_bufio_NewReaderSize(r io.Reader, n int) *m_bufio_Reader { return model_bufio_NewReader(r) }

func model_bytes_NewReader(b []byte) *m_bytes_Reader { return &m_bytes_Reader{string(b)} }

func model_strings_NewReader(s string) *m_strings_Reader { return &m_strings_Reader{s} }

func model_bytes_NewBuffer(b []byte) *m_bytes_Buffer { return &m_bytes_Buffer{b} }

func model_bytes_NewBufferString(s string) *m_bytes_Buffer { return &m_bytes_Buffer{[]byte(s)} }

func model_bufio_Reader_ReadString(r *m_bufio_Reader, delim byte) (string, error) {
	i := strings.IndexByte(r.rest, delim)
	if i < 0 {
		s := r.rest
		r.rest = ""
		return s, r.end
	}
	s := r.rest[:i+1]
	r.rest = r.rest[i+1:]
	return s, nil
}

func model_bufio_Reader_ReadBytes(r *m_bufio_Reader, delim byte) ([]byte, error) {
	s, err := model_bufio_Reader_ReadString(r, delim)
	return []byte(s), err
}

func model_bufio_Reader_ReadByte(r *m_bufio_Reader) (byte, error) {
	if len(r.rest) == 0 {
		return 0, r.end
	}
	b := r.rest[0]
	r.rest = r.rest[1:]
	return b, nil
}

func model_bufio_Reader_Peek(r *m_bufio_Reader, n int) ([]byte, error) {
	if len(r.rest) < n {
		return []byte(r.rest), r.end
	}
	return []byte(r.rest[:n]), nil
}

func model_bufio_Reader_Discard(r *m_bufio_Reader, n int) (int, error) {
	if len(r.rest) < n {
		k := len(r.rest)
		r.rest = ""
		return k, r.end
	}
	r.rest = r.rest[n:]
	return n, nil
}

// mTake reads up to n bytes (all if n < 0) of a reader the package may hold.
// It returns the error that ended the data if it was exhausted.
func mTake(r io.Reader, n int) (string, error) {
	switch s := r.(type) {
	case *bufio.Reader:
		m := vModel[m_bufio_Reader](s)
		if n >= 0 && n <= len(m.rest) {
			d := m.rest[:n]
			m.rest = m.rest[n:]
			return d, nil
		}
		d := m.rest
		m.rest = ""
		return d, m.end
	case *bytes.Reader:
		m := vModel[m_bytes_Reader](s)
		if n >= 0 && n <= len(m.rest) {
			d := m.rest[:n]
			m.rest = m.rest[n:]
			return d, nil
		}
		d := m.rest
		m.rest = ""
		return d, io.EOF
	case *io.LimitedReader:
		k := int(s.N)
		if k < 0 {
			k = 0
		}
		limited := n < 0 || n > k
		if limited {
			n = k
		}
		d, err := mTake(s.R, n)
		s.N -= int64(len(d))
		if err == nil && limited {
			return d, io.EOF
		}
		return d, err
	case *f_io_Reader:
		if n >= 0 && n <= len(s.data) {
			d := s.data[:n]
			s.data = s.data[n:]
			return d, nil
		}
		d := s.data
		s.data = ""
		return d, s.end
	case *mInflater:
		if n >= 0 && n <= len(s.data) {
			d := s.data[:n]
			s.data = s.data[n:]
			return d, nil
		}
		d := s.data
		s.data = ""
		return d, s.end
	}
	vUnreachable("read from a reader of unknown type")
	return "", nil
}

func model_io_ReadFull(r io.Reader, buf []byte) (int, error) {
	d, err := mTake(r, len(buf))
	vWriteInto(buf, d)
	if len(d) == len(buf) {
		return len(d), nil
	}
	if err == io.EOF && len(d) > 0 {
		err = io.ErrUnexpectedEOF
	}
	return len(d), err
}

func model_io_ReadAll(r io.Reader) ([]byte, error) {
	d, err := mTake(r, -1)
	if err == io.EOF {
		err = nil
	}
	return []byte(d), err
}

func model_io_LimitReader(r io.Reader, n int64) io.Reader { return &io.LimitedReader{R: r, N: n} }

func model_io_Copy(dst io.Writer, src io.Reader) (int64, error) {
	d, err := mTake(src, -1)
	if err == io.EOF {
		err = nil
	}
	if len(d) == 0 {
		return 0, err
	}
	n, werr := dst.Write([]byte(d))
	if werr != nil {
		return int64(n), werr
	}
	return int64(len(d)), err
}

func model_io_CopyN(dst io.Writer, src io.Reader, n int64) (int64, error) {
	w, err := model_io_Copy(dst, &io.LimitedReader{R: src, N: n})
	if w == n {
		return n, nil
	}
	if w < n && err == nil {
		err = io.EOF
	}
	return w, err
}

func model_io_WriteString(w io.Writer, s string) (int, error) { return w.Write([]byte(s)) }

// ---- writers ----

// m_bytes_Buffer models bytes.Buffer: its unread bytes.
type m_bytes_Buffer struct {
	b []byte
}

func model_bytes_Buffer_WriteString(b *m_bytes_Buffer, s string) (int, error) {
	b.b = append(b.b, s...)
	return len(s), nil
}

func model_bytes_Buffer_Write(b *m_bytes_Buffer, p []byte) (int, error) {
	b.b = append(b.b, p...)
	return len(p), nil
}

func model_bytes_Buffer_WriteByte(b *m_bytes_Buffer, c byte) error {
	b.b = append(b.b, c)
	return nil
}

func model_bytes_Buffer_Bytes(b *m_bytes_Buffer) []byte { return b.b }

func model_bytes_Buffer_String(b *m_bytes_Buffer) string { return string(b.b) }

func model_bytes_Buffer_Len(b *m_bytes_Buffer) int { return len(b.b) }

func model_bytes_Buffer_Grow(b *m_bytes_Buffer, n int) {
	if n < 0 {
		vUnreachable("bytes.Buffer.Grow: negative count")
	}
}

func model_bytes_Buffer_Reset(b *m_bytes_Buffer) { b.b = b.b[:0] }

func model_bytes_Buffer_WriteTo(b *m_bytes_Buffer, w io.Writer) (int64, error) {
	n := len(b.b)
	if n == 0 {
		return 0, nil
	}
	m, err := w.Write(b.b)
	b.b = b.b[m:]
	return int64(m), err
}

type m_strings_Builder struct {
	s string
}

func model_strings_Builder_WriteString(b *m_strings_Builder, s string) (int, error) {
	b.s = b.s + s
	return len(s), nil
}

func model_strings_Builder_Write(b *m_strings_Builder, p []byte) (int, error) {
	b.s = b.s + string(p)
	return len(p), nil
}

func model_strings_Builder_WriteByte(b *m_strings_Builder, c byte) error {
	b.s = b.s + string([]byte{c})
	return nil
}

func model_strings_Builder_String(b *m_strings_Builder) string { return b.s }

func model_strings_Builder_Len(b *m_strings_Builder) int { return len(b.s) }

func model_strings_Builder_Grow(b *m_strings_Builder, n int) {
	if n < 0 {
		vUnreachable("strings.Builder.Grow: negative count")
	}
}

func model_strings_Builder_Reset(b *m_strings_Builder) { b.s = "" }

// f_io_Writer is an arbitrary io.Writer: it accepts left more bytes, then fails
// with err. left < 0: it never fails.
type f_io_Writer struct {
	out  string
	left int
	err  error
}

func (w *f_io_Writer) Write(p []byte) (int, error) {
	if w.left < 0 || len(p) <= w.left {
		w.out = w.out + string(p)
		if w.left >= 0 {
			w.left = w.left - len(p)
		}
		return len(p), nil
	}
	n := w.left
	w.out = w.out + string(p[:n])
	w.left = 0
	return n, w.err
}

// ---- numbers, text ----

func uf_atoiOK(s string) bool {
	_, err := strconv.Atoi(s)
	return err == nil
}

func uf_atoi(s string) int {
	n, _ := strconv.Atoi(s)
	return n
}

// uf_itoa is the decimal form of a number that is not negative.
func uf_itoa(n int) string { return strconv.Itoa(n) }

func fact_uf_itoa(n int) bool {
	s := uf_itoa(n)
	return n < 0 || uf_atoiOK(s) && uf_atoi(s) == n && s != "" &&
		!strings.Contains(s, "\x00") && !strings.Contains(s, " ") && !strings.Contains(s, "\n")
}

func model_strconv_Atoi(s string) (int, error) {
	if uf_atoiOK(s) {
		return uf_atoi(s), nil
	}
	return vAny[int]("atoi"), errors.New("strconv.Atoi")
}

// specSplit is strings.Split(s, sep).
func specSplit(s, sep string) []string {
	i := strings.Index(s, sep)
	if i < 0 {
		return []string{s}
	}
	return append([]string{s[:i]}, specSplit(s[i+len(sep):], sep)...)
}

// There is at least one part.
func fact_specSplit__ne(s, sep string) bool { return len(specSplit(s, sep)) >= 1 }

func model_bytes_Split(s, sep []byte) [][]byte {
	return vCast[[][]byte](specSplit(string(s), string(sep)))
}

func model_strings_Split(s, sep string) []string { return specSplit(s, sep) }

func model_bytes_TrimSuffix(s, suffix []byte) []byte {
	if bytes.HasSuffix(s, suffix) {
		return s[:len(s)-len(suffix)]
	}
	return s
}

func model_bytes_TrimPrefix(s, p []byte) []byte {
	if bytes.HasPrefix(s, p) {
		return s[len(p):]
	}
	return s
}

func model_strings_TrimSuffix(s, suffix string) string {
	if strings.HasSuffix(s, suffix) {
		return s[:len(s)-len(suffix)]
	}
	return s
}

func model_strings_TrimPrefix(s, p string) string {
	if strings.HasPrefix(s, p) {
		return s[len(p):]
	}
	return s
}

func model_bytes_CutPrefix(s, p []byte) ([]byte, bool) {
	if bytes.HasPrefix(s, p) {
		return s[len(p):], true
	}
	return s, false
}

func model_strings_CutPrefix(s, p string) (string, bool) {
	if strings.HasPrefix(s, p) {
		return s[len(p):], true
	}
	return s, false
}

func model_strings_CutSuffix(s, p string) (string, bool) {
	if strings.HasSuffix(s, p) {
		return s[:len(s)-len(p)], true
	}
	return s, false
}

func model_bytes_Cut(s, sep []byte) ([]byte, []byte, bool) {
	i := bytes.Index(s, sep)
	if i >= 0 {
		return s[:i], s[i+len(sep):], true
	}
	return s, nil, false
}

func model_strings_Cut(s, sep string) (string, string, bool) {
	i := strings.Index(s, sep)
	if i >= 0 {
		return s[:i], s[i+len(sep):], true
	}
	return s, "", false
}

// ---- hexadecimal ----

func uf_hexok(s string) bool {
	_, err := hex.DecodeString(s)
	return err == nil
}

func uf_hexdec(s string) string {
	b, err := hex.DecodeString(s)
	if err != nil {
		return ""
	}
	return string(b)
}

func uf_hexenc(b string) string { return hex.EncodeToString([]byte(b)) }

func fact_uf_hexenc(b string) bool {
	h := uf_hexenc(b)
	return uf_hexok(h) && uf_hexdec(h) == b && len(h) == 2*len(b) &&
		!strings.Contains(h, "\n") && !strings.Contains(h, " ")
}

func fact_uf_hexok(s string) bool {
	return !uf_hexok(s) || len(s) == 2*len(uf_hexdec(s))
}

func model_hex_DecodeString(s string) ([]byte, error) {
	if uf_hexok(s) {
		return []byte(uf_hexdec(s)), nil
	}
	return []byte(vAny[string]("hexpart")), errors.New("hex")
}

func model_hex_EncodeToString(b []byte) string { return uf_hexenc(string(b)) }

// ---- CIDs ----

const mhSHA1 = 0x11

func uf_mhEncode(b string, code uint64) string {
	r, _ := mh.Encode([]byte(b), code)
	return string(r)
}

func model_multihash_Encode(b []byte, code uint64) ([]byte, error) {
	if code == mhSHA1 && len(b) == 20 {
		return []byte("\x11\x14" + string(b)), nil
	}
	return []byte(uf_mhEncode(string(b), code)), nil
}

func uf_cidV1(codec uint64, h string) string { return cid.NewCidV1(codec, mh.Multihash(h)).KeyString() }

func model_cid_NewCidV1(codec uint64, h mh.Multihash) cid.Cid {
	if codec == 0x78 {
		return vCast[cid.Cid]("\x01\x78" + string(h))
	}
	return vCast[cid.Cid](uf_cidV1(codec, string(h)))
}

func uf_cidHash(c string) string {
	k, err := cid.Cast([]byte(c))
	if err != nil {
		return ""
	}
	return string(k.Hash())
}

func fact_uf_cidHash(c string) bool {
	return !strings.HasPrefix(c, "\x01\x78\x11\x14") || len(c) != 24 || uf_cidHash(c) == c[2:]
}

func model_cid_Cid_Hash(c cid.Cid) mh.Multihash {
	return mh.Multihash([]byte(uf_cidHash(vCast[string](c))))
}

func uf_mhOK(h string) bool {
	_, err := mh.Decode([]byte(h))
	return err == nil
}

func uf_mhCode(h string) uint64 {
	d, err := mh.Decode([]byte(h))
	if err != nil {
		return 0
	}
	return d.Code
}

func uf_mhDigest(h string) string {
	d, err := mh.Decode([]byte(h))
	if err != nil {
		return ""
	}
	return string(d.Digest)
}

// A multihash of type sha1 with a digest of 20 bytes has one binary form.
func fact_uf_mhOK(h string) bool {
	form := strings.HasPrefix(h, "\x11\x14") && len(h) == 22
	return form == (uf_mhOK(h) && uf_mhCode(h) == mhSHA1 && len(uf_mhDigest(h)) == 20) &&
		(!form || uf_mhDigest(h) == h[2:])
}

func model_multihash_Decode(b []byte) (*mh.DecodedMultihash, error) {
	s := string(b)
	if !uf_mhOK(s) {
		return nil, errors.New("multihash")
	}
	d := uf_mhDigest(s)
	return &mh.DecodedMultihash{Code: uf_mhCode(s), Name: "name", Length: len(d), Digest: []byte(d)}, nil
}

func uf_cidVersion(c string) uint64 { k, _ := cid.Cast([]byte(c)); return k.Prefix().Version }
func uf_cidCodec(c string) uint64   { k, _ := cid.Cast([]byte(c)); return k.Prefix().Codec }
func uf_cidMhType(c string) uint64  { k, _ := cid.Cast([]byte(c)); return k.Prefix().MhType }
func uf_cidMhLen(c string) int      { k, _ := cid.Cast([]byte(c)); return k.Prefix().MhLength }

func model_cid_Cid_Prefix(c cid.Cid) cid.Prefix {
	s := vCast[string](c)
	return cid.Prefix{Version: uf_cidVersion(s), Codec: uf_cidCodec(s), MhType: uf_cidMhType(s), MhLength: uf_cidMhLen(s)}
}

func model_cid_Cid_Type(c cid.Cid) uint64 { return uf_cidCodec(vCast[string](c)) }

func model_cid_Cid_String(c cid.Cid) string { return vAny[string]("cidtext") }

func model_cid_Cid_Equals(a, b cid.Cid) bool { return vCast[string](a) == vCast[string](b) }

func model_cid_Cid_Defined(a cid.Cid) bool { return vCast[string](a) != "" }

// ---- compression ----

func uf_zlibOK(s string) bool      { return true }
func uf_inflate(s string) string   { return s }
func uf_inflateEnd(s string) error { return io.EOF }

func fact_uf_inflateEnd(s string) bool { return uf_inflateEnd(s) != nil }

// f_zlib_Reader is an arbitrary reader whose data inflates to plain, then end.
type f_zlib_Reader struct {
	plain string
	end   error
}

func (r *f_zlib_Reader) Read(p []byte) (int, error) { panic("compressed data is read") }

func model_zlib_NewReader(r io.Reader) (io.ReadCloser, error) {
	if z, ok := r.(*f_zlib_Reader); ok {
		return &mInflater{z.plain, z.end}, nil
	}
	d, err := mTake(r, -1)
	if !uf_zlibOK(d) {
		if err == nil || err == io.EOF {
			err = errors.New("zlib: invalid header")
		}
		return nil, err
	}
	return &mInflater{uf_inflate(d), uf_inflateEnd(d)}, nil
}

// ---- blocks ----

// f_blocks_Block is an arbitrary block.
type f_blocks_Block struct {
	c    cid.Cid
	data []byte
}

func (b *f_blocks_Block) RawData() []byte                  { return b.data }
func (b *f_blocks_Block) Cid() cid.Cid                     { return b.c }
func (b *f_blocks_Block) String() string                   { return "" }
func (b *f_blocks_Block) Loggable() map[string]interface{} { return nil }

// ---- assemblers ----

// f_datamodel_NodeAssembler is an arbitrary assembler, which records what is
// assigned to it.
type f_datamodel_NodeAssembler struct {
	calls int
	bytes []byte
	node  datamodel.Node
	isB   bool
	err   error
}

func (a *f_datamodel_NodeAssembler) BeginMap(int64) (datamodel.MapAssembler, error) {
	a.calls++
	return nil, errors.New("map")
}
func (a *f_datamodel_NodeAssembler) BeginList(int64) (datamodel.ListAssembler, error) {
	a.calls++
	return nil, errors.New("list")
}
func (a *f_datamodel_NodeAssembler) AssignNull() error               { a.calls++; return a.err }
func (a *f_datamodel_NodeAssembler) AssignBool(bool) error           { a.calls++; return a.err }
func (a *f_datamodel_NodeAssembler) AssignInt(int64) error           { a.calls++; return a.err }
func (a *f_datamodel_NodeAssembler) AssignFloat(float64) error       { a.calls++; return a.err }
func (a *f_datamodel_NodeAssembler) AssignString(string) error       { a.calls++; return a.err }
func (a *f_datamodel_NodeAssembler) AssignLink(datamodel.Link) error { a.calls++; return a.err }
func (a *f_datamodel_NodeAssembler) AssignBytes(b []byte) error {
	a.calls++
	a.isB = true
	a.bytes = b
	return a.err
}
func (a *f_datamodel_NodeAssembler) AssignNode(n datamodel.Node) error {
	a.calls++
	a.node = n
	return a.err
}
func (a *f_datamodel_NodeAssembler) Prototype() datamodel.NodePrototype { return nil }

// ---- the registry of codecs ----

var (
	mGitDecoder func(datamodel.NodeAssembler, io.Reader) error
	mGitEncoder func(datamodel.Node, io.Writer) error
)

func model_multicodec_RegisterDecoder(code uint64, f func(datamodel.NodeAssembler, io.Reader) error) {
	if code == cid.GitRaw {
		mGitDecoder = f
	}
}

func model_multicodec_RegisterEncoder(code uint64, f func(datamodel.Node, io.Writer) error) {
	if code == cid.GitRaw {
		mGitEncoder = f
	}
}

// Path segments are only used in errors, whose text is not specified.
func model_ipld_PathSegmentOfString(s string) ipld.PathSegment {
	var p ipld.PathSegment
	return p
}

func model_ipld_PathSegmentOfInt(i int64) ipld.PathSegment {
	var p ipld.PathSegment
	return p
}
