package ipldgit

// The assumed models of dependencies, compared with what they stand for.

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"reflect"
	"strconv"
	"strings"
	"testing"

	cid "github.com/ipfs/go-cid"
	mh "github.com/multiformats/go-multihash"
)

func sameErr(a, b error) bool {
	known := func(e error) bool { return e == nil || e == io.EOF || e == io.ErrUnexpectedEOF || e == errTest }
	if known(a) || known(b) {
		return a == b
	}
	return true
}

func TestVerifModels(t *testing.T) {
	vLoop(t, "model", func(g *gen, i int) string {
		s, d := g.text(), g.pick(" ", "\n", "\x00", "a", ">", "ab", "\r\n")
		vTry("%s %s", q(s), q(d))
		bad := ""
		eq := func(what string, real, model any) {
			if bad == "" && !reflect.DeepEqual(real, model) {
				bad = fmt.Sprintf("the model of %s does not hold for %s, %s: %s instead of %s", what, q(s), q(d), vDump(real), vDump(model))
			}
		}
		fact := func(what string, ok bool) {
			if bad == "" && !ok {
				bad = fmt.Sprintf("the fact %s does not hold for %s, %s", what, q(s), q(d))
			}
		}
		b := []byte(s)
		eq("bytes.Split", bytes.Split(b, []byte(d)), model_bytes_Split(b, []byte(d)))
		eq("strings.Split", strings.Split(s, d), model_strings_Split(s, d))
		eq("TrimSuffix", strings.TrimSuffix(s, d), model_strings_TrimSuffix(s, d))
		eq("TrimPrefix", strings.TrimPrefix(s, d), model_strings_TrimPrefix(s, d))
		eq("bytes.TrimSuffix", string(bytes.TrimSuffix(b, []byte(d))), string(model_bytes_TrimSuffix(b, []byte(d))))
		eq("bytes.TrimPrefix", string(bytes.TrimPrefix(b, []byte(d))), string(model_bytes_TrimPrefix(b, []byte(d))))
		{
			a1, b1, o1 := strings.Cut(s, d)
			a2, b2, o2 := model_strings_Cut(s, d)
			eq("Cut", []any{a1, b1, o1}, []any{a2, b2, o2})
			a1, o1 = strings.CutPrefix(s, d)
			a2, o2 = model_strings_CutPrefix(s, d)
			eq("CutPrefix", []any{a1, o1}, []any{a2, o2})
			a1, o1 = strings.CutSuffix(s, d)
			a2, o2 = model_strings_CutSuffix(s, d)
			eq("CutSuffix", []any{a1, o1}, []any{a2, o2})
		}
		num := g.number()
		n1, e1 := strconv.Atoi(num)
		n2, e2 := model_strconv_Atoi(num)
		eq("Atoi "+num, []any{e1 == nil, e1 == nil && n1 == n2}, []any{e2 == nil, e1 == nil})
		fact("itoa", fact_uf_itoa(g.Intn(1<<40)))
		hx := g.pick(s, hex.EncodeToString(b), strings.ToUpper(hex.EncodeToString(b)), hex.EncodeToString(b)+d)
		h1, he1 := hex.DecodeString(hx)
		h2, he2 := model_hex_DecodeString(hx)
		eq("hex.DecodeString "+hx, []any{he1 == nil, he1 != nil || bytes.Equal(h1, h2)}, []any{he2 == nil, true})
		eq("hex.EncodeToString", hex.EncodeToString(b), model_hex_EncodeToString(b))
		fact("hexenc", fact_uf_hexenc(s))
		fact("hexok", fact_uf_hexok(hx))
		sh := g.sha()
		h, _ := mh.Encode([]byte(sh), mh.SHA1)
		mhm, _ := model_multihash_Encode([]byte(sh), mh.SHA1)
		eq("multihash.Encode", string(h), string(mhm))
		mc := model_cid_NewCidV1(cid.GitRaw, h)
		eq("cid.NewCidV1", cid.NewCidV1(cid.GitRaw, h).KeyString(), mc.KeyString())
		for _, c := range []cid.Cid{g.anyCid(), mc} {
			if !c.Defined() {
				continue
			}
			eq("Cid.Hash", string(c.Hash()), string(model_cid_Cid_Hash(c)))
			eq("Cid.Prefix", c.Prefix(), model_cid_Cid_Prefix(c))
			eq("Cid.Type", c.Type(), model_cid_Cid_Type(c))
			fact("cidHash", fact_uf_cidHash(c.KeyString()))
			hh := string(c.Hash())
			if g.chance(3) {
				hh = g.mutate(hh)
			}
			fact("mhOK", fact_uf_mhOK(hh))
			r, err := mh.Decode([]byte(hh))
			m, merr := model_multihash_Decode([]byte(hh))
			eq("multihash.Decode", err == nil, merr == nil)
			if err == nil && merr == nil {
				eq("multihash.Decode", []any{r.Code, r.Length, string(r.Digest)}, []any{m.Code, m.Length, string(m.Digest)})
			}
		}
		// readers
		end := []error{io.EOF, errTest}[g.Intn(2)]
		rd := bufio.NewReader(g.reader(s, end))
		m := &m_bufio_Reader{s, end}
		for k := 0; k < 12 && bad == ""; k++ {
			switch g.Intn(5) {
			case 0:
				r, err := rd.ReadString(d[0])
				mr, merr := model_bufio_Reader_ReadString(m, d[0])
				eq("bufio.Reader.ReadString", []any{r, sameErr(err, merr)}, []any{mr, true})
			case 1:
				r, err := rd.ReadBytes(d[0])
				mr, merr := model_bufio_Reader_ReadBytes(m, d[0])
				eq("bufio.Reader.ReadBytes", []any{string(r), sameErr(err, merr)}, []any{string(mr), true})
			case 2:
				r, err := rd.ReadByte()
				mr, merr := model_bufio_Reader_ReadByte(m)
				eq("bufio.Reader.ReadByte", []any{r, sameErr(err, merr)}, []any{mr, true})
			case 3:
				n := g.Intn(30)
				r, err := rd.Peek(n)
				mr, merr := model_bufio_Reader_Peek(m, n)
				eq("bufio.Reader.Peek", []any{string(r), sameErr(err, merr)}, []any{string(mr), true})
				if err != nil {
					return bad // bufio hands a read error out once
				}
			case 4:
				n := g.Intn(30)
				r, err := rd.Discard(n)
				mr, merr := model_bufio_Reader_Discard(m, n)
				eq("bufio.Reader.Discard", []any{r, sameErr(err, merr)}, []any{mr, true})
			}
		}
		n := g.Intn(40)
		b1, b2 := make([]byte, n), make([]byte, n)
		k1, err1 := io.ReadFull(g.reader(s, end), b1)
		k2, err2 := model_io_ReadFull(&f_io_Reader{s, end}, b2)
		eq("io.ReadFull", []any{k1, string(b1[:k1]), sameErr(err1, err2)}, []any{k2, string(b2[:k2]), true})
		a1, err1 := io.ReadAll(g.reader(s, end))
		a2, err2 := model_io_ReadAll(&f_io_Reader{s, end})
		eq("io.ReadAll", []any{string(a1), sameErr(err1, err2)}, []any{string(a2), true})
		lim := int64(g.Intn(40) - 2)
		var w1, w2 bytes.Buffer
		c1, err1 := io.Copy(&w1, io.LimitReader(g.reader(s, end), lim))
		c2, err2 := model_io_Copy(&w2, model_io_LimitReader(&f_io_Reader{s, end}, lim))
		eq("io.Copy", []any{c1, w1.String(), sameErr(err1, err2)}, []any{c2, w2.String(), true})
		return bad
	})
}
