package ipldgit

import (
	"bytes"
	"strings"

	ipld "github.com/ipld/go-ipld-prime"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
)

func init() {
	vP08 = append(vP08, func(g *gen) string {
		b := []byte(g.sha())
		if g.chance(3) {
			b = make([]byte, g.Intn(70))
			g.Read(b)
		}
		vTry("sha %x", b)
		c, err := shaToCid(b)
		if (err == nil) != (len(b) == 20) {
			return "shaToCid of " + q(string(b))
		}
		if err == nil {
			if p := c.Prefix(); p.Version != 1 || p.Codec != 0x78 || p.MhType != 0x11 || p.MhLength != 20 || !strings.HasSuffix(string(c.Hash()), string(b)) {
				return "CID of " + q(string(b)) + " is " + c.String()
			}
			r, err := cidToSha(c)
			if err != nil || !bytes.Equal(r, b) {
				return "cidToSha of " + c.String()
			}
			s0 := c.KeyString()
			for i := range r {
				r[i] = 0
			}
			for i := range b {
				b[i] = 0
			}
			if c.KeyString() != s0 {
				return "CID shares memory"
			}
		}
		k := g.anyCid()
		vTry("cid %v", k)
		r, err := cidToSha(k)
		ks := k.KeyString()
		if (err == nil) != specIsSha(ks) || err == nil && string(r) != specShaOf(ks) {
			return "cidToSha of " + k.String()
		}
		l := ipld.Link(cidlink.Link{Cid: k})
		if g.chance(10) {
			l = nil
		}
		if g.chance(10) {
			l = oddLink{}
		}
		r, err = sha(l)
		if (err == nil) != specLinkOK(l) || err == nil && string(r) != specLinkSha(l) {
			return "sha of a link to " + k.String()
		}
		return ""
	})
}
