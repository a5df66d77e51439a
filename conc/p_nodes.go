package ipldgit

// Nodes as the data model sees them.

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	ipld "github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/ipld/go-ipld-prime/schema"
)

// vVal is what a node should hold: a struct or map, a list, or a scalar.
type vVal struct {
	kind   ipld.Kind
	s      string
	l      ipld.Link
	fields []vField // of a struct or map, in order
	list   []vVal
	isMap  bool // a map: any key
	typ    ipld.NodePrototype
	rep    ipld.NodePrototype
}

type vField struct {
	name     string
	v        vVal
	absent   bool
	optional bool
}

func vStr(s string) vVal {
	return vVal{kind: ipld.Kind_String, s: s, typ: Type.String, rep: Type.String__Repr}
}

func vLnk(l ipld.Link, typ, rep ipld.NodePrototype) vVal {
	return vVal{kind: ipld.Kind_Link, l: l, typ: typ, rep: rep}
}

func vMap(typ, rep ipld.NodePrototype, fs ...vField) vVal {
	return vVal{kind: ipld.Kind_Map, fields: fs, typ: typ, rep: rep}
}

func vPersonVal(p _PersonInfo) vVal {
	return vMap(Type.PersonInfo, Type.PersonInfo__Repr, vField{name: "date", v: vStr(p.date.x)}, vField{name: "timezone", v: vStr(p.timezone.x)},
		vField{name: "email", v: vStr(p.email.x)}, vField{name: "name", v: vStr(p.name.x)})
}

func vTagVal(t _Tag) vVal {
	return vMap(Type.Tag, Type.Tag__Repr, vField{name: "object", v: vLnk(t.object.x, Type.Link, Type.Link__Repr)}, vField{name: "type", v: vStr(t.typ.x)},
		vField{name: "tag", v: vStr(t.tag.x)}, vField{name: "tagger", v: vPersonVal(t.tagger)}, vField{name: "message", v: vStr(t.message.x)})
}

func vEntryVal(e _TreeEntry) vVal {
	return vMap(Type.TreeEntry, Type.TreeEntry__Repr, vField{name: "mode", v: vStr(e.mode.x)}, vField{name: "hash", v: vLnk(e.hash.x, Type.Link, Type.Link__Repr)})
}

func vTreeVal(t _Tree) vVal {
	v := vMap(Type.Tree, Type.Tree__Repr)
	v.isMap = true
	for _, e := range t.t {
		v.fields = append(v.fields, vField{name: e.k.x, v: vEntryVal(e.v)})
	}
	return v
}

func vCommitVal(c _Commit) vVal {
	person := func(p _PersonInfo__Maybe) (v vVal) {
		if p.m == schema.Maybe_Value {
			v = vPersonVal(*p.v)
		}
		return v
	}
	ps := vVal{kind: ipld.Kind_List, typ: Type.Commit_Link_List, rep: Type.Commit_Link_List__Repr}
	for _, p := range c.parents.x {
		ps.list = append(ps.list, vLnk(p.x, Type.Commit_Link, Type.Commit_Link__Repr))
	}
	ms := vVal{kind: ipld.Kind_List, typ: Type.Tag_List, rep: Type.Tag_List__Repr}
	for _, m := range c.mergetag.x {
		ms.list = append(ms.list, vTagVal(m))
	}
	os := vVal{kind: ipld.Kind_List, typ: Type.String_List, rep: Type.String_List__Repr}
	for _, o := range c.other.x {
		os.list = append(os.list, vStr(o.x))
	}
	gpg := vStr(c.signature.v.x)
	gpg.typ, gpg.rep = Type.GpgSig, Type.GpgSig__Repr
	no := func(m schema.Maybe) bool { return m != schema.Maybe_Value }
	return vMap(Type.Commit, Type.Commit__Repr,
		vField{name: "tree", v: vLnk(c.tree.x, Type.Tree_Link, Type.Tree_Link__Repr)},
		vField{name: "parents", v: ps},
		vField{name: "message", v: vStr(c.message.x)},
		vField{name: "author", v: person(c.author), absent: no(c.author.m), optional: true},
		vField{name: "committer", v: person(c.committer), absent: no(c.committer.m), optional: true},
		vField{name: "encoding", v: vStr(c.encoding.v.x), absent: no(c.encoding.m), optional: true},
		vField{name: "signature", v: gpg, absent: no(c.signature.m), optional: true},
		vField{name: "mergetag", v: ms},
		vField{name: "other", v: os})
}

func notExists(err error) bool {
	var a datamodel.ErrNotExists
	var b schema.ErrNoSuchField
	return errors.As(err, &a) || errors.As(err, &b)
}

// vIs checks that n holds v. rep: n is a representation, without the absent.
func (g *gen) vIs(n ipld.Node, v vVal, rep bool, deep int) string {
	if n == nil {
		return "no node"
	}
	if n.Kind() != v.kind {
		return "kind " + n.Kind().String() + " instead of " + v.kind.String()
	}
	if n.IsNull() || n.IsAbsent() {
		return "null or absent"
	}
	var want ipld.NodePrototype = v.typ
	if rep {
		want = v.rep
	}
	if n.Prototype() != want {
		return fmt.Sprintf("prototype %T instead of %T", n.Prototype(), want)
	}
	// other kinds are refused
	s, err := n.AsString()
	if (err == nil) != (v.kind == ipld.Kind_String) || s != v.s {
		return "string " + q(s)
	}
	l, err := n.AsLink()
	if (err == nil) != (v.kind == ipld.Kind_Link) || l != v.l {
		return "link"
	}
	if _, err := n.AsBytes(); err == nil {
		return "bytes"
	}
	if _, err := n.AsInt(); err == nil {
		return "an int"
	}
	if _, err := n.AsBool(); err == nil {
		return "a bool"
	}
	if _, err := n.AsFloat(); err == nil {
		return "a float"
	}
	if tn, ok := n.(schema.TypedNode); ok && !rep {
		r := tn.Representation()
		if deep > 0 {
			if bad := g.vIs(r, v, true, deep-1); bad != "" {
				return "representation: " + bad
			}
		}
	}
	if v.kind != ipld.Kind_List {
		if n.ListIterator() != nil {
			return "a list iterator"
		}
		if _, err := n.LookupByIndex(0); err == nil {
			return "an element"
		}
	}
	if v.kind != ipld.Kind_Map {
		if n.MapIterator() != nil {
			return "a map iterator"
		}
		if _, err := n.LookupByString(g.pick("a", "name", "tree")); err == nil {
			return "a field"
		}
	}
	switch v.kind {
	case ipld.Kind_String, ipld.Kind_Link:
		if n.Length() != -1 {
			return "a length"
		}
	case ipld.Kind_List:
		if n.Length() != int64(len(v.list)) {
			return fmt.Sprintf("length %d instead of %d", n.Length(), len(v.list))
		}
		it := n.ListIterator()
		for i, e := range v.list {
			if it.Done() {
				return "the iteration ends early"
			}
			j, x, err := it.Next()
			if err != nil || j != int64(i) {
				return fmt.Sprintf("iteration gives index %d instead of %d, %v", j, i, err)
			}
			if bad := g.vIs(x, e, rep, deep-1); bad != "" {
				return fmt.Sprintf("element %d: %s", i, bad)
			}
			x, err = n.LookupByIndex(int64(i))
			if err != nil {
				return "no element " + vErr(err)
			}
			if bad := g.vIs(x, e, rep, deep-1); bad != "" {
				return fmt.Sprintf("element %d by index: %s", i, bad)
			}
			x, err = n.LookupByNode(basicnode.NewInt(int64(i)))
			if err != nil {
				return "no element by node " + vErr(err)
			}
			if bad := g.vIs(x, e, rep, deep-1); bad != "" {
				return fmt.Sprintf("element %d by node: %s", i, bad)
			}
			x, err = n.LookupBySegment(datamodel.PathSegmentOfInt(int64(i)))
			if err != nil {
				return "no element by segment " + vErr(err)
			}
			if bad := g.vIs(x, e, rep, deep-1); bad != "" {
				return fmt.Sprintf("element %d by segment: %s", i, bad)
			}
		}
		if !it.Done() {
			return "the iteration goes on"
		}
		if _, _, err := it.Next(); err == nil {
			return "an element after the end of the iteration"
		}
		for _, i := range []int64{int64(len(v.list)), int64(len(v.list)) + 1 + int64(g.Intn(9)), -1, -int64(g.Intn(99)) - 1, 1 << 40} {
			if x, err := n.LookupByIndex(i); err == nil || x != nil || !notExists(err) {
				return fmt.Sprintf("index %d gives %v", i, err)
			}
			if x, err := n.LookupBySegment(datamodel.ParsePathSegment(fmt.Sprint(i))); err == nil || x != nil {
				return fmt.Sprintf("segment %d gives %v", i, err)
			}
		}
	case ipld.Kind_Map:
		size := 0
		it := n.MapIterator()
		names := map[string]bool{}
		for _, f := range v.fields {
			names[f.name] = true
			if f.absent && rep {
				x, err := n.LookupByString(f.name)
				if err == nil && !(x == datamodel.Absent) {
					return "absent field " + f.name + " found"
				}
				if err != nil && !notExists(err) {
					return "absent field " + f.name + ": " + vErr(err)
				}
				continue
			}
			size++
			if it.Done() {
				return "the iteration ends before " + f.name
			}
			k, x, err := it.Next()
			if err != nil {
				return "iteration: " + vErr(err)
			}
			ks, err := k.AsString()
			if err != nil || ks != f.name {
				return "iteration gives " + q(ks) + " instead of " + q(f.name)
			}
			look := func() (ipld.Node, error) { return n.LookupByString(f.name) }
			switch g.Intn(4) {
			case 0:
				look = func() (ipld.Node, error) { return n.LookupBySegment(datamodel.PathSegmentOfString(f.name)) }
			case 1:
				if v.isMap {
					break // the generated code takes keys of its own type only
				}
				look = func() (ipld.Node, error) { return n.LookupByNode(basicnode.NewString(f.name)) }
			case 2:
				look = func() (ipld.Node, error) { return n.LookupByNode(k) }
			}
			y, err := look()
			if err != nil {
				return "field " + f.name + ": " + vErr(err)
			}
			if f.absent {
				if x != datamodel.Absent || y != datamodel.Absent {
					return "absent field " + f.name + " is not"
				}
				continue
			}
			if bad := g.vIs(x, f.v, rep, deep-1); bad != "" {
				return "field " + f.name + " iterated: " + bad
			}
			if bad := g.vIs(y, f.v, rep, deep-1); bad != "" {
				return "field " + f.name + " looked up: " + bad
			}
		}
		if !it.Done() {
			return "the iteration goes on"
		}
		if _, _, err := it.Next(); err == nil {
			return "a field after the end of the iteration"
		}
		if n.Length() != int64(size) {
			return fmt.Sprintf("length %d instead of %d", n.Length(), size)
		}
		for _, k := range []string{g.word(), "", "typ", "nam", "names", strings.ToUpper("name"), g.pick("Tree", "tree ", "date", "mode", "tree", "object", "author", "email", "message", "name", "hash"), g.text()} {
			if names[k] {
				continue
			}
			x, err := n.LookupByString(k)
			if err == nil || x != nil || !notExists(err) {
				return "unknown field " + q(k) + " gives " + vErr(err)
			}
			x, err = n.LookupBySegment(datamodel.PathSegmentOfString(k))
			if err == nil || x != nil || !notExists(err) {
				return "unknown field " + q(k) + " gives " + vErr(err)
			}
		}
	}
	return ""
}

// vFill assembles v by na in some way.
func (g *gen) vFill(na ipld.NodeAssembler, v vVal) error {
	switch v.kind {
	case ipld.Kind_String:
		if g.chance(3) {
			return na.AssignNode(basicnode.NewString(v.s))
		}
		return na.AssignString(v.s)
	case ipld.Kind_Link:
		if g.chance(3) {
			return na.AssignNode(basicnode.NewLink(v.l))
		}
		return na.AssignLink(v.l)
	case ipld.Kind_List:
		if g.chance(4) {
			n, err := g.vPlain(v)
			if err != nil {
				return err
			}
			return na.AssignNode(n)
		}
		size := []int64{-1, 0, int64(len(v.list)), 3}[g.Intn(4)]
		la, err := na.BeginList(size)
		if err != nil {
			return err
		}
		for _, e := range v.list {
			if err := g.vFill(la.AssembleValue(), e); err != nil {
				return err
			}
		}
		return la.Finish()
	}
	if g.chance(4) {
		n, err := g.vPlain(v)
		if err != nil {
			return err
		}
		return na.AssignNode(n)
	}
	ma, err := na.BeginMap([]int64{-1, 0, int64(len(v.fields)), 2}[g.Intn(4)])
	if err != nil {
		return err
	}
	fs := append([]vField{}, v.fields...)
	if !v.isMap && g.chance(2) {
		g.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	}
	for _, f := range fs {
		if f.absent {
			continue
		}
		var va ipld.NodeAssembler
		switch g.Intn(3) {
		case 0:
			if va, err = ma.AssembleEntry(f.name); err != nil {
				return err
			}
		case 1:
			if err := ma.AssembleKey().AssignString(f.name); err != nil {
				return err
			}
			va = ma.AssembleValue()
		default:
			if err := ma.AssembleKey().AssignNode(basicnode.NewString(f.name)); err != nil {
				return err
			}
			va = ma.AssembleValue()
		}
		if err := g.vFill(va, f.v); err != nil {
			return fmt.Errorf("%s: %w", f.name, err)
		}
	}
	return ma.Finish()
}

// vPlain is v as a node of no particular type.
func (g *gen) vPlain(v vVal) (ipld.Node, error) {
	nb := basicnode.Prototype.Any.NewBuilder()
	if err := g.vFill(nb, v); err != nil {
		return nil, err
	}
	return nb.Build(), nil
}

// vRefuses tries to assemble v with something wrong.
func (g *gen) vRefuses(v vVal, rep bool) string {
	p := v.typ
	if rep {
		p = v.rep
	}
	nb := p.NewBuilder()
	if v.kind != ipld.Kind_Map || v.isMap {
		return ""
	}
	var had []vField
	for _, f := range v.fields {
		if !f.absent {
			had = append(had, f)
		}
	}
	ma, err := nb.BeginMap(-1)
	if err != nil {
		return vErr(err)
	}
	for i, f := range had {
		va, err := ma.AssembleEntry(f.name)
		if err != nil {
			return "field " + f.name + " cannot be assembled: " + vErr(err)
		}
		if err := g.vFill(va, f.v); err != nil {
			return "field " + f.name + " cannot be assembled: " + vErr(err)
		}
		if g.chance(2) {
			again := had[g.Intn(i+1)].name
			if g.chance(2) {
				if _, err := ma.AssembleEntry(again); err == nil {
					return "field " + again + " is assembled twice"
				}
			} else if err := ma.AssembleKey().AssignString(again); err == nil {
				return "field " + again + " is assembled twice"
			}
			return ""
		}
		if g.chance(9) {
			k := g.pick("x", "", "typ", "Name", g.word())
			for _, f := range v.fields {
				if f.name == k {
					return ""
				}
			}
			if _, err := ma.AssembleEntry(k); err == nil {
				return "unknown field " + k + " is assembled"
			}
			return ""
		}
		if g.chance(9) && i+1 < len(had) {
			missing := false
			for _, f := range had[i+1:] {
				missing = missing || !f.optional
			}
			if err := ma.Finish(); (err == nil) == missing {
				return fmt.Sprintf("finished with %d of %d fields: %s", i+1, len(had), vErr(err))
			}
			return ""
		}
	}
	return ""
}

func TestVerifP16(t *testing.T) {
	vLoop(t, "P16", func(g *gen, i int) string {
		g.max = 100
		var n ipld.Node
		var v vVal
		switch g.Intn(8) {
		case 0, 1:
			c := g.commitNode(false)
			n, v = c, vCommitVal(*c)
		case 2, 3:
			t := g.tagNode()
			n, v = &t, vTagVal(t)
		case 4:
			p := g.person()
			n, v = &p, vPersonVal(p)
		case 5:
			e := _TreeEntry{_String{g.treeMode()}, _Link{g.link()}}
			n, v = &e, vEntryVal(e)
		case 6:
			t := g.treeNode()
			n, v = t, vTreeVal(*t)
		case 7:
			c := g.commitNode(false)
			switch v = vCommitVal(*c); g.Intn(3) {
			case 0:
				n, v = &c.parents, v.fields[1].v
			case 1:
				n, v = &c.mergetag, v.fields[7].v
			case 2:
				n, v = &c.other, v.fields[8].v
			}
		}
		vTry("node %s", vDump(n))
		if bad := g.vIs(n, v, false, 4); bad != "" {
			return vDump(n) + ": " + bad
		}
		rep := g.chance(2)
		p := v.typ
		if rep {
			p = v.rep
		}
		nb := p.NewBuilder()
		for k := 0; k < 2; k++ {
			var err error
			switch g.Intn(5) {
			case 0:
				err = nb.AssignNode(n)
			case 1:
				err = nb.AssignNode(n.(schema.TypedNode).Representation())
			default:
				err = g.vFill(nb, v)
			}
			if err != nil {
				return vDump(n) + " is not assembled: " + vErr(err)
			}
			b := nb.Build()
			if rep {
				if x, ok := b.(schema.TypedNode); ok {
					b = x
				}
			}
			if bad := g.vIs(b, v, false, 2); bad != "" {
				if bad2 := g.vIs(b, v, true, 2); bad2 != "" {
					return vDump(n) + " assembled is " + vDump(b) + ": " + bad
				}
			}
			nb.Reset()
		}
		if bad := g.vRefuses(v, rep); bad != "" {
			return vDump(n) + ": " + bad
		}
		return ""
	})
}
