package ipldgit

import (
	ipld "github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/schema"
)

// Building nodes through their assemblers.

// order is one of the orders of n things.
func order(n, i int) []int {
	rest := []int{}
	for k := 0; k < n; k++ {
		rest = append(rest, k)
	}
	out := []int{}
	for len(rest) > 0 {
		j := i % len(rest)
		i /= len(rest)
		out = append(out, rest[j])
		next := []int{}
		for k, x := range rest {
			if k != j {
				next = append(next, x)
			}
		}
		rest = next
	}
	return out
}

// fill gives an assembler the value v.
func fill(na ipld.NodeAssembler, v ipld.Node, byKey bool) {
	switch w := v.(type) {
	case gString:
		noError(na.AssignString(w.x))
	case gLink:
		noError(na.AssignLink(w.x))
	case gMap:
		o := []int{}
		for k := range w.es {
			o = append(o, k)
		}
		fillMap(na, w, o, byKey)
	case *_Commit_Link_List, *_String_List, *_Tag_List:
		noError(na.AssignNode(w))
	default:
		vUnreachable("no such value")
	}
}

// fillMap assembles fields in the given order;
func fillMap(na ipld.NodeAssembler, w gMap, o []int, byKey bool) {
	ma, err := na.BeginMap(int64(len(o)))
	noError(err)
	for _, k := range o {
		e := w.es[k]
		if _, ok := e.v.(gAbsent); ok {
			continue
		}
		var va ipld.NodeAssembler
		if byKey {
			noError(ma.AssembleKey().AssignString(e.k))
			va = ma.AssembleValue()
		} else {
			va, err = ma.AssembleEntry(e.k)
			noError(err)
		}
		fill(va, e.v, byKey)
	}
	noError(ma.Finish())
}

// fillOrders builds the node in every order of its fields, both ways, and from
// other nodes; is tells whether a node is right.
func fillOrders(b ipld.NodePrototype, w gMap, orders int, is func(ipld.Node) bool) {
	for i := 0; i < orders; i++ {
		for _, byKey := range []bool{false, true} {
			nb := b.NewBuilder()
			fillMap(nb, w, order(len(w.es), i), byKey)
			n := nb.Build()
			vAssert("the node built", func() bool { return is(n) })
		}
	}
	nb := b.NewBuilder()
	noError(nb.AssignNode(w))
	n := nb.Build()
	vAssert("the node assigned", func() bool { return is(n) })
	nb.Reset()
	noError(nb.AssignNode(n))
	n = nb.Build()
	vAssert("the node assigned again", func() bool { return is(n) })
}

// fillRefused tries what an assembler has to refuse.
func fillRefused(b ipld.NodePrototype, w gMap) {
	for k, e := range w.es {
		ma, err := b.NewBuilder().BeginMap(-1)
		noError(err)
		vAssert("fields are missing at first", func() bool { return len(w.es) == 0 || ma.Finish() != nil })
		ma, err = b.NewBuilder().BeginMap(-1)
		noError(err)
		va, err := ma.AssembleEntry(e.k)
		noError(err)
		fill(va, e.v, false)
		_, err = ma.AssembleEntry(e.k)
		vAssert("a field is given once", func() bool { return vErrType[ipld.ErrRepeatedMapKey](err) })
		for j, e := range w.es {
			if j != k {
				va, err := ma.AssembleEntry(e.k)
				noError(err)
				fill(va, e.v, false)
			}
		}
		noError(ma.Finish())

		nb := b.NewBuilder()
		ma, err = nb.BeginMap(-1)
		noError(err)
		for j, e := range w.es {
			if j != k {
				va, err := ma.AssembleEntry(e.k)
				noError(err)
				fill(va, e.v, false)
			}
		}
		vAssert("no field may be missing", func() bool { return ma.Finish() != nil })
	}
	name := vAny[string]("name")
	for _, e := range w.es {
		vAssume(func() bool { return e.k != name })
	}
	ma, err := b.NewBuilder().BeginMap(-1)
	noError(err)
	_, err = ma.AssembleEntry(name)
	vAssert("there is no such field", func() bool { return vErrType[ipld.ErrInvalidKey](err) })
}

func theorem_build_person() {
	p := vAny[_PersonInfo]("p")
	w := gPerson(p).(gMap)
	is := func(n ipld.Node) bool {
		d, ok := n.(*_PersonInfo)
		return ok && vEq(*d, p)
	}
	fillOrders(Type.PersonInfo, w, 24, is)
	fillOrders(Type.PersonInfo__Repr, w, 24, is)
	fillRefused(Type.PersonInfo, w)
	fillRefused(Type.PersonInfo__Repr, w)
	nb := Type.PersonInfo__Repr.NewBuilder()
	noError(nb.AssignNode((&p).Representation()))
	n := nb.Build()
	vAssert("the representation assigned", func() bool { return is(n) })
}

func theorem_build_entry() {
	p := vAny[_TreeEntry]("p")
	w := gEntryNode(p)
	is := func(n ipld.Node) bool {
		d, ok := n.(*_TreeEntry)
		return ok && vEq(*d, p)
	}
	fillOrders(Type.TreeEntry, w, 2, is)
	fillOrders(Type.TreeEntry__Repr, w, 2, is)
	fillRefused(Type.TreeEntry, w)
	fillRefused(Type.TreeEntry__Repr, w)
	nb := Type.TreeEntry__Repr.NewBuilder()
	noError(nb.AssignNode((&p).Representation()))
	n := nb.Build()
	vAssert("the representation assigned", func() bool { return is(n) })
}

func theorem_build_tag() {
	p := vAny[_Tag]("p")
	w := gTag(p).(gMap)
	is := func(n ipld.Node) bool {
		d, ok := n.(*_Tag)
		return ok && vEq(*d, p)
	}
	fillOrders(Type.Tag, w, 120, is)
	fillOrders(Type.Tag__Repr, w, 120, is)
	fillRefused(Type.Tag, w)
	fillRefused(Type.Tag__Repr, w)
	nb := Type.Tag__Repr.NewBuilder()
	noError(nb.AssignNode((&p).Representation()))
	n := nb.Build()
	vAssert("the representation assigned", func() bool { return is(n) })
}

// ---- commits ----

// orderPairs is one of 2n orders in which each thing directly follows each other.
func orderPairs(n, i int) []int {
	out := []int{}
	at := i % n
	for k := 0; k < n; k++ {
		out = append(out, at)
		step := k + 1
		if (k%2 == 0) == (i < n) {
			step = n - step
		}
		at = (at + step) % n
	}
	return out
}

// gCommitLists describes a commit with its lists as nodes.
func gCommitLists(c *_Commit) gMap {
	return gMap{es: []gEntry{{"tree", gLink{x: c.tree.x}}, {"parents", &c.parents}, {"message", gString{x: c.message.x}},
		{"author", gMaybePerson(c.author)}, {"committer", gMaybePerson(c.committer)}, {"encoding", gMaybeString(c.encoding)},
		{"signature", gMaybeSig(c.signature)}, {"mergetag", &c.mergetag}, {"other", &c.other}}}
}

// anyCommit is an arbitrary commit with the optional fields in the set.
func anyCommit(set int) _Commit {
	c := vAny[_Commit]("c")
	author, committer := vAny[_PersonInfo]("author"), vAny[_PersonInfo]("committer")
	c.author, c.committer = _PersonInfo__Maybe{}, _PersonInfo__Maybe{}
	if set&1 != 0 {
		c.author = _PersonInfo__Maybe{m: schema.Maybe_Value, v: &author}
	}
	if set&2 != 0 {
		c.committer = _PersonInfo__Maybe{m: schema.Maybe_Value, v: &committer}
	}
	if set&4 == 0 {
		c.encoding = _String__Maybe{}
	} else {
		c.encoding.m = schema.Maybe_Value
	}
	if set&8 == 0 {
		c.signature = _GpgSig__Maybe{}
	} else {
		c.signature.m = schema.Maybe_Value
	}
	return c
}

func fillCommit(b ipld.NodePrototype, set int, o []int, byKey bool) {
	c := anyCommit(set)
	nb := b.NewBuilder()
	fillMap(nb, gCommitLists(&c), o, byKey)
	n := nb.Build()
	vAssert("the commit built", func() bool {
		d, ok := n.(*_Commit)
		return ok && vEq(*d, c)
	})
}

// For commits the orders are 18 in which each field directly follows each other,
// and 60 of the others.
func theorem_build_commit() { fillCommits(Type.Commit) }

func theorem_build_commit_repr() { fillCommits(Type.Commit__Repr) }

func fillCommits(b ipld.NodePrototype) {
	for i := 0; i < 18; i++ {
		fillCommit(b, 15, orderPairs(9, i), i%2 == 0)
	}
	for i := 0; i < 60; i++ {
		fillCommit(b, 15, order(9, i*6047), i%2 == 0)
	}
	for set := 0; set < 16; set++ {
		fillCommit(b, set, []int{0, 1, 2, 3, 4, 5, 6, 7, 8}, false)
		fillCommit(b, set, []int{0, 1, 2, 3, 4, 5, 6, 7, 8}, true)
	}
	c := anyCommit(15)
	is := func(n ipld.Node) bool {
		d, ok := n.(*_Commit)
		return ok && vEq(*d, c)
	}
	nb := b.NewBuilder()
	noError(nb.AssignNode(gCommitLists(&c)))
	n := nb.Build()
	vAssert("the commit assigned", func() bool { return is(n) })
	nb.Reset()
	noError(nb.AssignNode(n))
	n = nb.Build()
	vAssert("the commit assigned again", func() bool { return is(n) })
}

func theorem_build_commit_refused() {
	c := anyCommit(15)
	fillCommitRefused(Type.Commit, gCommitLists(&c))
	fillCommitRefused(Type.Commit__Repr, gCommitLists(&c))
}

// fillCommitRefused: no field twice, none missing but the optional ones.
func fillCommitRefused(b ipld.NodePrototype, w gMap) {
	for k, e := range w.es {
		ma, err := b.NewBuilder().BeginMap(-1)
		noError(err)
		va, err := ma.AssembleEntry(e.k)
		noError(err)
		fill(va, e.v, false)
		_, err = ma.AssembleEntry(e.k)
		vAssert("a field is given once", func() bool { return vErrType[ipld.ErrRepeatedMapKey](err) })

		nb := b.NewBuilder()
		ma, err = nb.BeginMap(-1)
		noError(err)
		for j, e := range w.es {
			if j != k {
				va, err := ma.AssembleEntry(e.k)
				noError(err)
				fill(va, e.v, false)
			}
		}
		optional := k >= 3 && k <= 6
		vAssert("no field may be missing but optional ones", func() bool { return (ma.Finish() == nil) == optional })
	}
	name := vAny[string]("name")
	for _, e := range w.es {
		vAssume(func() bool { return e.k != name })
	}
	ma, err := b.NewBuilder().BeginMap(-1)
	noError(err)
	_, err = ma.AssembleEntry(name)
	vAssert("there is no such field", func() bool { return vErrType[ipld.ErrInvalidKey](err) })
}

// ---- lists ----

func loopcons_buildLinks(at int, x []_Commit_Link, l _Commit_Link_List) []_Commit_Link {
	return append(l.x, x[at:]...)
}

func loopcons_buildLines(at int, x []_String, l _String_List) []_String {
	return append(l.x, x[at:]...)
}

func loopcons_buildTags(at int, x []_Tag, l _Tag_List) []_Tag {
	return append(l.x, x[at:]...)
}

func loopinv_buildLinks(a _Commit_Link_List__Assembler) bool {
	return a.state == laState_initial && a.cm == schema.Maybe_Absent || a.state == laState_midValue && a.cm == schema.Maybe_Value
}

func loopinv_buildLines(a _String_List__Assembler) bool {
	return a.state == laState_initial && a.cm == schema.Maybe_Absent || a.state == laState_midValue && a.cm == schema.Maybe_Value
}

func loopinv_buildTags(a _Tag_List__Assembler) bool {
	if a.va.cm != schema.Maybe_Absent || a.va.ca_tagger.cm != schema.Maybe_Absent {
		return false
	}
	return a.state == laState_initial && a.cm == schema.Maybe_Absent && a.va.state == maState_initial && a.va.s == 0 &&
		a.va.ca_tagger.state == maState_initial && a.va.ca_tagger.s == 0 ||
		a.state == laState_midValue && a.cm == schema.Maybe_Value
}

func theorem_build_links() {
	x := vAny[[]_Commit_Link]("x")
	hint := vAny[int]("hint")
	nb := Type.Commit_Link_List.NewBuilder()
	la, err := nb.BeginList(int64(hint))
	noError(err)
	for i := 0; i < len(x); i++ {
		noError(la.AssembleValue().AssignLink(x[i].x))
	}
	noError(la.Finish())
	n := nb.Build()
	vAssert("the list", func() bool {
		l, ok := n.(*_Commit_Link_List)
		return ok && vEq(l.x, x)
	})
}

func theorem_build_lines() {
	x := vAny[[]_String]("x")
	hint := vAny[int]("hint")
	nb := Type.String_List.NewBuilder()
	la, err := nb.BeginList(int64(hint))
	noError(err)
	for i := 0; i < len(x); i++ {
		noError(la.AssembleValue().AssignString(x[i].x))
	}
	noError(la.Finish())
	n := nb.Build()
	vAssert("the list", func() bool {
		l, ok := n.(*_String_List)
		return ok && vEq(l.x, x)
	})
}

func theorem_build_tags() {
	x := vAny[[]_Tag]("x")
	nb := Type.Tag_List.NewBuilder()
	la, err := nb.BeginList(-1)
	noError(err)
	for i := 0; i < len(x); i++ {
		fill(la.AssembleValue(), gTag(x[i]), false)
	}
	noError(la.Finish())
	n := nb.Build()
	vAssert("the list", func() bool {
		l, ok := n.(*_Tag_List)
		return ok && vEq(l.x, x)
	})
}

func loopvar_buildLinks(at int, x []_Commit_Link) int    { return len(x) - at }
func loopvar_buildLines(at int, x []_String) int         { return len(x) - at }
func loopvar_buildTags(at int, x []_Tag) int             { return len(x) - at }
func loopinv_buildLinksAt(at int, x []_Commit_Link) bool { return 0 <= at && at <= len(x) }
func loopinv_buildLinesAt(at int, x []_String) bool      { return 0 <= at && at <= len(x) }
func loopinv_buildTagsAt(at int, x []_Tag) bool          { return 0 <= at && at <= len(x) }
