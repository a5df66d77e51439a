package ipldgit

import (
	ipld "github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/schema"
)

// The nodes' answers to the data model's questions.

// gAbsent stands for a field that is not there.
type gAbsent struct{ ipld.Node }

func gMaybeString(p _String__Maybe) ipld.Node {
	if p.m != schema.Maybe_Value {
		return gAbsent{}
	}
	return gString{x: p.v.x}
}

func gMaybeSig(p _GpgSig__Maybe) ipld.Node {
	if p.m != schema.Maybe_Value {
		return gAbsent{}
	}
	return gString{x: p.v.x}
}

func gMaybePerson(p _PersonInfo__Maybe) ipld.Node {
	if p.m != schema.Maybe_Value {
		return gAbsent{}
	}
	return gPerson(*p.v)
}

// Lists are described by what they hold.
type gLinks struct {
	ipld.Node
	x []_Commit_Link
}

type gLines struct {
	ipld.Node
	x []_String
}

type gTags struct {
	ipld.Node
	x []_Tag
}

func gEntryNode(e _TreeEntry) gMap {
	return gMap{es: []gEntry{{"mode", gString{x: e.mode.x}}, {"hash", gLink{x: e.hash.x}}}}
}

func gCommit(c _Commit) gMap {
	return gMap{es: []gEntry{{"tree", gLink{x: c.tree.x}}, {"parents", gLinks{x: c.parents.x}}, {"message", gString{x: c.message.x}},
		{"author", gMaybePerson(c.author)}, {"committer", gMaybePerson(c.committer)}, {"encoding", gMaybeString(c.encoding)},
		{"signature", gMaybeSig(c.signature)}, {"mergetag", gTags{x: c.mergetag.x}}, {"other", gLines{x: c.other.x}}}}
}

func noError(err error) { vAssert("no error", func() bool { return err == nil }) }

// checkScalar: n is a string or a link.
func checkString(n ipld.Node, x string) {
	vAssert("it is a string", func() bool {
		return n.Kind() == ipld.Kind_String && !n.IsNull() && !n.IsAbsent() && n.Length() == -1 && n.MapIterator() == nil && n.ListIterator() == nil
	})
	s, err := n.AsString()
	vAssert("the string", func() bool { return err == nil && s == x })
	_, err = n.AsLink()
	vAssert("not a link", func() bool { return err != nil })
	_, err = n.AsBytes()
	vAssert("not bytes", func() bool { return err != nil })
}

func checkLink(n ipld.Node, x ipld.Link) {
	vAssert("it is a link", func() bool {
		return n.Kind() == ipld.Kind_Link && !n.IsNull() && !n.IsAbsent() && n.Length() == -1 && n.MapIterator() == nil && n.ListIterator() == nil
	})
	l, err := n.AsLink()
	vAssert("the link", func() bool { return err == nil && l == x })
	_, err = n.AsString()
	vAssert("not a string", func() bool { return err != nil })
}

// checkValue: n is the field's value.
func checkValue(n, want ipld.Node) {
	switch w := want.(type) {
	case gString:
		checkString(n, w.x)
	case gLink:
		checkLink(n, w.x)
	case gMap:
		checkFields(n, w)
	case gLinks:
		switch l := n.(type) {
		case *_Commit_Link_List:
			vAssert("the list", func() bool { return vEq(l.x, w.x) })
		case *_Commit_Link_List__Repr:
			vAssert("the list", func() bool { return vEq(l.x, w.x) })
		default:
			vUnreachable("not the list")
		}
	case gLines:
		switch l := n.(type) {
		case *_String_List:
			vAssert("the list", func() bool { return vEq(l.x, w.x) })
		case *_String_List__Repr:
			vAssert("the list", func() bool { return vEq(l.x, w.x) })
		default:
			vUnreachable("not the list")
		}
	case gTags:
		switch l := n.(type) {
		case *_Tag_List:
			vAssert("the list", func() bool { return vEq(l.x, w.x) })
		case *_Tag_List__Repr:
			vAssert("the list", func() bool { return vEq(l.x, w.x) })
		default:
			vUnreachable("not the list")
		}
	default:
		vUnreachable("not a value")
	}
}

// checkFields: looking up the fields by name gives them.
func checkFields(n ipld.Node, w gMap) {
	vAssert("it is a map", func() bool {
		return n.Kind() == ipld.Kind_Map && !n.IsNull() && !n.IsAbsent() && n.ListIterator() == nil
	})
	for _, e := range w.es {
		v, err := n.LookupByString(e.k)
		if _, ok := e.v.(gAbsent); ok {
			vAssert("an absent field", func() bool { return v.IsAbsent() })
			continue
		}
		noError(err)
		checkValue(v, e.v)
		v, err = n.LookupByNode(gString{x: e.k})
		noError(err)
		checkValue(v, e.v)
	}
}

// checkUnknown: other names are not there.
func checkUnknown(n ipld.Node, w gMap) {
	k := vAny[string]("k")
	for _, e := range w.es {
		vAssume(func() bool { return k != e.k })
	}
	v, err := n.LookupByString(k)
	vReach("there are other names")
	vAssert("no such field", func() bool {
		return v == nil && (vErrType[schema.ErrNoSuchField](err) || vErrType[ipld.ErrNotExists](err))
	})
}

// checkIteration: iterating gives the fields in order, each once.
func checkIteration(n ipld.Node, w gMap, repr bool) {
	it := n.MapIterator()
	count := 0
	for _, e := range w.es {
		_, absent := e.v.(gAbsent)
		if absent && repr {
			continue
		}
		count++
		vAssert("there is another field", func() bool { return !it.Done() })
		k, v, err := it.Next()
		noError(err)
		checkString(k, e.k)
		if absent {
			vAssert("an absent field", func() bool { return v.IsAbsent() })
			continue
		}
		checkValue(v, e.v)
	}
	vAssert("there is no other field", func() bool { return it.Done() })
	_, _, err := it.Next()
	vAssert("the end is an error", func() bool { return err != nil })
	vAssert("the length", func() bool { return n.Length() == int64(count) })
}

func theorem_node_person() {
	p := vAny[*_PersonInfo]("p")
	w := gPerson(*p).(gMap)
	checkFields(p, w)
	checkIteration(p, w, false)
	checkFields(p.Representation(), w)
	checkIteration(p.Representation(), w, true)
	checkUnknown(p, w)
	checkUnknown(p.Representation(), w)
}

func theorem_node_entry() {
	p := vAny[*_TreeEntry]("p")
	w := gEntryNode(*p)
	checkFields(p, w)
	checkIteration(p, w, false)
	checkFields(p.Representation(), w)
	checkIteration(p.Representation(), w, true)
	checkUnknown(p, w)
	checkUnknown(p.Representation(), w)
}

func theorem_node_tag() {
	p := vAny[*_Tag]("p")
	w := gTag(*p).(gMap)
	checkFields(p, w)
	checkIteration(p, w, false)
	checkFields(p.Representation(), w)
	checkIteration(p.Representation(), w, true)
	checkUnknown(p, w)
	checkUnknown(p.Representation(), w)
}

// specCommitValid: optional fields are there or not.
func specCommitValid(c _Commit) bool {
	return (c.author.m == schema.Maybe_Absent || c.author.m == schema.Maybe_Value && c.author.v != nil) &&
		(c.committer.m == schema.Maybe_Absent || c.committer.m == schema.Maybe_Value && c.committer.v != nil) &&
		(c.encoding.m == schema.Maybe_Absent || c.encoding.m == schema.Maybe_Value) &&
		(c.signature.m == schema.Maybe_Absent || c.signature.m == schema.Maybe_Value)
}

func theorem_node_commit() {
	p := vAny[*_Commit]("p")
	vAssume(func() bool { return specCommitValid(*p) })
	w := gCommit(*p)
	checkFields(p, w)
	checkIteration(p, w, false)
	checkUnknown(p, w)
}

func theorem_node_commit_repr() {
	p := vAny[*_Commit]("p")
	vAssume(func() bool { return specCommitValid(*p) })
	w := gCommit(*p)
	checkFields(p.Representation(), w)
	checkIteration(p.Representation(), w, true)
	checkUnknown(p.Representation(), w)
}

// ---- lists ----

func loopinv_iterLinks(at int, it _Commit_Link_List__ListItr) bool {
	return at == it.idx && at <= len(it.n.x)
}
func loopvar_iterLinks(it _Commit_Link_List__ListItr) int { return len(it.n.x) - it.idx }
func loopinv_iterLinksRepr(at int, it _Commit_Link_List__ReprListItr) bool {
	return at == it.idx && at <= len(it.n.x)
}

func loopinv_iterLines(at int, it _String_List__ListItr) bool {
	return at == it.idx && at <= len(it.n.x)
}
func loopvar_iterLines(it _String_List__ListItr) int { return len(it.n.x) - it.idx }
func loopinv_iterLinesRepr(at int, it _String_List__ReprListItr) bool {
	return at == it.idx && at <= len(it.n.x)
}

func loopinv_iterTags(at int, it _Tag_List__ListItr) bool {
	return at == it.idx && at <= len(it.n.x)
}
func loopvar_iterTags(it _Tag_List__ListItr) int { return len(it.n.x) - it.idx }
func loopinv_iterTagsRepr(at int, it _Tag_List__ReprListItr) bool {
	return at == it.idx && at <= len(it.n.x)
}

func checkList(n ipld.Node, length int) {
	vAssert("it is a list", func() bool {
		return n.Kind() == ipld.Kind_List && !n.IsNull() && !n.IsAbsent() && n.MapIterator() == nil && n.Length() == int64(length)
	})
}

func checkNoElement(v ipld.Node, err error) {
	vAssert("nothing beyond the list", func() bool { return v == nil && vErrType[ipld.ErrNotExists](err) })
}

func theorem_node_links() {
	l := vAny[*_Commit_Link_List]("l")
	n := ipld.Node(l)
	if vAny[bool]("representation") {
		n = l.Representation()
	}
	checkList(n, len(l.x))
	i := vAny[int]("i")
	v, err := n.LookupByIndex(int64(i))
	if i < 0 || i >= len(l.x) {
		checkNoElement(v, err)
	} else {
		noError(err)
		checkLink(v, l.x[i].x)
	}
	it := n.ListIterator()
	count := 0
	for !it.Done() {
		at, v, err := it.Next()
		noError(err)
		c := count
		vAssert("the index", func() bool { return at == int64(c) })
		checkLink(v, l.x[c].x)
		count++
	}
	c := count
	vAssert("all elements", func() bool { return c == len(l.x) })
	_, _, err = it.Next()
	vAssert("the end is an error", func() bool { return err != nil })
}

func theorem_node_lines() {
	l := vAny[*_String_List]("l")
	n := ipld.Node(l)
	if vAny[bool]("representation") {
		n = l.Representation()
	}
	checkList(n, len(l.x))
	i := vAny[int]("i")
	v, err := n.LookupByIndex(int64(i))
	if i < 0 || i >= len(l.x) {
		checkNoElement(v, err)
	} else {
		noError(err)
		checkString(v, l.x[i].x)
	}
	it := n.ListIterator()
	count := 0
	for !it.Done() {
		at, v, err := it.Next()
		noError(err)
		c := count
		vAssert("the index", func() bool { return at == int64(c) })
		checkString(v, l.x[c].x)
		count++
	}
	c := count
	vAssert("all elements", func() bool { return c == len(l.x) })
	_, _, err = it.Next()
	vAssert("the end is an error", func() bool { return err != nil })
}

func theorem_node_tags() {
	l := vAny[*_Tag_List]("l")
	n := ipld.Node(l)
	if vAny[bool]("representation") {
		n = l.Representation()
	}
	checkList(n, len(l.x))
	i := vAny[int]("i")
	v, err := n.LookupByIndex(int64(i))
	if i < 0 || i >= len(l.x) {
		checkNoElement(v, err)
	} else {
		noError(err)
		checkFields(v, gTag(l.x[i]).(gMap))
	}
	it := n.ListIterator()
	count := 0
	for !it.Done() {
		at, v, err := it.Next()
		noError(err)
		c := count
		vAssert("the index", func() bool { return at == int64(c) })
		checkFields(v, gTag(l.x[c]).(gMap))
		count++
	}
	c := count
	vAssert("all elements", func() bool { return c == len(l.x) })
	_, _, err = it.Next()
	vAssert("the end is an error", func() bool { return err != nil })
}
