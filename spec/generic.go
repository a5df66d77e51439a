package ipldgit

import (
	"errors"

	ipld "github.com/ipld/go-ipld-prime"
)

// Generic nodes, as basicnode makes them: what a user builds without this
// package's types. The functions not given here are not used on them.

type gPrototype struct{}

func (gPrototype) NewBuilder() ipld.NodeBuilder { panic("generic builder") }

type gString struct {
	ipld.Node
	x string
}

func (gString) Kind() ipld.Kind               { return ipld.Kind_String }
func (gString) IsNull() bool                  { return false }
func (gString) IsAbsent() bool                { return false }
func (gString) Length() int64                 { return -1 }
func (n gString) AsString() (string, error)   { return n.x, nil }
func (gString) AsLink() (ipld.Link, error)    { return nil, errors.New("wrong kind") }
func (gString) AsBytes() ([]byte, error)      { return nil, errors.New("wrong kind") }
func (gString) Prototype() ipld.NodePrototype { return gPrototype{} }

type gLink struct {
	ipld.Node
	x ipld.Link
}

func (gLink) Kind() ipld.Kind               { return ipld.Kind_Link }
func (gLink) IsNull() bool                  { return false }
func (gLink) IsAbsent() bool                { return false }
func (gLink) Length() int64                 { return -1 }
func (gLink) AsString() (string, error)     { return "", errors.New("wrong kind") }
func (n gLink) AsLink() (ipld.Link, error)  { return n.x, nil }
func (gLink) AsBytes() ([]byte, error)      { return nil, errors.New("wrong kind") }
func (gLink) Prototype() ipld.NodePrototype { return gPrototype{} }

type gBytes struct {
	ipld.Node
	x []byte
}

func (gBytes) Kind() ipld.Kind               { return ipld.Kind_Bytes }
func (gBytes) IsNull() bool                  { return false }
func (gBytes) IsAbsent() bool                { return false }
func (gBytes) Length() int64                 { return -1 }
func (gBytes) AsString() (string, error)     { return "", errors.New("wrong kind") }
func (gBytes) AsLink() (ipld.Link, error)    { return nil, errors.New("wrong kind") }
func (n gBytes) AsBytes() ([]byte, error)    { return n.x, nil }
func (gBytes) Prototype() ipld.NodePrototype { return gPrototype{} }

// gNull is the null node.
type gNull struct{ ipld.Node }

func (gNull) Kind() ipld.Kind               { return ipld.Kind_Null }
func (gNull) IsNull() bool                  { return true }
func (gNull) IsAbsent() bool                { return false }
func (gNull) Length() int64                 { return -1 }
func (gNull) AsString() (string, error)     { return "", errors.New("wrong kind") }
func (gNull) AsLink() (ipld.Link, error)    { return nil, errors.New("wrong kind") }
func (gNull) AsBytes() ([]byte, error)      { return nil, errors.New("wrong kind") }
func (gNull) Prototype() ipld.NodePrototype { return gPrototype{} }

type gEntry struct {
	k string
	v ipld.Node
}

type gMap struct {
	ipld.Node
	es []gEntry
}

func (gMap) Kind() ipld.Kind               { return ipld.Kind_Map }
func (gMap) IsNull() bool                  { return false }
func (gMap) IsAbsent() bool                { return false }
func (n gMap) Length() int64               { return int64(len(n.es)) }
func (gMap) AsString() (string, error)     { return "", errors.New("wrong kind") }
func (gMap) AsLink() (ipld.Link, error)    { return nil, errors.New("wrong kind") }
func (gMap) AsBytes() ([]byte, error)      { return nil, errors.New("wrong kind") }
func (gMap) Prototype() ipld.NodePrototype { return gPrototype{} }
func (n gMap) MapIterator() ipld.MapIterator {
	return &gMapIterator{n.es, 0}
}
func (n gMap) LookupByString(k string) (ipld.Node, error) {
	for _, e := range n.es {
		if e.k == k {
			return e.v, nil
		}
	}
	return nil, ipld.ErrNotExists{}
}

type gMapIterator struct {
	es []gEntry
	i  int
}

func (it *gMapIterator) Done() bool { return it.i >= len(it.es) }

func (it *gMapIterator) Next() (ipld.Node, ipld.Node, error) {
	if it.i >= len(it.es) {
		return nil, nil, ipld.ErrIteratorOverread{}
	}
	e := it.es[it.i]
	it.i++
	return gString{x: e.k}, e.v, nil
}

type gList struct {
	ipld.Node
	es []ipld.Node
}

func (gList) Kind() ipld.Kind               { return ipld.Kind_List }
func (gList) IsNull() bool                  { return false }
func (gList) IsAbsent() bool                { return false }
func (n gList) Length() int64               { return int64(len(n.es)) }
func (gList) AsString() (string, error)     { return "", errors.New("wrong kind") }
func (gList) AsLink() (ipld.Link, error)    { return nil, errors.New("wrong kind") }
func (gList) AsBytes() ([]byte, error)      { return nil, errors.New("wrong kind") }
func (gList) Prototype() ipld.NodePrototype { return gPrototype{} }
func (n gList) ListIterator() ipld.ListIterator {
	return &gListIterator{n.es, 0}
}
func (n gList) LookupByIndex(i int64) (ipld.Node, error) {
	if i < 0 || i >= int64(len(n.es)) {
		return nil, ipld.ErrNotExists{}
	}
	return n.es[i], nil
}

type gListIterator struct {
	es []ipld.Node
	i  int
}

func (it *gListIterator) Done() bool { return it.i >= len(it.es) }

func (it *gListIterator) Next() (int64, ipld.Node, error) {
	if it.i >= len(it.es) {
		return -1, nil, ipld.ErrIteratorOverread{}
	}
	i := it.i
	it.i++
	return int64(i), it.es[i], nil
}

// gPerson is a person as a generic map.
func gPerson(p _PersonInfo) ipld.Node {
	return gMap{es: []gEntry{{"date", gString{x: p.date.x}}, {"timezone", gString{x: p.timezone.x}},
		{"email", gString{x: p.email.x}}, {"name", gString{x: p.name.x}}}}
}

// gTag is a tag as a generic map.
func gTag(t _Tag) ipld.Node {
	return gMap{es: []gEntry{{"object", gLink{x: t.object.x}}, {"type", gString{x: t.typ.x}}, {"tag", gString{x: t.tag.x}},
		{"tagger", gPerson(t.tagger)}, {"message", gString{x: t.message.x}}}}
}
