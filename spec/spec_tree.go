package ipldgit

// Trees.

import (
	"io"
	"strings"
)

// sEntry is a tree entry read. cut: the input ends inside; none: it has ended.
type sEntry struct {
	ok, cut, none   bool
	name, mode, sha string
	rest            string
}

// specOpaqueEntry reads one entry of a tree.
func specOpaqueEntry(rest string) sEntry {
	if !strings.Contains(rest, " ") {
		return sEntry{none: rest == "", cut: rest != ""}
	}
	r := specTail(rest, " ")
	if !strings.Contains(r, "\x00") {
		return sEntry{cut: true}
	}
	h := specTail(r, "\x00")
	if len(h) < 20 {
		return sEntry{cut: true}
	}
	return sEntry{ok: true, mode: rest[:strings.Index(rest, " ")], name: r[:strings.Index(r, "\x00")], sha: h[:20], rest: h[20:]}
}

// specTreeMap is the index of the entries by name.
func specTreeMap(es []_Tree__entry) map[_String]*_TreeEntry {
	if len(es) == 0 {
		return map[_String]*_TreeEntry{}
	}
	m := specTreeMap(es[:len(es)-1])
	v := es[len(es)-1].v
	m[es[len(es)-1].k] = &v
	return m
}

func specHasName(es []_Tree__entry, name string) bool {
	_, ok := specTreeMap(es)[_String{name}]
	return ok
}

type sTree struct {
	ok, cut bool
	t       []_Tree__entry
}

// specTree reads the entries of a tree, given those read so far.
func specTree(rest string, end error, t []_Tree__entry) sTree {
	e := specOpaqueEntry(rest)
	if e.none {
		return sTree{end == io.EOF, end != io.EOF, t}
	}
	if !e.ok {
		return sTree{cut: true}
	}
	if specHasName(t, e.name) {
		return sTree{}
	}
	return specTree(e.rest, end, append(t, _Tree__entry{_String{e.name}, specTreeEntry(e)}))
}

func specTreeEntry(e sEntry) _TreeEntry {
	return _TreeEntry{_String{e.mode}, _Link{specGitLink(e.sha)}}
}

// specTreeOf reads a tree object after "tree ".
func specTreeOf(data string, end error) sTree {
	if !specSizeOK(data) {
		return sTree{cut: !strings.Contains(data, "\x00")}
	}
	return specTree(specTail(data, "\x00"), end, nil)
}

// specTreeBody is the serialised form of a tree's entries.
func specTreeBody(es []_Tree__entry) string {
	if len(es) == 0 {
		return ""
	}
	return es[0].v.mode.x + " " + es[0].k.x + "\x00" + specLinkSha(es[0].v.hash.x) + specTreeBody(es[1:])
}

func specTreeLinksOK(es []_Tree__entry) bool {
	return len(es) == 0 || specLinkOK(es[0].v.hash.x) && specTreeLinksOK(es[1:])
}

// specTreeWF: the entries can be told apart in the serialised form.
func specTreeWF(es []_Tree__entry) bool {
	return len(es) == 0 || specIsGitLink(es[0].v.hash.x) && !strings.Contains(es[0].v.mode.x, " ") &&
		!strings.Contains(es[0].k.x, "\x00") && specTreeWF(es[1:])
}

// specNamesNew: no name occurs twice in pre and es together; pre has none twice.
func specNamesNew(pre, es []_Tree__entry) bool {
	return len(es) == 0 || !specHasName(pre, es[0].k.x) && specNamesNew(append(pre, es[0]), es[1:])
}
