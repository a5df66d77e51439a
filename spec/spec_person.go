package ipldgit

// Person information: "name <email> date timezone".

import "strings"

type sName struct {
	ok   bool
	name string
	rest []string
}

// specPName collects the words before the one that opens the address. Each is
// followed by a space in the result; leading spaces are not kept.
func specPName(ps []string, name string) sName {
	if len(ps) == 0 {
		return sName{}
	}
	p := ps[0]
	if strings.HasPrefix(p, "<") {
		return sName{true, name, ps}
	}
	if p == "" && name == "" {
		return specPName(ps[1:], name)
	}
	return specPName(ps[1:], name+p+" ")
}

// specPEmail collects the words up to the one that closes the address.
func specPEmail(ps []string, email string) sName {
	if len(ps) == 0 {
		return sName{}
	}
	p := ps[0]
	if strings.HasPrefix(p, "<") {
		p = p[1:]
	}
	if strings.HasSuffix(p, ">") {
		return sName{true, email + p[:len(p)-1], ps[1:]}
	}
	return specPEmail(ps[1:], email+p+" ")
}

type sPerson struct {
	ok bool
	p  _PersonInfo
}

func specChop(s string) string {
	if s == "" {
		return s
	}
	return s[:len(s)-1]
}

// specOpaquePersonOf is specPersonOf, kept as a term in what uses it.
func specOpaquePersonOf(line string) sPerson {
	return specPersonOf(line)
}

// specPersonOf reads a header line: the keyword, then the person.
func specPersonOf(line string) sPerson {
	ps := specSplit(line, " ")
	if len(ps) < 3 {
		return sPerson{}
	}
	n := specPName(ps[1:], "")
	if !n.ok {
		return sPerson{}
	}
	m := specPEmail(n.rest, "")
	if !m.ok {
		return sPerson{}
	}
	r := sPerson{ok: true}
	r.p.name.x = specChop(n.name)
	r.p.email.x = m.name
	if len(m.rest) > 0 {
		r.p.date.x = m.rest[0]
	}
	if len(m.rest) > 1 {
		r.p.timezone.x = m.rest[1]
	}
	return r
}

// specOpaquePersonStr is the text of a person.
func specOpaquePersonStr(p _PersonInfo) string {
	s := p.name.x + " <" + p.email.x + ">"
	if p.date.x != "" {
		s += " " + p.date.x
	}
	if p.timezone.x != "" {
		s += " " + p.timezone.x
	}
	return s
}

// specPersonWF: the person can be told apart in its text.
func specPersonWF(p _PersonInfo) bool {
	n, m := p.name.x, p.email.x
	return !strings.HasPrefix(n, " ") && !strings.HasPrefix(n, "<") && !strings.Contains(n, " <") &&
		!strings.Contains(m, " <") && !strings.Contains(m, "> ") &&
		!strings.Contains(p.date.x, " ") && !strings.Contains(p.timezone.x, " ") &&
		(p.date.x != "" || p.timezone.x == "")
}
