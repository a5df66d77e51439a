package ipldgit

import "strings"

func loopcons_pname(at int, parts [][]byte, name vText) sName {
	return specPName(vCast[[]string](parts)[at:], string(name))
}

func loopcons_pemail(at int, parts [][]byte, email vText) sName {
	return specPEmail(vCast[[]string](parts)[at:], string(email))
}

func loopinv_index(at int, parts [][]byte) bool { return 0 <= at && at <= len(parts) }

func contract_parsePersonInfo(line []byte) {
	p, err := parsePersonInfo(line)
	s := specOpaquePersonOf(string(line))
	vEnsures("accepts lines with a name and an address", func() bool { return (err == nil) == s.ok })
	vEnsures("the person on the line", func() bool { return err != nil || p != nil && *p == s.p })
}

func contract_PersonInfo_GitString(p _PersonInfo) {
	r := p.GitString()
	vEnsures("the person's text", func() bool { return r == specOpaquePersonStr(p) })
}

// words of a name, up to the address
func lemma_pname(name, acc, r string) {
	vRequires(func() bool {
		return strings.HasPrefix(r, "<") && !strings.HasPrefix(name, "<") && !strings.Contains(name, " <") &&
			(acc != "" || name != "" && !strings.HasPrefix(name, " "))
	})
	vDecreases(len(name))
	vProof(func() {
		if i := strings.Index(name, " "); i >= 0 {
			lemma_pname(name[i+1:], acc+name[:i]+" ", r)
		}
	})
	vEnsures("the name", func() bool {
		return vEq(specPName(specSplit(name+" "+r, " "), acc), sName{true, acc + name + " ", specSplit(r, " ")})
	})
}

// words of an address, up to its end
func specOpen(open bool) string {
	if open {
		return "<"
	}
	return ""
}

func lemma_pemailEnd(open bool, email, acc string) {
	vRequires(func() bool {
		return (open || !strings.HasPrefix(email, "<")) && !strings.Contains(email, " <") && !strings.Contains(email, "> ")
	})
	vDecreases(len(email))
	vProof(func() {
		if i := strings.Index(email, " "); i >= 0 {
			vAssert("word", func() bool { return !strings.HasSuffix(email[:i], ">") })
			vAssert("rest", func() bool { return !strings.HasPrefix(email[i+1:], "<") })
			lemma_pemailEnd(false, email[i+1:], acc+email[:i]+" ")
		}
	})
	vEnsures("the address", func() bool {
		return vEq(specPEmail(specSplit(specOpen(open)+email+">", " "), acc), sName{true, acc + email, nil})
	})
}

func lemma_pemail(open bool, email, acc, tail string) {
	vRequires(func() bool {
		return (open || !strings.HasPrefix(email, "<")) && !strings.Contains(email, " <") && !strings.Contains(email, "> ")
	})
	vDecreases(len(email))
	vProof(func() {
		if i := strings.Index(email, " "); i >= 0 {
			vAssert("word", func() bool { return !strings.HasSuffix(email[:i], ">") })
			vAssert("rest", func() bool { return !strings.HasPrefix(email[i+1:], "<") })
			lemma_pemail(false, email[i+1:], acc+email[:i]+" ", tail)
		}
	})
	vEnsures("the address", func() bool {
		return vEq(specPEmail(specSplit(specOpen(open)+email+"> "+tail, " "), acc), sName{true, acc + email, specSplit(tail, " ")})
	})
}

// A person's text reads back as the person.
func lemma_person(key string, p _PersonInfo) {
	vRequires(func() bool { return specPersonWF(p) && !strings.Contains(key, " ") })
	vProof(func() {
		e := "<" + p.email.x + ">"
		if p.date.x == "" {
			lemma_pemailEnd(true, p.email.x, "")
		} else if p.timezone.x == "" {
			e += " " + p.date.x
			lemma_pemail(true, p.email.x, "", p.date.x)
		} else {
			e += " " + p.date.x + " " + p.timezone.x
			lemma_pemail(true, p.email.x, "", p.date.x+" "+p.timezone.x)
		}
		if p.name.x != "" {
			lemma_pname(p.name.x, "", e)
			vAssert("words", func() bool { return len(specSplit(p.name.x+" "+e, " ")) >= 2 })
			vAssert("address", func() bool {
				return vEq(specPEmail(specPName(specSplit(p.name.x+" "+e, " "), "").rest, ""), specPEmail(specSplit(e, " "), ""))
			})
		} else {
			vAssert("no words", func() bool {
				return vEq(specPName(specSplit(e, " "), ""), sName{true, "", specSplit(e, " ")})
			})
		}
	})
	vEnsures("the person", func() bool {
		r := specPersonOf(key + " " + specOpaquePersonStr(p))
		return r.ok && r.p == p
	})
}

func lemma_opaquePerson(key string, p _PersonInfo) {
	vRequires(func() bool { return specPersonWF(p) && !strings.Contains(key, " ") })
	vProof(func() {
		lemma_person(key, p)
		line := key + " " + specOpaquePersonStr(p)
		vAssert("unfolded", func() bool { return vEq(specOpaquePersonOf(line), specPersonOf(line)) })
	})
	vEnsures("the person", func() bool {
		r := specOpaquePersonOf(key + " " + specOpaquePersonStr(p))
		return r.ok && r.p == p
	})
}

func theorem_person_roundtrip() {
	p := vAny[_PersonInfo]("p")
	vAssume(func() bool { return specPersonWF(p) })
	lemma_person("author", p)
	vReach("well-formed persons exist")
	line := "author " + p.GitString()
	q, err := parsePersonInfo([]byte(line))
	vAssert("a person's text is accepted", func() bool { return err == nil })
	vAssert("and reads back as the same person", func() bool { return *q == p })
}
