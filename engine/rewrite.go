package main

// Rewriting under known facts.

// canon splits l into its linear part with positive first coefficient, the
// sign that was applied, and the constant.
func (c *Ctx) canon(l lin) (key *Term, sign int64, k int64) {
	ts := l.sorted()
	if len(ts) == 0 {
		return nil, 1, l.k
	}
	sign = 1
	if l.m[ts[0]] < 0 {
		sign = -1
	}
	k = l.k
	m := lin{m: l.m}
	return c.fromLin(m.scale(sign)), sign, k
}

type bound struct {
	lo, hi     int64
	hasL, hasH bool
	ne         []int64
}

func (f *Facts) b(id int) *bound {
	x := f.bd[id]
	if x == nil {
		x = &bound{}
		f.bd[id] = x
	}
	return x
}

func (x *bound) tighten() {
	for again := true; again; {
		again = false
		for _, n := range x.ne {
			if x.hasL && x.lo == n {
				x.lo++
				again = true
			}
			if x.hasH && x.hi == n {
				x.hi--
				again = true
			}
		}
	}
}

// intFact records a fact about integers: "=" with a constant or ">=0".
func (c *Ctx) intFact(f *Facts, t *Term, val bool) {
	switch t.Op {
	case ">=0":
		l := c.toLin(t.Args[0])
		if !val {
			l = l.scale(-1)
			l.k--
		}
		key, sign, k := c.canon(l)
		if key == nil {
			return
		}
		x := f.b(key.id)
		if sign > 0 { // key + k >= 0
			if !x.hasL || -k > x.lo {
				x.lo, x.hasL = -k, true
			}
		} else { // -key + k >= 0
			if !x.hasH || k < x.hi {
				x.hi, x.hasH = k, true
			}
		}
		x.tighten()
	case "=":
		if t.Args[0].Sort.K != SInt {
			return
		}
		key, sign, k := c.canon(c.toLin(t.Args[0]).sub(c.toLin(t.Args[1])))
		if key == nil {
			return
		}
		v := -k * sign // sign*key + k = 0
		x := f.b(key.id)
		if val {
			x.lo, x.hi, x.hasL, x.hasH = v, v, true, true
		} else {
			x.ne = append(x.ne, v)
			x.tighten()
		}
	}
}

// lower is a lower bound of l, if one is known.
func (c *Ctx) lower(l lin, f *Facts) (int64, bool) {
	if len(l.m) == 0 {
		return l.k, true
	}
	best, has := int64(0), false
	upd := func(v int64) {
		if !has || v > best {
			best, has = v, true
		}
	}
	key, sign, k := c.canon(l)
	if x := f.bd[key.id]; x != nil {
		if sign > 0 && x.hasL {
			upd(x.lo + k)
		}
		if sign < 0 && x.hasH {
			upd(k - x.hi)
		}
	}
	// term by term
	sum, ok := l.k, true
	for t, co := range l.m {
		lo, hl, hi, hh := c.termBounds(t, f)
		if co > 0 && hl {
			sum += co * lo
		} else if co < 0 && hh {
			sum += co * hi
		} else {
			ok = false
			break
		}
	}
	if ok {
		upd(sum)
	}
	return best, has
}

func (c *Ctx) termBounds(t *Term, f *Facts) (lo int64, hl bool, hi int64, hh bool) {
	if nonNeg(t) {
		lo, hl = 0, true
	}
	if t.Op == "ite" {
		a, ok1 := c.lower(c.toLin(t.Args[1]), f)
		b, ok2 := c.lower(c.toLin(t.Args[2]), f)
		if ok1 && ok2 {
			lo, hl = min(a, b), true
		}
	}
	if t.Op == "str.indexof" {
		lo, hl = -1, true
		if v, ok := f.lit[c.Contains(t.Args[0], t.Args[1]).id]; ok && v && t.Args[2].Op == "int" && t.Args[2].I == 0 {
			lo = 0
		}
	}
	if t.Op == "str.len" {
		if v, ok := f.lit[c.Eq(t.Args[0], c.Str("")).id]; ok && !v {
			lo = 1
		}
	}
	if t.Op == "seq.len" {
		if v, ok := f.lit[c.Eq(t.Args[0], c.SeqEmpty(t.Args[0].Sort)).id]; ok && !v {
			lo = 1
		}
	}
	if x := f.bd[t.id]; x != nil {
		if x.hasL && (!hl || x.lo > lo) {
			lo, hl = x.lo, true
		}
		if x.hasH {
			hi, hh = x.hi, true
		}
	}
	return
}

// isGe0 tells whether l >= 0 is known.
func (c *Ctx) isGe0(l lin, f *Facts) bool {
	if v, ok := c.lower(l, f); ok && v >= 0 {
		return true
	}
	// one index is below the length of its string
	for t, co := range l.m {
		if t.Op == "str.indexof" && co < 0 && t.Args[2].Op == "int" && t.Args[2].I == 0 && t.Args[1].Op == "str" && len(t.Args[1].S) > 0 {
			m := lin{m: map[*Term]int64{}, k: l.k}
			for u, v := range l.m {
				if u != t {
					m.m[u] = v
				}
			}
			// t <= len(s)-1
			ln := c.toLin(c.Len(t.Args[0]))
			ln.k--
			m = m.sub(ln.scale(-co))
			if v, ok := c.lower(m, f); ok && v >= 0 {
				return true
			}
		}
		// the length of a suffix: len(substr(s,o,len(s)-o)) = len(s)-o
	}
	return false
}

func (c *Ctx) knownLe(a, b *Term, f *Facts) bool {
	return c.isGe0(c.toLin(b).sub(c.toLin(a)), f)
}

// underFacts rewrites the head of r.
func (c *Ctx) underFacts(r *Term, f *Facts) *Term {
	switch r.Op {
	case ">=0":
		l := c.toLin(r.Args[0])
		if c.isGe0(l, f) {
			return c.True
		}
		n := l.scale(-1)
		n.k--
		if c.isGe0(n, f) {
			return c.False
		}
	case "=":
		if r.Args[0].Sort.K == SInt {
			l := c.toLin(r.Args[0]).sub(c.toLin(r.Args[1]))
			a := l
			a.k--
			if c.isGe0(a, f) {
				return c.False
			}
			b := l.scale(-1)
			b.k = -l.k - 1
			if c.isGe0(b, f) {
				return c.False
			}
		}
		for i := 0; i < 2; i++ {
			a, b := r.Args[i], r.Args[1-i]
			if (a.Op == "str" && a.S == "" || a.Op == "seq.empty") && (b.Op == "str.substr" || b.Op == "seq.extract" || b.Op == "str.at") {
				n := c.mk("str.len", IntS, 0, "", b)
				if b.Op == "seq.extract" {
					n = c.mk("seq.len", IntS, 0, "", b)
				}
				if l := c.underFacts(n, f); l != n {
					return c.underFacts(c.Eq(l, c.Int(0)), f)
				}
			}
		}
	case "str.suffixof":
		if k := r.Args[0]; k.Op == "str" && len(k.S) == 1 && r.Args[1].Op == "str.++" {
			ps := r.Args[1].Args
			n := len(ps) - 1
			if v := c.underLit(c.Suffix(k, ps[n]), f); v.IsTrue() {
				return v
			} else if v.IsFalse() {
				if c.knownLe(c.Int(1), c.Len(ps[n]), f) {
					return v
				}
				if c.underLit(c.Suffix(k, c.Concat(ps[:n]...)), f).IsFalse() {
					return v
				}
			}
		}
		if s := r.Args[1]; r.Args[0].Op == "str" && s.Op == "str.substr" {
			o, n := s.Args[1], s.Args[2]
			if d, ok := c.constDiff(c.Add(o, n), c.Len(s.Args[0])); ok && d == 0 && c.knownLe(c.Int(0), o, f) {
				if c.knownLe(c.Int(int64(len(r.Args[0].S))), n, f) {
					return c.Suffix(r.Args[0], s.Args[0])
				}
				if c.knownLe(n, c.Int(int64(len(r.Args[0].S))-1), f) {
					return c.False
				}
			}
		}
		if c.knownLe(c.Len(r.Args[1]), c.Sub(c.Len(r.Args[0]), c.Int(1)), f) {
			return c.False
		}
	case "str.prefixof":
		if k, x := r.Args[0], r.Args[1]; k.Op == "str" && len(k.S) == 1 {
			if x.Op == "str.++" {
				ps := x.Args
				if v := c.underLit(c.Prefix(k, ps[0]), f); v.IsTrue() {
					return v
				} else if v.IsFalse() {
					if c.knownLe(c.Int(1), c.Len(ps[0]), f) {
						return v
					}
					if c.underLit(c.Prefix(k, c.Concat(ps[1:]...)), f).IsFalse() {
						return v
					}
				}
			}
			if x.Op == "str.substr" && x.Args[1].Op == "int" && x.Args[1].I == 0 {
				v := c.underLit(c.Prefix(k, x.Args[0]), f)
				if v.IsFalse() || v.IsTrue() && c.knownLe(c.Int(1), x.Args[2], f) {
					return v
				}
			}
		}
		if c.knownLe(c.Len(r.Args[1]), c.Sub(c.Len(r.Args[0]), c.Int(1)), f) {
			return c.False
		}
	case "str.contains":
		if c.knownLe(c.Len(r.Args[0]), c.Sub(c.Len(r.Args[1]), c.Int(1)), f) {
			return c.False
		}
		// a suffix or prefix of a string without p is without p
		if s := r.Args[0]; s.Op == "str.substr" {
			if v, ok := f.lit[c.mk("str.contains", BoolS, 0, "", s.Args[0], r.Args[1]).id]; ok && !v {
				return c.False
			}
			// what precedes the first occurrence
			if n := s.Args[2]; s.Args[1].Op == "int" && s.Args[1].I == 0 && n.Op == "str.indexof" && n.Args[0] == s.Args[0] && n.Args[1] == r.Args[1] && n.Args[2].Op == "int" && n.Args[2].I == 0 {
				return c.False
			}
		}
	case "str.indexof":
		return c.indexUnder(r, f)
	case "seq.nth":
		s, i := r.Args[0], r.Args[1]
		if s.Op == "seq.extract" {
			o, n := s.Args[1], s.Args[2]
			z := c.Int(0)
			if c.knownLe(z, o, f) && c.knownLe(z, i, f) && c.knownLe(c.Add(i, c.Int(1)), n, f) && c.knownLe(c.Add(c.Add(o, i), c.Int(1)), c.Len(s.Args[0]), f) {
				return c.underFacts(c.Nth(s.Args[0], c.Add(o, i)), f)
			}
		}
	case "seq.len", "str.len":
		s := r.Args[0]
		if s.Op == "seq.extract" || s.Op == "str.substr" {
			o, n := s.Args[1], s.Args[2]
			z := c.Int(0)
			if c.knownLe(z, o, f) && c.knownLe(z, n, f) && c.knownLe(c.Add(o, n), c.Len(s.Args[0]), f) {
				return n
			}
		}
		if s.Op == "str.at" {
			o := s.Args[1]
			if c.knownLe(c.Int(0), o, f) && c.knownLe(c.Add(o, c.Int(1)), c.Len(s.Args[0]), f) {
				return c.Int(1)
			}
		}
	case "seq.extract", "str.substr":
		s := r.Args[0]
		o, n := r.Args[1], r.Args[2]
		z := c.Int(0)
		if s.Op == r.Op {
			// substr(substr(s,a,b),o,n) = substr(s,a+o,n) when o+n <= b
			a, b := s.Args[1], s.Args[2]
			if c.knownLe(z, o, f) && c.knownLe(z, a, f) && c.knownLe(c.Add(o, n), b, f) {
				return c.underFacts(c.Substr(s.Args[0], c.Add(a, o), n), f)
			}
		}
		op := "str.++"
		if r.Op == "seq.extract" {
			op = "seq.++"
		}
		if s.Op == op && c.knownLe(z, o, f) {
			first := s.Args[0]
			fl := c.Len(first)
			rest := c.SeqConcat(s.Sort, s.Args[1:]...)
			if c.knownLe(c.Add(o, n), fl, f) {
				return c.Substr(first, o, n)
			}
			if c.knownLe(fl, o, f) {
				return c.Substr(rest, c.Sub(o, fl), n)
			}
			if c.knownLe(o, fl, f) {
				if d, ok := c.constDiff(c.Add(o, n), c.Len(s)); ok && d >= 0 {
					return c.SeqConcat(s.Sort, c.Substr(first, o, c.Sub(fl, o)), rest)
				}
				if c.knownLe(fl, c.Add(o, n), f) {
					return c.SeqConcat(s.Sort, c.Substr(first, o, c.Sub(fl, o)), c.Substr(rest, z, c.Sub(c.Add(o, n), fl)))
				}
			}
		}
		if c.knownLe(n, z, f) || c.knownLe(c.Len(s), o, f) {
			return c.SeqEmpty(r.Sort)
		}
	}
	return r
}

// indexUnder finds the first piece of a concatenation that contains p.
func (c *Ctx) indexUnder(r *Term, f *Facts) *Term {
	s, p := r.Args[0], r.Args[1]
	if r.Args[2].Op != "int" || r.Args[2].I != 0 || p.Op != "str" || len(p.S) != 1 {
		return r
	}
	known := func(t *Term) (bool, bool) {
		k := c.Contains(t, p)
		if k.IsConst() {
			return k.IsTrue(), true
		}
		v, ok := f.lit[k.id]
		if !ok {
			if u := c.underFacts(k, f); u.IsConst() {
				return u.IsTrue(), true
			}
		}
		return v, ok
	}
	if s.Op != "str.++" {
		if v, ok := known(s); ok && !v {
			return c.Int(-1)
		}
		return r
	}
	at := c.Int(0)
	for i, q := range s.Args {
		v, ok := known(q)
		if !ok {
			if i == 0 {
				return r
			}
			for _, z := range s.Args[i:] {
				if v, ok := known(z); ok && v {
					return c.Add(at, c.IndexOf(c.Concat(s.Args[i:]...), p, c.Int(0)))
				}
			}
			return r
		}
		if v {
			return c.Add(at, c.IndexOf(q, p, c.Int(0)))
		}
		at = c.Add(at, c.Len(q))
	}
	return c.Int(-1)
}

// underLit is t under the facts.
func (c *Ctx) underLit(t *Term, f *Facts) *Term {
	if t.IsConst() {
		return t
	}
	if v, ok := f.lit[t.id]; ok {
		return c.Bool(v)
	}
	if t.Op == "not" {
		return c.Not(c.underLit(t.Args[0], f))
	}
	return c.underFacts(t, f)
}

// newIte tells whether t has a conditional that is not part of app.
func (c *Ctx) newIte(t, app *Term) bool {
	seen := map[int]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if !seen[t.id] {
			seen[t.id] = true
			for _, a := range t.Args {
				mark(a)
			}
		}
	}
	mark(app)
	found := false
	if t.Op == "or" && c.callsAgain(t, app) {
		return true
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] || found {
			return
		}
		seen[t.id] = true
		if t.Op == "ite" || c.indexCond(t) != nil {
			found = true
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return found
}

// indexCond: where the first occurrence of a character in a concatenation is
// depends on whether its first piece has one.
func (c *Ctx) indexCond(t *Term) *Term {
	if t.Op == "str.indexof" && t.Args[0].Op == "str.++" && t.Args[1].Op == "str" && len(t.Args[1].S) == 1 && t.Args[2].Op == "int" && t.Args[2].I == 0 {
		p := t.Args[0].Args[0]
		if p.Op != "str" {
			return c.Contains(p, t.Args[1])
		}
	}
	return nil
}

// callsAgain: t contains another application of app's function.
func (c *Ctx) callsAgain(t, app *Term) bool {
	seen := map[int]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.Op == app.Op && t != app {
			return true
		}
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}
