package main

// Versions: their order, the clauses and sets of clauses that select them, and the selection of a file of an index.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const pep440Dir = "pkg/python/pep440"

type sign int

const (
	sUnknown sign = iota
	sLess
	sEqual
	sGreater
	sDiffer // not equal
)

func (s sign) neg() sign {
	switch s {
	case sLess:
		return sGreater
	case sGreater:
		return sLess
	}
	return s
}

func signOf(k int64) sign {
	switch {
	case k < 0:
		return sLess
	case k > 0:
		return sGreater
	}
	return sEqual
}

func minus(x, y *Term) *Term { return mkBin(token.SUB, x, y, types.Typ[types.Int]) }

// relation of two numbers (or strings) in a state; num: both are numbers of a version (not negative) or constants.
func relation(st *State, x, y *Term) sign {
	if x == y {
		return sEqual
	}
	if a, ok := x.intv(); ok {
		if b, ok := y.intv(); ok {
			return signOf(a - b)
		}
		if a < 0 {
			return sLess // numbers of versions are not negative
		}
	}
	if b, ok := y.intv(); ok && b < 0 {
		return sGreater
	}
	if st.decide(mkEq(x, y)) == yes {
		return sEqual
	}
	if st.decide(mkLt(x, y)) == yes {
		return sLess
	}
	if st.decide(mkLt(y, x)) == yes {
		return sGreater
	}
	if st.decide(mkLt(x, y)) == no && st.decide(mkLt(y, x)) == no {
		return sEqual
	}
	ne := st.decide(mkEq(x, y)) == no
	if isStringType(x.T) || isStringType(y.T) {
		for f, v := range st.facts {
			if f.Op != "bin" || len(f.Args) != 2 {
				continue
			}
			for i := 0; i < 2; i++ {
				if c := f.Args[i]; c.isCall("strings.Compare") && f.Args[1-i].isConst() {
					s := resultSign(st, c)
					if c.Args[0] == y && c.Args[1] == x {
						s = s.neg()
					} else if c.Args[0] != x || c.Args[1] != y {
						continue
					}
					if s == sDiffer {
						ne = true
					} else if s != sUnknown {
						return s
					}
				}
				_ = v
			}
		}
	} else {
		for _, d := range []struct {
			t *Term
			r bool
		}{{minus(x, y), false}, {minus(y, x), true}} {
			s := resultSign(st, d.t)
			if d.r {
				s = s.neg()
			}
			if s == sDiffer {
				ne = true
			} else if s != sUnknown {
				return s
			}
		}
	}
	if ne {
		return sDiffer
	}
	return sUnknown
}

// resultSign: what is known of the sign of t.
func resultSign(st *State, t *Term) sign {
	if k, ok := t.intv(); ok {
		return signOf(k)
	}
	if t.Op == "bin" && len(t.Args) == 2 { // numbers of versions are not negative
		if k, ok := t.Args[1].intv(); ok && t.Aux == "+" && k > 0 {
			return sGreater
		}
		if k, ok := t.Args[0].intv(); ok && t.Aux == "-" && k < 0 {
			return sLess
		}
	}
	switch {
	case st.decide(mkEq(t, tZero)) == yes:
		return sEqual
	case st.decide(mkLt(t, tZero)) == yes:
		return sLess
	case st.decide(mkLt(tZero, t)) == yes:
		return sGreater
	case st.decide(mkEq(t, tZero)) == no:
		switch {
		case st.decide(mkLt(t, tZero)) == no:
			return sGreater
		case st.decide(mkLt(tZero, t)) == no:
			return sLess
		}
		return sDiffer
	}
	return sUnknown
}

// agrees: r has the sign of x-y for certain (not zero unless last).
func agrees(st *State, r, x, y *Term, last bool) bool {
	r = stripConv(r)
	rel := relation(st, x, y)
	if r == minus(x, y) || r.isCall("strings.Compare") && r.Args[0] == x && r.Args[1] == y || r.isCall("cmp.Compare") && r.Args[0] == x && r.Args[1] == y {
		return last || rel != sUnknown && rel != sEqual || resultSign(st, r) == sDiffer
	}
	s := resultSign(st, r)
	return s != sUnknown && s != sDiffer && s == rel
}

// verSide: the components of a version in the terms of a run.
type verSide struct {
	pub, full   *Term
	pubT, fullT types.Type
}

func sideOf(p *ssa.Parameter) verSide {
	v := symParam(p)
	s := p.Type().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); f.Name() == "PublicVersion" {
			return verSide{mkField(v, "PublicVersion", f.Type()), v, f.Type(), p.Type()}
		}
	}
	return verSide{v, nil, p.Type(), nil}
}

func fieldT(v *Term, t types.Type, name string) *Term {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return mkField(v, name, s.Field(i).Type())
		}
	}
	return nil
}

func (v verSide) release() *Term { return fieldT(v.pub, v.pubT, "Release") }
func (v verSide) local() *Term   { return fieldT(v.full, v.fullT, "Local") }

// opt: a component that is a pointer: absent, present with a value, or unknown.
func (v verSide) opt(st *State, name string) (present tri, ptr *Term) {
	p := fieldT(v.pub, v.pubT, name)
	if p == nil {
		return unknown, nil
	}
	switch st.decide(mkEq(p, tNil)) {
	case yes:
		return no, p
	case no:
		return yes, p
	}
	return unknown, p
}

var preRank = map[string]int64{"a": -3, "alpha": -3, "b": -2, "beta": -2, "rc": -1, "c": -1, "pre": -1, "preview": -1}

// rank of the kind of pre-release; ok is false if it cannot be told.
func (v verSide) rank(st *State) (k int64, n *Term, ok bool) {
	pre, p := v.opt(st, "Pre")
	switch pre {
	case yes:
		l := fieldOf(st, p, pointee(p.T), "L")
		n = fieldOf(st, p, pointee(p.T), "N")
		for s, r := range preRank {
			if st.decide(mkEq(l, mkStr(s))) == yes {
				return r, n, true
			}
		}
		return 0, nil, false
	case no:
		dev, _ := v.opt(st, "Dev")
		post, _ := v.opt(st, "Post")
		switch {
		case dev == no || post == yes:
			return 0, tZero, true
		case dev == yes && post == no:
			return -4, tZero, true
		}
	}
	return 0, nil, false
}

func (v verSide) badPre(st *State) bool {
	pre, p := v.opt(st, "Pre")
	if pre != yes {
		return false
	}
	l := fieldOf(st, p, pointee(p.T), "L")
	for s := range preRank {
		if st.decide(mkEq(l, mkStr(s))) != no {
			return false
		}
	}
	return true
}

// impossible: the path requires a number of a version to be negative.
func impossible(st *State) bool {
	number := func(t *Term) bool { return t.Op == "deref" || t.Op == "fld" || t.Op == "idx" }
	for t := range st.rng {
		if b := st.bounds(t); number(t) && b.hasHi && b.hi < 0 {
			return true
		}
	}
	for f, v := range st.facts {
		if f.Op == "bin" && f.Aux == "<" {
			if k, ok := f.Args[1].intv(); ok && v && k <= 0 && number(f.Args[0]) {
				return true
			}
			if k, ok := f.Args[0].intv(); ok && !v && k < 0 && number(f.Args[1]) {
				return true
			}
		}
	}
	return hasFact(st, true, func(f *Term) bool {
		if f.Op != "bin" || f.Aux != "==" {
			return false
		}
		d := f.Args[0]
		if k, ok := f.Args[1].intv(); ok && k < 0 && (d.Op == "deref" || d.Op == "fld" || d.Op == "idx") {
			return true
		}
		if f.Args[1] != tZero {
			return false
		}
		if d.Op != "bin" {
			return false
		}
		if k, ok := d.Args[0].intv(); ok && d.Aux == "-" && k < 0 {
			return true
		}
		if k, ok := d.Args[1].intv(); ok && d.Aux == "+" && k > 0 {
			return true
		}
		return false
	})
}

type cmpKey struct {
	what string
	x, y *Term // to be compared; nil if the relation is known already
	rel  sign
}

// publicKeys: the keys by which two public versions are ordered, as far as the path tells them; ok is false at the first that
// cannot be told.
func publicKeys(st *State, a, b verSide) (ks []cmpKey, missing string) {
	ks = append(ks, cmpKey{what: "epoch", x: fieldT(a.pub, a.pubT, "Epoch"), y: fieldT(b.pub, b.pubT, "Epoch")})
	ks = append(ks, listKey(st, "release", a.release(), b.release())...)
	ra, na, ok1 := a.rank(st)
	rb, nb, ok2 := b.rank(st)
	if !ok1 || !ok2 {
		return ks, "pre-release"
	}
	ks = append(ks, cmpKey{what: "kind of pre-release", rel: signOf(ra - rb)})
	if ra == rb {
		ks = append(ks, cmpKey{what: "number of the pre-release", x: na, y: nb})
	}
	for _, n := range []string{"Post", "Dev"} {
		pa, xa := a.opt(st, n)
		pb, xb := b.opt(st, n)
		if pa == unknown || pb == unknown {
			return ks, n
		}
		k := cmpKey{what: strings.ToLower(n) + " release"}
		absent := sLess
		if n == "Dev" {
			absent = sGreater
		}
		switch {
		case pa == no && pb == no:
			k.rel = sEqual
		case pa == no:
			k.rel = absent
		case pb == no:
			k.rel = absent.neg()
		default:
			k.x, k.y = st.load(xa, pointee(xa.T)), st.load(xb, pointee(xb.T))
		}
		ks = append(ks, k)
	}
	return ks, ""
}

// listKey: the relation of two lists as far as the marks of the run tell it.
func listKey(st *State, what string, la, lb *Term) []cmpKey {
	if st.Marked("past:"+la.String()) && st.Marked("past:"+lb.String()) {
		return []cmpKey{{what: what, rel: sEqual}}
	}
	if i := st.Mark("at:" + what); i != nil {
		return []cmpKey{segment(st, what, la, lb, i)}
	}
	return []cmpKey{{what: what}}
}

func segment(st *State, what string, la, lb, i *Term) cmpKey {
	in := func(l *Term) tri { return st.decide(mkLt(i, mkCall("len", types.Typ[types.Int], l))) }
	ia, ib := in(la), in(lb)
	at := func(l *Term) *Term {
		t := l.T.Underlying().(*types.Slice).Elem()
		return tt.mkT("idx", "", t, l, i)
	}
	k := cmpKey{what: "segment of the " + what}
	switch {
	case ia == unknown || ib == unknown:
		return k
	case what == "release":
		k.x, k.y = tZero, tZero
		if ia == yes {
			k.x = at(la)
		}
		if ib == yes {
			k.y = at(lb)
		}
	case ia == no && ib == no:
		k.rel = sEqual
	case ia == no:
		k.rel = sLess
	case ib == no:
		k.rel = sGreater
	default:
		x, y := at(la), at(lb)
		kind := func(t *Term) string {
			ty := valField(t, "Type")
			switch {
			case st.decide(mkEq(ty, tZero)) == yes || st.decide(mkEq(ty, mkInt(1))) == no:
				return "int"
			case st.decide(mkEq(ty, mkInt(1))) == yes || st.decide(mkEq(ty, tZero)) == no:
				return "str"
			}
			return ""
		}
		ka, kb := kind(x), kind(y)
		switch {
		case ka == "" || kb == "":
		case ka == "int" && kb == "str":
			k.rel = sGreater
		case ka == "str" && kb == "int":
			k.rel = sLess
		case ka == "int":
			k.x, k.y = valField(x, "IntVal"), valField(y, "IntVal")
		default:
			k.x, k.y = valField(x, "StrVal"), valField(y, "StrVal")
		}
	}
	return k
}

func (k cmpKey) relation(st *State) sign {
	if k.x != nil && k.y != nil {
		return relation(st, k.x, k.y)
	}
	return k.rel
}

// orderOf says why the result r of a comparison on a path is not what the keys say; "" if it is.
func orderOf(st *State, r *Term, ks []cmpKey, missing string) string {
	for i, k := range ks {
		rel := k.relation(st)
		if rel == sEqual {
			continue
		}
		last := i == len(ks)-1 && missing == ""
		if k.x != nil && k.y != nil {
			if agrees(st, r, k.x, k.y, last) {
				return ""
			}
		} else if rel != sUnknown && resultSign(st, stripConv(r)) == rel {
			return ""
		}
		return "the result is not decided by the " + k.what + " although everything that comes before it is equal"
	}
	if missing != "" {
		return "two versions may be taken to be equal without looking at the " + strings.ToLower(missing)
	}
	if resultSign(st, stripConv(r)) == sEqual {
		return ""
	}
	return "versions that are equal in everything are not reported as equal"
}

// listHooks follow the loops over the segments of two versions.
func (c *Ctx) listHooks(e *Eng, rule string, a, b verSide) {
	lists := map[*Term]string{a.release(): "release", b.release(): "release"}
	if a.full != nil && b.full != nil {
		lists[a.local()], lists[b.local()] = "local version", "local version"
	}
	e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
		for cond.Op == "not" {
			cond, val = cond.Args[0], !val
		}
		if cond.Op != "bin" {
			return
		}
		i, n := cond.Args[0], cond.Args[1]
		switch {
		case cond.Aux == "==" && n == tZero: // 0 < n, in the first iteration
			i, n, val = tZero, i, !val
		case cond.Aux != "<" || !e.ascending(i):
			return
		}
		for l, what := range lists {
			length := mkCall("len", types.Typ[types.Int], l)
			if n == length || n.any(func(t *Term) bool { return t == length }) {
				markIn(st, fr, "at:"+what, i)
			}
			if n == length && val {
				st.ClearMark("past:" + l.String())
			}
			if !val && (n == length || st.decide(mkLt(n, length)) == no || n.any(func(t *Term) bool { return t == length }) && isMax(n)) {
				st.SetMark("past:"+l.String(), tTrue)
			}
		}
	}
	e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
		for _, what := range []string{"release", "local version"} {
			if !inLoop(st, fr, "at:"+what) {
				continue
			}
			i := st.Mark("at:" + what)
			la, lb := a.release(), b.release()
			if what != "release" {
				la, lb = a.local(), b.local()
			}
			if segment(st, what, la, lb, i).relation(st) == sEqual {
				c.iterOK(e, rule, fr, header)
			} else {
				c.iterBad(e, st, rule, fr, header, "the comparison may go on although segments of the "+what+" differ")
			}
			clearIn(st, "at:"+what)
		}
	}
}

func isMax(t *Term) bool { return t.isCall("max") }

func ruleC23(c *Ctx) {
	c.rule("C23.public", "public versions are ordered by epoch, then release segments (missing ones are 0), then pre-release (a development release of the bare version first, then a, b, rc, none; then its number), then post-release (none first), then development release (none last)", 6)
	c.rule("C23.local", "versions are ordered by their public parts and then by the segments of the local version: none first, numbers after text, numbers by value, text by byte order", 6)
	c.rule("C23.panic", "comparing versions does not panic unless the kind of pre-release is none of those that can be parsed", 1)
	P := c.P
	for _, w := range []struct{ rule, fn string }{{"C23.public", "PublicVersion.Cmp"}, {"C23.local", "LocalVersion.Cmp"}} {
		fn := P.fn(pep440Dir, w.fn)
		if fn == nil {
			c.missing(w.rule, "pep440."+w.fn)
			continue
		}
		a, b := sideOf(fn.Params[0]), sideOf(fn.Params[1])
		exits := c.run(w.rule, fn, nil, func(e *Eng, st *State) {
			e.mergeAt = 3000
			c.listHooks(e, w.rule, a, b)
		})
		bad := map[string]bool{}
		for _, x := range exits {
			st := x.st.clone()
			if impossible(st) {
				continue
			}
			if x.kind != 0 {
				switch {
				case x.kind == 1 && (a.badPre(st) || b.badPre(st)):
					c.okAt("C23.panic", c.P.pos(x.pos))
				case x.kind == 1 && localKindOther(st, a, b):
				case x.kind == 1:
					c.failAt("C23.panic", x.pos, fn, "comparing two versions may panic", x.st)
				}
				continue
			}
			ks, missing := publicKeys(st, a, b)
			if a.full != nil && missing == "" {
				ks = append(ks, listKey(st, "local version", a.local(), b.local())...)
			}
			if why := orderOf(st, x.res[0], ks, missing); why != "" {
				if !bad[why] {
					c.failAt(w.rule, x.pos, fn, why, x.st)
				}
				bad[why] = true
			} else {
				c.okAt(w.rule, "decided by key "+itoa(len(ks))+" at "+c.P.pos(x.pos))
			}
		}
	}
}

// localKindOther: a segment of a local version is neither a number nor text.
func localKindOther(st *State, a, b verSide) bool {
	if a.full == nil {
		return false
	}
	return hasFact(st, false, func(f *Term) bool {
		if f.Op != "bin" || f.Aux != "==" || f.Args[1] != mkInt(1) || f.Args[0].Op != "fld" || f.Args[0].Aux != "Type" {
			return false
		}
		return st.decide(mkEq(f.Args[0], tZero)) == no
	})
}

func init() { propRules["C23"] = ruleC23 }
