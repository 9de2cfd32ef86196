package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// clauseOp is an operator of version specifiers.
type clauseOp struct {
	name   string // of the constant
	text   string
	prefix bool // with ".*" after the version
	val    *Term
}

func (c *Ctx) clauseOps(pkg string, ops []clauseOp) []clauseOp {
	sp := c.P.spkgs[modPath+"/"+pkg]
	var r []clauseOp
	for _, o := range ops {
		k, ok := sp.Pkg.Scope().Lookup(o.name).(*types.Const)
		if !ok {
			return nil
		}
		v, _ := constant.Int64Val(k.Val())
		o.val = mkInt(v)
		r = append(r, o)
	}
	return r
}

var pep440Ops = []clauseOp{
	{name: "CmpOpCompatible", text: "~="}, {name: "CmpOpStrictMatch", text: "=="}, {name: "CmpOpPrefixMatch", text: "==", prefix: true},
	{name: "CmpOpStrictExclude", text: "!="}, {name: "CmpOpPrefixExclude", text: "!=", prefix: true},
	{name: "CmpOpLE", text: "<="}, {name: "CmpOpGE", text: ">="}, {name: "CmpOpLT", text: "<"}, {name: "CmpOpGT", text: ">"},
}

var pep345Ops = []clauseOp{
	{name: "CmpOpLT", text: "<"}, {name: "CmpOpGT", text: ">"}, {name: "CmpOpLE", text: "<="}, {name: "CmpOpGE", text: ">="},
	{name: "CmpOpEQ", text: "=="}, {name: "CmpOpNE", text: "!="},
}

const cmpCall = "version.Cmp"

// versionCalls makes comparisons of versions, and other exported operations of package pep440, opaque.
func (c *Ctx) versionCalls(e *Eng, also ...string) {
	e.mergeAt = 3000
	e.hooks.Model = func(e *Eng, st *State, ev *CallEvent) ([]callOut, bool) {
		if ev.Fn == nil || pkgDir(ev.Fn) != pep440Dir {
			return nil, false
		}
		n := ev.Fn.Name()
		r := ev.Fn.Signature.Results()
		switch {
		case n == "Cmp" && len(ev.Args) == 2:
			return []callOut{{st, mkCall(cmpCall, types.Typ[types.Int], ev.Args...)}}, true
		case n == "Match" && len(ev.Args) == 2 && hasStr(also, shortName(fnName(ev.Fn))):
			return []callOut{{st, mkCall("match", types.Typ[types.Bool], ev.Args...)}}, true
		case n == "String" && len(ev.Args) == 1 && r.Len() == 1 && hasField(ev.Args[0].T, "Local") && hasStr(also, "String"):
			return []callOut{{st, mkCall("version.String", types.Typ[types.String], ev.Args...)}}, true
		case n == "ParseVersion" && hasStr(also, n):
			return []callOut{{st, tt.mk("tuple", "", mkCall("version.parsed", r.At(0).Type(), ev.Args...), mkCall("version.error", r.At(1).Type(), ev.Args...))}}, true
		}
		return nil, false
	}
}

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func and3(xs ...tri) tri {
	r := yes
	for _, x := range xs {
		if x == no {
			return no
		}
		if x == unknown {
			r = unknown
		}
	}
	return r
}

func not3(x tri) tri {
	switch x {
	case yes:
		return no
	case no:
		return yes
	}
	return x
}

func or3(xs ...tri) tri {
	for i := range xs {
		xs[i] = not3(xs[i])
	}
	return not3(and3(xs...))
}

// cmpRel: what is known of x.Cmp(y): whether it is below, above or equal to zero.
func cmpRel(st *State, x, y *Term) (lt, eq, gt tri) {
	f := func(a, b *Term) (tri, tri, tri) {
		t := mkCall(cmpCall, types.Typ[types.Int], a, b)
		return st.decide(mkLt(t, tZero)), st.decide(mkEq(t, tZero)), st.decide(mkLt(tZero, t))
	}
	one := func(a, b tri) tri {
		if a == unknown {
			return b
		}
		return a
	}
	l1, e1, g1 := f(x, y)
	l2, e2, g2 := f(y, x)
	lt, eq, gt = one(l1, g2), one(e1, e2), one(g1, l2)
	n := 0
	for _, p := range []*tri{&lt, &eq, &gt} {
		if *p == yes {
			for _, q := range []*tri{&lt, &eq, &gt} {
				if q != p {
					*q = no
				}
			}
		}
		if *p == no {
			n++
		}
	}
	if n == 2 {
		for _, p := range []*tri{&lt, &eq, &gt} {
			if *p == unknown {
				*p = yes
			}
		}
	}
	return
}

type verMatch struct {
	c         *Ctx
	spec, ver verSide
	op        *Term // the operator of the clause
	compat    *Term // ~=
	eq        *Term // the operator == of PEP 345
}

// strict: == without .*
func (m *verMatch) strict(st *State) tri {
	_, pub, _ := cmpRel(st, m.spec.pub, m.ver.pub)
	_, full, _ := cmpRel(st, m.spec.full, m.ver.full)
	switch st.decide(mkEq(mkCall("len", types.Typ[types.Int], m.spec.local()), tZero)) {
	case yes:
		return pub
	case no:
		return full
	}
	return unknown
}

func (m *verMatch) hooks(e *Eng, rule string) {
	lv := mkCall("len", types.Typ[types.Int], m.ver.release())
	ls := mkCall("len", types.Typ[types.Int], m.spec.release())
	e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
		for cond.Op == "not" {
			cond, val = cond.Args[0], !val
		}
		if cond.Op != "bin" {
			return
		}
		i, n := cond.Args[0], cond.Args[1]
		switch k, isK := n.intv(); {
		case cond.Aux == "==" && n == tZero: // 0 < n, in the first iteration
			i, n, val = tZero, i, !val
		case cond.Aux == "<" && isK && (i == ls || i == lv) && k >= 1: // 0 < n-(k-1)
			i, n, val = tZero, mkBin(token.ADD, i, mkInt(1-k), types.Typ[types.Int]), !val
		case cond.Aux != "<" || !e.ascending(i):
			return
		}
		for key, end := range map[string]*Term{"past:ver": lv, "past:spec0": m.end(0), "past:spec1": m.end(1)} {
			if n != end && !n.any(func(t *Term) bool { return t == end }) {
				continue
			}
			markIn(st, fr, "at", i)
			switch {
			case n == end && val:
				st.ClearMark(key)
			case !val && (n == end || isMax(n)):
				st.SetMark(key, tTrue)
			}
		}
		// past the larger of two lengths
		for key, end := range map[string]*Term{"past:ver": lv, "past:spec0": m.end(0), "past:spec1": m.end(1)} {
			if (n == lv || n == m.end(0) || n == m.end(1)) && n != end {
				switch {
				case !val && st.decide(mkLt(n, end)) == no:
					st.SetMark(key, tTrue)
				case val && st.decide(mkLt(end, n)) == no:
					st.ClearMark(key)
				}
			}
		}
	}
	e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
		if !inLoop(st, fr, "at") {
			return
		}
		if m.never(st) {
			return
		}
		if cut, open := m.form(st); m.seg(st, st.Mark("at"), cut, open) == sEqual {
			m.c.iterOK(e, rule, fr, header)
		} else {
			m.c.iterBad(e, st, rule, fr, header, "a clause may match a version although segments of the release differ")
		}
		clearIn(st, "at")
	}
}

// end: the length of the part of the release of the clause that a prefix is made of.
func (m *verMatch) end(cut int) *Term {
	n := mkCall("len", types.Typ[types.Int], m.spec.release())
	if cut == 0 {
		return n
	}
	return mkBin(token.ADD, n, mkInt(int64(-cut)), types.Typ[types.Int])
}

// less: whether x < y, as far as a path tells it, with the lengths of the releases in between.
func (m *verMatch) less(st *State, x, y *Term, cut int) tri {
	if r := st.decide(mkLt(x, y)); r != unknown {
		return r
	}
	for _, z := range []*Term{m.end(0), m.end(cut), mkCall("len", types.Typ[types.Int], m.ver.release())} {
		xz, zx, zy, yz := st.decide(mkLt(x, z)), st.decide(mkLt(z, x)), st.decide(mkLt(z, y)), st.decide(mkLt(y, z))
		switch {
		case xz == yes && yz == no, zx == no && zy == yes: // x < z <= y, x <= z < y
			return yes
		case xz == no && zy == no: // x >= z >= y
			return no
		}
	}
	return unknown
}

// never: whether no versions can bring a program on this path.
func (m *verMatch) never(st *State) bool {
	if impossible(st) || m.spec.badPre(st) || m.ver.badPre(st) {
		return true
	}
	i := st.Mark("at")
	if i == nil {
		return false
	}
	lv := mkCall("len", types.Typ[types.Int], m.ver.release())
	for _, n := range []*Term{m.end(0), m.end(1)} {
		if st.decide(mkLt(i, lv)) == yes && st.decide(mkLt(i, n)) == no && st.decide(mkLt(n, lv)) == no {
			return true // i < len(ver) <= n <= i
		}
		if st.decide(mkLt(i, lv)) == no && st.decide(mkLt(i, n)) == yes && st.decide(mkLt(n, lv)) == yes {
			return true // i < n < len(ver) <= i
		}
	}
	return false
}

// split divides a path by which optional parts the versions have.
func (m *verMatch) split(st *State, names ...string) []*State {
	sts := []*State{st}
	for _, v := range []verSide{m.spec, m.ver} {
		for _, n := range names {
			var next []*State
			for _, s := range sts {
				if p, _ := v.opt(s, n); p != unknown {
					next = append(next, s)
					continue
				}
				isNil := mkEq(fieldT(v.pub, v.pubT, n), tNil)
				for _, b := range []bool{true, false} {
					if t := s.clone(); t.assume(isNil, b) && consistent(t) {
						next = append(next, t)
					}
				}
			}
			sts = next
		}
	}
	return sts
}

// consistent: facts that compare two conditions agree with what is known of the conditions.
func consistent(st *State) bool {
	for f, v := range st.facts {
		if f.Op == "bin" && f.Aux == "==" {
			x, y := f.Args[0], f.Args[1]
			if x.T == nil || !types.Identical(x.T.Underlying(), types.Typ[types.Bool]) {
				if x.Op != "bin" || y.Op != "bin" || x.Aux != "==" || y.Aux != "==" {
					continue
				}
			}
			a, b := st.decide(x), st.decide(y)
			if a != unknown && b != unknown && (a == b) != v {
				return false
			}
		}
	}
	return true
}

// seg: the relation of the segments at i; segments after the end are 0, and are not looked at if the release may go on.
func (m *verMatch) seg(st *State, i *Term, cut int, open tri) sign {
	inSpec := m.less(st, i, m.end(cut), cut)
	lv := mkCall("len", types.Typ[types.Int], m.ver.release())
	inVer := m.less(st, i, lv, cut)
	if inSpec == no && (open == yes || inVer == no) {
		return sEqual
	}
	if inSpec == unknown || inVer == unknown || inSpec == no && open == unknown {
		return sUnknown
	}
	at := func(l *Term, in tri) *Term {
		if in == no {
			return tZero
		}
		return tt.mkT("idx", "", l.T.Underlying().(*types.Slice).Elem(), l, i)
	}
	return relation(st, at(m.spec.release(), inSpec), at(m.ver.release(), inVer))
}

// form: how much of the release a clause is compared by, as far as a path tells it.
func (m *verMatch) form(st *State) (cut int, open tri) {
	if m.compat != nil && st.decide(mkEq(m.op, m.compat)) == yes {
		return 1, yes
	}
	pre, _ := m.spec.opt(st, "Pre")
	post, _ := m.spec.opt(st, "Post")
	return 0, and3(not3(pre), not3(post))
}

// prefix: whether the version starts with that of the clause, of whose release the last cut segments are left out; bare: its
// pre- and post-release are left out.
func (m *verMatch) prefix(st *State, cut int, bare bool) tri {
	eqRel := func(s sign) tri {
		switch s {
		case sEqual:
			return yes
		case sUnknown:
			return unknown
		}
		return no
	}
	a, b := m.spec, m.ver
	epoch := eqRel(relation(st, fieldT(a.pub, a.pubT, "Epoch"), fieldT(b.pub, b.pubT, "Epoch")))
	pre, preA := a.opt(st, "Pre")
	post, postA := a.opt(st, "Post")
	if bare {
		pre, post = no, no
	}
	onlyRel := and3(not3(pre), not3(post)) // the release may go on
	rel := unknown
	past := func(l string) bool { return st.Marked("past:" + l) }
	if i := st.Mark("at"); i != nil {
		switch m.seg(st, i, cut, onlyRel) {
		case sEqual, sUnknown:
			if past("spec"+itoa(cut)) && (past("ver") || onlyRel == yes) {
				rel = yes
			}
		default:
			rel = no
		}
	}
	preEq := func() tri {
		pb, preB := b.opt(st, "Pre")
		switch {
		case pre == unknown || pb == unknown:
			return unknown
		case pre == no && pb == no:
			return yes
		case pre != pb:
			return no
		}
		_ = preA
		_ = preB
		ra, na, ok1 := a.rank(st)
		rb, nb, ok2 := b.rank(st)
		if !ok1 || !ok2 {
			return unknown
		}
		if ra != rb {
			return no
		}
		return eqRel(relation(st, na, nb))
	}
	postEq := func() tri {
		pb, postB := b.opt(st, "Post")
		switch {
		case post == unknown || pb == unknown:
			return unknown
		case post == no && pb == no:
			return yes
		case post != pb:
			return no
		}
		return eqRel(relation(st, st.load(postA, pointee(postA.T)), st.load(postB, pointee(postB.T))))
	}
	return and3(epoch, rel, or3(onlyRel, preEq()), or3(not3(post), postEq()))
}

func (m *verMatch) expect(st *State, op string) tri {
	lt, _, gt := cmpRel(st, m.spec.full, m.ver.full)
	switch op {
	case "CmpOpCompatible":
		return and3(not3(gt), m.prefix(st, 1, true))
	case "CmpOpStrictMatch":
		return m.strict(st)
	case "CmpOpStrictExclude":
		return not3(m.strict(st))
	case "CmpOpPrefixMatch":
		return m.prefix(st, 0, false)
	case "CmpOpPrefixExclude":
		return not3(m.prefix(st, 0, false))
	case "CmpOpLE":
		return not3(lt)
	case "CmpOpGE":
		return not3(gt)
	case "CmpOpLT":
		return gt
	case "CmpOpGT":
		return lt
	}
	return unknown
}

// required: PEP 345 clauses, by way of the PEP 440 ones.
func (m *verMatch) required(st *State, op string, ops map[string]*Term) tri {
	lt, _, gt := cmpRel(st, m.spec.full, m.ver.full)
	asked := func(a, b string) tri {
		r := unknown
		for f, v := range st.facts {
			if f.Op != "call" || f.Aux != "match" || f.Args[1] != m.ver.full {
				continue
			}
			if fv := valField(f.Args[0], "Version"); fv != m.spec.full {
				continue
			}
			switch valField(f.Args[0], "CmpOp") {
			case ops[a]:
				r = triOf(v)
			case ops[b]:
				r = triOf(!v)
			}
		}
		return r
	}
	has := func(v verSide, n string) tri { p, _ := v.opt(st, n); return p }
	exact := or3(has(m.spec, "Dev"), not3(st.decide(mkEq(mkCall("len", types.Typ[types.Int], m.spec.local()), tZero))))
	base := unknown
	switch exact {
	case yes:
		base = asked("CmpOpStrictMatch", "CmpOpStrictExclude")
	case no:
		base = asked("CmpOpPrefixMatch", "CmpOpPrefixExclude")
	}
	eq := func() tri {
		for f, v := range st.facts { // the method may ask itself
			if n, a := calleeOf(f); strings.HasSuffix(n, "Clause).Match") && f.Aux != "match" && len(a) == 2 && a[1] == m.ver.full &&
				valField(a[0], "Version") == m.spec.full && valField(a[0], "CmpOp") == m.eq {
				return triOf(v)
			}
		}
		dev, post, pre := has(m.spec, "Dev"), has(m.spec, "Post"), has(m.spec, "Pre")
		nd, np, nr := not3(has(m.ver, "Dev")), not3(has(m.ver, "Post")), not3(has(m.ver, "Pre"))
		// the version is no development, post- or pre-release of what the clause names
		return and3(base, or3(dev, and3(nd, or3(post, and3(np, or3(pre, nr))))))
	}
	switch op {
	case "CmpOpLT":
		return and3(gt, not3(base))
	case "CmpOpLE":
		return not3(lt)
	case "CmpOpGT":
		return lt
	case "CmpOpGE":
		return not3(gt)
	case "CmpOpEQ":
		return eq()
	case "CmpOpNE":
		return not3(eq())
	}
	return unknown
}

func ruleC24(c *Ctx) {
	c.rule("C24.match", "each operator of PEP 440 clauses matches exactly the versions that its definition says", 9)
	c.rule("C24.required", "each operator of PEP 345 clauses matches exactly the versions that its definition says", 6)
	c.rule("C24.all", "a specifier matches a version exactly if all its clauses do", 2)
	c.rule("C24.parse", "the text of a clause is read as the operator it starts with and the version after it; what an operator does not allow is refused, and nothing else", 15)
	c.rule("C24.every", "no clause of a specifier is passed over", 2)
	c.rule("C24.print", "a clause is printed as the text it is read from: operator, version and .*", 9)
	c.rule("C24.python", "HaveRequiredPython tells whether the version matches the specifier that the text denotes", 1)
	P := c.P
	ops := c.clauseOps(pep440Dir, pep440Ops)
	old := c.clauseOps("pkg/python/pep345", pep345Ops)
	if ops == nil || old == nil {
		c.missing("C24.match", "the operators of pep440 and pep345 clauses")
		return
	}
	c.clauseMatch("C24.match", P.fn(pep440Dir, "SpecifierClause.Match"), ops, false, nil)
	byName := map[string]*Term{}
	for _, o := range ops {
		byName[o.name] = o.val
	}
	c.clauseMatch("C24.required", P.fn("pkg/python/pep345", "VersionSpecifierClause.Match"), old, true, byName)
	for _, f := range []*ssa.Function{P.fn(pep440Dir, "Specifier.Match"), P.fn("pkg/python/pep345", "VersionSpecifier.Match")} {
		c.allClauses(f)
	}
	c.clauseParse(P.fn(pep440Dir, "ParseSpecifier"), ops)
	c.clauseParse(P.fn("pkg/python/pep345", "ParseVersionSpecifier"), old)
	c.clausePrint(P.fn(pep440Dir, "SpecifierClause.String"), ops)
	c.requiredPython(P.fn("pkg/python/pep345", "HaveRequiredPython"))
}

func (c *Ctx) clauseMatch(rule string, fn *ssa.Function, ops []clauseOp, old bool, byName map[string]*Term) {
	if fn == nil {
		c.missing(rule, "the Match method of clauses")
		return
	}
	p := fn.Params[0]
	clause := symParam(p)
	st0 := p.Type().Underlying().(*types.Struct)
	var specT types.Type
	for i := 0; i < st0.NumFields(); i++ {
		if st0.Field(i).Name() == "Version" {
			specT = st0.Field(i).Type()
		}
	}
	mk := func(v *Term, t types.Type) verSide {
		pt := t.Underlying().(*types.Struct).Field(0).Type()
		return verSide{mkField(v, "PublicVersion", pt), v, pt, t}
	}
	m := &verMatch{c: c, spec: mk(fieldT(clause, p.Type(), "Version"), specT), ver: mk(symParam(fn.Params[1]), fn.Params[1].Type())}
	opT := fieldT(clause, p.Type(), "CmpOp")
	m.op, m.compat = opT, ops[0].val
	if old {
		m.compat, m.eq = nil, ops[4].val
	}
	exits := c.run(rule, fn, nil, func(e *Eng, st *State) {
		if old {
			c.versionCalls(e, "(pep440.SpecifierClause).Match")
		} else {
			c.versionCalls(e)
		}
		m.hooks(e, rule)
	})
	for _, x := range exits {
		if m.never(x.st) {
			continue
		}
		var op *clauseOp
		for i := range ops {
			if x.st.decide(mkEq(opT, ops[i].val)) == yes {
				op = &ops[i]
			}
		}
		open := ""
		for _, o := range ops {
			if op == nil && x.st.decide(mkEq(opT, o.val)) != no {
				open = o.name
			}
		}
		if op != nil {
			open = op.name
		}
		if x.kind == 1 && open != "" {
			c.failAt(rule, x.pos, fn, "matching a clause with operator "+open+" may panic", x.st)
		}
		if x.kind == 0 && op == nil && open != "" {
			c.failAt(rule, x.pos, fn, "the result does not depend on the operator", x.st)
		}
		if x.kind != 0 || op == nil {
			continue
		}
		names := []string{"Pre", "Post"}
		if old {
			names = append(names, "Dev")
		}
		for _, v := range []bool{true, false} {
			res := x.st.clone()
			if !res.assume(x.res[0], v) {
				continue
			}
			for _, st := range m.split(res, names...) {
				if m.never(st) {
					continue
				}
				want := unknown
				if old {
					want = m.required(st, op.name, byName)
				} else {
					want = m.expect(st, op.name)
				}
				if want != triOf(v) {
					c.failAt(rule, x.pos, fn, "operator "+op.name+" may "+map[bool]string{true: "match a version that it should not match", false: "not match a version that it should match"}[v], st)
				} else {
					c.okAt(rule, op.name)
				}
			}
		}
	}
}

// allClauses: the result is the conjunction of the matches of all clauses.
func (c *Ctx) allClauses(fn *ssa.Function) {
	if fn == nil {
		c.missing("C24.all", "the Match method of specifiers")
		return
	}
	list, ver := symParam(fn.Params[0]), symParam(fn.Params[1])
	q := quantified{rule: "C24.all", fn: fn, list: list, what: "a specifier may match", unit: "clause"}
	q.pred = func(t *Term) bool {
		n, a := calleeOf(t)
		return (strings.HasSuffix(n, "Clause).Match") || n == "clause") && len(a) == 2 && a[1] == ver && a[0].Op == "idx" && a[0].Args[0] == list
	}
	q.model = func(e *Eng, st *State, ev *CallEvent) ([]callOut, bool) {
		if ev.Fn != nil && ev.Fn.Name() == "Match" && len(ev.Args) == 2 && ev.Args[0].T != nil && hasField(ev.Args[0].T, "CmpOp") {
			return []callOut{{st, mkCall("clause", types.Typ[types.Bool], ev.Args...)}}, true
		}
		return nil, false
	}
	c.quantify(q)
}

// quantified: the (boolean) result of a function tells whether all elements of a list (or, with exists, any of them)
// satisfy pred; with already, whether that or another condition holds.
type quantified struct {
	rule       string
	fn         *ssa.Function
	list       *Term
	pred       func(*Term) bool // t tells whether an element of the list satisfies it
	exists     bool
	already    func(*State) tri
	model      func(e *Eng, st *State, ev *CallEvent) ([]callOut, bool)
	what, unit string
}

func (c *Ctx) quantify(q quantified) {
	// running: a variable of a loop that holds the answer for the last element, or the neutral one before the first
	var eng *Eng
	neutral := mkBool(!q.exists)
	running := func(t *Term) bool {
		if t.Op != "sym" || eng == nil || len(eng.inflow[t]) == 0 {
			return false
		}
		n := 0
		for in := range eng.inflow[t] {
			if q.pred(in) {
				n++
			} else if in != neutral {
				return false
			}
		}
		return n > 0
	}
	elemOf := func(t *Term) *Term {
		for _, a := range append([]*Term{t}, t.Args...) {
			_, as := calleeOf(a)
			for _, x := range as {
				if x.Op == "idx" && x.Args[0] == q.list {
					return x
				}
			}
		}
		return nil
	}
	exits := c.run(q.rule, q.fn, nil, func(e *Eng, st *State) {
		e.mergeAt = 3000
		eng = e
		e.hooks.Model = q.model
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			if ranThrough(e, st, fr, in, val) == q.list {
				st.SetMark("all", tTrue)
			}
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			if q.pred(cond) && elemOf(cond) != nil && e.ascending(elemOf(cond).Args[1]) {
				if val != q.exists {
					markIn(st, fr, "passed", cond)
				} else {
					st.SetMark("found", tTrue)
				}
			}
			if running(cond) {
				if val != q.exists {
					markIn(st, fr, "going", cond)
				} else {
					st.SetMark("found", tTrue)
				}
			}
		}
		e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
			if _, l := listTest(e, st, fr, header); l == q.list {
				carried := false // the answer for this element is looked at before the next
				for _, in := range header.Instrs {
					if phi, ok := in.(*ssa.Phi); ok && inLoop(st, fr, "going") {
						carried = carried || q.pred(st.regs[phi])
					}
				}
				clearIn(st, "going")
				if inLoop(st, fr, "passed") || carried {
					c.iterOK(e, q.rule, fr, header)
				} else if !st.Marked("found") {
					c.iterBad(e, st, q.rule, fr, header, "a "+q.unit+" may be passed over")
				}
				clearIn(st, "passed")
			}
		}
	})
	how := map[bool]string{false: "not all its " + q.unit + "s do", true: "all its " + q.unit + "s do"}
	if q.exists {
		how = map[bool]string{true: "no " + q.unit + " does", false: "a " + q.unit + " does"}
	}
	for _, x := range exits {
		if x.kind != 0 {
			continue
		}
		for _, v := range []bool{true, false} {
			st := x.st.clone()
			if !st.assume(x.res[0], v) {
				continue
			}
			done := no
			if q.already != nil {
				done = q.already(st)
			}
			// the answer that needs one element, and the answer that needs all
			one, all := st.Marked("found"), st.Marked("all") && !st.Marked("found")
			if running(x.res[0]) && st.Marked("all") {
				one, all = true, true
			} else if running(x.res[0]) && v == q.exists {
				one = true
			}
			ok := one
			if v != q.exists {
				ok = all
			}
			if v && (done == yes || ok) || !v && done == no && ok {
				c.okAt(q.rule, shortName(fnName(q.fn))+" "+neutral.Aux)
				continue
			}
			verb := q.what
			if !v {
				verb = strings.Replace(q.what, "may ", "may not ", 1)
			}
			c.failAt(q.rule, x.pos, q.fn, verb+" although "+how[v == q.exists], st)
		}
	}
}

// clauseText: the text whose rest v is, after taking off an operator and ".*".
func clauseText(v *Term) (text *Term, op string, star bool) {
	v = trimSpaces(v)
	if v.isCall("strings.TrimSuffix") && v.Args[1] == mkStr(".*") {
		star = true
		v = trimSpaces(v.Args[0])
	}
	if v.isCall("strings.TrimPrefix") {
		op, _ = v.Args[1].str()
		v = v.Args[0]
	}
	return v, op, star
}

func trimSpaces(v *Term) *Term {
	for v.isCall("strings.TrimSpace") {
		v = v.Args[0]
	}
	return v
}

func (c *Ctx) clauseParse(fn *ssa.Function, ops []clauseOp) {
	R := "C24.parse"
	if fn == nil {
		c.missing(R, "ParseSpecifier, ParseVersionSpecifier")
		return
	}
	old := len(ops) == len(pep345Ops)
	begins := func(st *State, text *Term, with string) tri {
		// the text may be looked at with or without the white space around it
		r := unknown
		for f, v := range st.facts {
			if f.isCall("strings.HasPrefix") && trimSpaces(f.Args[0]) == trimSpaces(text) {
				if p, ok := f.Args[1].str(); ok {
					if v && strings.HasPrefix(p, with) {
						return yes
					}
					if !v && strings.HasPrefix(with, p) {
						r = no
					}
					if v && !strings.HasPrefix(with, p) {
						return no
					}
				}
			}
		}
		return r
	}
	opOf := func(st *State, text *Term) (op string, known bool) {
		longest := ""
		undecided := ""
		for _, o := range append([]clauseOp{{text: "==="}}, ops...) {
			if old && o.text == "===" {
				continue
			}
			switch begins(st, text, o.text) {
			case yes:
				if len(o.text) > len(longest) {
					longest = o.text
				}
			case unknown:
				if len(o.text) > len(undecided) {
					undecided = o.text
				}
			}
		}
		return longest, len(undecided) <= len(longest) || longest == "" && undecided == ""
	}
	// what is wrong with a clause; "" if nothing
	seen := map[*Term]bool{}
	commas := func(e *Eng, st *State, l *Term) bool {
		r, ok := seen[l]
		if !ok {
			r = c.commaFields(e, st, l, symParam(fn.Params[0]))
			seen[l] = r
		}
		return r
	}
	elem := func(e *Eng, st *State, t *Term) bool {
		t = trimSpaces(t)
		return t.Op == "idx" && e.ascending(t.Args[1]) && commas(e, st, t.Args[0])
	}
	check := func(e *Eng, st *State, in ssa.Instruction, clause *Term) {
		v := valField(clause, "Version")
		o := valField(clause, "CmpOp")
		var op *clauseOp
		for i := range ops {
			if ops[i].val == o {
				op = &ops[i]
			}
		}
		if v == nil || v.Op != "deref" || op == nil {
			c.fail(e, st, R, in, "a clause is made from something other than an operator and a parsed version: %s", clause.show(4))
			return
		}
		if !v.Args[0].isCall("version.parsed") {
			c.fail(e, st, R, in, "the version of a clause is not one that was parsed: %s", v.show(4))
			return
		}
		text, cut, star := clauseText(v.Args[0].Args[0])
		if !elem(e, st, text) {
			c.fail(e, st, R, in, "a clause is read from something other than what is between commas: %s", text.show(4))
			return
		}
		begin, known := opOf(st, text)
		switch {
		case !known:
			c.fail(e, st, R, in, "operator %s is read although the text may begin with another one", op.name)
		case begin != op.text && !(old && begin == "" && op.name == "CmpOpEQ"):
			c.fail(e, st, R, in, "text that begins with %q is read as operator %s", begin, op.name)
		case cut != begin:
			c.fail(e, st, R, in, "the version of a clause that begins with %q is what comes after %q", begin, cut)
		case star != op.prefix:
			c.fail(e, st, R, in, "operator %s is read from a version with .* or the other way round", op.name)
		default:
			if !old {
				if op.text == "==" || op.text == "!=" {
					suf := unknown
					for f, v := range st.facts {
						if f.isCall("strings.HasSuffix") && f.Args[1] == mkStr(".*") {
							if t, _, _ := clauseText(f.Args[0]); trimSpaces(t) == trimSpaces(text) {
								suf = triOf(v)
							}
						}
					}
					if suf != triOf(op.prefix) {
						c.fail(e, st, R, in, "operator %s is read without looking whether .* follows the version", op.name)
						return
					}
				}
				if why := notAllowed(st, v.Args[0], op); why != "" {
					c.fail(e, st, R, in, "a clause with operator %s is accepted although %s", op.name, why)
					return
				}
			}
			c.ok(e, R, in, op.name)
			st.SetMark("clause", tTrue)
		}
	}
	exits := c.run(R, fn, nil, func(e *Eng, st *State) {
		c.versionCalls(e, "ParseVersion")
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			if ev.Name != "append" || len(ev.Args) != 2 || ev.Args[1].Op != "list" {
				return
			}
			for _, x := range ev.Args[1].Args {
				if x.T != nil && hasField(x.T, "CmpOp") {
					check(e, st, ev.Instr, x)
					markIn(st, ev.Frame, "read", x)
				}
			}
		}
		e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
			l := listOver(e, st, fr, header)
			if l == nil || !commas(e, st, l) {
				return
			}
			blank := eqFact(st, func(a, b *Term) bool { return b == tEmpty && a.isCall("strings.TrimSpace") && elem(e, st, a) })
			if inLoop(st, fr, "read") {
				c.iterOK(e, "C24.every", fr, header)
			} else if old || !blank {
				c.iterBad(e, st, "C24.every", fr, header, "a clause may be passed over")
			}
			clearIn(st, "read")
			st.ClearMark("parsed")
			st.ClearMark("refused")
		}
		e.hooks.LoopExit = func(e *Eng, st *State, fr *frame, header, from, to *ssa.BasicBlock) {
			if l := listOver(e, st, fr, header); l != nil && commas(e, st, l) {
				if from == header {
					st.SetMark("complete", tTrue)
				}
			}
		}
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			if cond.Op == "bin" && cond.Aux == "==" && cond.Args[1].isNil() && cond.Args[0].isCall("version.error") {
				if val {
					st.SetMark("parsed", cond.Args[0].Args[0])
				} else {
					st.SetMark("refused", tTrue)
				}
			}
			if !st.Marked("refused") && c.refused(st, ops, old, opOf) {
				st.SetMark("refused", tTrue)
			}
		}
	})
	for _, x := range exits {
		if x.kind != 0 {
			continue
		}
		if errState(x.st, x.res[1]) != no {
			if !x.st.Marked("complete") {
				c.failAt("C24.every", x.pos, fn, "clauses may be left out", x.st)
			}
			continue
		}
		if !x.st.Marked("refused") {
			c.failAt(R, x.pos, fn, "a clause may be refused although nothing is wrong with it", x.st)
		}
	}
}

// notAllowed says what the operator of a clause forbids about the version p that was parsed, and a path does not rule out.
func notAllowed(st *State, p *Term, op *clauseOp) string {
	t := pointee(p.T)
	length := func(n string) *Term {
		l := fieldOf(st, p, t, n)
		if l == nil {
			if pub := fieldOf(st, p, t, "PublicVersion"); pub != nil {
				l = valField(pub, n)
			}
		}
		return mkCall("len", types.Typ[types.Int], l)
	}
	strict := op.name == "CmpOpStrictMatch" || op.name == "CmpOpStrictExclude"
	switch {
	case op.name == "CmpOpCompatible" && st.decide(mkLt(length("Release"), mkInt(2))) != no:
		return "the release may have a single segment"
	case op.prefix && st.decide(mkEq(valField(fieldOf(st, p, t, "PublicVersion"), "Dev"), tNil)) != yes:
		return "the version may be a development release"
	case !strict && st.decide(mkEq(length("Local"), tZero)) != yes && st.decide(mkLt(tZero, length("Local"))) != no:
		return "the version may have a local part"
	}
	return ""
}

// refused: a clause is refused on a path for a reason that there is.
func (c *Ctx) refused(st *State, ops []clauseOp, old bool, opOf func(*State, *Term) (string, bool)) bool {
	texts := map[*Term]bool{}
	for f := range st.facts {
		if f.isCall("strings.HasPrefix") {
			texts[trimSpaces(f.Args[0])] = true
		}
	}
	if arg := st.Mark("parsed"); arg != nil && !old {
		text, _, star := clauseText(arg)
		begin, known := opOf(st, text)
		if !known {
			return false
		}
		p := mkCall("version.parsed", versionPtr(c), arg)
		for i := range ops {
			if ops[i].text != begin || ops[i].prefix != star {
				continue
			}
			t := pointee(p.T)
			pub := fieldOf(st, p, t, "PublicVersion")
			length := func(l *Term) *Term { return mkCall("len", types.Typ[types.Int], l) }
			rel, loc := length(valField(pub, "Release")), length(fieldOf(st, p, t, "Local"))
			strict := strings.HasPrefix(ops[i].name, "CmpOpStrict")
			switch {
			case st.decide(mkEq(rel, tZero)) == yes, // no version has no release
				ops[i].name == "CmpOpCompatible" && st.decide(mkLt(rel, mkInt(2))) == yes,
				ops[i].prefix && st.decide(mkEq(valField(pub, "Dev"), tNil)) == no,
				!strict && (st.decide(mkEq(loc, tZero)) == no || st.decide(mkLt(tZero, loc)) == yes):
				return true
			}
		}
		return false
	}
	if old {
		return false
	}
	for text := range texts {
		if begin, known := opOf(st, text); known && (begin == "===" || begin == "") {
			return true
		}
	}
	return false
}

func versionPtr(c *Ctx) types.Type {
	return c.P.fn(pep440Dir, "ParseVersion").Signature.Results().At(0).Type()
}

// commaFields: l is s divided at commas.
func (c *Ctx) commaFields(e *Eng, st *State, l, s *Term) bool {
	n, a := calleeOf(l)
	switch n {
	case "strings.Split":
		return a[0] == s && a[1] == mkStr(",")
	case "strings.FieldsFunc":
		if a[0] != s {
			return false
		}
		r := tt.mkT("sym", "rune", types.Typ[types.Rune])
		comma := mkEq(r, mkInt(','))
		xs := e.applyExits(st, a[1], r)
		for _, x := range xs {
			for _, v := range []bool{true, false} {
				t := x.st.clone()
				if t.assume(x.res[0], v) && t.decide(comma) != triOf(v) {
					return false
				}
			}
		}
		return len(xs) > 0
	}
	return false
}

func (c *Ctx) clausePrint(fn *ssa.Function, ops []clauseOp) {
	R := "C24.print"
	if fn == nil {
		c.missing(R, "SpecifierClause.String")
		return
	}
	p := fn.Params[0]
	clause := symParam(p)
	opT := fieldT(clause, p.Type(), "CmpOp")
	exits := c.run(R, fn, nil, func(e *Eng, st *State) { c.versionCalls(e, "String") })
	for _, x := range exits {
		if x.kind != 0 {
			continue
		}
		var op *clauseOp
		for i := range ops {
			if x.st.decide(mkEq(opT, ops[i].val)) == yes {
				op = &ops[i]
			}
		}
		if op == nil {
			c.failAt(R, x.pos, fn, "a clause may be printed without looking at its operator", x.st)
			continue
		}
		parts := []*Term{x.res[0]}
		if x.res[0].Op == "concat" {
			parts = x.res[0].Args
		}
		got := ""
		for _, q := range parts {
			if s, ok := q.str(); ok {
				got += s
			} else if (q.isCall("version.String") || q.isCall("stringer")) && hasField(q.Args[0].T, "Local") {
				got += "V"
			} else {
				got += "?"
			}
		}
		want := op.text + "V"
		if op.prefix {
			want += ".*"
		}
		if got != want {
			c.failAt(R, x.pos, fn, "a clause with operator "+op.name+" is printed as "+got+" instead of "+want, x.st)
			continue
		}
		c.okAt(R, op.name)
	}
}

func (c *Ctx) requiredPython(fn *ssa.Function) {
	R := "C24.python"
	if fn == nil {
		c.missing(R, "HaveRequiredPython")
		return
	}
	have, req := symParam(fn.Params[0]), symParam(fn.Params[1])
	exits := c.run(R, fn, nil, func(e *Eng, st *State) {
		e.hooks.Model = func(e *Eng, st *State, ev *CallEvent) ([]callOut, bool) {
			if ev.Fn == nil {
				return nil, false
			}
			r := ev.Fn.Signature.Results()
			switch {
			case ev.Fn.Name() == "ParseVersionSpecifier" && r.Len() == 2:
				return []callOut{{st, tt.mk("tuple", "", mkCall("spec", r.At(0).Type(), ev.Args...), mkCall("spec.error", r.At(1).Type(), ev.Args...))}}, true
			case ev.Fn.Name() == "Match" && len(ev.Args) == 2 && ev.Args[0].isCall("spec"):
				return []callOut{{st, mkCall("spec.match", types.Typ[types.Bool], ev.Args...)}}, true
			}
			return nil, false
		}
	})
	var errT types.Type = types.Universe.Lookup("error").Type()
	bad := mkCall("spec.error", errT, req)
	for _, x := range exits {
		if x.kind != 0 {
			continue
		}
		invalid := not3(x.st.decide(mkEq(bad, tNil)))
		switch errState(x.st, x.res[1]) {
		case no:
			if invalid != yes {
				c.failAt(R, x.pos, fn, "an error may be returned although the specifier is valid", x.st)
			} else {
				c.okAt(R, "error")
			}
			continue
		case unknown:
			if x.res[1] != bad {
				c.failAt(R, x.pos, fn, "the error is not that of the specifier", x.st)
				continue
			}
		default:
			if invalid != no {
				c.failAt(R, x.pos, fn, "a specifier that is not valid may be answered without an error", x.st)
				continue
			}
		}
		m := x.res[0]
		ok := true
		for _, v := range []bool{true, false} {
			t := x.st.clone()
			if !t.assume(m, v) {
				continue
			}
			match := unknown
			for f, fv := range t.facts {
				if f.isCall("spec.match") && f.Args[1] == have && f.Args[0].Args[0] == req {
					match = triOf(fv)
				}
			}
			ok = ok && match == triOf(v)
		}
		if ok {
			c.okAt(R, "answer")
		} else {
			c.failAt(R, x.pos, fn, "the answer is not whether the version matches the specifier", x.st)
		}
	}
}

func init() { propRules["C24"] = ruleC24 }
