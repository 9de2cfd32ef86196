package main

// Selection of a version, and of a file of the version, among those of an index.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// slot: a variable that a loop carries from one iteration to the next: a phi of its header, or an allocation outside of it.
type slot struct {
	key string
	v   ssa.Value
	t   types.Type // of the value
}

func (s slot) cur(st *State) *Term {
	x := st.regs[s.v]
	if _, ok := s.v.(*ssa.Alloc); ok && x != nil {
		return st.load(x, s.t)
	}
	return x
}

func isHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

func slotsOf(header *ssa.BasicBlock) []slot {
	var r []slot
	if !isHeader(header) {
		return nil
	}
	for _, phi := range headerPhis(header) {
		r = append(r, slot{startKey(phi), phi, phi.Type()})
	}
	for _, b := range header.Parent().Blocks {
		if b == header || !b.Dominates(header) {
			continue
		}
		for _, x := range b.Instrs {
			if a, ok := x.(*ssa.Alloc); ok {
				r = append(r, slot{startKey(a) + "/" + itoa(header.Index), a, a.Type().Underlying().(*types.Pointer).Elem()})
			}
		}
	}
	return r
}

// carried notes the values that the variables of a loop have at the start of an iteration; to be called from the Branch hook.
func carried(st *State, in ssa.Instruction) {
	for _, s := range slotsOf(in.Block()) {
		if v := s.cur(st); v != nil {
			st.SetMark(s.key, v)
		}
	}
}

func startKey(v ssa.Value) string { return "start:" + v.Name() + "@" + fnName(v.Parent()) }

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, x := range b.Instrs {
		if phi, ok := x.(*ssa.Phi); ok {
			r = append(r, phi)
		}
	}
	return r
}

// appended: the elements that end has after those of start.
func appended(start, end *Term) ([]*Term, bool) {
	var rest []*Term
	switch {
	case end == start:
		return nil, true
	case end.Op == "append" && end.Args[0] == start:
		rest = end.Args[1:]
	case end.Op == "append" && start.Op == "append" && len(end.Args) >= len(start.Args):
		for i, a := range start.Args {
			if end.Args[i] != a {
				return nil, false
			}
		}
		rest = end.Args[len(start.Args):]
	case start.isNil() && end.Op == "append":
		rest = end.Args
	case start.isNil() && end.Op == "list":
		rest = []*Term{end}
	default:
		return nil, false
	}
	var r []*Term
	for _, x := range rest {
		if x.Op != "list" {
			return nil, false
		}
		r = append(r, x.Args...)
	}
	return r, true
}

func isVersionPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isVersionT(p.Elem())
}

func isVersionT(t types.Type) bool {
	return t != nil && hasField(t, "Local") && hasField(t, "PublicVersion")
}

func isSliceOf(t types.Type, f func(types.Type) bool) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && f(s.Elem())
}

func isLinkT(t types.Type) bool { return hasField(t, "DataAttrs") || hasField(t, "Link") }

const allowCall = "allow"

// ruleSelect: Specifier.Select
func (c *Ctx) ruleSelect(R string, fn *ssa.Function) {
	if fn == nil {
		c.missing(R, "Specifier.Select")
		return
	}
	spec, list, excl := symParam(fn.Params[0]), symParam(fn.Params[1]), symParam(fn.Params[2])
	elem := func(e *Eng, t *Term) *Term {
		var r *Term
		t.any(func(x *Term) bool {
			if x.Op == "idx" && x.Args[0] == list && e.ascending(x.Args[1]) {
				r = x
			}
			return r != nil
		})
		return r
	}
	nilPtr := func(st *State, p *Term) tri { return st.decide(mkEq(p, tNil)) }
	// whether the element el is to replace what a variable has; "" if nothing was looked at
	better := func(st *State, start, el *Term) string {
		if nilPtr(st, start) == yes {
			return "better"
		}
		if el == nil {
			return ""
		}
		lt, eq, gt := cmpRel(st, tt.mkT("deref", "", el.T, start), el)
		switch {
		case eq == yes:
			return "same"
		case lt == yes, gt == no:
			return "better"
		case nilPtr(st, start) == no && (gt == yes || lt == no):
			return "worse"
		}
		return ""
	}
	type skip struct {
		v  slot
		a  tri
		st *State
	}
	var skips []skip
	class := map[string]map[tri]bool{} // which versions a variable takes: allowed, excluded
	triMark := func(st *State, fr *frame, k string) tri {
		if inLoop(st, fr, k) {
			return triOf(st.Mark(k) == tTrue)
		}
		return unknown
	}
	exits := c.run(R, fn, nil, func(e *Eng, st *State) {
		c.versionCalls(e, "(pep440.Specifier).Match")
		model := e.hooks.Model
		e.hooks.Model = func(e *Eng, st *State, ev *CallEvent) ([]callOut, bool) {
			if ev.Fn == nil && strings.HasSuffix(ev.Name, ").Allow") && len(ev.Args) == 2 {
				return []callOut{{st, mkCall(allowCall, types.Typ[types.Bool], ev.Args...)}}, true
			}
			return model(e, st, ev)
		}
		look := func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
			for _, v := range slotsOf(header) {
				if start := st.Mark(v.key); start != nil && isVersionPtr(v.t) && !inLoop(st, fr, "rel:"+v.key) {
					if r := better(st, start, st.Mark("el")); r != "" {
						markIn(st, fr, "rel:"+v.key, mkStr(r))
					}
				}
			}
		}
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			carried(st, in)
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			el := elem(e, cond)
			if el != nil {
				markIn(st, fr, "el", el)
				switch {
				case cond.isCall("match") && cond.Args[0] == spec && cond.Args[1] == el:
					markIn(st, fr, "match", mkBool(val))
				case cond.isCall(allowCall) && cond.Args[0] == excl && cond.Args[1] == el:
					markIn(st, fr, "allow", mkBool(val))
				}
			}
			for _, h := range in.Parent().Blocks {
				look(e, st, fr, h)
			}
		}
		e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
			if listOver(e, st, fr, header) != list {
				return
			}
			el := st.Mark("el")
			m, a := triMark(st, fr, "match"), triMark(st, fr, "allow")
			if st.decide(mkEq(excl, tNil)) == yes {
				a = yes
			}
			for _, v := range slotsOf(header) {
				start, end := st.Mark(v.key), v.cur(st)
				if start == nil || end == nil || !isVersionPtr(v.t) {
					continue
				}
				if class[v.key] == nil {
					class[v.key] = map[tri]bool{}
				}
				r := better(st, start, el)
				if k := "rel:" + v.key; r == "" && inLoop(st, fr, k) {
					r, _ = st.Mark(k).str()
				}
				if end == start {
					if m != no && r != "worse" && r != "same" {
						skips = append(skips, skip{v, a, st.clone()})
					}
					continue
				}
				switch {
				case el == nil || st.load(end, v.t.Underlying().(*types.Pointer).Elem()) != el:
					c.iterBad(e, st, R, fr, header, "what is kept may not be one of the choices")
				case m != yes:
					c.iterBad(e, st, R, fr, header, "a version that does not match may be selected")
				case r != "better" && r != "same":
					c.iterBad(e, st, R, fr, header, "a lower version may replace a higher one")
				default:
					c.iterOK(e, R, fr, header)
				}
				class[v.key][a] = true
			}
			clearIn(st, "match", "allow", "el")
			for _, h := range header.Parent().Blocks {
				for _, v := range slotsOf(h) {
					clearIn(st, "rel:"+v.key)
				}
			}
		}
		e.hooks.LoopExit = func(e *Eng, st *State, fr *frame, header, from, to *ssa.BasicBlock) {
			if listOver(e, st, fr, header) != list {
				return
			}
			for _, v := range slotsOf(header) {
				if isVersionPtr(v.t) && v.cur(st) != nil && from == header {
					st.SetMark("end:"+v.key, v.cur(st))
				}
			}
		}
	})
	// a variable is for allowed versions, for excluded ones, or for all
	kind := func(key string) tri {
		switch cl := class[key]; {
		case cl[unknown] || cl[yes] && cl[no]:
			return unknown
		case cl[yes]:
			return yes
		}
		return no
	}
	for _, s := range skips {
		if len(class[s.v.key]) == 0 {
			continue
		}
		if k := kind(s.v.key); k == unknown || s.a == unknown || k == s.a {
			c.failAt(R, s.v.v.Pos(), fn, "a higher version than the one selected so far may be passed over", s.st)
		}
	}
	count := map[tri]int{}
	for key, cl := range class {
		if len(cl) > 0 {
			count[kind(key)]++
		}
	}
	if count[yes] != 1 || count[no]+count[unknown] != 1 {
		c.missing(R, "a loop that finds the highest allowed version, and one that finds the highest excluded one")
		return
	}
	for _, x := range exits {
		if x.kind != 0 {
			continue
		}
		var best [2]*Term
		for key, cl := range class {
			if v := x.st.Mark("end:" + key); v != nil && len(cl) > 0 {
				best[map[bool]int{true: 0, false: 1}[kind(key) == yes]] = v
			}
		}
		if best[0] == nil && best[1] != nil && count[unknown] == 1 && x.st.decide(mkEq(excl, tNil)) == yes {
			best[0], best[1] = best[1], tNil // all are allowed
		}
		res := x.res[0]
		ok := true
		for i := 0; i < 4; i++ {
			st := x.st.clone()
			feasible, want := true, tNil
			for j := 1; j >= 0; j-- {
				have := i&(1<<j) != 0
				if best[j] == nil {
					feasible = feasible && !have // not looked for: as if it could be there
					if want == tNil || j == 0 {
						want = nil
					}
					continue
				}
				feasible = feasible && st.assume(mkEq(best[j], tNil), !have)
				if have {
					want = best[j]
				}
			}
			if !feasible {
				continue
			}
			switch {
			case want == nil:
				ok = false
			case want == tNil:
				ok = ok && nilPtr(st, res) == yes
			default:
				ok = ok && (res == want || copyOf(st, res, want))
			}
		}
		if ok {
			c.okAt(R, "result")
		} else {
			c.failAt(R, x.pos, fn, "the result may not be the highest allowed version, or the highest excluded one if there is none", x.st)
		}
	}
}

// copyOf: p points to a copy of what q points to.
func copyOf(st *State, p, q *Term) bool {
	if p == nil || p.Op != "alloc" || p.T == nil {
		return false
	}
	pt, ok := p.T.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	v := st.load(p, pt.Elem())
	return v != nil && (v == st.load(q, pt.Elem()) || v.Op == "deref" && v.Args[0] == q)
}

// excluders: ExcludePreReleases, MultiExcluder
func (c *Ctx) excluders(R string, pre, multi *ssa.Function) {
	if pre == nil || multi == nil {
		c.missing(R, "ExcludePreReleases.Allow, MultiExcluder.Allow")
		return
	}
	p, v := pre.Params[0], symParam(pre.Params[1])
	list := fieldT(symParam(p), p.Type(), "AllowList")
	side := func() verSide {
		pt := pre.Params[1].Type().Underlying().(*types.Struct).Field(0).Type()
		return verSide{mkField(v, "PublicVersion", pt), v, pt, pre.Params[1].Type()}
	}()
	q := quantified{rule: R, fn: pre, list: list, exists: true, what: "a pre-release may be allowed", unit: "listed version"}
	q.pred = func(t *Term) bool {
		if t.Op != "bin" || t.Aux != "==" || t.Args[1] != tZero {
			return false
		}
		n, a := calleeOf(t.Args[0])
		return n == cmpCall && len(a) == 2 && (a[1] == v && a[0].Op == "idx" && a[0].Args[0] == list || a[0] == v && a[1].Op == "idx" && a[1].Args[0] == list)
	}
	q.model = func(e *Eng, st *State, ev *CallEvent) ([]callOut, bool) {
		if ev.Fn != nil && pkgDir(ev.Fn) == pep440Dir && ev.Fn.Name() == "Cmp" && len(ev.Args) == 2 {
			return []callOut{{st, mkCall(cmpCall, types.Typ[types.Int], ev.Args...)}}, true
		}
		return nil, false
	}
	q.already = func(st *State) tri {
		noPre, _ := side.opt(st, "Pre")
		noDev, _ := side.opt(st, "Dev")
		return and3(not3(noPre), not3(noDev))
	}
	c.quantify(q)
	m, w := symParam(multi.Params[0]), symParam(multi.Params[1])
	q = quantified{rule: R, fn: multi, list: m, what: "a version may be allowed by several exclusions", unit: "exclusion"}
	q.pred = func(t *Term) bool {
		n, a := calleeOf(t)
		return strings.HasSuffix(n, ").Allow") && len(a) == 2 && a[1] == w && a[0].Op == "idx" && a[0].Args[0] == m
	}
	c.quantify(q)
}

const pep592Dir = "pkg/python/pep592"

// parsedName: t is what bdist.ParseFilename returns (result i) for the text of a link; returns the link.
func parsedName(t *Term, i int) *Term {
	s, k := t.siteOf()
	if s == nil || k != i || !strings.HasSuffix(t.siteName(), "bdist.ParseFilename") {
		return nil
	}
	x := s.Args[0]
	if x.Op == "fld" && x.Aux == "Text" {
		x = x.Args[0]
		if x.Op == "fld" && x.Aux == "Link" {
			x = x.Args[0]
		}
		return x
	}
	return nil
}

// nameField: t is a field of the parsed name of a link; returns the link.
func nameField(t *Term, field string) *Term {
	if t == nil || t.Op != "fld" || t.Aux != field {
		return nil
	}
	x := t.Args[0]
	if x.Op != "deref" {
		return nil
	}
	return parsedName(x.Args[0], 0)
}

// versionText: the version whose printed form t is.
func versionText(t *Term) *Term {
	if n, a := calleeOf(t); n == "stringer" || strings.HasSuffix(n, "Version).String") {
		if len(a) == 1 {
			return a[0]
		}
	}
	return nil
}

// yankedT: t tells whether a link is yanked; returns the link.
func yankedT(t *Term) *Term {
	if t.Op == "lookupok" && t.Args[1] == mkStr("data-yanked") {
		x := t.Args[0]
		if x.Op == "fld" && x.Aux == "DataAttrs" {
			x = x.Args[0]
			if x.Op == "fld" && x.Aux == "Link" {
				x = x.Args[0]
			}
			return x
		}
	}
	return nil
}

// wheelYanked: pep592
func (c *Ctx) wheelYanked(R string, is, excl *ssa.Function) {
	if is == nil || excl == nil {
		c.missing(R, "pep592.IsYanked, pep592.ExcludeYanked")
		return
	}
	link := symParam(is.Params[0])
	for _, x := range c.run(R, is, nil, func(e *Eng, st *State) {}) {
		if x.kind != 0 {
			continue
		}
		if t := x.res[0]; yankedT(t) == link {
			c.okAt(R, "IsYanked")
			continue
		}
		ok := false
		for f, v := range x.st.facts {
			if yankedT(f) == link && x.res[0] == mkBool(v) {
				ok = true
			}
		}
		if ok {
			c.okAt(R, "IsYanked")
		} else {
			c.failAt(R, x.pos, is, "a file is not said to be yanked exactly if its link has the attribute data-yanked", x.st)
		}
	}
	list := symParam(excl.Params[0])
	var eng *Eng
	exits := c.run(R, excl, nil, func(e *Eng, st *State) {
		e.mergeAt = 3000
		eng = e
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			if el := yankedT(cond); el != nil {
				markIn(st, fr, "yanked", mkBool(val))
				markIn(st, fr, "el", el)
			}
			if cond.Op == "bin" && cond.Aux == "==" && cond.Args[1].isNil() && parsedName(cond.Args[0], 1) != nil {
				markIn(st, fr, "valid", mkBool(val))
				markIn(st, fr, "el", parsedName(cond.Args[0], 1))
			}
		}
		e.hooks.MapUpdate = func(e *Eng, st *State, fr *frame, m, k, v *Term, in ssa.Instruction) {
			markIn(st, fr, "put", k)
			st.SetMark("set", m)
		}
		e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
			if listOver(e, st, fr, header) != list {
				return
			}
			y, v := triIn(st, fr, "yanked"), triIn(st, fr, "valid")
			el := st.Mark("el")
			has := el != nil && el.Op == "idx" && el.Args[0] == list && e.ascending(el.Args[1])
			switch {
			case inLoop(st, fr, "put"):
				k := st.Mark("put")
				switch {
				case versionText(k) == nil || !has || nameField(versionText(k), "Version") != el:
					c.iterBad(e, st, R, fr, header, "what is excluded may not be the version of the file")
				case y != yes:
					c.iterBad(e, st, R, fr, header, "the version of a file that is not yanked may be excluded")
				case v != yes:
					c.iterBad(e, st, R, fr, header, "the version of a file whose name is not valid is used")
				default:
					c.iterOK(e, R, fr, header)
				}
			case y == no || v == no:
			default:
				c.iterBad(e, st, R, fr, header, "the version of a yanked file may not be excluded")
			}
			clearIn(st, "yanked", "valid", "put", "el")
		}
		e.hooks.LoopExit = func(e *Eng, st *State, fr *frame, header, from, to *ssa.BasicBlock) {
			if l := listOver(e, st, fr, header); from != header && l != nil && l == list {
				st.SetMark("left", tTrue)
			}
		}
	})
	tv := tt.mkT("sym", "version!", excl.Prog.ImportedPackage(modPath+"/"+pep440Dir).Pkg.Scope().Lookup("Version").Type())
	for _, x := range exits {
		if x.kind != 0 {
			continue
		}
		eng.applyHooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			if cond.Op == "lookupok" && versionText(cond.Args[1]) == tv {
				st.SetMark("has", tt.mk("tuple", "", cond.Args[0], mkBool(val)))
			}
		}
		for _, y := range eng.methodExits(x.st, x.res[0], "Allow", tv) {
			set := y.st.Mark("set")
			if y.st.Marked("left") {
				c.failAt(R, x.pos, excl, "files may be passed over after one of them", x.st)
			}
			for _, v := range []bool{true, false} {
				st := y.st.clone()
				if !st.assume(y.res[0], v) {
					continue
				}
				ok := false
				if h := y.st.Mark("has"); h != nil && (set == nil || mapBase(h.Args[0]) == mapBase(set)) && h.Args[1] == mkBool(!v) {
					ok = true
				}
				for f, fv := range st.facts {
					if f.Op == "lookupok" && versionText(f.Args[1]) == tv && (set == nil || mapBase(f.Args[0]) == mapBase(set)) && fv != v {
						ok = true
					}
				}
				if ok || set == nil && v {
					c.okAt(R, "Allow")
				} else {
					c.failAt(R, y.pos, excl, "what is allowed is not exactly what is not among the versions of yanked files", st)
				}
			}
		}
	}
}

// ruleWheel: Client.SelectWheel
func (c *Ctx) ruleWheel(RF, RS, RP string, fn *ssa.Function) {
	if fn == nil {
		c.missing(RF, "Client.SelectWheel")
		return
	}
	cl := fn.Params[0]
	tags := fieldT(symParam(cl), cl.Type(), "SupportedTags")
	spec := symParam(fn.Params[len(fn.Params)-1])
	listed := func(t *Term) bool { // the links of the package
		s, i := t.siteOf()
		return s != nil && i == 0 && strings.HasSuffix(t.siteName(), ").ListPackageFiles") && s.Args[len(s.Args)-1] == symParam(fn.Params[2])
	}
	element := func(e *Eng, t *Term, of func(*Term) bool) bool {
		return t != nil && t.Op == "idx" && of(t.Args[0]) && e.ascending(t.Args[1])
	}
	selected := func(t *Term) bool {
		n, a := calleeOf(t)
		return strings.HasSuffix(n, "Specifier).Select") && a[0] == spec
	}
	// the links of the selected version
	ofVersion := func(t *Term) bool {
		if t.Op != "lookup" {
			return false
		}
		v := versionText(t.Args[1])
		return v != nil && v.Op == "deref" && selected(v.Args[0])
	}
	asked := func(t *Term, what string) *Term { // Supports(tag), Preference(tag) of the name of a link
		n, a := calleeOf(t)
		if !strings.HasSuffix(n, "Installer)."+what) || len(a) != 2 || a[0] != tags {
			return nil
		}
		return nameField(a[1], "CompatibilityTag")
	}
	var eng *Eng
	lists := map[*Term]string{}    // variables of the loop over all links: what they collect
	minima := map[*Term]bool{}     // variables of a loop over the links of a version that collect the preferred ones
	rankVar := map[*ssa.Phi]bool{} // variables that hold the lowest rank
	exits := c.run(RF, fn, nil, func(e *Eng, st *State) {
		e.mergeAt = 3000
		eng = e
		rel := func(st *State, fr *frame, p, start *Term) string {
			switch {
			case start.Op == "const" && start == tZero || st.decide(mkEq(start, tZero)) == yes:
				return "first"
			case st.decide(mkLt(p, start)) == yes, st.decide(mkLt(start, p)) == no && st.decide(mkEq(p, start)) == no:
				return "less"
			case st.decide(mkEq(p, start)) == yes:
				return "same"
			case st.decide(mkLt(start, p)) == yes, st.decide(mkLt(p, start)) == no && st.decide(mkEq(p, start)) == no:
				return "more"
			}
			return ""
		}
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			carried(st, in)
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			if el := asked(cond, "Supports"); el != nil {
				markIn(st, fr, "supported", mkBool(val))
				markIn(st, fr, "el", el)
			}
			if cond.Op == "bin" && cond.Aux == "==" && cond.Args[1].isNil() && parsedName(cond.Args[0], 1) != nil {
				markIn(st, fr, "valid", mkBool(val))
				markIn(st, fr, "el", parsedName(cond.Args[0], 1))
			}
			if st.Mark("rank") != nil {
				for _, h := range fr.fn.Blocks {
					for _, phi := range headerPhis(h) {
						if start := st.Mark(startKey(phi)); start != nil && isInt(phi.Type()) {
							if r := rel(st, fr, st.Mark("rank"), start); r != "" && !inLoop(st, fr, "rel:"+startKey(phi)) {
								markIn(st, fr, "rel:"+startKey(phi), mkStr(r))
							}
						}
					}
				}
			}
		}
		e.hooks.MapUpdate = func(e *Eng, st *State, fr *frame, m, k, v *Term, in ssa.Instruction) {
			if isSliceOf(orAny(v.T), isLinkT) || v.Op == "append" {
				markIn(st, fr, "put", k)
				st.SetMark("value", v)
			}
		}
		e.hooks.Post = func(e *Eng, st *State, ev *CallEvent) {
			if ev.Res != nil && asked(ev.Res, "Preference") != nil {
				markIn(st, ev.Frame, "rank", ev.Res)
				st.assume(mkEq(ev.Res, tZero), false) // C38
			}
			if strings.HasSuffix(ev.Name, "Specifier).Select") && len(ev.Args) == 3 && ev.Args[0] == spec {
				st.SetMark("asked", tTrue)
				c.selectArgs(RS, e, st, ev, lists)
			}
		}
		e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
			over := listOver(e, st, fr, header)
			switch {
			case over == nil:
				return
			case listed(over):
				v, s := triIn(st, fr, "valid"), triIn(st, fr, "supported")
				el := st.Mark("el")
				take := and3(v, s)
				if el == nil || !element(e, el, listed) {
					c.iterBad(e, st, RF, fr, header, "a file may be passed over")
				}
				done := map[string]bool{}
				for _, phi := range headerPhis(header) {
					start, end := st.Mark(startKey(phi)), st.regs[phi]
					if start == nil || end == nil {
						continue
					}
					what := ""
					switch {
					case isSliceOf(phi.Type(), isVersionT):
						what = "version"
					case isSliceOf(phi.Type(), isLinkT):
						what = "file"
					default:
						continue
					}
					xs, ok := appended(start, end)
					switch {
					case !ok || len(xs) > 1:
						continue
					case len(xs) == 0:
						if take != no {
							done["no "+what] = true
						}
						continue
					case take != yes:
						c.iterBad(e, st, RF, fr, header, "a "+what+" may be considered although the name of the file is not valid or the platform is not supported")
					case what == "version" && nameField(xs[0], "Version") != el, what == "file" && xs[0] != el:
						c.iterBad(e, st, RF, fr, header, "the "+what+" that is considered may not be that of the file")
					default:
						done[what] = true
					}
					if start.Op == "sym" {
						lists[start] = what
					}
				}
				if inLoop(st, fr, "put") {
					k, val := st.Mark("put"), st.Mark("value")
					switch {
					case take != yes:
						c.iterBad(e, st, RF, fr, header, "a file may be considered although its name is not valid or the platform is not supported")
					case versionText(k) == nil || nameField(versionText(k), "Version") != el:
						c.iterBad(e, st, RF, fr, header, "a file may be filed under another version than its own")
					case !(isOnly(val, el) && el != nil && el.Args[1] == tZero) && (val.Op != "append" || len(val.Args) != 2 || val.Args[0].Op != "lookup" || versionText(val.Args[0].Args[1]) != versionText(k) || !isOnly(val.Args[1], el)):
						c.iterBad(e, st, RF, fr, header, "a file of the same version may be lost")
					default:
						done["put"] = true
					}
				}
				if take == yes {
					switch {
					case !done["version"] || done["no version"]:
						c.iterBad(e, st, RF, fr, header, "the version of a file that is supported may not be considered")
					case done["no file"]:
						c.iterBad(e, st, RF, fr, header, "a file that is supported may be left out")
					case !done["put"]:
						c.iterBad(e, st, RF, fr, header, "a file that is supported may not be considered")
					default:
						c.iterOK(e, RF, fr, header)
					}
				} else if take == unknown {
					c.iterBad(e, st, RF, fr, header, "a file may be passed over")
				}
				clearIn(st, "valid", "supported", "put", "el")
			case ofVersion(over):
				var ranks []*ssa.Phi
				for _, phi := range headerPhis(header) {
					if isInt(phi.Type()) && st.Mark(startKey(phi)) != nil && st.regs[phi] != nil && st.Mark("rank") != nil {
						start := st.Mark(startKey(phi))
						rankVar[phi] = rankVar[phi] || st.regs[phi] == st.Mark("rank") && start != st.regs[phi]
						if rankVar[phi] {
							ranks = append(ranks, phi)
						}
					}
				}
				for _, phi := range headerPhis(header) {
					start, end := st.Mark(startKey(phi)), st.regs[phi]
					if start == nil || end == nil || !isSliceOf(phi.Type(), isLinkT) || len(ranks) == 0 {
						continue
					}
					rk := ranks[0]
					p := st.Mark("rank")
					el := asked(p, "Preference")
					r := rel(st, fr, p, st.Mark(startKey(rk)))
					if k := "rel:" + startKey(rk); inLoop(st, fr, k) {
						r, _ = st.Mark(k).str()
					}
					els, _ := e.elems(st, end)
					fresh := end.Op == "append" && isEmptyList(e, st, end.Args[0]) && len(end.Args) == 2 && isOnly(end.Args[1], el) || len(els) == 1 && els[0] == el
					xs, isApp := appended(start, end)
					msg := ""
					switch r {
					case "first", "less":
						if !fresh || st.regs[rk] != p {
							msg = "a file with a more preferred tag may not replace the others"
						}
					case "same":
						if !isApp || len(xs) != 1 || xs[0] != el || st.regs[rk] != p && st.regs[rk] != st.Mark(startKey(rk)) {
							msg = "a file with an equally preferred tag may be lost"
						}
					case "more":
						if end != start || st.regs[rk] != st.Mark(startKey(rk)) {
							msg = "a file with a less preferred tag may be taken"
						}
					default:
						msg = "a file may be taken without comparing how preferred its tag is"
					}
					if msg == "" && !element(e, el, func(l *Term) bool { return l == over }) {
						msg = "the preference may not be that of the file"
					}
					if msg != "" {
						c.iterBad(e, st, RP, fr, header, msg)
					} else {
						c.iterOK(e, RP, fr, header)
					}
					if start.Op == "sym" {
						minima[start] = true
					}
				}
				clearIn(st, "rank")
				for _, phi := range headerPhis(header) {
					clearIn(st, "rel:"+startKey(phi))
				}
			}
		}
		e.hooks.LoopExit = func(e *Eng, st *State, fr *frame, header, from, to *ssa.BasicBlock) {
			if l := listOver(e, st, fr, header); from != header && l != nil && listed(l) {
				st.SetMark("left", tTrue)
			}
		}
	})
	for _, x := range exits {
		if x.kind != 0 {
			continue
		}
		if x.st.Marked("left") && x.st.Marked("asked") {
			c.failAt(RF, x.pos, fn, "files may be passed over after one of them", x.st)
		}
		if errState(x.st, x.res[1]) == no {
			continue
		}
		res := x.st.load(x.res[0], nil)
		if x.res[0].isNil() || res == nil || res.Op != "idx" {
			c.failAt(RP, x.pos, fn, "what is returned may not be one of the files", x.st)
			continue
		}
		l := res.Args[0]
		sorted := false
		for {
			s, _ := l.siteOf()
			if s == nil || !strings.HasPrefix(l.siteName(), "sort.") && !strings.HasPrefix(l.siteName(), "slices.") {
				break
			}
			sorted = true
			l = s.Args[0]
		}
		one := x.st.decide(mkEq(mkCall("len", types.Typ[types.Int], l), tInt1)) == yes
		switch {
		case ofVersion(l) && (one || sorted) && res.Args[1] == tZero, minima[l]:
			c.okAt(RP, c.P.pos(x.pos))
		case ofVersion(l):
			c.failAt(RP, x.pos, fn, "the first of several files may be taken without looking at how preferred their tags are", x.st)
		case listed(l) || lists[l] != "":
			c.failAt(RP, x.pos, fn, "a file may be taken that is not one of the selected version", x.st)
		}
	}
	_ = eng
}

var tInt1 = mkInt(1)

func isEmptyList(e *Eng, st *State, l *Term) bool {
	if l.Op == "subslice" {
		return boundsAreEmpty(l)
	}
	els, ok := e.elems(st, l)
	return ok && len(els) == 0
}

func boundsAreEmpty(l *Term) bool { return len(l.Args) == 3 && l.Args[1] == l.Args[2] }

func isOnly(l, el *Term) bool { return l.Op == "list" && len(l.Args) == 1 && l.Args[0] == el }

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// selectArgs: what the version is selected from, and with which exclusions.
func (c *Ctx) selectArgs(R string, e *Eng, st *State, ev *CallEvent, lists map[*Term]string) {
	pos := posOf(ev.Instr)
	fn := ev.Instr.Parent()
	vs := ev.Args[1]
	if lists[vs] != "version" && !vs.isNil() && !(vs.Op == "append" || vs.Op == "list") {
		c.failAt(R, pos, fn, "the version is not selected from the versions of the files", st)
		return
	}
	x := unbox(ev.Args[2])
	els, ok := e.elems(st, x)
	if !ok || ev.Args[2].isNil() {
		els = []*Term{ev.Args[2]}
	}
	pre, yank := false, false
	for _, y := range els {
		if n, a := calleeOf(unbox(y)); strings.HasSuffix(n, "pep592.ExcludeYanked") {
			if lists[a[0]] == "file" || a[0].isNil() || a[0].Op == "append" || a[0].Op == "list" {
				yank = true
			}
			continue
		}
		if y.Op == "iface" && y.T != nil && strings.HasSuffix(y.T.String(), "ExcludePreReleases") {
			if l := valField(unbox(y), "AllowList"); l != nil && l.isNil() || unbox(y).Op == "zero" {
				pre = true
			}
			continue
		}
		c.failAt(R, pos, fn, "versions are excluded for other reasons than being pre-releases or yanked", st)
		return
	}
	switch {
	case !pre:
		c.failAt(R, pos, fn, "pre-releases may not be excluded", st)
	case !yank:
		c.failAt(R, pos, fn, "the versions of yanked files may not be excluded", st)
	default:
		c.okAt(R, "exclusions")
	}
}

func triIn(st *State, fr *frame, k string) tri {
	if inLoop(st, fr, k) {
		return triOf(st.Mark(k) == tTrue)
	}
	return unknown
}

// mapBase: the map that a term denotes, at whatever time.
func mapBase(m *Term) *Term {
	for len(m.Args) > 0 && m.Op != "fld" && m.Op != "deref" {
		m = m.Args[len(m.Args)-1]
	}
	return m
}

func init() { propRules["C22"] = ruleC22 }
func ruleC22(c *Ctx) {
	c.rule("C22.select", "the highest matching version that is allowed is selected, or the highest that matches if none is allowed, or none", 2)
	c.rule("C22.exclude", "pre-releases that are not listed are excluded; versions are allowed by all of several exclusions or excluded", 2)
	c.rule("C22.yanked", "a file is yanked if its link has the attribute data-yanked; exactly the versions of yanked files are excluded", 3)
	c.rule("C22.files", "exactly the files with valid names whose tags are supported are considered, each under its version", 1)
	c.rule("C22.ask", "the version is selected from those of the files that are considered, with pre-releases and the versions of yanked files excluded", 1)
	c.rule("C22.prefer", "a file of the selected version whose tag is most preferred is returned", 2)
	P := c.P
	c.ruleSelect("C22.select", P.fn(pep440Dir, "Specifier.Select"))
	c.excluders("C22.exclude", P.fn(pep440Dir, "ExcludePreReleases.Allow"), P.fn(pep440Dir, "MultiExcluder.Allow"))
	c.wheelYanked("C22.yanked", P.fn(pep592Dir, "IsYanked"), P.fn(pep592Dir, "ExcludeYanked"))
	c.ruleWheel("C22.files", "C22.ask", "C22.prefer", P.fn("pkg/python/pypa/simple_repo_api", "Client.SelectWheel"))
}
