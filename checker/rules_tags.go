package main

// PEP 425 compatibility tags: compressed sets, their intersection, and the preference of an installer.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isTagT(t types.Type) bool {
	return t != nil && hasField(t, "Python") && hasField(t, "ABI") && hasField(t, "Platform")
}

func ruleC38(c *Ctx) {
	c.rule("C38.expand", "expanding a compressed tag yields every combination of its dot-separated parts", 4)                   // a loop for each part, and the result
	c.rule("C38.match", "two lists of tags intersect exactly if an expanded tag of one equals an expanded tag of the other", 6) // a loop for each list and each expansion, and the results
	c.rule("C38.supports", "an installer supports a tag exactly if its list intersects that tag", 1)
	c.rule("C38.prefer", "the preference of a tag is one more than the position of the first supported tag that it intersects, or than the length of the list", 3)
	c.rule("C38.parse", "the text of a tag is its three parts joined by dashes, and only three dash-separated parts are read as a tag", 4)
	const pkg = "pkg/python/pep425"
	get := func(R, n string) *ssa.Function {
		fn := c.P.fn(pkg, n)
		if fn == nil {
			c.missing(R, n+" of tags")
		}
		return fn
	}
	if fn := get("C38.expand", "Tag.Decompress"); fn != nil {
		c.tagExpand("C38.expand", fn)
	}
	if fn := get("C38.match", "Intersect"); fn != nil {
		c.tagIntersect("C38.match", fn)
	}
	if fn := get("C38.supports", "Installer.Supports"); fn != nil {
		c.tagSupports("C38.supports", fn)
	}
	if fn := get("C38.prefer", "Installer.Preference"); fn != nil {
		c.tagPrefer("C38.prefer", fn)
	}
	c.tagText("C38.parse", get("C38.parse", "ParseTag"), get("C38.parse", "Tag.String"), get("C38.parse", "Tag.MarshalText"), get("C38.parse", "Tag.UnmarshalText"))
}

func init() { propRules["C38"] = ruleC38 }

var tagFields = []string{"Python", "ABI", "Platform"}

// splitOf: t is the list of all parts of a field of x between dots.
func dotParts(t, x *Term, field, sep string) bool {
	if !t.isCall("strings.Split") && !(t.isCall("strings.SplitN") && isNegative(t.Args[2])) {
		return false
	}
	return t.Args[1] == mkStr(sep) && t.Args[0] == fieldT(x, x.T, field)
}

func isNegative(t *Term) bool {
	n, ok := t.intv()
	return ok && n < 0
}

// nest: loops over lists, one within another. A loop is well-formed if each iteration has either done its work (done) or
// run a further loop of the nest to its end.
type nest struct {
	c    *Ctx
	rule string
	kind func(st *State, l *Term) string // which loop of the nest is over list l; "" if none
	done func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) bool
	msg  string
}

// branch is to be called from the Branch hook.
func (n *nest) branch(e *Eng, st *State, fr *frame, val bool, in ssa.Instruction) {
	if l := ranThrough(e, st, fr, in, val); l != nil {
		if k := n.kind(st, l); k != "" {
			st.SetMark("ran", mkStr(k))
			st.SetMark("ran:"+k, tTrue)
			st.SetMark("open:"+k, tFalse)
		}
	} else if l := ranThrough(e, st, fr, in, !val); l != nil {
		if k := n.kind(st, l); k != "" {
			st.SetMark("open:"+k, tTrue)
		}
	}
}

// ended: no loop of the nest has been left early.
func (n *nest) ended(st *State, kinds ...string) bool {
	ran := false
	for _, k := range kinds {
		if st.Mark("open:"+k) == tTrue {
			return false
		}
		ran = ran || st.Marked("ran:"+k)
	}
	return ran
}

// back is to be called from the BackEdge hook.
func (n *nest) back(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
	k := ""
	if _, l := listTest(e, st, fr, header); l != nil {
		k = n.kind(st, l)
	}
	if k == "" {
		return
	}
	ran := st.Mark("ran")
	if n.done(e, st, fr, header) || ran != nil && ran != mkStr(k) && ran != tEmpty {
		n.c.iterOK(e, n.rule, fr, header)
	} else {
		n.c.iterBad(e, st, n.rule, fr, header, n.msg)
	}
	st.SetMark("ran", tEmpty)
}

func (c *Ctx) tagExpand(R string, fn *ssa.Function) {
	t := symParam(fn.Params[0])
	isTag := func(e *Eng, x *Term) bool {
		if !isTagT(x.T) {
			return false
		}
		for _, f := range tagFields {
			p := fieldT(x, x.T, f)
			if p.Op != "idx" || !dotParts(p.Args[0], t, f, ".") || !e.ascending(p.Args[1]) {
				return false
			}
		}
		return true
	}
	n := &nest{c: c, rule: R, msg: "a combination of the parts may be missing"}
	n.kind = func(st *State, l *Term) string {
		for _, f := range tagFields {
			if dotParts(l, t, f, ".") {
				return f
			}
		}
		return ""
	}
	n.done = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) bool {
		for _, s := range slotsOf(header) {
			start, end := st.Mark(s.key), s.cur(st)
			if start == nil || end == nil || end.T == nil || !isSliceOf(end.T, isTagT) {
				continue
			}
			if l, ok := appended(start, end); ok && len(l) == 1 && isTag(e, l[0]) {
				return true
			}
		}
		return false
	}
	var eng *Eng
	exits := c.run(R, fn, nil, func(e *Eng, st *State) {
		eng = e
		e.mergeAt = 3000
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			n.branch(e, st, fr, val, in)
			carried(st, in)
		}
		e.hooks.BackEdge = n.back
	})
	for _, x := range exits {
		if x.kind != 0 {
			continue
		}
		ok := zeroParts(x.st) || n.ended(x.st, tagFields...)
		// nothing but combinations is in the result
		seen := map[*Term]bool{}
		var only func(l *Term) bool
		only = func(l *Term) bool {
			if seen[l] {
				return true
			}
			seen[l] = true
			switch {
			case l.isNil() || isEmptyList(eng, x.st, l):
				return true
			case l.Op == "list":
				for _, a := range l.Args {
					if !isTag(eng, a) {
						return false
					}
				}
				return true
			case l.Op == "append":
				for _, a := range l.Args {
					if !only(a) {
						return false
					}
				}
				return true
			case l.Op == "sym" && len(eng.inflow[l]) > 0:
				for in := range eng.inflow[l] {
					if !only(in) {
						return false
					}
				}
				return true
			}
			return false
		}
		if !ok {
			c.failAt(R, x.pos, fn, "the combinations may not all have been made", x.st)
		} else if !only(x.res[0]) {
			c.failAt(R, x.pos, fn, "something other than a combination of the parts may be in the result", x.st)
		} else {
			c.okAt(R, "result")
		}
	}
}

// zeroParts: one of the lists of parts is empty, which does not happen.
func zeroParts(st *State) bool {
	for f, v := range st.facts {
		if v && f.Op == "bin" && f.Aux == "==" && f.Args[0].isCall("len") && f.Args[0].Args[0].isCall("strings.Split") && f.Args[1] == tZero {
			return true
		}
	}
	return false
}

func (c *Ctx) tagIntersect(R string, fn *ssa.Function) {
	lists := []*Term{symParam(fn.Params[0]), symParam(fn.Params[1])}
	var eng *Eng
	isExp := func(t *Term) *Term {
		if n, a := calleeOf(t); n == "expand" {
			return a[0]
		}
		return nil
	}
	// exp: l is the expansion of an element of the list that is returned
	exp := func(l *Term) int {
		if t := isExp(l); t != nil && t.Op == "idx" && eng.ascending(t.Args[1]) {
			for i, p := range lists {
				if t.Args[0] == p {
					return i
				}
			}
		}
		return -1
	}
	// flat: l holds the expansions of elements of the list that is returned
	flat := func(l *Term) int {
		r, bad := -1, false
		seen := map[*Term]bool{}
		var rec func(l *Term)
		rec = func(l *Term) {
			if seen[l] {
				return
			}
			seen[l] = true
			if i := exp(l); i >= 0 {
				bad = bad || r >= 0 && r != i
				r = i
				return
			}
			switch {
			case l.isNil(), l.Op == "list" && len(l.Args) == 0:
			case l.Op == "append":
				for _, a := range l.Args {
					rec(a)
				}
			case l.Op == "sym" && len(eng.inflow[l]) > 0:
				for in := range eng.inflow[l] {
					rec(in)
				}
			default:
				bad = true
			}
		}
		if rec(l); bad {
			return -1
		}
		return r
	}
	// side: the list of whose expansions x is an element
	side := func(x *Term) int {
		if x.Op == "idx" && eng.ascending(x.Args[1]) {
			if i := exp(x.Args[0]); i >= 0 {
				return i
			}
			return flat(x.Args[0])
		}
		return -1
	}
	other := func(cond *Term) bool {
		a, b := side(cond.Args[0]), side(cond.Args[1])
		return a >= 0 && b >= 0 && a != b
	}
	// found: t is true only if an equal pair has been found; reset: a variable of a loop holds something else than its
	// last value, or that a pair has been found
	reset := false
	found := func(t *Term) bool {
		for _, in := range eng.sources(t) {
			if in != tTrue && in != tFalse {
				return false
			}
		}
		return !reset && len(eng.inflow[t]) > 0
	}
	sets := map[*Term]int{} // sets of the expanded tags of a list
	kinds := map[string]bool{}
	n := &nest{c: c, rule: R, msg: "a pair of tags may be passed over"}
	n.kind = func(st *State, l *Term) string {
		for i, p := range lists {
			if l == p {
				return "l" + itoa(i)
			}
		}
		if i := exp(l); i >= 0 {
			return "x" + itoa(i)
		}
		if i := flat(l); i >= 0 {
			return "x" + itoa(i)
		}
		return ""
	}
	n.done = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) bool {
		r := inLoop(st, fr, "differ")
		equal := st.Marked("equal")
		for _, s := range slotsOf(header) {
			start, end := st.Mark(s.key), s.cur(st)
			if start == nil || end == nil || start == end {
				continue
			}
			if end.T != nil && isBool(end.T) {
				if end == tTrue && equal {
					r = true
				} else if equal || end != tFalse || st.decide(start) != no { // else: it has not been set yet
					if end.Op != "sym" {
						reset = true
					}
				}
			}
			if l, ok := appendedLists(start, end); ok && len(l) == 1 && exp(l[0]) >= 0 {
				r = true // flat
			}
		}
		if equal && r {
			st.ClearMark("equal")
		}
		if m := st.Mark("added"); m != nil {
			r = r || side(m) >= 0
		}
		clearIn(st, "differ", "added", "eq")
		if _, l := listTest(e, st, fr, header); l != nil {
			kinds[n.kind(st, l)] = true
		}
		return r
	}
	exits := c.run(R, fn, nil, func(e *Eng, st *State) {
		eng = e
		e.mergeAt = 3000
		e.hooks.Model = func(e *Eng, st *State, ev *CallEvent) ([]callOut, bool) {
			if ev.Fn != nil && ev.Fn.Name() == "Decompress" && len(ev.Args) == 1 && isTagT(ev.Args[0].T) {
				return []callOut{{st, mkCall("expand", types.NewSlice(ev.Args[0].T), ev.Args...)}}, true
			}
			return nil, false
		}
		e.hooks.MapUpdate = func(e *Eng, st *State, fr *frame, m, k, v *Term, in ssa.Instruction) {
			if i := side(k); i >= 0 && v != tFalse {
				markIn(st, fr, "added", k)
				if j, ok := sets[mapBase(m)]; ok && i != j {
					i = -1
				}
				sets[mapBase(m)] = i
			} else {
				sets[mapBase(m)] = -1
			}
		}
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			n.branch(e, st, fr, val, in)
			carried(st, in)
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			pair := false
			switch {
			case (cond.Op == "lookupok" || cond.Op == "lookup") && isBool(cond.T) && len(cond.Args) >= 2:
				i, ok := sets[mapBase(cond.Args[0])]
				pair = ok && i >= 0 && side(cond.Args[1]) == 1-i
				for _, k := range []string{"open:l", "open:x"} {
					pair = pair && st.Mark(k+itoa(i)) != tTrue
				}
			case cond.Op == "bin" && cond.Aux == "==" && other(cond):
				pair = true
			case cond.Op == "bin" && cond.Aux == "==":
				// field by field
				a, b := cond.Args[0], cond.Args[1]
				for _, f := range tagFields {
					for _, ab := range [][2]*Term{{tagOf(a, f), tagOf(b, f)}, {tagOf(b, f), tagOf(a, f)}} {
						if ab[0] == nil || ab[1] == nil || !other(mkEq(ab[0], ab[1])) {
							continue
						}
						p := mkEq(ab[0], ab[1])
						if !val {
							markIn(st, fr, "differ", p)
							return
						}
						all := true
						for _, g := range tagFields {
							x, y := fieldT(ab[0], ab[0].T, g), fieldT(ab[1], ab[1].T, g)
							all = all && (f == g || st.decide(mkEq(x, y)) == yes)
						}
						if all {
							st.SetMark("equal", tTrue)
						}
						return
					}
				}
			}
			if pair && val {
				st.SetMark("equal", tTrue)
			} else if pair {
				markIn(st, fr, "differ", cond)
			}
		}
		e.hooks.BackEdge = n.back
	})
	for _, k := range []string{"l0", "x0", "l1", "x1"} {
		if kinds[k] {
			c.okAt(R, "loop "+k)
		}
	}
	for _, x := range exits {
		if x.kind != 0 {
			continue
		}
		for _, v := range []bool{true, false} {
			st := x.st.clone()
			if !st.assume(x.res[0], v) {
				continue
			}
			all := n.ended(st, "l0", "l1", "x0", "x1")
			switch {
			case v && !st.Marked("equal") && !found(x.res[0]):
				c.failAt(R, x.pos, fn, "lists of tags may intersect although no expanded tag of one is among those of the other", st)
			case !v && (st.Marked("equal") || !all):
				c.failAt(R, x.pos, fn, "lists of tags may not intersect although an expanded tag of one may be among those of the other", st)
			default:
				c.okAt(R, "result "+mkBool(v).Aux)
			}
		}
	}
}

// tagOf: the tag whose field t is.
func tagOf(t *Term, field string) *Term {
	if t.Op == "fld" && t.Aux == field && isTagT(t.Args[0].T) {
		return t.Args[0]
	}
	return nil
}

// appendedLists: the lists that end has been extended by since start.
func appendedLists(start, end *Term) ([]*Term, bool) {
	switch {
	case end.Op == "append" && end.Args[0] == start:
		return end.Args[1:], true
	case start.isNil() && end.Op == "append":
		return end.Args, true
	case start.isNil():
		return []*Term{end}, true
	}
	return nil, false
}

// isMatch: t tells whether list l (nil: any) intersects the one tag x; returns the list.
func isMatch(e *Eng, st *State, t, x *Term) *Term {
	n, a := calleeOf(t)
	if n != "intersect" || len(a) != 2 {
		return nil
	}
	for i := range a {
		if l, _ := e.elems(st, a[i]); len(l) == 1 && l[0] == x {
			return a[1-i]
		}
	}
	return nil
}

func intersectModel(e *Eng, st *State, ev *CallEvent) ([]callOut, bool) {
	if ev.Fn != nil && ev.Fn.Name() == "Intersect" && len(ev.Args) == 2 {
		args := []*Term{}
		for _, a := range ev.Args {
			if l, _ := e.elems(st, a); l != nil {
				a = tt.mkT("list", "", a.T, l...)
			}
			args = append(args, a)
		}
		return []callOut{{st, mkCall("intersect", types.Typ[types.Bool], args...)}}, true
	}
	return nil, false
}

// tagSupports decides whether fn (an installer's Supports) tells whether its list intersects a tag.
func (c *Ctx) tagSupports(R string, fn *ssa.Function) {
	list, t := symParam(fn.Params[0]), symParam(fn.Params[1])
	eng, exits := c.tagSearch(R, fn)
	for _, x := range exits {
		if x.kind != 0 {
			continue
		}
		if l := isMatch(eng, x.st, x.res[0], t); l != nil && unconv(l) == list {
			c.okAt(R, "result")
			continue
		}
		for _, v := range []bool{true, false} {
			st := x.st.clone()
			if !st.assume(x.res[0], v) {
				continue
			}
			if i := st.Mark("first"); v && i != nil || !v && i == nil && st.Marked("all") {
				c.okAt(R, "result")
			} else {
				c.failAt(R, x.pos, fn, "whether a tag is supported may not depend on whether the list intersects it", st)
			}
		}
	}
}

func unconv(t *Term) *Term {
	for t.Op == "conv" {
		t = t.Args[0]
	}
	return t
}

// tagSearch analyses a function that looks for the first entry of a list of tags that intersects a given one: at its exits,
// "first" marks the index of that entry, and "all" that none has been passed over.
func (c *Ctx) tagSearch(R string, fn *ssa.Function) (*Eng, []exit) {
	list, t := symParam(fn.Params[0]), symParam(fn.Params[1])
	// match: cond tells whether the tag at an index of the list intersects t
	match := func(e *Eng, st *State, cond *Term) *Term {
		if l := isMatch(e, st, cond, t); l != nil {
			if es, _ := e.elems(st, l); len(es) == 1 && es[0].Op == "idx" && unconv(es[0].Args[0]) == list && e.ascending(es[0].Args[1]) {
				return es[0].Args[1]
			}
		}
		return nil
	}
	var eng *Eng
	exits := c.run(R, fn, nil, func(e *Eng, st *State) {
		eng = e
		e.mergeAt = 3000
		e.hooks.Model = func(e *Eng, st *State, ev *CallEvent) ([]callOut, bool) {
			if ev.Fn != nil && ev.Fn.Name() == "Supports" && len(ev.Args) == 2 {
				one := ev.Args[0]
				if l, _ := e.elems(st, one); l != nil {
					one = tt.mkT("list", "", one.T, l...)
				}
				return []callOut{{st, mkCall("intersect", types.Typ[types.Bool], one, tt.mkT("list", "", one.T, ev.Args[1]))}}, true
			}
			return intersectModel(e, st, ev)
		}
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			if l := ranThrough(e, st, fr, in, val); l != nil && unconv(l) == list {
				st.SetMark("all", tTrue)
				if cond.Op == "bin" && cond.Aux == "<" && !val && e.ascending(cond.Args[0]) {
					st.SetMark("end", cond.Args[0])
				}
			}
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			if i := match(e, st, cond); i != nil {
				if val {
					st.SetMark("first", i)
				} else {
					markIn(st, fr, "passed", cond)
				}
			}
		}
		e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
			if _, l := listTest(e, st, fr, header); l != nil && unconv(l) == list {
				if inLoop(st, fr, "passed") {
					c.iterOK(e, R, fr, header)
				} else {
					c.iterBad(e, st, R, fr, header, "a supported tag may be passed over")
				}
				clearIn(st, "passed")
			}
		}
	})
	return eng, exits
}

func (c *Ctx) tagPrefer(R string, fn *ssa.Function) {
	list := symParam(fn.Params[0])
	_, exits := c.tagSearch(R, fn)
	for _, x := range exits {
		if x.kind != 0 {
			continue
		}
		is := func(i *Term) bool {
			return x.st.decide(mkEq(x.res[0], mkBin(token.ADD, i, mkInt(1), types.Typ[types.Int]))) == yes
		}
		if i := x.st.Mark("first"); i != nil {
			if is(i) {
				c.okAt(R, "supported")
			} else {
				c.failAt(R, x.pos, fn, "the preference of a tag may not be one more than the position of the first supported tag that it intersects", x.st)
			}
			continue
		}
		i := x.st.Mark("end")
		if x.st.Marked("all") && (is(mkCall("len", types.Typ[types.Int], list)) || i != nil && is(i)) {
			c.okAt(R, "unsupported")
		} else {
			c.failAt(R, x.pos, fn, "the preference of a tag that is not supported may not be one more than the length of the list", x.st)
		}
	}
}

// dashPart: t is part i of three dash-separated ones of s.
func dashPart(t, s *Term, i int) bool {
	return t.Op == "idx" && t.Args[1] == mkInt(int64(i)) && t.Args[0].isCall("strings.Split") && t.Args[0].Args[0] == s && t.Args[0].Args[1] == mkStr("-")
}

func (c *Ctx) tagText(R string, parse, str, marshal, unmarshal *ssa.Function) {
	check := func(fn *ssa.Function, s *Term, get func(x exit) (tag, err *Term)) {
		n := 0
		exits := c.run(R, fn, nil, nil)
		for _, x := range exits {
			if x.kind != 0 {
				continue
			}
			tag, err := get(x)
			three := unknown
			for f, v := range x.st.facts {
				if f.Op == "bin" && f.Aux == "==" && f.Args[0].isCall("len") && f.Args[1] == mkInt(3) {
					if l := f.Args[0].Args[0]; l.isCall("strings.Split") && l.Args[0] == s && l.Args[1] == mkStr("-") {
						three = triOf(v)
					}
				}
			}
			if three == unknown {
				l := mkCall("strings.Split", types.NewSlice(types.Typ[types.String]), s, mkStr("-"))
				three = x.st.decide(mkEq(mkCall("len", types.Typ[types.Int], l), mkInt(3)))
			}
			nerr := errState(x.st, err)
			switch {
			case nerr != no && three != yes:
				c.failAt(R, x.pos, fn, "a text other than three dash-separated parts may be read as a tag", x.st)
			case nerr != yes && three != no:
				c.failAt(R, x.pos, fn, "three dash-separated parts may be refused", x.st)
			case nerr == no:
				n++
			default:
				n++
				ok := isTagT(tag.T)
				for i, f := range tagFields {
					ok = ok && dashPart(fieldT(tag, tag.T, f), s, i)
				}
				if ok {
					c.okAt(R, shortName(fnName(fn)))
				} else {
					c.failAt(R, x.pos, fn, "a field of the tag may not be its part of the text", x.st)
				}
			}
		}
	}
	if parse != nil {
		check(parse, symParam(parse.Params[0]), func(x exit) (*Term, *Term) { return x.res[0], x.res[1] })
	}
	if unmarshal != nil {
		p := symParam(unmarshal.Params[0])
		txt := tt.mkT("conv", "string", types.Typ[types.String], symParam(unmarshal.Params[1]))
		check(unmarshal, txt, func(x exit) (*Term, *Term) {
			return x.st.load(p, unmarshal.Params[0].Type().Underlying().(*types.Pointer).Elem()), x.res[0]
		})
	}
	want := func(t *Term) string {
		var parts []string
		for _, f := range tagFields {
			parts = append(parts, fieldT(t, t.T, f).show(9))
		}
		return strings.Join(parts, "+\"-\"+")
	}
	for _, fn := range []*ssa.Function{str, marshal} {
		if fn == nil {
			continue
		}
		for _, x := range c.run(R, fn, nil, nil) {
			if x.kind != 0 {
				continue
			}
			if got := unconv(x.res[0]).show(9); got == want(symParam(fn.Params[0])) && (len(x.res) == 1 || x.res[1].isNil()) {
				c.okAt(R, shortName(fnName(fn)))
			} else {
				c.failAt(R, x.pos, fn, "the text of a tag may not be its three parts joined by dashes", x.st)
			}
		}
	}
}
