package main

// The package index client: what is asked for, and what is made of the answer.

import (
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isHTMLNode(t types.Type) bool {
	_, ptr := t.(*types.Pointer)
	return ptr && isNamed(t, "golang.org/x/net/html", "Node")
}

// runeOf: t is a character of the string s.
func runeOf(t, s *Term) bool {
	t = stripConv(t)
	return t.Op == "rangeval" && t.Args[0] == s || t.Op == "idx" && stripConv(t.Args[0]) == s || t.isCall("strindex") && t.Args[0] == s
}

func nameRune(r int64) bool {
	return 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z' || '0' <= r && r <= '9' || r == '.' || r == '-' || r == '_'
}

// runes by which conditions on characters are told apart.
var probeRunes = func() (out []int64) {
	for r := int64(0); r < 0x180; r++ {
		out = append(out, r)
	}
	return append(out, 0x212a, 0x2010, 0xff0d, 0xff21, 0x660, 0x1d7d8)
}()

// oneOf: the characters (good ones, others) that x can be in state st.
func canBe(st *State, x *Term) (good, bad []int64) {
	for _, r := range probeRunes {
		s := st.clone()
		if s.assume(mkEq(x, mkInt(r)), true) {
			if nameRune(r) {
				good = append(good, r)
			} else {
				bad = append(bad, r)
			}
		}
	}
	return
}

func charIn(st *State, s *Term) (x *Term) {
	for f := range st.facts {
		f.any(func(t *Term) bool {
			if runeOf(t, s) && (t.Op != "idx" || x == nil) {
				x = t
			}
			return false
		})
	}
	for f := range st.facts {
		// prefer what is converted nowhere
		if f.Op == "bin" && x != nil && stripConv(f.Args[0]) == x {
			return f.Args[0]
		}
	}
	return x
}

// nameSet: the pattern accepts only strings of name characters (and all of them).
func nameSet(pat string) bool {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return false
	}
	re = re.Simplify()
	if re.Op != syntax.OpConcat || len(re.Sub) != 3 || re.Sub[0].Op != syntax.OpBeginText || re.Sub[2].Op != syntax.OpEndText || re.Sub[2].Flags&syntax.WasDollar != 0 && false {
		return false
	}
	m := re.Sub[1]
	if m.Op != syntax.OpPlus && m.Op != syntax.OpStar || m.Sub[0].Op != syntax.OpCharClass {
		return false
	}
	return classIs(m.Sub[0], nameRune)
}

func classIs(re *syntax.Regexp, pred func(int64) bool) bool {
	in := func(r int64) bool {
		for i := 0; i+1 < len(re.Rune); i += 2 {
			if int64(re.Rune[i]) <= r && r <= int64(re.Rune[i+1]) {
				return true
			}
		}
		return false
	}
	for _, r := range probeRunes {
		if in(r) != pred(r) {
			return false
		}
	}
	return len(re.Rune) > 0 && re.Rune[len(re.Rune)-1] < 0x180
}

// normalised: t is name in lower case, with runs of - _ . replaced by -.
func normalised(t, name *Term) bool {
	lower, runs := false, false
	for t != name {
		n, a := calleeOf(t)
		switch n {
		case "strings.ToLower":
			lower, t = true, a[0]
		case "(*regexp.Regexp).ReplaceAllLiteralString", "(*regexp.Regexp).ReplaceAllString":
			pat, ok := regexText(a[0])
			if !ok || a[2] != mkStr("-") {
				return false
			}
			re, err := syntax.Parse(pat, syntax.Perl)
			if err != nil || re.Op != syntax.OpPlus || re.Sub[0].Op != syntax.OpCharClass || !classIs(re.Sub[0], func(r int64) bool { return r == '-' || r == '_' || r == '.' }) {
				return false
			}
			runs, t = true, a[1]
		default:
			return false
		}
	}
	return lower && runs
}

func linkFields(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "HRef" {
			return true
		}
	}
	return false
}

func isLinkSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && linkFields(s.Elem())
}

// linkElem: t is one of the links of a page (an element of a list of links).
func linkElem(t *Term) bool {
	return t.Op == "idx" && t.T != nil && linkFields(t.T)
}

func ruleC21(c *Ctx) {
	c.rule("C21.name", "a package is asked for only if its name consists of ASCII letters, digits, '.', '-' and '_', and no name that does is refused", 2)
	c.rule("C21.path", "the page that is asked for is that of the name in lower case with every run of '-', '_' and '.' replaced by one '-', below the base URL", 1)
	c.rule("C21.keep", "every link of the page is returned, with its own text, target and attributes, except those whose data-requires-python excludes the client's version of Python", 2)
	c.rule("C21.attr", "the target of a link is its href resolved against the URL that the page was finally read from; every data- attribute is kept under its own name", 1)
	c.rule("C21.link", "every <a> element of the page becomes a link, with all text in it", 1)
	c.rule("C21.visit", "going through a page visits every node and stops only at an error, which is passed on", 1)
	c.rule("C21.hook", "no link is used if the check of the page (the version of the repository API, by default) fails", 2)
	c.rule("C21.version", "a page whose declared version of the repository API has a higher major number than 1 is refused; no declaration means 1.0", 3)
	c.rule("C21.sig", "a signature that the link says there is not is not asked for; only a link that says nothing can turn a missing file into the absence of a signature", 2)
	P := c.P
	for _, n := range []string{"ListPackages", "ListPackageFiles", "ListFiles"} {
		var fn *ssa.Function
		for _, f := range c.shipped() {
			if pkgDir(f) == pep503Dir && f.Name() == n && f.Parent() == nil && f.Synthetic == "" {
				fn = f
			}
		}
		if fn == nil {
			c.missing("C21.keep", "pep503 "+n)
			continue
		}
		c.listing(fn)
	}
	for _, f := range c.shipped() {
		if f.Synthetic != "" || len(f.Params) == 0 {
			continue
		}
		if p := f.Params[len(f.Params)-1]; isHTMLNode(p.Type()) && pkgDir(f) == pep503Dir && appendsLinks(f) {
			c.linkMaker(f, p)
		}
		for i, p := range f.Params {
			if isHTMLNode(p.Type()) && selfCalls(f) && len(f.Params) >= i+2 {
				c.visitor(f, i)
			}
		}
	}
	c.apiVersion()
	c.signature(P)
}

func appendsLinks(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if cc, ok := in.(*ssa.Call); ok {
				if bi, ok := cc.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && isLinkSlice(cc.Type()) {
					return true
				}
			}
		}
	}
	return false
}

func selfCalls(f *ssa.Function) bool {
	for _, g := range callees(f) {
		if g == f {
			return true
		}
	}
	return false
}

// listing analyses an operation that lists the links of a page.
func (c *Ctx) listing(fn *ssa.Function) {
	byName := fn.Name() == "ListPackageFiles"
	var name *Term
	if byName {
		name = symParam(fn.Params[len(fn.Params)-1])
	}
	linkT := func(t *Term) bool { return t != nil && t.T != nil && linkFields(t.T) }
	exits := c.run("C21.keep", fn, nil, func(e *Eng, st *State) {
		e.mergeAt = 3000
		e.hooks.Range = noteRange
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			switch {
			case isHTTP(ev.Name):
				if !byName {
					return
				}
				if !st.Marked("named") {
					c.fail(e, st, "C21.name", ev.Instr, "a package may be asked for whose name has other characters than ASCII letters, digits, '.', '-' and '_'")
				} else {
					c.ok(e, "C21.name", ev.Instr, "")
				}
				if m := st.Mark("path"); m == nil {
					c.fail(e, st, "C21.path", ev.Instr, "the request is not for the page of the normalised name")
				} else {
					c.ok(e, "C21.path", ev.Instr, "")
				}
				st.SetMark("asked", tTrue)
			case ev.Name == "dyncall" && ev.Callee != nil && ev.Callee.Op == "fld" && ev.Callee.Aux == "HTMLHook":
				if n, _ := calleeOf(ev.Args[1]); n != "golang.org/x/net/html.Parse" {
					c.fail(e, st, "C21.hook", ev.Instr, "the check is applied to something other than the page")
				}
			case ev.Name == "append" && len(ev.Args) == 2:
				if ev.Args[1].Op != "list" {
					return
				}
				for _, x := range ev.Args[1].Args {
					if x.T == nil || !hasField(x.T, "Link") {
						continue
					}
					l := valField(x, "Link")
					if l == nil || !linkElem(l) || !e.ascending(l.Args[1]) {
						c.fail(e, st, "C21.keep", ev.Instr, "what is returned is not a link of the page as it is: %s", x.show(4))
						continue
					}
					markIn(st, ev.Frame, "kept", l)
				}
			}
		}
		e.hooks.Post = func(e *Eng, st *State, ev *CallEvent) {
			if ev.Name == "dyncall" && ev.Callee != nil && ev.Callee.Op == "fld" && ev.Callee.Aux == "HTMLHook" && ev.Res != nil {
				st.SetMark("checked", ev.Res)
			}
		}
		e.hooks.Store = func(e *Eng, st *State, fr *frame, addr, v *Term, in ssa.Instruction) {
			if addr.Op != "fa" {
				return
			}
			if addr.Aux == "Path" && byName {
				n, a := calleeOf(v)
				ok := n == "path.Join" && len(a) == 2 && a[0].Op == "fld" && a[0].Aux == "Path" && normalised(a[1], name)
				if v.Op == "concat" {
					last := v.Args[len(v.Args)-1]
					if last == mkStr("/") {
						last = v.Args[len(v.Args)-2]
					}
					ok = normalised(last, name) && strings.HasSuffix(v.Args[0].String(), "Path")
				}
				if ok {
					st.SetMark("path", v)
				} else {
					st.ClearMark("path")
				}
			}
			if addr.Aux == "HRef" {
				markIn(st, fr, "href", v)
			}
		}
		e.hooks.MapUpdate = func(e *Eng, st *State, fr *frame, m, k, v *Term, in ssa.Instruction) {
			if k.Op == "fld" && k.Aux == "Key" {
				markIn(st, fr, "data", v)
				if v.Op != "fld" || v.Aux != "Val" || v.Args[0] != k.Args[0] {
					c.fail(e, st, "C21.attr", in, "an attribute is kept with something other than its own value: %s", v.show(4))
				}
			}
		}
		e.hooks.LoopExit = func(e *Eng, st *State, fr *frame, header, from, to *ssa.BasicBlock) {
			over := rangeOver(e, st, fr, header)
			if over == nil {
				over = listOver(e, st, fr, header)
			}
			if over != nil && over.T != nil && isLinkSlice(over.T) && from != header {
				st.SetMark("cut", tTrue)
			}
			if !byName {
				return
			}
			if over == nil || stripConv(over) != name {
				return
			}
			if from == header {
				st.SetMark("named", tTrue)
				return
			}
			x := charIn(st, name)
			if x == nil {
				return
			}
			if good, _ := canBe(st, x); len(good) > 0 {
				c.fail(e, st, "C21.name", from.Instrs[len(from.Instrs)-1], "names with %q are refused", string(rune(good[0])))
			}
		}
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			if n, a := calleeOf(cond); n == "(*regexp.Regexp).MatchString" && byName && a[1] == name {
				if pat, ok := regexText(a[0]); ok && nameSet(pat) && val {
					st.SetMark("named", tTrue)
				}
			}
			if cond.Op == "bin" && byName && (cond.Aux == "<" || cond.Aux == "==") {
				for _, x := range cond.Args {
					if n, a := calleeOf(x); n == "strings.IndexFunc" && a[0] == name && st.bounds(x).hasHi && st.bounds(x).hi < 0 {
						c.nameFunc(e, st, a[1], in)
					}
				}
			}
			if n, a := calleeOf(cond); n == "strings.ContainsFunc" && byName && a[0] == name && !val {
				c.nameFunc(e, st, a[1], in)
			}
		}
		e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
			over := rangeOver(e, st, fr, header)
			if over == nil {
				over = listOver(e, st, fr, header)
			}
			if byName && over != nil && stripConv(over) == name {
				x := charIn(st, name)
				var bad []int64
				if x != nil {
					_, bad = canBe(st, x)
				}
				if x == nil || len(bad) > 0 {
					r := "any character"
					if x != nil {
						r = string(rune(bad[0]))
					}
					c.iterBad(e, st, "C21.name", fr, header, "names with "+r+" are accepted")
				}
				c.iterOK(e, "C21.name", fr, header)
				return
			}
			if over != nil && over.T != nil && isLinkSlice(over.T) {
				if inLoop(st, fr, "kept") {
					c.iterOK(e, "C21.keep", fr, header)
				} else if !c.requiresOther(st) {
					c.iterBad(e, st, "C21.keep", fr, header, "a link of the page may be dropped for a reason other than that it requires another version of Python")
				}
				clearIn(st, "kept")
			}
			if over != nil && over.Op == "fld" && over.Aux == "Attr" {
				c.attrOK(e, st, fr, header, over)
				clearIn(st, "href", "data")
			}
		}
	})
	for _, x := range exits {
		if x.kind != 0 || len(x.res) != 2 || errState(x.st, x.res[1]) == no {
			continue
		}
		if x.st.Marked("cut") {
			c.failAt("C21.keep", x.pos, fn, "links of the page may be left out: the loop over them can end early", x.st)
		}
		hook := hasFact(x.st, true, func(f *Term) bool {
			return f.Op == "bin" && f.Aux == "==" && (f.Args[0].Op == "fld" && f.Args[0].Aux == "HTMLHook") && f.Args[1].isNil()
		})
		if m := x.st.Mark("checked"); !hook && (m == nil || errState(x.st, m) != yes) {
			c.failAt("C21.hook", x.pos, fn, "links are returned although the check of the page may have failed or been left out", x.st)
		} else {
			c.okAt("C21.hook", shortName(fnName(fn)))
		}
	}
	_ = linkT
}

func hasField(t types.Type, name string) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return true
		}
	}
	return false
}

// nameFunc: f tells for a character whether it may not be in a name.
func (c *Ctx) nameFunc(e *Eng, st *State, f *Term, in ssa.Instruction) {
	r := tt.mkT("sym", "rune", types.Typ[types.Rune])
	xs := e.applyExits(st, f, r)
	ok := len(xs) > 0
	for _, x := range xs {
		if len(x.res) != 1 {
			ok = false
			continue
		}
		s := x.st.clone()
		if s.assume(x.res[0], false) {
			if _, bad := canBe(s, r); len(bad) > 0 {
				ok = false
			}
		}
		s = x.st.clone()
		if s.assume(x.res[0], true) {
			if good, _ := canBe(s, r); len(good) > 0 {
				c.fail(e, st, "C21.name", in, "names with %q are refused", string(rune(good[0])))
			}
		}
	}
	if ok {
		st.SetMark("named", tTrue)
	}
}

// requiresOther: on this path the link requires another version of Python than the client has.
func (c *Ctx) requiresOther(st *State) bool {
	for f, v := range st.facts {
		if v {
			continue
		}
		s, i := f.siteOf()
		if s == nil || i != 0 || !strings.HasSuffix(f.siteName(), "pep345.HaveRequiredPython") {
			continue
		}
		py, req := s.Args[0], s.Args[1]
		if req.Op != "lookup" || req.Args[1] != mkStr("data-requires-python") || req.Args[0].Op != "fld" || !linkElem(req.Args[0].Args[0]) {
			continue
		}
		if !strings.HasSuffix(py.String(), ".Python") {
			continue
		}
		if errOf(st, s) == yes {
			return true
		}
	}
	return false
}

// attrOK: an iteration over the attributes of an element did what it should.
func (c *Ctx) attrOK(e *Eng, st *State, fr *frame, header *ssa.BasicBlock, attrs *Term) {
	var el *Term
	for f := range st.facts {
		f.any(func(t *Term) bool {
			if t.Op == "idx" && t.Args[0] == attrs && e.ascending(t.Args[1]) {
				el = t
			}
			return false
		})
	}
	if el == nil {
		c.iterBad(e, st, "C21.attr", fr, header, "an attribute may be passed over")
		return
	}
	f := func(n string) *Term { return valField(el, n) }
	if f("Key") == nil {
		return
	}
	plain := st.decide(mkEq(f("Namespace"), tEmpty))
	href := st.decide(mkEq(f("Key"), mkStr("href")))
	data := st.decide(boolCall("strings.HasPrefix", f("Key"), mkStr("data-")))
	if inLoop(st, fr, "href") {
		v := st.Mark("href")
		if plain != yes || href != yes {
			c.iterBad(e, st, "C21.attr", fr, header, "the target of a link is taken from an attribute that may not be href")
		}
		n, a := calleeOf(v)
		ok := n == "(*net/url.URL).String"
		if ok {
			n, a = calleeOf(a[0])
			switch n {
			case "(*net/url.URL).Parse":
				ok = finalURL(a[0]) && a[1] == f("Val")
			case "(*net/url.URL).ResolveReference":
				m, b := calleeOf(a[1])
				ok = finalURL(a[0]) && m == "net/url.Parse" && b[0] == f("Val")
			default:
				ok = false
			}
		}
		if !ok {
			c.iterBad(e, st, "C21.attr", fr, header, "the target of a link is not its href resolved against the URL that the page was finally read from: "+v.show(5))
		}
		c.iterOK(e, "C21.attr", fr, header)
	} else if plain != no && href != no {
		c.iterBad(e, st, "C21.attr", fr, header, "the href of a link may be passed over")
	}
	if inLoop(st, fr, "data") {
		if plain == no || data != yes {
			c.iterBad(e, st, "C21.attr", fr, header, "attributes other than data- attributes are kept")
		}
	} else if plain != no && data != no && href != yes {
		c.iterBad(e, st, "C21.attr", fr, header, "a data- attribute may be passed over")
	}
}

// finalURL: t is the URL of the request that the response answers.
func finalURL(t *Term) bool {
	if t.Op != "fld" || t.Aux != "URL" || t.Args[0].Op != "deref" {
		return false
	}
	r := t.Args[0].Args[0]
	return r.Op == "fld" && r.Aux == "Request" && r.Args[0].Op == "deref" && isHTTP(r.Args[0].Args[0].siteName())
}

// linkMaker: the function that makes a link of an element.
func (c *Ctx) linkMaker(f *ssa.Function, p *ssa.Parameter) {
	node := symParam(p)
	exits := c.run("C21.link", f, nil, func(e *Eng, st *State) {
		e.mergeAt = 3000
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			if ev.Name == "append" && ev.Args[1].Op == "list" {
				for _, x := range ev.Args[1].Args {
					if x.T != nil && linkFields(x.T) {
						if st.Marked("made") {
							c.fail(e, st, "C21.link", ev.Instr, "an element becomes more than one link")
						}
						st.SetMark("made", x)
						if n, a := calleeOf(valField(x, "Text")); n != "(*strings.Builder).String" || !st.Marked("text:"+a[0].String()) {
							c.fail(e, st, "C21.link", ev.Instr, "the text of a link is not all the text in the element: %s", valField(x, "Text").show(4))
						}
					}
				}
			}
			// the text in the element
			if len(ev.Args) == 3 && ev.Args[0] == node && ev.Fn != nil && selfCalls(ev.Fn) {
				for _, cb := range ev.Args[1:] {
					if unbox(cb).Op == "closure" {
						if b := c.textOf(e, st, unbox(cb)); b != nil {
							st.SetMark("text:"+b.String(), tTrue)
						}
					}
				}
			}
		}
	})
	fld := func(n string) *Term {
		return fieldOf(newState(), node, pointee(p.Type()), n)
	}
	for _, x := range exits {
		if x.kind != 0 || len(x.res) == 0 || errState(x.st, x.res[len(x.res)-1]) == no {
			continue
		}
		el := x.st.decide(mkEq(fld("Type"), mkInt(3)))
		a := x.st.decide(mkEq(fld("Data"), mkStr("a")))
		atom := x.st.decide(mkEq(fld("DataAtom"), mkInt(1)))
		isA := a == yes || atom == yes
		switch made := x.st.Marked("made"); {
		case made && (el != yes || !isA):
			c.failAt("C21.link", x.pos, f, "something other than an <a> element becomes a link", x.st)
		case !made && el != no && a != no && atom != no:
			c.failAt("C21.link", x.pos, f, "an <a> element may not become a link", x.st)
		default:
			c.okAt("C21.link", shortName(fnName(f)))
		}
	}
}

// textOf: cb writes the text of text nodes, and only that, to a builder; returns the builder.
func (c *Ctx) textOf(e *Eng, st *State, cb *Term) *Term {
	if cb.Fn == nil || len(cb.Fn.Params) != 1 || !isHTMLNode(cb.Fn.Params[0].Type()) {
		return nil
	}
	n := tt.mkT("sym", "textnode", cb.Fn.Params[0].Type())
	ps := pointee(cb.Fn.Params[0].Type())
	typ, data := fieldOf(newState(), n, ps, "Type"), fieldOf(newState(), n, ps, "Data")
	var b *Term
	ok := true
	hk := e.applyHooks
	e.applyHooks = Hooks{Pre: func(e *Eng, st *State, ev *CallEvent) {
		if ev.Name == "(*strings.Builder).WriteString" {
			b = ev.Args[0]
			if ev.Args[1] != data || st.decide(mkEq(typ, mkInt(1))) != yes {
				ok = false
			}
			st.SetMark("wrote", tTrue)
		}
	}}
	for _, x := range e.applyExits(st, cb, n) {
		if x.st.Marked("wrote") != (x.st.decide(mkEq(typ, mkInt(1))) == yes) {
			ok = false
		}
	}
	e.applyHooks = hk
	if !ok {
		return nil
	}
	return b
}

// visitor: a function that calls itself for the nodes below a node.
func (c *Ctx) visitor(f *ssa.Function, i int) {
	node := symParam(f.Params[i])
	T := pointee(f.Params[i].Type())
	bad := false
	exits := c.run("C21.visit", f, nil, func(e *Eng, st *State) {
		e.mergeAt = 3000
		e.maxRec = 0
		e.hooks.Model = func(e *Eng, st *State, ev *CallEvent) ([]callOut, bool) {
			if ev.Fn == f {
				markIn(st, ev.Frame, "below", ev.Args[i])
				for j, a := range ev.Args {
					if j != i && a != symParam(f.Params[j]) && ev.Args[i] != node {
						c.fail(e, st, "C21.visit", ev.Instr, "the nodes below are visited with something else than what the node is")
						bad = true
					}
				}
				r := tt.mkT("sym", "below", f.Signature.Results().At(0).Type())
				return []callOut{{st, r}}, true
			}
			return nil, false
		}
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			// no more siblings
			if cond.Op == "bin" && cond.Aux == "==" && cond.Args[1].isNil() && val && c.isChild(e, cond.Args[0], node, T) {
				st.SetMark("all", tTrue)
			}
		}
		e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
			if inLoop(st, fr, "below") {
				ch := st.Mark("below")
				if !c.isChild(e, ch, node, T) {
					c.iterBad(e, st, "C21.visit", fr, header, "something other than the children in turn is visited: "+ch.show(4))
				}
				if r := tt.mkT("sym", "below", f.Signature.Results().At(0).Type()); errState(st, r) == no {
					c.iterBad(e, st, "C21.visit", fr, header, "going on although the visit of a child failed")
				}
				c.iterOK(e, "C21.visit", fr, header)
			} else {
				c.iterBad(e, st, "C21.visit", fr, header, "a child may not be visited")
			}
			clearIn(st, "below")
		}
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			if ev.Name == "dyncall" && len(ev.Args) > 0 {
				if ev.Args[0] != node {
					c.fail(e, st, "C21.visit", ev.Instr, "the function is called with something other than the node")
				}
				if ev.Callee != nil {
					st.SetMark("called:"+ev.Callee.String(), tTrue)
				}
			}
		}
	})
	for _, x := range exits {
		if x.kind != 0 || len(x.res) != 1 || errState(x.st, x.res[0]) == no {
			continue
		}
		ok := x.st.Marked("all")
		for j, p := range f.Params {
			if _, isF := p.Type().Underlying().(*types.Signature); isF && j != i {
				q := symParam(p)
				if !x.st.Marked("called:"+q.String()) && x.st.decide(mkEq(q, tNil)) != yes {
					ok = false
				}
			}
		}
		if !ok {
			c.failAt("C21.visit", x.pos, f, "success is reported although not all nodes were visited", x.st)
			bad = true
		}
	}
	if !bad && len(exits) > 0 {
		c.okAt("C21.visit", shortName(fnName(f)))
	}
}

// isChild: t is the first child of node or the next sibling of such a variable.
func (c *Ctx) isChild(e *Eng, t, node *Term, T types.Type) bool {
	fld := func(x *Term, n string) *Term {
		if x.Op == "fld" && x.Aux == n && x.Args[0].Op == "deref" {
			return x.Args[0].Args[0]
		}
		return nil
	}
	if fld(t, "FirstChild") == node {
		return true
	}
	if p := fld(t, "NextSibling"); p != nil {
		return c.isChild(e, p, node, T)
	}
	if t.Op != "sym" || len(e.inflow[t]) == 0 {
		return false
	}
	for in := range e.inflow[t] {
		if in != t && fld(in, "FirstChild") != node && fld(in, "NextSibling") != t && (in.Op == "sym" || !c.isChild(e, in, node, T)) {
			return false
		}
	}
	return true
}

// apiVersion: the check of the version of the repository API.
func (c *Ctx) apiVersion() {
	P := c.P
	check := P.fn("pkg/python/pep629", "HTMLVersionCheck")
	get := P.fn("pkg/python/pep629", "GetVersion")
	nc := P.fn("pkg/python/pypa/simple_repo_api", "NewClient")
	if check == nil || get == nil || nc == nil {
		c.missing("C21.version", "pep629.HTMLVersionCheck, pep629.GetVersion, simple_repo_api.NewClient")
		return
	}
	for _, x := range c.run("C21.version", nc, nil, nil) {
		if x.kind != 0 {
			continue
		}
		cl := valField(x.res[0], "Client")
		var h *Term
		if cl != nil {
			h = unbox(valField(cl, "HTMLHook"))
		}
		if h == nil || h.Fn != check && !(h.Fn != nil && P.reachesFn(h.Fn, func(g *ssa.Function) bool { return g == check })) {
			c.failAt("C21.version", x.pos, nc, "the client does not check the version of the repository API", x.st)
		} else {
			c.okAt("C21.version", "NewClient installs the check")
		}
		if py := valField(cl, "Python"); py != symParam(nc.Params[0]) {
			c.failAt("C21.version", x.pos, nc, "the client is not given the version of Python", x.st)
		}
		if tg := valField(x.res[0], "SupportedTags"); tg != symParam(nc.Params[1]) {
			c.failAt("C21.version", x.pos, nc, "the client is not given the supported tags", x.st)
		}
	}
	// the check
	for _, x := range c.run("C21.version", check, nil, func(e *Eng, st *State) {
		e.mergeAt = 3000
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, f *Term, val bool, in ssa.Instruction) {
			for f.Op == "not" {
				f, val = f.Args[0], !val
			}
			if f.Op != "bin" {
				return
			}
			read := func(t *Term) bool {
				return majorIs(t, "pep440.ParseVersion") && !strings.Contains(t.String(), "SupportedVersion")
			}
			k, isK := f.Args[1].intv()
			switch {
			case f.Aux == "<" && c.supportedMajor(f.Args[0]) && read(f.Args[1]):
				st.SetMark(map[bool]string{true: "gt", false: "le"}[val], tTrue)
				if c.supportedMajor(f.Args[1]) {
					st.SetMark("gt", tTrue) // cannot be
					st.SetMark("le", tTrue)
				}
			case f.Aux == "<" && read(f.Args[0]) && isK && k == 2:
				st.SetMark(map[bool]string{true: "le", false: "gt"}[val], tTrue)
			case f.Aux == "==" && val && (read(f.Args[0]) && c.supportedMajor(f.Args[1]) || read(f.Args[1]) && c.supportedMajor(f.Args[0])):
				st.SetMark("le", tTrue)
			case f.Aux == "==" && !val && f.Args[1].isNil() && isErrorType(f.Args[0].T):
				st.SetMark("failed", tTrue)
			}
		}
	}) {
		if x.kind != 0 {
			continue
		}
		switch errState(x.st, x.res[0]) {
		case no:
			if !x.st.Marked("gt") && !x.st.Marked("failed") {
				c.failAt("C21.version", x.pos, check, "a page may be refused although the major version of the repository API is supported", x.st)
			}
		default:
			if !x.st.Marked("le") {
				c.failAt("C21.version", x.pos, check, "a page with a higher major version of the repository API may be accepted", x.st)
			} else {
				c.okAt("C21.version", "HTMLVersionCheck accepts")
			}
		}
	}
	// the declaration
	c.declared(get)
}

func (c *Ctx) supportedMajor(t *Term) bool {
	if k, ok := t.intv(); ok {
		return k == 1
	}
	return majorIs(t, "") && t.any(func(x *Term) bool {
		n, a := calleeOf(x)
		if !strings.HasSuffix(n, "pep440.ParseVersion") || len(a) != 1 {
			return false
		}
		s, ok := a[0].str()
		return ok && (s == "1" || strings.HasPrefix(s, "1."))
	})
}

// majorIs: t is the major number (first release segment) of a version that came from the named function.
func majorIs(t *Term, from string) bool {
	n, a := calleeOf(t)
	if strings.HasSuffix(n, ".Major") && len(a) == 1 {
		return from == "" || a[0].any(func(x *Term) bool { return strings.HasSuffix(x.siteName(), from) })
	}
	if t.Op == "idx" && t.Args[1] == tZero && t.Args[0].Op == "fld" && t.Args[0].Aux == "Release" {
		return from == "" || t.any(func(x *Term) bool { return strings.HasSuffix(x.siteName(), from) })
	}
	return false
}

// declared: GetVersion parses the content of the meta element named pypi:repository-version, or 1.0 if there is none.
func (c *Ctx) declared(get *ssa.Function) {
	exits := c.run("C21.version", get, nil, func(e *Eng, st *State) {
		e.mergeAt = 3000
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			if strings.HasSuffix(ev.Name, "pep440.ParseVersion") {
				v := ev.Args[0]
				if s, ok := v.str(); ok && s == "1.0" {
					c.ok(e, "C21.version", ev.Instr, "default")
				} else if v.isConst() {
					c.fail(e, st, "C21.version", ev.Instr, "a page without a declaration is taken to have version %q", s)
				}
				st.SetMark("parsed", v)
			}
		}
	})
	for _, x := range exits {
		if x.kind != 0 || errState(x.st, x.res[1]) == no {
			continue
		}
		s, i := x.res[0].siteOf()
		if !x.st.Marked("parsed") || s == nil || i > 0 || !strings.HasSuffix(x.res[0].siteName(), "pep440.ParseVersion") || s.Args[0] != x.st.Mark("parsed") || errOf(x.st, s) == no {
			c.failAt("C21.version", x.pos, get, "a version may be returned that was not parsed from the page", x.st)
		}
	}
	for _, f := range append(get.AnonFuncs, callees(get)...) {
		if len(f.Params) == 0 || !isHTMLNode(f.Params[len(f.Params)-1].Type()) || fnPkgPath(f) != fnPkgPath(get) {
			continue
		}
		p := f.Params[len(f.Params)-1]
		node := symParam(p)
		fld := func(n string) *Term { return fieldOf(newState(), node, pointee(p.Type()), n) }
		stored := 0
		attr := func(t *Term, name string) bool {
			s, i := t.siteOf()
			return s != nil && i == 0 && strings.HasSuffix(t.siteName(), "htmlutil.GetAttr") && s.Args[0] == node && s.Args[1] == tEmpty && s.Args[2] == mkStr(name)
		}
		for _, x := range c.run("C21.version", f, nil, func(e *Eng, st *State) {
			e.mergeAt = 3000
			e.hooks.Store = func(e *Eng, st *State, fr *frame, addr, v *Term, in ssa.Instruction) {
				if isStringType(v.T) && (addr.Op == "sym" || addr.Op == "fa") {
					st.SetMark("set", v)
				}
			}
			e.hooks.Branch = func(e *Eng, st *State, fr *frame, f *Term, val bool, in ssa.Instruction) {
				for f.Op == "not" {
					f, val = f.Args[0], !val
				}
				for i := 0; i < 2 && f.Op == "bin" && f.Aux == "=="; i++ {
					if attr(f.Args[i], "name") && f.Args[1-i] == mkStr("pypi:repository-version") {
						st.SetMark("named", mkBool(val))
					}
				}
				if s, i := f.siteOf(); s != nil && i == 1 && strings.HasSuffix(f.siteName(), "htmlutil.GetAttr") && s.Args[2] == mkStr("content") {
					st.SetMark("has", mkBool(val))
				}
			}
		}) {
			if x.kind != 0 {
				continue
			}
			el := x.st.decide(mkEq(fld("Type"), mkInt(3)))
			meta := x.st.decide(mkEq(fld("Data"), mkStr("meta")))
			named, has := markTri(x.st, "named"), markTri(x.st, "has")
			m := x.st.Mark("set")
			if m != nil {
				stored++
				if el != yes || meta != yes || named != yes || !attr(m, "content") {
					c.failAt("C21.version", x.pos, f, "the version is taken from something other than the content of the meta element named pypi:repository-version", x.st)
				} else {
					c.okAt("C21.version", "declaration read in "+shortName(fnName(f)))
				}
			} else if el != no && meta != no && named != no && has != no && errOf0(x) {
				c.failAt("C21.version", x.pos, f, "a declaration of the version may be passed over", x.st)
			}
		}
		if stored == 0 {
			c.failAt("C21.version", f.Pos(), f, "no declaration of the version is ever read", nil)
		}
	}
}

func errOf0(x exit) bool {
	return len(x.res) == 0 || errState(x.st, x.res[len(x.res)-1]) != no
}

// signature: when a signature is asked for.
func (c *Ctx) signature(P *Program) {
	var fn *ssa.Function
	for _, f := range c.shipped() {
		if pkgDir(f) == pep503Dir && f.Name() == "GetSignature" && f.Synthetic == "" {
			fn = f
		}
	}
	if fn == nil {
		c.missing("C21.sig", "pep503.FileLink.GetSignature")
		return
	}
	isAttr := func(t *Term) bool {
		return t.Op == "lookup" && t.Args[1] == mkStr("data-gpg-sig")
	}
	exits := c.run("C21.sig", fn, nil, func(e *Eng, st *State) {
		e.mergeAt = 3000
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			if isHTTP(ev.Name) {
				st.SetMark("asked", tTrue)
				if markTri(st, "attr:false") != no {
					c.fail(e, st, "C21.sig", ev.Instr, "a signature may be asked for although the link says that there is none")
				} else {
					c.ok(e, "C21.sig", ev.Instr, "")
				}
			}
		}
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			if cond.Op == "bin" && cond.Aux == "==" {
				for i := 0; i < 2; i++ {
					if v, ok := cond.Args[1-i].str(); ok && isAttr(cond.Args[i]) {
						st.SetMark("attr:"+v, mkBool(val))
						if val {
							for _, o := range []string{"true", "false"} {
								if o != v {
									st.SetMark("attr:"+o, tFalse)
								}
							}
						}
					}
					if !val {
						continue
					}
					if cond.Args[i].Op == "fld" && cond.Args[i].Aux == "StatusCode" && cond.Args[1-i] == mkInt(404) || cond.Args[1-i] == mkInt(404) {
						st.SetMark("missing", tTrue)
					}
				}
			}
		}
	})
	for _, x := range exits {
		if x.kind != 0 || len(x.res) != 2 {
			continue
		}
		n, _ := calleeOf(x.res[1])
		none := n == "errors.New" || strings.Contains(x.res[1].String(), "ErrNoSignature")
		says := markTri(x.st, "attr:false")
		switch {
		case none && !x.st.Marked("asked") && !x.st.Marked("missing") && says != yes:
			c.failAt("C21.sig", x.pos, fn, "the absence of a signature is reported without asking for it although the link does not say so", x.st)
		case none && x.st.Marked("asked") && (markTri(x.st, "attr:true") != no || !x.st.Marked("missing")):
			c.failAt("C21.sig", x.pos, fn, "the absence of a signature is reported although the link says that there is one, or for another reason than that the file does not exist", x.st)
		case none:
			c.okAt("C21.sig", "absence at "+c.P.pos(x.pos))
		}
	}
}

func init() { propRules["C21"] = ruleC21 }

func markTri(st *State, k string) tri {
	if m := st.Mark(k); m != nil {
		return triOf(m == tTrue)
	}
	return unknown
}
