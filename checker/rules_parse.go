package main

// Parsing of versions and of the names of wheel files: nothing that is written is lost, and everything that the grammar allows
// is accepted.

import (
	"go/constant"
	"go/types"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() { propRules["C25"] = ruleC25 }

// The grammars of PEP 440 (appendix B) and PEP 427 (file name convention).
var versionGrammar = `(?i)^\s*` + regexp.MustCompile(`\s+`).ReplaceAllString(`
	v?
	(?:(?P<epoch>[0-9]+)!)?
	(?P<release>[0-9]+(?:\.[0-9]+)*)
	(?P<pre>[-_\.]?(?P<pre_l>a|b|c|rc|alpha|beta|pre|preview)[-_\.]?(?P<pre_n>[0-9]+)?)?
	(?P<post>(?:-(?P<post_n1>[0-9]+))|(?:[-_\.]?(?P<post_l>post|rev|r)[-_\.]?(?P<post_n2>[0-9]+)?))?
	(?P<dev>[-_\.]?(?P<dev_l>dev)[-_\.]?(?P<dev_n>[0-9]+)?)?
	(?:\+(?P<local>[a-z0-9]+(?:[-_\.][a-z0-9]+)*))?`, ``) + `\s*$`

const filenameGrammar = `^(?P<distribution>[^-]+)-(?P<version>[^-]+)(?:-(?P<build_n>[0-9]+)(?P<build_l>[^-0-9][^-]*)?)?-(?P<python>[^-]+)-(?P<abi>[^-]+)-(?P<platform>[^-]+)\.whl$`

func ruleC25(c *Ctx) {
	c.rule("C25.grammar", "a version (a file name) is parsed by the grammar of PEP 440 (PEP 427), part by part", 2)
	c.rule("C25.version", "every part of a parsed version is what is written, in normal form, and is there exactly if it is written", 6)
	c.rule("C25.segments", "every segment of the release and of the local version is kept, in order, as the number or the lower case text that is written", 2)
	c.rule("C25.accept", "what the grammar allows is refused only for a number that is out of range", 3)
	c.rule("C25.filename", "the parts of the name of a wheel file are those that are written", 4)
	c.rule("C25.python", "the version of an interpreter is its three numbers and the pre-release that its release level names", 4)
	c.rule("C25.print", "a version is written with every part that it has, and none that it has not", 6)
	c.parseVersion(c.P.fn(pep440Dir, "ParseVersion"))
	c.parseFilename(c.P.fn("pkg/python/pypa/bdist", "ParseFilename"))
	c.pythonVersion(c.P.fn("pkg/python", "VersionInfo.PEP440"))
	c.versionString(c.P.fn(pep440Dir, "PublicVersion.String"), false)
	c.versionString(c.P.fn(pep440Dir, "LocalVersion.String"), true)
}

// foldText: the constant that t is, with replacements by regular expressions carried out.
func foldText(t *Term) (string, bool) {
	if s, ok := t.str(); ok {
		return s, true
	}
	if t == nil {
		return "", false
	}
	if t.Op == "concat" {
		r := ""
		for _, a := range t.Args {
			s, ok := foldText(a)
			if !ok {
				return "", false
			}
			r += s
		}
		return r, true
	}
	n, a := calleeOf(t)
	switch n {
	case "(*regexp.Regexp).ReplaceAllString", "(*regexp.Regexp).ReplaceAllLiteralString":
		pat, ok1 := foldRegexp(a[0])
		s, ok2 := foldText(a[1])
		to, ok3 := foldText(a[2])
		if !ok1 || !ok2 || !ok3 {
			return "", false
		}
		re, err := regexp.Compile(pat)
		if err != nil {
			return "", false
		}
		if strings.HasSuffix(n, "LiteralString") {
			return re.ReplaceAllLiteralString(s, to), true
		}
		return re.ReplaceAllString(s, to), true
	case "strings.ReplaceAll":
		s, ok1 := foldText(a[0])
		from, ok2 := foldText(a[1])
		to, ok3 := foldText(a[2])
		return strings.ReplaceAll(s, from, to), ok1 && ok2 && ok3
	}
	return "", false
}

func foldRegexp(t *Term) (string, bool) {
	if s, _ := t.siteOf(); s != nil {
		switch s.siteName() {
		case "regexp.MustCompile", "regexp.Compile":
			return foldText(s.Args[0])
		}
	}
	return "", false
}

// groups: the parts of a string that a regular expression has been matched with.
type groups struct {
	str  *Term
	re   map[string]bool // patterns seen
	pat  string
	used map[string]bool

	names  map[*Term]string
	firsts map[*Term]*Term
	terms  map[string]*Term
}

// name: t is the text of that group.
func (g *groups) name(t *Term) string {
	if t == nil || t.Op != "idx" {
		return ""
	}
	n, ok := g.names[t]
	if !ok {
		n = g.nameOf(t)
		g.names[t] = n
	}
	return n
}

// first: a group that t is made from.
func (g *groups) first(t *Term) *Term {
	if r, ok := g.firsts[t]; ok {
		return r
	}
	var r *Term
	t.any(func(x *Term) bool {
		if g.name(x) != "" {
			r = x
		}
		return r != nil
	})
	g.firsts[t] = r
	return r
}

func newGroups(str *Term) *groups {
	return &groups{str: str, re: map[string]bool{}, used: map[string]bool{}, names: map[*Term]string{}, firsts: map[*Term]*Term{}, terms: map[string]*Term{}}
}

func (g *groups) nameOf(t *Term) string {
	if n, a := calleeOf(t.Args[0]); n != "(*regexp.Regexp).FindStringSubmatch" || a[1] != g.str {
		return ""
	}
	_, a := calleeOf(t.Args[0])
	pat, ok := foldRegexp(a[0])
	if !ok {
		return ""
	}
	g.re[pat] = true
	g.pat = pat
	i := t.Args[1]
	name := ""
	if n, b := calleeOf(i); n == "(*regexp.Regexp).SubexpIndex" {
		if p, ok := foldRegexp(b[0]); !ok || p != pat {
			return ""
		}
		name, _ = b[1].str()
	} else if k, ok := intConst(i); ok {
		if re, err := syntax.Parse(pat, syntax.Perl); err == nil {
			if names := re.CapNames(); k > 0 && int(k) < len(names) {
				name = names[k]
			}
		}
	}
	if name != "" {
		g.used[name] = true
		g.terms[name] = t
	}
	return name
}

func intConst(t *Term) (int64, bool) {
	if t == nil || t.Op != "const" || t.C.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(t.C)
}

// given: whether the group is known to be not empty.
func (g *groups) given(st *State, name string) tri {
	t := g.terms[name]
	if t == nil {
		return unknown
	}
	return notEmpty(st, t)
}

func notEmpty(st *State, t *Term) tri {
	switch st.decide(mkEq(t, mkStr(""))) {
	case yes:
		return no
	case no:
		return yes
	}
	return unknown
}

// all: the groups that t is the concatenation of.
func (g *groups) all(t *Term) []string {
	if n := g.name(t); n != "" {
		return []string{n}
	}
	if t == nil || t.Op != "concat" {
		return nil
	}
	var r []string
	for _, a := range t.Args {
		n := g.name(a)
		if n == "" {
			return nil
		}
		r = append(r, n)
	}
	return r
}

// empty: the concatenation of the groups is known to be empty (or not).
func (g *groups) empty(st *State, names ...string) tri {
	left := map[string]bool{}
	for _, n := range names {
		left[n] = true
	}
	r := unknown
	for f, v := range st.facts {
		if f.Op != "bin" || f.Aux != "==" || f.Args[1] != mkStr("") {
			continue
		}
		all := g.all(f.Args[0])
		within := len(all) > 0
		for _, n := range all {
			within = within && contains(names, n)
		}
		switch {
		case within && !v:
			return no
		case v:
			for _, n := range all {
				delete(left, n)
			}
		}
	}
	if len(left) == 0 {
		r = yes
	}
	return r
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// number: t is the decimal number that a text is; returns the text.
func number(st *State, t *Term) *Term {
	t = stripConv(t)
	s, i := t.siteOf()
	if s == nil || i != 0 {
		return nil
	}
	switch s.siteName() {
	case "strconv.Atoi":
	case "strconv.ParseInt", "strconv.ParseUint":
		if k, ok := intConst(s.Args[1]); !ok || k != 10 {
			return nil
		}
	default:
		return nil
	}
	if errOf(st, s) != yes {
		if str, ok := s.Args[0].str(); !ok || str != "0" {
			return nil
		}
	}
	return s.Args[0]
}

func parsed(t *Term) bool {
	switch mustSite(t).siteName() {
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
		return true
	}
	return false
}

// numberOf: t is the number that (one of) the groups hold, or zero if none of them holds anything.
func (g *groups) numberOf(st *State, t *Term, names ...string) bool {
	zero := t == tZero
	if !zero {
		src := number(st, t)
		if src == nil {
			return false
		}
		if s, ok := src.str(); ok {
			if s != "0" {
				return false
			}
			zero = true
		} else {
			all := g.all(src)
			for _, n := range all {
				if !contains(names, n) {
					return false
				}
			}
			return len(all) == len(names) || len(all) == 1 && g.given(st, all[0]) == yes
		}
	}
	return g.empty(st, names...) == yes
}

// grammar: the regular expression is the one of the specification, with the same parts.
func (c *Ctx) grammar(fn *ssa.Function, g *groups, spec string) {
	const R = "C25.grammar"
	if len(g.re) != 1 {
		c.failAt(R, fn.Pos(), fn, "it cannot be told which regular expression divides the text into parts", nil)
		return
	}
	if why := sameGrammar(g.pat, spec, g.used); why != "" {
		c.failAt(R, fn.Pos(), fn, "the grammar is not that of the specification: "+why, nil)
		return
	}
	c.okAt(R, shortName(fnName(fn)))
}

// sameGrammar: two regular expressions accept the same strings, with the same parts of them in the named groups.
func sameGrammar(a, b string, names map[string]bool) string {
	pa, err := compileGrammar(a)
	if err != nil {
		return "it does not compile"
	}
	pb, err := compileGrammar(b)
	if err != nil {
		return "it does not compile"
	}
	for n := range names {
		if !contains(pa.names, n) {
			return "it has no group " + n
		}
		if !contains(pb.names, n) {
			return "there is no part " + n
		}
	}
	// the alphabet: one character of each class that some instruction tells apart, and the bounds of the groups
	cuts := map[rune]bool{0: true}
	for _, p := range []*grammarProg{pa, pb} {
		for _, in := range p.Inst {
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1:
				for i, r := range in.Rune {
					cuts[r] = true
					cuts[r+1] = true
					if len(in.Rune) == 1 {
						for f := foldNext(r); f != r; f = foldNext(f) {
							cuts[f], cuts[f+1] = true, true
						}
					}
					_ = i
				}
			case syntax.InstRuneAnyNotNL:
				cuts['\n'], cuts['\n'+1] = true, true
			}
		}
	}
	type pair struct{ a, b string }
	sa, sb := pa.start(names), pb.start(names)
	seen := map[pair]bool{}
	type item struct {
		a, b map[uint32]bool
		text string
	}
	todo := []item{{sa, sb, ""}}
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		k := pair{setKey(x.a), setKey(x.b)}
		if seen[k] {
			continue
		}
		seen[k] = true
		if len(seen) > 200000 {
			return "it is too large"
		}
		if ma, mb := pa.accepts(x.a), pb.accepts(x.b); ma != mb {
			which := "refuses"
			if ma {
				which = "accepts"
			}
			return "it " + which + " " + x.text
		}
		syms := map[string]bool{}
		pa.marks(x.a, names, syms)
		pb.marks(x.b, names, syms)
		for s := range syms {
			na, nb := pa.mark(x.a, s, names), pb.mark(x.b, s, names)
			if len(na)+len(nb) > 0 {
				todo = append(todo, item{na, nb, x.text + s})
			}
		}
		for r := range cuts {
			na, nb := pa.step(x.a, r, names), pb.step(x.b, r, names)
			if len(na)+len(nb) > 0 {
				t := string(r)
				if r == 0 {
					t = "~"
				}
				todo = append(todo, item{na, nb, x.text + t})
			}
		}
	}
	return ""
}

type grammarProg struct {
	*syntax.Prog
	names []string
}

func compileGrammar(s string) (*grammarProg, error) {
	re, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return nil, err
	}
	names := re.CapNames()
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil, err
	}
	return &grammarProg{p, names}, nil
}

func (p *grammarProg) sym(in *syntax.Inst, names map[string]bool) string {
	switch in.Op {
	case syntax.InstCapture:
		k := int(in.Arg)
		if k >= 2 && names[p.names[k/2]] {
			if k%2 == 0 {
				return "<" + p.names[k/2] + ">"
			}
			return "</" + p.names[k/2] + ">"
		}
	case syntax.InstEmptyWidth:
		switch syntax.EmptyOp(in.Arg) {
		case syntax.EmptyBeginText:
			return "^"
		case syntax.EmptyEndText:
			return "$"
		}
		return "?" + itoa(int(in.Arg))
	}
	return ""
}

func (p *grammarProg) close(set map[uint32]bool, names map[string]bool) map[uint32]bool {
	out := map[uint32]bool{}
	var add func(pc uint32)
	add = func(pc uint32) {
		if out[pc] {
			return
		}
		out[pc] = true
		in := &p.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(in.Out)
			add(in.Arg)
		case syntax.InstNop:
			add(in.Out)
		case syntax.InstCapture:
			if p.sym(in, names) == "" {
				add(in.Out)
			}
		}
	}
	for pc := range set {
		add(pc)
	}
	// what is waiting for nothing does not count
	for pc := range out {
		in := &p.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch, syntax.InstNop, syntax.InstFail:
			delete(out, pc)
		case syntax.InstCapture:
			if p.sym(in, names) == "" {
				delete(out, pc)
			}
		}
	}
	return out
}

func (p *grammarProg) start(names map[string]bool) map[uint32]bool {
	return p.close(map[uint32]bool{uint32(p.Start): true}, names)
}

func (p *grammarProg) accepts(set map[uint32]bool) bool {
	for pc := range set {
		if p.Inst[pc].Op == syntax.InstMatch {
			return true
		}
	}
	return false
}

func (p *grammarProg) marks(set map[uint32]bool, names map[string]bool, to map[string]bool) {
	for pc := range set {
		if s := p.sym(&p.Inst[pc], names); s != "" {
			to[s] = true
		}
	}
}

func (p *grammarProg) mark(set map[uint32]bool, s string, names map[string]bool) map[uint32]bool {
	next := map[uint32]bool{}
	for pc := range set {
		if p.sym(&p.Inst[pc], names) == s {
			next[p.Inst[pc].Out] = true
		}
	}
	return p.close(next, names)
}

func (p *grammarProg) step(set map[uint32]bool, r rune, names map[string]bool) map[uint32]bool {
	next := map[uint32]bool{}
	for pc := range set {
		in := &p.Inst[pc]
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			if in.MatchRune(r) {
				next[in.Out] = true
			}
		}
	}
	return p.close(next, names)
}

// parseVersion: what ParseVersion makes of its argument.
func (c *Ctx) parseVersion(fn *ssa.Function) {
	const R = "C25.version"
	if fn == nil {
		c.missing(R, "pep440.ParseVersion")
		return
	}
	g := newGroups(symParam(fn.Params[0]))
	exits := c.run("C25.segments", fn, nil, func(e *Eng, st *State) {
		e.mergeAt = 5000
		e.hooks.Model = func(e *Eng, st *State, ev *CallEvent) ([]callOut, bool) {
			if strings.HasPrefix(ev.Name, "strconv.") || strings.HasPrefix(ev.Name, "(*regexp.Regexp).SubexpIndex") || strings.HasPrefix(ev.Name, "strings.") {
				if !g.feasible(st) {
					return nil, true
				}
			}
			return nil, false
		}
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			carried(st, in)
			if l := ranThrough(e, st, fr, in, val); l != nil {
				if n := g.list(e, st, l); n != "" {
					st.SetMark("through:"+n, l)
				}
			}
		}
		e.hooks.Store = func(e *Eng, st *State, fr *frame, addr, v *Term, in ssa.Instruction) {
			if addr.Op == "ia" {
				markIn(st, fr, "put", mkCall("put", types.Typ[types.Int], addr, v))
			}
		}
		e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
			l := listOver(e, st, fr, header)
			if l == nil {
				return
			}
			which := g.list(e, st, l)
			put := st.Mark("put")
			if !inLoop(st, fr, "put") {
				put = nil
			}
			clearIn(st, "put")
			if which == "" {
				return
			}
			n := 0
			var el *Term
			for _, s := range slotsOf(header) {
				start, end := st.Mark(s.key), s.cur(st)
				if start == nil || end == nil {
					continue
				}
				for _, p := range sliceParts(start, end, s.t) {
					els, ok := appended(p[0], p[1])
					if !ok {
						c.iterBad(e, st, "C25.segments", fr, header, "segments that were found before may be lost")
						return
					}
					for _, x := range els {
						n++
						el = x
					}
				}
			}
			if n == 0 && put != nil {
				n, el = 1, put.Args[1]
			} else {
				put = nil
			}
			switch {
			case n == 0:
				c.iterBad(e, st, "C25.segments", fr, header, "a segment may be left out")
			case n > 1:
				c.iterBad(e, st, "C25.segments", fr, header, "there may be more segments than are written")
			case which == "release" && g.segment(e, st, number(st, el), l, put):
				c.iterOK(e, "C25.segments", fr, header)
			case which == "local" && g.localSegment(e, st, el, l, put):
				c.iterOK(e, "C25.segments", fr, header)
			default:
				c.iterBad(e, st, "C25.segments", fr, header, "a segment may not be the one that is written")
			}
		}
	})
	pre := map[string][]string{"a": {"a", "alpha"}, "b": {"b", "beta"}, "rc": {"rc", "c", "pre", "preview"}}
	words1 := map[string]bool{}
	for _, x := range exits {
		if x.kind != exitRet || len(x.res) != 2 {
			continue
		}
		if !g.feasible(x.st) {
			continue
		}
		bad := func(msg string) { c.failAt(R, x.pos, fn, msg, x.st) }
		if errState(x.st, x.res[1]) != yes {
			if !g.refused(x.st) && !g.unknownWord(x.st) {
				c.failAt("C25.accept", x.pos, fn, "a version that the grammar allows may be refused", x.st)
			} else {
				c.okAt("C25.accept", shortName(fnName(fn))+" "+g.refusal(x.st))
			}
			continue
		}
		if g.empty(x.st, "post_l") == yes && g.empty(x.st, "post_n1", "post_n2") == no {
			words1[""] = true
		}
		for group, words := range versionWords {
			for _, w := range words {
				if g.letter(x.st, group, w) {
					words1[w] = true
				}
			}
		}
		t := pointee(x.res[0].T)
		if t == nil {
			bad("it cannot be told what is returned")
			continue
		}
		v := x.st.load(x.res[0], t)
		part := func(name string) *Term { return x.st.resolve(fieldDeep(v, name)) }
		if !g.matched(x.st) {
			bad("a text that is no version may be accepted")
		}
		if !g.numberOf(x.st, part("Epoch"), "epoch") {
			bad("the epoch may not be the one that is written")
		} else {
			c.okAt(R, "epoch")
		}
		if x.st.Mark("through:release") == nil || part("Release").isNil() {
			bad("segments of the release may be lost")
		} else {
			c.okAt(R, "release")
		}
		if x.st.Mark("through:local") == nil && g.empty(x.st, "local") != yes {
			bad("segments of the local version may be lost")
		} else {
			c.okAt(R, "local")
		}
		if p := part("Pre"); p.isNil() {
			if g.empty(x.st, "pre_l") != yes && g.empty(x.st, "pre") != yes {
				bad("a pre-release may be lost")
			}
		} else if pt := pointee(p.T); pt != nil {
			l, n := fieldOf(x.st, p, pt, "L"), fieldOf(x.st, p, pt, "N")
			ok := false
			for canon, others := range pre {
				if x.st.decide(mkEq(l, mkStr(canon))) == yes {
					for _, o := range others {
						ok = ok || g.letter(x.st, "pre_l", o)
					}
				}
			}
			switch {
			case !ok:
				bad("the kind of a pre-release may not be the one that is written")
			case !g.numberOf(x.st, n, "pre_n"):
				bad("the number of a pre-release may not be the one that is written")
			default:
				c.okAt(R, "pre-release")
			}
		} else {
			bad("it cannot be told whether there is a pre-release")
		}
		opt := func(field, what string, numbers []string, absent [][]string, present []string) {
			p := part(field)
			if p.isNil() {
				ok := false
				for _, a := range absent {
					ok = ok || g.empty(x.st, a...) == yes
				}
				if !ok {
					bad(what + " may be lost")
				}
				return
			}
			pt := pointee(p.T)
			if pt == nil {
				bad("it cannot be told whether there is " + what)
				return
			}
			ok := false
			for _, n := range present {
				ok = ok || g.given(x.st, n) == yes
			}
			ok = ok || g.empty(x.st, numbers...) == no
			switch {
			case !ok:
				bad("there may be " + what + " that is not written")
			case !g.numberOf(x.st, x.st.load(p, pt), numbers...):
				bad("the number of " + what + " may not be the one that is written")
			default:
				c.okAt(R, what)
			}
		}
		opt("Post", "a post-release", []string{"post_n1", "post_n2"}, [][]string{{"post_l", "post_n1", "post_n2"}, {"post_l", "post_n1"}, {"post"}}, []string{"post", "post_l"})
		opt("Dev", "a development release", []string{"dev_n"}, [][]string{{"dev_l"}, {"dev"}}, []string{"dev", "dev_l"})
	}
	for _, l := range versionWords {
		for _, w := range l {
			if !words1[w] {
				c.failAt("C25.accept", fn.Pos(), fn, "versions with "+w+" may be refused", nil)
			}
		}
	}
	if !words1[""] {
		c.failAt("C25.accept", fn.Pos(), fn, "post-releases without a word may be refused", nil)
	}
	c.grammar(fn, g, versionGrammar)
}

// sliceParts: the values at the start and the end of an iteration of the slices that a variable of type t is or contains.
func sliceParts(start, end *Term, t types.Type) [][2]*Term {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return [][2]*Term{{start, end}}
	case *types.Struct:
		var r [][2]*Term
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			switch f.Type().Underlying().(type) {
			case *types.Slice, *types.Struct:
				r = append(r, sliceParts(mkField(start, f.Name(), f.Type()), mkField(end, f.Name(), f.Type()), f.Type())...)
			}
		}
		return r
	}
	return nil
}

// list: l is the list of the segments of that part.
func (g *groups) list(e *Eng, st *State, l *Term) string {
	n, a := calleeOf(l)
	switch n {
	case "strings.Split":
		if g.name(a[0]) == "release" && a[1] == mkStr(".") {
			return "release"
		}
	case "strings.FieldsFunc":
		which := g.name(a[0])
		if which != "release" && which != "local" {
			return ""
		}
		r := tt.mkT("sym", "rune", types.Typ[types.Rune])
		xs := e.applyExits(st, a[1], r)
		for _, k := range probeRunes {
			if k > 126 {
				continue
			}
			want := k == '.' || which == "local" && (k == '-' || k == '_')
			sep := unknown
			for _, x := range xs {
				t := x.st.clone()
				if !t.assume(mkEq(r, mkInt(k)), true) {
					continue
				}
				if v, ok := runeIn(t, x.res[0], r, k); ok {
					sep = triOf(v)
				}
			}
			if sep != triOf(want) {
				return ""
			}
		}
		return which
	}
	// divided in another way
	if l.Op == "call" || l.Op == "ext" || l.Op == "site" {
		which := ""
		l.any(func(t *Term) bool {
			if n := g.name(t); n == "local" {
				which = n
			}
			return which != ""
		})
		return which
	}
	return ""
}

// runeIn: the value of a condition on a character.
func runeIn(st *State, cond, r *Term, k int64) (bool, bool) {
	switch st.decide(cond) {
	case yes:
		return true, true
	case no:
		return false, true
	}
	n, a := calleeOf(cond)
	if n == "strings.ContainsRune" {
		if s, ok := a[0].str(); ok && (a[1] == r || st.decide(mkEq(a[1], mkInt(k))) == yes) {
			return strings.ContainsRune(s, rune(k)), true
		}
	}
	// a comparison of what strings.IndexRune finds
	if cond.Op == "bin" {
		for i := 0; i < 2; i++ {
			if n, a := calleeOf(cond.Args[i]); n == "strings.IndexRune" {
				if s, ok := a[0].str(); ok {
					x := mkInt(int64(strings.IndexRune(s, rune(k))))
					args := []*Term{cond.Args[0], cond.Args[1]}
					args[i] = x
					switch st.decide(mkCond(cond.Aux, args[0], args[1])) {
					case yes:
						return true, true
					case no:
						return false, true
					}
				}
			}
		}
	}
	return false, false
}

// segment: src is the segment of the iteration.
func (g *groups) segment(e *Eng, st *State, src, l, put *Term) bool {
	if src == nil || src.Op != "idx" || src.Args[0] != l {
		return false
	}
	return put == nil || put.Args[0].Args[1] == src.Args[1]
}

func (g *groups) localSegment(e *Eng, st *State, el, l, put *Term) bool {
	n, a := calleeOf(el)
	switch {
	case strings.HasSuffix(n, "intstr.FromInt"), strings.HasSuffix(n, "intstr.FromInt32"):
		src := number(st, a[0])
		if s := mustSite(stripConv(a[0])); src != nil && s.siteName() == "strconv.ParseInt" || src != nil && s.siteName() == "strconv.ParseUint" {
			if k, ok := intConst(s.Args[2]); !ok || k != 32 && k != 31 {
				return false // does not fit
			}
		} else {
			return false
		}
		return g.segment(e, st, lowered(src), l, put)
	case strings.HasSuffix(n, "intstr.FromString"):
		src := lowered(a[0])
		if src == a[0] || !g.segment(e, st, src, l, put) {
			return false
		}
		// something else than a failed conversion tells that it is no number
		return hasFactAny(st, func(f *Term) bool {
			if f.Op == "bin" && (stripConv(f.Args[0]).isCall("len") || stripConv(f.Args[1]).isCall("len")) {
				return false // how long it is says nothing
			}
			if f.Op == "bin" && f.Aux == "==" && f.Args[1] == mkStr("") && (f.Args[0] == src || st.decide(f) == yes) {
				return false
			}
			return f.any(func(t *Term) bool { return t == src }) && !f.any(parsed)
		})
	}
	return false
}

func lowered(t *Term) *Term {
	if n, a := calleeOf(t); n == "strings.ToLower" {
		return a[0]
	}
	return t
}

func hasFactAny(st *State, pred func(f *Term) bool) bool {
	return hasFact(st, true, pred) || hasFact(st, false, pred)
}

// letter: the group is known to hold that word, whatever the case.
func (g *groups) letter(st *State, group, word string) bool {
	return eqFact(st, func(a, b *Term) bool {
		return g.name(lowered(a)) == group && b == mkStr(word)
	})
}

var versionWords = map[string][]string{"pre_l": {"a", "b", "c", "rc", "alpha", "beta", "pre", "preview"}, "post_l": {"post", "rev", "r"}, "dev_l": {"dev"}}

// unknownWord: a group holds none of the words that it has been compared with.
func (g *groups) unknownWord(st *State) bool {
	if g.empty(st, "post_l") == yes && g.empty(st, "post_n1", "post_n2") == no {
		return true
	}
	for group, words := range versionWords {
		if g.given(st, group) != yes {
			continue
		}
		n := 0
		for _, w := range words {
			if g.letter(st, group, w) {
				n = -len(words)
			}
			if hasFact(st, false, func(f *Term) bool {
				return f.Op == "bin" && f.Aux == "==" && f.Args[0].isCall("strings.ToLower") && g.name(lowered(f.Args[0])) == group && f.Args[1] == mkStr(w)
			}) {
				n++
			}
		}
		if n > 0 {
			return true
		}
	}
	return false
}

// feasible: what the state knows about the groups can be so by the grammar.
func (g *groups) feasible(st *State) bool {
	for group, words := range versionWords {
		if g.given(st, group) == yes {
			left := 0
			for _, w := range words {
				if !hasFact(st, false, func(f *Term) bool {
					return f.Op == "bin" && f.Aux == "==" && f.Args[0].isCall("strings.ToLower") && g.name(lowered(f.Args[0])) == group && f.Args[1] == mkStr(w)
				}) {
					left++
				}
			}
			if left == 0 {
				return false
			}
			if g.letter(st, group, "") {
				return false
			}
		}
	}
	// a word of another part
	if hasFact(st, true, func(f *Term) bool {
		if f.Op != "bin" || f.Aux != "==" || !f.Args[0].isCall("strings.ToLower") {
			return false
		}
		words := versionWords[g.name(lowered(f.Args[0]))]
		w, ok := f.Args[1].str()
		return ok && words != nil && w != "" && !contains(words, w)
	}) {
		return false
	}
	for group, n := range map[string]string{"pre_l": "pre_n", "dev_l": "dev_n", "post_l": "post_n2"} {
		if g.empty(st, group) == yes && g.given(st, n) == yes {
			return false
		}
	}
	for _, group := range []string{"release"} {
		if g.empty(st, group) == yes {
			return false
		}
	}
	// constants are numbers
	if hasFact(st, false, func(f *Term) bool {
		if f.Op != "bin" || f.Aux != "==" || !f.Args[1].isNil() {
			return false
		}
		s, _ := f.Args[0].siteOf()
		if s == nil || !parsed(s) {
			return false
		}
		_, isConst := s.Args[0].str()
		return isConst
	}) {
		return false
	}
	// the names of groups are known
	return !hasFact(st, true, func(f *Term) bool {
		return f.Op == "bin" && f.Aux == "<" && f.Args[0].isCall("(*regexp.Regexp).SubexpIndex") && f.Args[1] == tZero
	})
}

func (g *groups) isMatch(t *Term) bool {
	n, a := calleeOf(t)
	return n == "(*regexp.Regexp).FindStringSubmatch" && a[1] == g.str
}

// matched: the text is known to match.
func (g *groups) matched(st *State) bool { return g.match(st) == yes }

func (g *groups) match(st *State) tri {
	for f, v := range st.facts {
		if f.Op != "bin" {
			continue
		}
		switch {
		case f.Aux == "==" && g.isMatch(f.Args[0]) && f.Args[1].isNil(),
			f.Aux == "==" && f.Args[0].isCall("len") && g.isMatch(f.Args[0].Args[0]) && f.Args[1] == tZero:
			return triOf(!v)
		case f.Aux == "<" && f.Args[0] == tZero && f.Args[1].isCall("len") && g.isMatch(f.Args[1].Args[0]):
			return triOf(v)
		}
	}
	return unknown
}

// refused: there is a reason to refuse the text.
func (g *groups) refused(st *State) bool { return g.refusal(st) != "" }

func (g *groups) refusal(st *State) string {
	if g.match(st) == no {
		return "no match"
	}
	why := ""
	hasFact(st, false, func(f *Term) bool {
		if f.Op != "bin" || f.Aux != "==" || !f.Args[1].isNil() {
			return false
		}
		s, _ := f.Args[0].siteOf()
		if s == nil || !parsed(s) && s.siteName() != modPath+"/"+pep440Dir+".ParseVersion" {
			return false
		}
		if g.first(s.Args[0]) != nil {
			why = "number"
			if !parsed(s) {
				why = "version"
			}
		}
		return why != ""
	})
	return why
}

// parseFilename: what ParseFilename makes of its argument.
func (c *Ctx) parseFilename(fn *ssa.Function) {
	const R = "C25.filename"
	if fn == nil {
		c.missing(R, "bdist.ParseFilename")
		return
	}
	g := newGroups(symParam(fn.Params[0]))
	exits := c.run(R, fn, nil, func(e *Eng, st *State) { e.mergeAt = 3000 })
	for _, x := range exits {
		if x.kind != exitRet || len(x.res) != 2 || !g.feasible(x.st) {
			continue
		}
		bad := func(msg string) { c.failAt(R, x.pos, fn, msg, x.st) }
		if errState(x.st, x.res[1]) != yes {
			if !g.refused(x.st) {
				c.failAt("C25.accept", x.pos, fn, "a file name that the grammar allows may be refused", x.st)
			} else {
				c.okAt("C25.accept", shortName(fnName(fn))+" "+g.refusal(x.st))
			}
			continue
		}
		t := pointee(x.res[0].T)
		if t == nil {
			bad("it cannot be told what is returned")
			continue
		}
		v := x.st.load(x.res[0], t)
		if !g.matched(x.st) {
			bad("a text that is no file name of a wheel may be accepted")
		}
		text := func(t *Term, group, what string) {
			if g.name(x.st.resolve(t)) != group {
				bad(what + " may not be the one that is written")
				return
			}
			c.okAt(R, what)
		}
		text(fieldDeep(v, "Distribution"), "distribution", "the distribution")
		tag := fieldDeep(v, "CompatibilityTag")
		text(fieldDeep(tag, "Python"), "python", "the Python tag")
		text(fieldDeep(tag, "ABI"), "abi", "the ABI tag")
		text(fieldDeep(tag, "Platform"), "platform", "the platform tag")
		ver := x.st.resolve(fieldDeep(v, "Version"))
		okV := ver != nil && ver.any(func(t *Term) bool {
			s, i := t.siteOf()
			return s != nil && i == 0 && strings.HasSuffix(s.siteName(), pep440Dir+".ParseVersion") && errOf(x.st, s) == yes && g.name(s.Args[0]) == "version"
		})
		if !okV {
			bad("the version may not be the one that is written")
		} else {
			c.okAt(R, "version")
		}
		b := x.st.resolve(fieldDeep(v, "BuildTag"))
		if b.isNil() {
			if g.empty(x.st, "build_n") != yes {
				bad("a build tag may be lost")
			}
			continue
		}
		bt := pointee(b.T)
		switch {
		case bt == nil:
			bad("it cannot be told whether there is a build tag")
		case g.given(x.st, "build_n") != yes:
			bad("there may be a build tag that is not written")
		case !g.numberOf(x.st, fieldOf(x.st, b, bt, "Int"), "build_n"):
			bad("the number of a build tag may not be the one that is written")
		case g.name(fieldOf(x.st, b, bt, "Str")) != "build_l" && !(fieldOf(x.st, b, bt, "Str") == mkStr("") && g.empty(x.st, "build_l") == yes):
			bad("the text of a build tag may not be the one that is written")
		default:
			c.okAt(R, "build tag")
		}
	}
	c.grammar(fn, g, filenameGrammar)
}

// pythonVersion: the version of an interpreter.
func (c *Ctx) pythonVersion(fn *ssa.Function) {
	const R = "C25.python"
	if fn == nil {
		c.missing(R, "python.VersionInfo.PEP440")
		return
	}
	vi, vt := symParam(fn.Params[0]), fn.Params[0].Type()
	if t := pointee(vt); t != nil {
		vi, vt = newState().load(vi, t), t
	}
	level, serial := fieldDeepT(vi, vt, "ReleaseLevel"), fieldDeepT(vi, vt, "Serial")
	if level == nil || serial == nil {
		c.missing(R, "the fields of python.VersionInfo")
		return
	}
	levels := map[string]string{"alpha": "a", "beta": "b", "candidate": "rc", "final": ""}
	var eng *Eng
	exits := c.run(R, fn, nil, func(e *Eng, st *State) {
		e.mergeAt = 3000
		eng = e
	})
	for _, x := range exits {
		if x.kind != exitRet || len(x.res) != 2 {
			continue
		}
		bad := func(msg string) { c.failAt(R, x.pos, fn, msg, x.st) }
		known := ""
		refuted := 0
		for l := range levels {
			switch x.st.decide(mkEq(level, mkStr(l))) {
			case yes:
				known = l
			case no:
				refuted++
			}
		}
		if errState(x.st, x.res[1]) != yes {
			if refuted < len(levels) {
				bad("the version of an interpreter may be refused though its release level is known")
			}
			continue
		}
		if known == "" {
			bad("a release level that is not known may be accepted")
			continue
		}
		t := pointee(x.res[0].T)
		if t == nil {
			bad("it cannot be told what is returned")
			continue
		}
		v := x.st.load(x.res[0], t)
		rel := x.st.resolve(fieldDeep(v, "Release"))
		nums := argList(eng, x.st, rel)
		if len(nums) != 3 || nums[0] != fieldDeepT(vi, vt, "Major") || nums[1] != fieldDeepT(vi, vt, "Minor") || nums[2] != fieldDeepT(vi, vt, "Micro") {
			bad("the release may not be made of the major, minor and micro version")
			continue
		}
		if e := fieldDeep(v, "Epoch"); x.st.decide(mkEq(e, tZero)) != yes || !x.st.resolve(fieldDeep(v, "Post")).isNil() || !x.st.resolve(fieldDeep(v, "Dev")).isNil() {
			bad("the version may have parts that no interpreter has")
			continue
		}
		p := x.st.resolve(fieldDeep(v, "Pre"))
		if levels[known] == "" {
			if !p.isNil() {
				bad("a final release may become a pre-release")
				continue
			}
			c.okAt(R, known)
			continue
		}
		pt := pointee(p.T)
		switch {
		case p.isNil() || pt == nil:
			bad("a pre-release may become a final release")
		case fieldOf(x.st, p, pt, "L") != mkStr(levels[known]) && x.st.decide(mkEq(fieldOf(x.st, p, pt, "L"), mkStr(levels[known]))) != yes:
			bad("the kind of a pre-release may not be that of the release level")
		case fieldOf(x.st, p, pt, "N") != serial:
			bad("the number of a pre-release may not be the serial")
		default:
			c.okAt(R, known)
		}
	}
}

// fieldDeepT: the same as fieldDeep for a value of type t.
func fieldDeepT(v *Term, t types.Type, name string) *Term {
	s, ok := t.Underlying().(*types.Struct)
	if v == nil || !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return mkField(v, name, s.Field(i).Type())
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); f.Embedded() {
			if r := fieldDeepT(mkField(v, f.Name(), f.Type()), f.Type(), name); r != nil {
				return r
			}
		}
	}
	return nil
}

func mkCond(op string, a, b *Term) *Term {
	switch op {
	case "==":
		return mkEq(a, b)
	case "<":
		return mkLt(a, b)
	}
	return mkCall("cond"+op, types.Typ[types.Bool], a, b)
}

func setKey(s map[uint32]bool) string {
	var l []int
	for k := range s {
		l = append(l, int(k))
	}
	sort.Ints(l)
	r := ""
	for _, k := range l {
		r += itoa(k) + ","
	}
	return r
}

func foldNext(r rune) rune { return unicode.SimpleFold(r) }

// versionString: a version is written out by String.
func (c *Ctx) versionString(fn *ssa.Function, local bool) {
	const R = "C25.print"
	if fn == nil {
		c.missing(R, "pep440.Version.String")
		return
	}
	v, vt := symParam(fn.Params[0]), fn.Params[0].Type()
	if t := pointee(vt); t != nil {
		v, vt = newState().load(v, t), t
	}
	epoch, release, loc := fieldDeepT(v, vt, "Epoch"), fieldDeepT(v, vt, "Release"), fieldDeepT(v, vt, "Local")
	if epoch == nil || release == nil || local && loc == nil {
		c.missing(R, "the fields of pep440.Version")
		return
	}
	opt := map[string]*Term{"Pre": fieldDeepT(v, vt, "Pre"), "Post": fieldDeepT(v, vt, "Post"), "Dev": fieldDeepT(v, vt, "Dev")}
	// part: the part of the version that a value is
	part := func(st *State, t *Term) (string, *Term) {
		t = unbox(t)
		for {
			n, a := calleeOf(t)
			if n == "fmt.Sprint" && len(a) == 1 && a[0].Op == "list" && len(a[0].Args) == 1 {
				t = stripConv(unbox(a[0].Args[0]))
				continue
			}
			if n == "strconv.Itoa" || n == "strconv.FormatInt" && a[1] == mkInt(10) {
				t = stripConv(unbox(a[0]))
				continue
			}
			break
		}
		switch {
		case t == epoch:
			return "epoch", nil
		case t.Op == "idx" && (t.Args[0] == release || tailOf(t.Args[0]) == release):
			return "release", t
		case t == st.load(opt["Post"], pointee(opt["Post"].T)):
			return "post", nil
		case t == st.load(opt["Dev"], pointee(opt["Dev"].T)):
			return "dev", nil
		case t == fieldOf(st, opt["Pre"], pointee(opt["Pre"].T), "L"):
			return "letter", nil
		case t == fieldOf(st, opt["Pre"], pointee(opt["Pre"].T), "N"):
			return "number", nil
		}
		var seg *Term
		if local {
			t.any(func(x *Term) bool {
				if x.Op == "idx" && x.Args[0] == loc {
					seg = x
				}
				return seg != nil
			})
			if seg == nil {
				t.any(func(x *Term) bool { // a copy of the segment
					if x.Op == "new" || x.Op == "alloc" {
						if pt := pointee(x.T); pt != nil {
							if y := st.load(x, pt); y.Op == "idx" && y.Args[0] == loc {
								seg = y
							}
						}
					}
					return seg != nil
				})
			}
		}
		if seg != nil {
			return "local", seg
		}
		return "", nil
	}
	next := map[string]string{
		"start//epoch": "epoch", "start//release": "release", "epoch/!/release": "release", "release/./release": "release",
		"release//letter": "letter", "letter//number": "pre",
		"release/.post/post": "post", "pre/.post/post": "post",
		"release/.dev/dev": "dev", "pre/.dev/dev": "dev", "post/.dev/dev": "dev",
		"release/+/local": "local", "pre/+/local": "local", "post/+/local": "local", "dev/+/local": "local", "local/./local": "local",
	}
	var eng *Eng
	// write: tokens are written one after the other
	write := func(st *State, tokens []*Term, inside bool) (why string, segs []*Term) {
		stage, text := "start", ""
		if m := st.Mark("stage"); m != nil {
			stage, _ = m.str()
			text, _ = st.Mark("text").str()
		}
		if stage == "bad" || stage == "dead" {
			return "", nil
		}
		defer func() {
			if why != "" {
				st.SetMark("stage", mkStr("bad"))
				st.SetMark("text", mkStr(""))
			}
		}()
		for _, t := range tokens {
			if s, ok := t.str(); ok {
				text += s
				continue
			}
			if in := eng.inflow[t]; t.Op == "sym" && len(in) > 0 && in[mkStr("+")] && in[mkStr(".")] && len(in) == 2 {
				// a separator that is another one for the first segment
				if stage == "local" {
					text += "."
				} else {
					text += "+"
				}
				continue
			}
			p, seg := part(st, t)
			n := next[stage+"/"+text+"/"+p]
			if seg != nil && st.Mark("looping") != nil && st.Mark("head:"+p) == nil && !(seg.Args[1].Op == "const") {
				// the segments are taken in order: one has been written exactly if it is not the first
				if first := st.decide(mkEq(seg.Args[1], tZero)); first == yes && stage == p || first == no && stage != p {
					st.SetMark("stage", mkStr("dead"))
					st.SetMark("text", mkStr(""))
					return "", nil
				}
			}
			if p == "" || n == "" {
				return "something else than the parts of the version in their order may be written", nil
			}
			if seg != nil {
				from, known := firstIndex(eng, seg.Args[1])
				if tailOf(seg.Args[0]) == release {
					from++
				}
				want := int64(0)
				if st.Mark("head:"+n) != nil {
					want = 1
				}
				if !inside {
					st.SetMark("head:"+n, tTrue)
				}
				if want == 0 && from == 1 && stage == n {
					want = 1 // the first one has been written by an iteration before
				}
				if !known || from != want {
					return "segments may not be written in their order", nil
				}
				segs = append(segs, seg)
			}
			stage, text = n, ""
			st.SetMark("did:"+n, tTrue)
		}
		st.SetMark("stage", mkStr(stage))
		st.SetMark("text", mkStr(text))
		return "", segs
	}
	exits := c.run(R, fn, nil, func(e *Eng, st *State) {
		e.mergeAt = 3000
		eng = e
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			var tokens []*Term
			switch ev.Name {
			case "(*strings.Builder).WriteString", "io.WriteString", "(*bytes.Buffer).WriteString":
				tokens = tokensOf(ev.Args[1])
			case "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune":
				k, ok := intConst(ev.Args[1])
				if !ok {
					tokens = []*Term{ev.Args[1]}
					break
				}
				tokens = []*Term{mkStr(string(rune(k)))}
			case "fmt.Fprintf":
				tokens = formatTokens(ev.Args[1], argList(e, st, ev.Args[2]))
			case "fmt.Fprint":
				for _, a := range argList(e, st, ev.Args[1]) {
					tokens = append(tokens, unbox(a))
				}
			default:
				return
			}
			why, segs := write(st, tokens, st.Mark("looping") != nil || insideLoop(ev.Instr))
			if why != "" {
				c.fail(e, st, R, ev.Instr, "%s", why)
				return
			}
			if len(segs) > 0 {
				markIn(st, ev.Frame, "seg", mkInt(int64(len(segs))))
			}
		}
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			if l := ranThrough(e, st, fr, in, val); l != nil {
				if l == release || tailOf(l) == release {
					st.SetMark("through:release", tTrue)
				}
				if l == loc {
					st.SetMark("through:local", tTrue)
				}
				clearIn(st, "looping")
				return
			}
			if l := listOver(e, st, fr, in.Block()); l != nil && isHeader(in.Block()) && (l == release || tailOf(l) == release || l == loc) {
				st.SetMark("looping", tTrue)
			}
		}
		e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
			l := listOver(e, st, fr, header)
			if l == nil || l != release && tailOf(l) != release && l != loc {
				return
			}
			if m := st.Mark("stage"); m == mkStr("dead") || m == mkStr("bad") {
				// not possible
			} else if m := st.Mark("seg"); m == nil || !inLoop(st, fr, "seg") || m != mkInt(1) {
				c.iterBad(e, st, R, fr, header, "a segment may be left out")
			} else {
				c.iterOK(e, R, fr, header)
			}
			clearIn(st, "seg")
		}
	})
	for _, x := range exits {
		if x.kind != exitRet || len(x.res) != 1 {
			continue
		}
		bad := func(msg string) { c.failAt(R, x.pos, fn, msg, x.st) }
		if n, _ := calleeOf(x.res[0]); n != "(*strings.Builder).String" && n != "(*bytes.Buffer).String" {
			if why, _ := write(x.st, tokensOf(x.res[0]), false); why != "" {
				bad(why)
				continue
			}
		}
		stage, text := "", ""
		if m := x.st.Mark("stage"); m != nil {
			stage, _ = m.str()
			text, _ = x.st.Mark("text").str()
		}
		if stage == "bad" || stage == "dead" {
			continue
		}
		if stage == "" || stage == "start" || stage == "epoch" || text != "" {
			bad("the text may not end with a part of the version")
			continue
		}
		did := func(n string) bool { return x.st.Mark("did:"+n) != nil }
		name := shortName(fnName(fn)) + " "
		zero := x.st.decide(mkEq(epoch, tZero))
		if zero == unknown {
			switch {
			case x.st.decide(mkLt(epoch, mkInt(1))) == yes:
				zero = yes
			case x.st.decide(mkLt(epoch, mkInt(1))) == no:
				zero = no
			}
		}
		switch {
		case did("epoch") && zero != no:
			bad("an epoch may be written that is zero")
		case !did("epoch") && zero != yes:
			bad("the epoch may be left out")
		default:
			c.okAt(R, name+"epoch")
		}
		for _, o := range []string{"Pre", "Post", "Dev"} {
			there := x.st.decide(mkEq(opt[o], tNil))
			switch {
			case did(strings.ToLower(o)) && there == yes, !did(strings.ToLower(o)) && there != yes:
				bad(o + " may be left out")
			default:
				c.okAt(R, name+o)
			}
		}
		length := mkCall("len", types.Typ[types.Int], release)
		if !did("release") || x.st.Mark("through:release") == nil && x.st.decide(mkLt(length, mkInt(2))) != yes {
			bad("segments of the release may be left out")
		}
		if local {
			length := mkCall("len", types.Typ[types.Int], loc)
			if x.st.Mark("through:local") == nil && x.st.decide(mkEq(length, tZero)) != yes && x.st.decide(mkLt(length, mkInt(1))) != yes {
				bad("segments of the local version may be left out")
			}
		}
	}
}

// firstIndex: the index that a variable has in the first iteration.
func firstIndex(e *Eng, t *Term) (int64, bool) {
	if k, ok := intConst(t); ok {
		return k, true
	}
	off := int64(0)
	if t.Op == "bin" && t.Aux == "+" {
		k, ok := intConst(t.Args[1])
		if !ok {
			return 0, false
		}
		off, t = k, t.Args[0]
	}
	n := 0
	var first int64
	for in := range e.inflow[t] {
		if k, ok := intConst(in); ok {
			if n == 0 || k < first {
				first = k
			}
			n++
		}
	}
	return first + off, n > 0
}

// insideLoop: the instruction is in a loop of its function.
func insideLoop(in ssa.Instruction) bool {
	b := in.Block()
	for _, h := range b.Parent().Blocks {
		if h.Dominates(b) && isHeader(h) && naturalLoop(h)[b] {
			return true
		}
	}
	return false
}

// tailOf: l is all of a list but its first element.
func tailOf(l *Term) *Term {
	if l.Op == "subslice" && len(l.Args) == 3 && l.Args[1] == mkInt(1) && strings.Contains(l.Args[2].String(), "none") {
		return l.Args[0]
	}
	return nil
}

// tokensOf: the constants and values that a text is made of.
func tokensOf(t *Term) []*Term {
	t = unbox(t)
	if t.Op == "concat" {
		var r []*Term
		for _, a := range t.Args {
			r = append(r, tokensOf(a)...)
		}
		return r
	}
	if n, a := calleeOf(t); n == "fmt.Sprintf" && len(a) == 2 && a[1].Op == "list" {
		return formatTokens(a[0], a[1].Args)
	}
	return []*Term{t}
}

func formatTokens(format *Term, args []*Term) []*Term {
	s, ok := format.str()
	if !ok {
		return []*Term{format}
	}
	var r []*Term
	for s != "" {
		i := strings.IndexByte(s, '%')
		if i < 0 {
			return append(r, mkStr(s))
		}
		if i > 0 {
			r = append(r, mkStr(s[:i]))
		}
		if i+1 >= len(s) || !strings.ContainsRune("dsv", rune(s[i+1])) || len(args) == 0 {
			return append(r, format)
		}
		r = append(r, unbox(args[0]))
		args = args[1:]
		s = s[i+2:]
	}
	return r
}
