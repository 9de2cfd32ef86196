package main

// C06-C11: squashing layers, and the file system view of squashed layers.  The types and functions are recognised by their
// shape: the node type is the struct of pkg/squash that has a parent of its own type and a map of children of its own type;
// functions are recognised by what they call, store or return.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const squashDir = "pkg/squash"

type sqShape struct {
	T                                    *types.Named
	S                                    *types.Struct
	name, parent, children, header, body int
}

func isPtrTo(t types.Type, n *types.Named) bool {
	p, ok := t.(*types.Pointer)
	return ok && types.Identical(p.Elem(), n)
}

func isTarHeaderPtr(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	return ok && isNamed(p.Elem(), "archive/tar", "Header")
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (p *Program) squashShape() *sqShape {
	for _, sp := range p.prog.AllPackages() {
		if sp.Pkg.Path() != modPath+"/"+squashDir {
			continue
		}
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			named, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			s, ok := named.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			h := &sqShape{T: named, S: s, name: -1, parent: -1, children: -1, header: -1, body: -1}
			for i := 0; i < s.NumFields(); i++ {
				t := s.Field(i).Type()
				switch {
				case isPtrTo(t, named):
					h.parent = i
				case isTarHeaderPtr(t):
					h.header = i
				case isBytes(t):
					h.body = i
				case isStringType(t) && h.name < 0:
					h.name = i
				default:
					if m, ok := t.Underlying().(*types.Map); ok && isPtrTo(m.Elem(), named) {
						h.children = i
					}
				}
			}
			if h.name >= 0 && h.parent >= 0 && h.children >= 0 && h.header >= 0 && h.body >= 0 {
				return h
			}
		}
	}
	return nil
}

func (h *sqShape) field(st *State, p *Term, i int) *Term {
	t := h.S.Field(i).Type()
	return st.load(mkFA(p, h.S, i, types.NewPointer(t)), t)
}

func (h *sqShape) isNode(t types.Type) bool { return isPtrTo(t, h.T) }

// getter: the function looks up a node.
func (h *sqShape) getter(f *ssa.Function) bool {
	r := f.Signature.Results()
	return r.Len() == 2 && h.isNode(r.At(0).Type()) && isErrorType(r.At(1).Type()) && pkgDir(f) == squashDir && !h.part(f)
}

// part: the function is a part of looking up a single name, that of following a link; it is analysed with its callers.
func (h *sqShape) part(f *ssa.Function) bool {
	return loadsField(f, "Linkname") && !h.looksUp(f)
}

// stores: the instruction stores to field i of a node.
func (h *sqShape) stores(in ssa.Instruction, i int) (ssa.Value, bool) {
	s, ok := in.(*ssa.Store)
	if !ok {
		return nil, false
	}
	fa, ok := s.Addr.(*ssa.FieldAddr)
	if !ok || fa.Field != i || !h.isNode(fa.X.Type()) {
		return nil, false
	}
	return s.Val, true
}

// setters: functions with a node parameter that give a node a header which they were given.
func (h *sqShape) setters(p *Program) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.pkgFns(squashDir) {
		if f.Parent() != nil || h.getter(f) {
			continue
		}
		node, hd := false, false
		for _, q := range f.Params {
			if h.isNode(q.Type()) {
				node = true
			}
			if isTarHeaderPtr(q.Type()) {
				hd = true
			}
		}
		if !node || !hd {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if v, ok := h.stores(in, h.header); ok && !isNilConst(v) {
					out = append(out, f)
					goto next
				}
			}
		}
	next:
	}
	return out
}

const (
	whPrefix = ".wh."
	whOpaque = ".wh..wh..opq"
	nTarNext = "(*archive/tar.Reader).Next"
)

// parsers: the functions that read the entries of a layer.
func (p *Program) layerParsers() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.pkgFns(squashDir) {
		if f.Parent() == nil && callsIn(f, nTarNext) {
			out = append(out, f)
		}
	}
	return out
}

// loaders: the functions that apply layers to a tree: they call both a parser and a setter, directly or not.
func (h *sqShape) loaders(p *Program) []*ssa.Function {
	isP, isS := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, f := range p.layerParsers() {
		isP[f] = true
	}
	for _, f := range h.setters(p) {
		isS[f] = true
	}
	var out []*ssa.Function
	for _, f := range p.pkgFns(squashDir) {
		if f.Parent() != nil || isP[f] {
			continue
		}
		for _, g := range callees(f) {
			if isP[g] && p.reachesFn(f, func(g *ssa.Function) bool { return isS[g] }) {
				out = append(out, f)
				break
			}
		}
	}
	return out
}

func callees(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				if g := call.Common().StaticCallee(); g != nil {
					out = append(out, g)
				}
			}
		}
	}
	return out
}

// reachesFn: some function that f calls, directly or not, satisfies the predicate.
func (p *Program) reachesFn(f *ssa.Function, pred func(*ssa.Function) bool) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		for _, g := range append(callees(f), f.AnonFuncs...) {
			if pred(g) || inRepo(g) && rec(g) {
				return true
			}
		}
		return false
	}
	return rec(f)
}

// ascending: the index of an element, in a loop that goes over the elements from the first to the last.
func (e *Eng) ascending(ix *Term) bool {
	if k, ok := ix.intv(); ok {
		return k == 0
	}
	if ix.Op == "bin" && ix.Aux == "+" {
		k, ok := ix.Args[1].intv()
		return ok && k == 1 && e.steps1(ix.Args[0])
	}
	return e.steps1(ix)
}

func (e *Eng) steps1(b *Term) bool {
	if b.Op != "sym" || len(e.inflow[b]) == 0 {
		return false
	}
	for in := range e.inflow[b] {
		if k, ok := in.intv(); ok && (k <= 0 || e.inflow[b][mkInt(k-1)]) {
			continue
		}
		if in.Op == "bin" && in.Aux == "+" && in.Args[0] == b {
			if k, ok := in.Args[1].intv(); ok && k == 1 {
				continue
			}
		}
		return false
	}
	return true
}

// isBase: t is the last component of the path n.
func isBase(t, n *Term) bool {
	if t.isCall("path.Base") || t.isCall("path/filepath.Base") {
		x := t.Args[0]
		for x.isCall("path.Clean") {
			x = x.Args[0]
		}
		for n.isCall("path.Clean") {
			n = n.Args[0]
		}
		return x == n
	}
	if t.Op == "ext" && t.Aux == "1" && t.Args[0].isCall("path.Split") {
		return isBase(mkCall("path.Base", types.Typ[types.String], t.Args[0].Args[0]), n)
	}
	return false
}

// tarEntry: the header that Next returned, if t is (a field of) it.
func tarEntry(t *Term) bool {
	s, i := t.siteOf()
	return s != nil && i == 0 && t.siteName() == nTarNext
}

func (c *Ctx) parserRules(h *sqShape, whField map[string]bool) {
	for _, f := range c.P.layerParsers() {
		fn := f
		omit := -1
		for i, q := range fn.Params {
			if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				omit = i
			}
		}
		args := symParams(fn)
		hdrOf := func(st *State) *Term { return st.Mark("entry") }
		exits := c.run("C06.names", fn, args, func(e *Eng, st *State) {
			e.mergeAt = 3000
			e.hooks.Post = func(e *Eng, st *State, ev *CallEvent) {
				if ev.Name == nTarNext {
					en := mkExt(ev.Res, 0, nil)
					st.SetMark("entry", en)
					if t := c.P.typeOf("archive/tar", "Header"); t != nil {
						st.SetMark("name", fieldOf(st, en, t, "Name"))
					}
				}
			}
			e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
				for cond.Op == "not" {
					cond, val = cond.Args[0], !val
				}
				if n := localCond(st, cond, val); n != nil {
					for n.isCall("path.Clean") {
						n = n.Args[0]
					}
					if n == st.Mark("name") {
						markIn(st, fr, "valid", n)
					}
				}
				if esc, n := escapeCond(cond, val); esc && n == st.Mark("name") {
					st.SetMark("escapes", n)
				}
				if cond.Op == "bin" && cond.Aux == "==" && isErrorType(cond.Args[0].T) && cond.Args[1].isNil() && !val {
					st.SetMark("failed", tTrue)
				}
				if cond.isCall("strings.HasPrefix") && cond.Args[1] == mkStr(whPrefix) && st.Mark("name") != nil && isBase(cond.Args[0], st.Mark("name")) {
					st.SetMark("wh", mkBool(val))
				}
			}
			keep := func(st *State, fr *frame, in ssa.Instruction, field string, v *Term) {
				// an entry is put in a list
				if v.Op == "append" {
					v = v.Args[1]
				}
				if v.Op == "list" && len(v.Args) == 1 {
					v = v.Args[0]
				}
				if v.Op != "agg" || hdrOf(st) == nil {
					return
				}
				var eh, body *Term
				for _, a := range v.Args {
					if a == hdrOf(st) {
						eh = a
					} else if a.T == nil || isBytes(a.T) {
						body = a
					}
				}
				if eh == nil {
					return
				}
				markIn(st, fr, "kept", eh)
				wh := st.Mark("wh")
				if wh == nil {
					c.fail(e, st, "C07.kind", in, "an entry is filed without looking whether it is a whiteout")
				} else {
					b, _ := wh.boolv()
					if was, ok := whField[field]; ok && was != b {
						c.fail(e, st, "C07.kind", in, "whiteouts and other entries are put in the same list")
					} else {
						whField[field] = b
						c.ok(e, "C07.kind", in, field)
					}
				}
				// content
				want := st.Mark("content")
				om := tri(unknown)
				if omit >= 0 {
					om = st.decide(args[omit])
				} else {
					om = no
				}
				switch {
				case body == nil:
				case om == yes:
					c.ok(e, "C08.content", in, "omitted")
				case want != nil && body == want && om == no:
					c.ok(e, "C08.content", in, "kept")
				default:
					c.fail(e, st, "C08.content", in, "the content kept for an entry is %v, not what the archive has", body)
				}
			}
			e.hooks.Store = func(e *Eng, st *State, fr *frame, addr, v *Term, in ssa.Instruction) {
				if addr.Op == "fa" && v != nil {
					keep(st, fr, in, addr.Aux, v)
				}
			}
			e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
				if ev.Name == nTarNext {
					for _, k := range []string{"content", "wh", "escapes", "failed"} {
						st.ClearMark(k)
					}
				}
			}
			post := e.hooks.Post
			e.hooks.Post = func(e *Eng, st *State, ev *CallEvent) {
				post(e, st, ev)
				if (ev.Name == "io.ReadAll" || ev.Name == "io/ioutil.ReadAll") && len(ev.Args) == 1 && unbox(ev.Args[0]).siteName() == "archive/tar.NewReader" {
					st.SetMark("content", mkExt(ev.Res, 0, nil))
				}
			}
			e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
				if inLoop(st, fr, "valid") {
					c.iterOK(e, "C06.names", fr, header)
				} else {
					c.iterBad(e, st, "C06.names", fr, header, "an entry may be taken although its name leads out of the image")
				}
				if inLoop(st, fr, "kept") {
					c.iterOK(e, "C08.all", fr, header)
				} else {
					c.iterBad(e, st, "C08.all", fr, header, "an entry of a layer may be left out")
				}
				clearIn(st, "valid", "kept")
			}
		})
		for _, x := range exits {
			if x.kind != exitRet || len(x.res) == 0 || !isErrorType(lastRes(x).T) && errState(x.st, lastRes(x)) != no {
				continue
			}
			if errState(x.st, lastRes(x)) == no {
				if x.st.Marked("failed") || x.st.Marked("escapes") {
					c.okAt("C06.only", c.P.pos(x.pos))
				} else {
					c.failAt("C06.only", x.pos, fn, "a layer is refused although nothing failed and no name leads out of the image", x.st)
				}
			}
		}
	}
}

// escapeCond: the condition, with this value, says that the cleaned name leads out of the image.
func escapeCond(cond *Term, val bool) (bool, *Term) {
	strip := func(t *Term) *Term {
		for t.isCall("path.Clean") {
			t = t.Args[0]
		}
		return t
	}
	switch {
	case !val && (cond.isCall("io/fs.ValidPath") || cond.isCall("path/filepath.IsLocal")):
		return true, strip(cond.Args[0])
	case val && cond.isCall("strings.HasPrefix"):
		if s, _ := cond.Args[1].str(); s == "/" || s == "../" {
			return true, strip(cond.Args[0])
		}
	case val && (cond.isCall("path.IsAbs") || cond.isCall("path/filepath.IsAbs")):
		return true, strip(cond.Args[0])
	case val && cond.Op == "bin" && cond.Aux == "==":
		for i := 0; i < 2; i++ {
			if cond.Args[i] == mkStr("..") {
				return true, strip(cond.Args[1-i])
			}
		}
	}
	return false, nil
}

func ruleC06(c *Ctx) {
	c.only = true
	c.rule("C06.names", "no entry is taken from a layer before its cleaned name was found to be neither absolute nor .. nor below ..", 1)
	c.rule("C06.only", "a layer is refused only if reading it fails or a name leads out of the image", 2)
	h := c.P.squashShape()
	if h == nil {
		c.missing("C06.names", "the node type")
		return
	}
	c.parserRules(h, map[string]bool{})
}

func ruleC07(c *Ctx) {
	c.only = true
	c.rule("C07.kind", "entries whose base name starts with .wh. are whiteouts, the others are not", 2)
	c.rule("C07.order", "the layers are applied from the first to the last, and in each the whiteouts before the other entries, each at the path of its own header", 2)
	c.rule("C07.every", "every entry of every layer is applied", 1)
	c.rule("C07.set", "a node gets the header and content given; siblings that a whiteout names are removed, and nothing else; a non-directory has no children; a directory that replaces something else is made opaque, and no other", 8)
	c.rule("C07.get", "a path through something that is not a directory turns that into an opaque directory when creating, and is an error when looking up; new nodes are linked to their parent under their name", 4)
	c.rule("C07.walk", "a path is cleaned and looked up component by component, from the root if it is absolute, with the flags given", 2)
	h := c.P.squashShape()
	if h == nil {
		c.missing("C07.set", "the node type")
		return
	}
	wh := map[string]bool{}
	c.parserRules(h, wh)
	c.loaderRules(h, wh)
	sets := h.setters(c.P)
	if len(sets) == 0 {
		c.missing("C07.set", "the function that gives a node its header")
	}
	for _, f := range sets {
		c.setterRules(h, f)
	}
	n := 0
	for _, f := range c.P.pkgFns(squashDir) {
		if h.primitive(f) {
			n++
			c.getterRules(h, f, "C07.get")
		}
	}
	c.walkRules(h, "C07.walk", "C09.pass")
	if n == 0 {
		c.missing("C07.get", "the function that looks a name up in a directory")
	}
}

// primitive: the getter looks a single name up in a directory.
func (h *sqShape) primitive(f *ssa.Function) bool {
	return h.getter(f) && h.looksUp(f)
}

// looksUp: the function looks a name up in the children of a node.
func (h *sqShape) looksUp(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if l, ok := in.(*ssa.Lookup); ok && h.isKids(l.X.Type()) {
				return true
			}
		}
	}
	return false
}

func (h *sqShape) isKids(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && h.isNode(m.Elem())
}

// boolParams: the index of the parameter of a getter that says whether missing nodes are created, and of the other one.
func (h *sqShape) boolParams(f *ssa.Function) (create, follow int) {
	return h.boolParams1(f, map[*ssa.Function]bool{})
}

func (h *sqShape) boolParams1(f *ssa.Function, seen map[*ssa.Function]bool) (create, follow int) {
	create, follow = -1, -1
	if seen[f] {
		return
	}
	seen[f] = true
	var bs []int
	for i, p := range f.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			bs = append(bs, i)
		}
	}
	for _, i := range bs {
		p := f.Params[i]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if h.isKids(x.Map.Type()) {
						for _, r := range *p.Referrers() {
							if iff, ok := r.(*ssa.If); ok && iff.Block().Succs[0].Dominates(b) {
								create = i
							}
						}
					}
				case *ssa.Call:
					if g := x.Call.StaticCallee(); g != nil && !h.getter(g) && h.addsKids(g) {
						for _, r := range *p.Referrers() {
							if iff, ok := r.(*ssa.If); ok && iff.Block().Succs[0].Dominates(b) {
								create = i
							}
						}
					} else if g != nil && h.getter(g) && g != f {
						gc, _ := h.boolParams1(g, seen)
						if gc >= 0 && gc < len(x.Call.Args) && x.Call.Args[gc] == p {
							create = i
						}
					}
				}
			}
		}
	}
	for _, i := range bs {
		if i != create && create >= 0 {
			follow = i
		}
	}
	return
}

// addsKids: the function adds a child to a node.
func (h *sqShape) addsKids(f *ssa.Function) bool {
	if pkgDir(f) != squashDir {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if mu, ok := in.(*ssa.MapUpdate); ok && h.isKids(mu.Map.Type()) {
				return true
			}
		}
	}
	return false
}

type getCall struct {
	node, name, create, follow, counter *Term
}

// getArgs: the arguments of a call of a getter.
func (h *sqShape) getArgs(f *ssa.Function, args []*Term) getCall {
	g := getCall{}
	cr, fo := h.boolParams(f)
	for i, q := range f.Params {
		switch {
		case i == cr:
			g.create = args[i]
		case i == fo:
			g.follow = args[i]
		case h.isNode(q.Type()) && g.node == nil:
			g.node = args[i]
		case isStringType(q.Type()) && g.name == nil:
			g.name = args[i]
		case isIntPtr(q.Type()):
			g.counter = args[i]
		}
	}
	return g
}

func isIntPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	b, ok := p.Elem().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// nodeVar: the values that the variable x may have, other than through itself.
func (e *Eng) sources(x *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.Op == "sym" && len(e.inflow[x]) > 0 {
			for in := range e.inflow[x] {
				rec(in)
			}
			return
		}
		out = append(out, x)
	}
	rec(x)
	return out
}

// getterRules decides a function that looks a single name up in a directory, for each combination of its flags.
func (c *Ctx) getterRules(h *sqShape, fn *ssa.Function, R string) {
	cr, fo := h.boolParams(fn)
	if cr < 0 || fo < 0 {
		c.failAt(R, fn.Pos(), fn, "it cannot be told which parameter says that missing nodes are created", nil)
		return
	}
	hdrT := c.P.typeOf("archive/tar", "Header")
	dirFlag, linkFlag := mkInt('5'), mkInt('2')
	for mode := 0; mode < 4; mode++ {
		args := symParams(fn)
		args[cr], args[fo] = mkBool(mode&1 != 0), mkBool(mode&2 != 0)
		create, follow := mode&1 != 0, mode&2 != 0
		me := h.getArgs(fn, args)
		f, child := me.node, me.name
		s0 := newState()
		up := h.field(s0, f, h.parent)
		// isDir: the node is known to be a directory
		isDir := func(st *State, d *Term) bool {
			hd := h.field(st, d, h.header)
			return hd.isNil() || st.decide(mkEq(hd, tNil)) == yes || st.decide(mkEq(fieldOf(st, hd, hdrT, "Typeflag"), dirFlag)) == yes
		}
		isLink := func(st *State, d *Term) tri {
			hd := h.field(st, d, h.header)
			if hd.isNil() || st.decide(mkEq(hd, tNil)) == yes {
				return no
			}
			return st.decide(mkEq(fieldOf(st, hd, hdrT, "Typeflag"), linkFlag))
		}
		linkName := func(st *State, d *Term) *Term {
			return fieldOf(s0, h.field(s0, d, h.header), hdrT, "Linkname")
		}
		// the directory in which the name is looked up
		dirOf := func(st *State, m *Term) *Term {
			if m.Op == "fld" && m.Args[0].Op == "deref" && m.Aux == h.S.Field(h.children).Name() {
				return m.Args[0].Args[0]
			}
			return st.Mark("kids:" + m.key)
		}
		var eng *Eng
		exits := c.run(R, fn, args, func(e *Eng, st *State) {
			eng = e
			e.mergeAt = 3000
			h.opaqueMarker(c, e, fn, nil)
			model := e.hooks.Model
			e.hooks.Model = func(e *Eng, st *State, ev *CallEvent) ([]callOut, bool) {
				if ev.Fn != nil && h.getter(ev.Fn) {
					g := h.getArgs(ev.Fn, ev.Args)
					nm := g.name
					if nm != mkStr(whOpaque) {
						// a link is resolved
						ok := false
						if x := g.node; x.Op == "fld" && x.Args[0].Op == "deref" && x == h.field(s0, x.Args[0].Args[0], h.parent) {
							d := x.Args[0].Args[0]
							if nm == linkName(st, d) {
								ok = true
								if isLink(st, d) != yes {
									c.fail(e, st, R, ev.Instr, "the link target of something that may be no link is looked up")
								}
							}
						}
						if !ok {
							c.fail(e, st, R, ev.Instr, "%v is looked up below %v, which is neither a link's target from the link's directory nor the opaque marker", nm, g.node)
						} else {
							c.ok(e, R, ev.Instr, "link")
						}
						if g.create != nil && g.create != args[cr] {
							c.fail(e, st, R, ev.Instr, "a link is resolved with other flags than those given")
						}
					}
				}
				return model(e, st, ev)
			}
			e.hooks.Lookup = func(e *Eng, st *State, fr *frame, m, k *Term, in ssa.Instruction) {
				if !h.isKids(m.T) && m.Op != "makemap" && m.Op != "alloc" {
					return
				}
				d := dirOf(st, m)
				switch {
				case d == nil:
				case k != child:
					c.fail(e, st, R, in, "the name looked up is %v, not the one given", k)
				case d == f:
					if isLink(st, f) != no {
						c.fail(e, st, R, in, "a name is looked up below a link, not below the directory that the link points to")
					} else {
						c.ok(e, R, in, "lookup")
					}
				default:
					s, i := d.siteOf()
					if s == nil || i != 0 {
						c.fail(e, st, R, in, "a name is looked up in %v", d)
						return
					}
					var g getCall
					for _, gf := range c.P.pkgFns(squashDir) {
						if h.getter(gf) && fnName(gf) == d.siteName() && len(gf.Params) == len(s.Args) {
							g = h.getArgs(gf, s.Args)
						}
					}
					if g.node != up || g.name != linkName(st, f) || g.follow != tTrue {
						c.fail(e, st, R, in, "a name below a link is looked up in %v, not in what the link leads to in the end", d)
					} else {
						c.ok(e, R, in, "lookup")
					}
				}
			}
			mu := e.hooks.MapUpdate
			e.hooks.MapUpdate = func(e *Eng, st *State, fr *frame, m, k, v *Term, in ssa.Instruction) {
				mu(e, st, fr, m, k, v, in)
				if k == mkStr(whOpaque) {
					return
				}
				d := dirOf(st, m)
				switch {
				case !create:
					c.fail(e, st, R, in, "looking a name up adds nodes")
				case d == nil || k != child:
					c.fail(e, st, R, in, "a node is added as %v to %v", k, m)
				case !isDir(st, d):
					c.fail(e, st, R, in, "a node is added below something that may not be a directory")
				case h.field(st, v, h.parent) != d:
					c.fail(e, st, R, in, "a new node is not linked to its directory")
				case !isPathJoin(h.field(st, v, h.name), h.field(st, d, h.name), child):
					c.fail(e, st, R, in, "the path name of a new node is %v", h.field(st, v, h.name))
				case !h.field(st, v, h.header).isNil():
					c.fail(e, st, R, in, "a new node has a header before it is given one")
				default:
					st.SetMark("new", v)
					c.ok(e, R, in, "new node")
				}
			}
			e.hooks.Store = func(e *Eng, st *State, fr *frame, addr, v *Term, in ssa.Instruction) {
				if addr.Op != "fa" || len(addr.Args) == 0 {
					return
				}
				d := addr.Args[0]
				switch {
				case addr.Aux == h.S.Field(h.header).Name() && d.T != nil && h.isNode(d.T) && d.Op != "alloc":
					if !create {
						c.fail(e, st, R, in, "looking a name up changes a node")
					} else if isDir(st, d) {
						c.fail(e, st, R, in, "the header of a directory is dropped")
					} else if !v.isNil() {
						c.fail(e, st, R, in, "looking a name up gives a node the header %v", v)
					} else {
						st.SetMark("dropped", d)
					}
				case addr.Aux == h.S.Field(h.children).Name() && d.T != nil && h.isNode(d.T):
					st.SetMark("kids:"+v.key, d)
				}
			}
			e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
				for cond.Op == "not" {
					cond, val = cond.Args[0], !val
				}
				if cond.Op != "bin" {
					if cond.Op == "lookupok" && !val {
						st.SetMark("why:missing", tTrue)
					}
					return
				}
				switch {
				case cond.Aux == "==" && cond.Args[0] == child && cond.Args[1] == mkStr(".."), cond.Aux == "==" && cond.Args[1] == child && cond.Args[0] == mkStr(".."):
					st.SetMark("is:up", mkBool(val))
				case cond.Aux == "==" && cond.Args[0] == child && cond.Args[1] == mkStr("."), cond.Aux == "==" && cond.Args[1] == child && cond.Args[0] == mkStr("."):
					st.SetMark("is:self", mkBool(val))
				case cond.Aux == "==" && cond.Args[1].isNil() && h.isNodeTerm(cond.Args[0]) && val:
					st.SetMark("why:missing", tTrue)
				case cond.Aux == "==" && cond.Args[1].isNil() && isErrorType(cond.Args[0].T) && !val:
					st.SetMark("why:failed", tTrue)
				case cond.Aux == "==" && cond.Args[1] == dirFlag && !val && !create:
					st.SetMark("why:notdir", tTrue)
				case cond.Aux == "<":
					st.SetMark("why:count", tTrue)
				}
			}
		})
		for _, x := range exits {
			if x.kind != exitRet || len(x.res) != 2 {
				continue
			}
			st, r := x.st, x.res[0]
			bad := func(format string, a ...interface{}) {
				c.failAt(R, x.pos, fn, fmt.Sprintf(format, a...)+fmt.Sprintf(" (create=%v, followLinks=%v)", create, follow), st)
			}
			is := func(k string) bool { m := st.Mark(k); return m == tTrue }
			switch errState(st, x.res[1]) {
			case no:
				if !is("why:missing") && !is("why:failed") && !is("why:notdir") && !is("why:count") {
					bad("a name is refused although it is there and nothing failed")
				} else if is("why:missing") && create && !is("why:failed") && !is("why:count") && !is("is:up") {
					c.okAt(R, "created or refused")
				} else {
					c.okAt(R, shortName(fnName(fn))+" error exit "+c.P.pos(x.pos)+" "+itoa(mode))
				}
				continue
			case unknown:
				bad("the error returned may or may not be nil")
				continue
			}
			if r.isNil() || !st.nonNil(r) && st.decide(mkEq(r, tNil)) != no {
				bad("no node and no error may be returned")
				continue
			}
			okRes := true
			link := false
			for _, y := range eng.sources(r) {
				switch {
				case y == up && is("is:up"), y == f && is("is:self"):
				case is("is:up") || is("is:self"):
					s, i := y.siteOf()
					link = s != nil && i == 0
					okRes = okRes && link
				case y == st.Mark("new"):
				case strings.HasPrefix(y.Op, "lookup") && len(y.Args) == 2 && y.Args[1] == child:
				default:
					s, i := y.siteOf()
					if s != nil && i == 0 {
						link = true
						continue
					}
					okRes = false
				}
			}
			switch {
			case !okRes:
				bad("the node returned is %v, not the one of that name", r)
			case link && !follow:
				bad("the target of a link is returned although links are not to be followed")
			case follow && isLink(st, r) == yes:
				bad("a link is returned although links are to be followed")
			case st.Marked("dropped") && (st.Mark("marker") != st.Mark("dropped")):
				bad("something that is not a directory is turned into one without making it opaque")
			case st.Marked("dropped") && !(h.field(st, st.Mark("dropped"), h.body).isNil() || h.field(st, st.Mark("dropped"), h.body) == tZero):
				bad("something that is not a directory is turned into one and keeps its content")
			case !st.Marked("dropped") && st.Marked("marker"):
				bad("a directory is made opaque by looking a name up below it")
			default:
				c.okAt(R, shortName(fnName(fn))+" exit "+c.P.pos(x.pos)+" "+itoa(mode)+st.markKey())
			}
		}
	}
}

func (h *sqShape) isNodeTerm(t *Term) bool { return t.T != nil && h.isNode(t.T) }

func isPathJoin(t, dir, base *Term) bool {
	return (t.isCall("path.Join") || t.isCall("path/filepath.Join")) && len(t.Args) == 2 && t.Args[0] == dir && t.Args[1] == base
}

func (c *Ctx) loaderRules(h *sqShape, wh map[string]bool) {
	isP, isS := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, f := range c.P.layerParsers() {
		isP[f] = true
	}
	for _, f := range h.setters(c.P) {
		isS[f] = true
	}
	hdrT := c.P.typeOf("archive/tar", "Header")
	for _, fn := range h.loaders(c.P) {
		c.run("C07.order", fn, nil, func(e *Eng, st *State) {
			e.mergeAt = 3000
			e.opaqueFn = func(g *ssa.Function) bool { return isP[g] || isS[g] || h.getter(g) }
			e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
				if ev.Fn == nil {
					return
				}
				if isP[ev.Fn] {
					st.ClearMark("files")
					for _, a := range ev.Args {
						if a.Op == "idx" {
							if a.Args[0].Op != "sym" || !strings.HasPrefix(a.Args[0].Aux, "param:") {
								continue
							}
							if !e.ascending(a.Args[1]) {
								c.fail(e, st, "C07.order", ev.Instr, "the layers are not applied from the first to the last")
							}
						}
					}
					return
				}
				if !isS[ev.Fn] {
					return
				}
				var node, hd, body *Term
				for i, q := range ev.Fn.Params {
					switch {
					case h.isNode(q.Type()):
						node = ev.Args[i]
					case isTarHeaderPtr(q.Type()):
						hd = ev.Args[i]
					case isBytes(q.Type()):
						body = ev.Args[i]
					}
				}
				field, ix := entryOf(hd, isP)
				if field == "" {
					c.fail(e, st, "C07.order", ev.Instr, "what is applied is %v, not an entry of a layer", hd)
					return
				}
				if f2, ix2 := entryOf(body, isP); body != nil && (f2 != field || ix2 != ix) {
					c.fail(e, st, "C07.order", ev.Instr, "a header is applied with the content of another entry")
					return
				}
				if !e.ascending(ix) {
					c.fail(e, st, "C07.order", ev.Instr, "the entries of a layer are not applied in their order")
					return
				}
				// the node is that of the entry's own name
				s, i := node.siteOf()
				okNode := false
				if s != nil && i == 0 {
					var name *Term
					creates, follows := false, false
					nb := 0
					for _, a := range s.Args {
						if a == tTrue || a == tFalse {
							nb++
							if nb == 1 {
								creates = a == tTrue
							} else {
								follows = follows || a == tTrue
							}
						} else if a.T != nil && isStringType(a.T) {
							name = a
						}
					}
					okNode = name == fieldOf(st, hd, hdrT, "Name") && creates && !follows
				}
				if !okNode {
					c.fail(e, st, "C07.order", ev.Instr, "an entry is not applied to the node of its own name (created if need be, links in the last component not followed)")
					return
				}
				w, known := wh[field]
				switch {
				case !known:
					c.fail(e, st, "C07.order", ev.Instr, "entries of %s are applied, which are not known to be whiteouts or not", field)
				case w && st.Marked("files"):
					c.fail(e, st, "C07.order", ev.Instr, "whiteouts are applied after other entries of the same layer")
				default:
					if !w {
						st.SetMark("files", tTrue)
					}
					markIn(st, ev.Frame, "applied", hd)
					c.okf(e, "C07.order", field)
				}
			}
			e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
				if inLoop(st, fr, "applied") {
					c.iterOK(e, "C07.every", fr, header)
				} else {
					c.iterBad(e, st, "C07.every", fr, header, "an entry of a layer may not be applied")
				}
				clearIn(st, "applied")
			}
		})
	}
}

// entryOf: t is (a field of) an element of a list that a parser returned: the list's name and the index.
func entryOf(t *Term, isP map[*ssa.Function]bool) (string, *Term) {
	for t != nil {
		switch t.Op {
		case "fld":
			t = t.Args[0]
			continue
		case "deref":
			t = t.Args[0]
			continue
		case "idx":
			l := t.Args[0]
			if l.Op == "fld" && l.Args[0].Op == "deref" {
				if n := l.Args[0].Args[0].siteName(); n != "" {
					for f := range isP {
						if fnName(f) == n {
							return l.Aux, t.Args[1]
						}
					}
				}
			}
		}
		return "", nil
	}
	return "", nil
}

func (c *Ctx) setterRules(h *sqShape, fn *ssa.Function) {
	const R = "C07.set"
	args := symParams(fn)
	var f, hd, body *Term
	for i, q := range fn.Params {
		switch {
		case h.isNode(q.Type()) && f == nil:
			f = args[i]
		case isTarHeaderPtr(q.Type()):
			hd = args[i]
		case isBytes(q.Type()):
			body = args[i]
		}
	}
	hdrT := c.P.typeOf("archive/tar", "Header")
	s0 := newState()
	name, parent, oldHdr := h.field(s0, f, h.name), h.field(s0, f, h.parent), h.field(s0, f, h.header)
	oldKids := h.field(s0, f, h.children)
	siblings := h.field(s0, parent, h.children)
	oldType, newType := fieldOf(s0, oldHdr, hdrT, "Typeflag"), fieldOf(s0, hd, hdrT, "Typeflag")
	hdVal := s0.load(hd, hdrT)
	dirFlag := mkInt('5')
	exits := c.run(R, fn, args, func(e *Eng, st *State) {
		e.mergeAt = 3000
		st.assume(mkEq(hd, tNil), false)
		h.opaqueMarker(c, e, fn, f)
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			set := func(k string) { st.SetMark(k, mkBool(val)) }
			switch {
			case cond == mkEq(newType, dirFlag):
				set("dir")
			case cond == mkEq(oldHdr, tNil):
				set("wasnil")
			case cond == mkEq(oldType, dirFlag):
				set("wasdir")
			case cond == mkEq(parent, tNil):
				set("root")
			case cond.isCall("strings.HasPrefix") && isBase(cond.Args[0], name) && cond.Args[1] == mkStr(whPrefix):
				set("wh")
			case cond.Op == "bin" && cond.Aux == "==" && (isBase(cond.Args[0], name) && cond.Args[1] == mkStr(whOpaque) || isBase(cond.Args[1], name) && cond.Args[0] == mkStr(whOpaque)):
				set("opq")
			case cond.Op == "lookupok" && cond.Args[0] == siblings && whOf(cond.Args[1], name):
				set("waswh")
			case cond.Op == "bin" && cond.Aux == "==" && cond.Args[1].isNil() && strings.HasPrefix(cond.Args[0].Op, "lookup") && len(cond.Args[0].Args) == 2 && cond.Args[0].Args[0] == siblings && whOf(cond.Args[0].Args[1], name):
				st.SetMark("waswh", mkBool(!val))
			}
		}
		e.hooks.MapDelete = func(e *Eng, st *State, fr *frame, m, k *Term, in ssa.Instruction) {
			if m != siblings {
				c.fail(e, st, R, in, "%v is removed from %v", k, m)
				return
			}
			switch {
			case whOf(k, name):
				st.SetMark("del:wh", tTrue)
			case unWh(k, name):
				st.SetMark("del:named", tTrue)
			case k.Op == "rangekey":
				markIn(st, fr, "del:each", tTrue)
				st.SetMark("del:all", tTrue)
				if st.decide(eqBase(k, name, st)) == yes {
					c.fail(e, st, R, in, "an opaque whiteout removes itself")
				}
			default:
				c.fail(e, st, R, in, "%v is removed from the directory", k)
			}
		}
		e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
			if inLoop(st, fr, "del:each") {
				clearIn(st, "del:each")
				return
			}
			if st.Marked("opq") && st.decide(st.Mark("opq")) == yes && st.Mark("ranging") == siblings && !selfKey(st, siblings, name) {
				c.fail(e, st, R, header.Instrs[0], "an opaque whiteout may leave other entries of the directory in place")
			}
		}
		e.hooks.Range = func(e *Eng, st *State, fr *frame, x *Term, in ssa.Instruction) {
			if x == siblings {
				st.SetMark("ranging", x)
				st.SetMark("ranged", tTrue)
			}
		}
	})
	for _, x := range exits {
		if x.kind != exitRet || errState(x.st, lastRes(x)) == no {
			continue
		}
		st := x.st
		is := func(k string) tri {
			m := st.Mark(k)
			if m == nil {
				return unknown
			}
			b, _ := m.boolv()
			return triOf(b)
		}
		bad := func(format string, a ...interface{}) {
			c.failAt(R, x.pos, fn, fmt.Sprintf(format, a...), st)
		}
		n := 0
		good := func() { n++ }
		// 1. header and content
		nh := h.field(st, f, h.header)
		if nh != hd && (nh.isNil() || st.load(nh, hdrT) != hdVal) {
			bad("the header of the node is not the header given")
		} else {
			good()
		}
		if body != nil && h.field(st, f, h.body) != body {
			bad("the content of the node is not the content given")
		} else {
			good()
		}
		// 2. children
		kids := h.field(st, f, h.children)
		switch is("dir") {
		case no:
			if !(kids.isNil() || kids.Op == "makemap" || kids.Op == "zero") {
				bad("something that is not a directory keeps children")
			} else {
				good()
			}
			if st.Marked("marker") {
				bad("something that is not a directory is made opaque")
			}
		case yes:
			if kids != oldKids && !st.Marked("marker") {
				bad("a directory loses its children when its header is set again")
			} else {
				good()
			}
			wasFile := tri(unknown)
			if is("wasnil") == yes || is("wasdir") == yes {
				wasFile = no
			} else if is("wasnil") == no && is("wasdir") == no {
				wasFile = yes
			}
			wasWh := is("waswh")
			if is("root") == yes {
				wasWh = no
			}
			need := tri(unknown)
			switch {
			case wasFile == yes || wasWh == yes:
				need = yes
			case wasFile == no && wasWh == no:
				need = no
			}
			switch {
			case is("wh") == yes:
			case need == unknown:
				bad("a directory is set without looking whether it replaces a file or a whiteout")
			case need == yes && !st.Marked("marker"):
				bad("a directory that replaces a file or a whiteout is not made opaque, so what lower layers have there shows again")
			case need == no && st.Marked("marker"):
				bad("a directory is made opaque although it replaces neither a file nor a whiteout")
			default:
				good()
			}
		default:
			bad("a node is set without looking whether it is a directory")
		}
		// 3. siblings
		dw, dn, da := st.Marked("del:wh"), st.Marked("del:named"), st.Marked("ranged")
		switch {
		case is("root") == yes:
		case is("opq") == yes:
			if !da {
				bad("an opaque whiteout does not remove the other entries of its directory")
			} else {
				good()
			}
		case is("wh") == yes && is("opq") == no:
			if !dn {
				bad("a whiteout does not remove the entry it names")
			} else if st.Marked("del:all") {
				bad("a whiteout of one name removes other entries")
			} else {
				good()
			}
		case is("wh") == no:
			if !dw {
				bad("an entry does not lift the whiteout of its name")
			} else if dn || st.Marked("del:all") {
				bad("an entry that is not a whiteout removes others")
			} else {
				good()
			}
		default:
			bad("a node is set without looking whether its name is that of a whiteout")
		}
		for i := 0; i < n; i++ {
			c.okAt(R, shortName(fnName(fn))+" exit "+c.P.pos(x.pos)+" "+st.markKey()+"#"+itoa(i))
		}
	}
}

// whOf: k is the name of the whiteout for the node of that name.
func whOf(k, name *Term) bool {
	return k.Op == "concat" && len(k.Args) == 2 && k.Args[0] == mkStr(whPrefix) && isBase(k.Args[1], name)
}

// unWh: k is the name that the whiteout of that name is for.
func unWh(k, name *Term) bool {
	if k.isCall("strings.TrimPrefix") && isBase(k.Args[0], name) && k.Args[1] == mkStr(whPrefix) {
		return true
	}
	if k.Op == "substr" && isBase(k.Args[0], name) {
		lo, ok := k.Args[1].intv()
		return ok && lo == int64(len(whPrefix))
	}
	return false
}

func eqBase(k, name *Term, st *State) *Term {
	return mkEq(k, mkCall("path.Base", types.Typ[types.String], name))
}

// selfKey: the key that the loop is at is the name of the node itself.
func selfKey(st *State, m, name *Term) bool {
	for f, v := range st.facts {
		if f.Op == "bin" && f.Aux == "==" && v {
			for i := 0; i < 2; i++ {
				if f.Args[i].Op == "rangekey" && f.Args[i].Args[0] == m && (isBase(f.Args[1-i], name) || f.Args[1-i] == mkStr(whOpaque)) {
					return true
				}
			}
		}
	}
	return false
}

// opaqueMarker installs hooks that recognise the creation of the opaque-whiteout marker below node f (any node if f is nil).
func (h *sqShape) opaqueMarker(c *Ctx, e *Eng, fn *ssa.Function, f *Term) {
	isS := map[*ssa.Function]bool{}
	for _, s := range h.setters(c.P) {
		isS[s] = true
	}
	hdrT := c.P.typeOf("archive/tar", "Header")
	e.hooks.Model = func(e *Eng, st *State, ev *CallEvent) ([]callOut, bool) {
		if ev.Fn == nil || ev.Fn == fn && len(e.stack) == 0 {
			return nil, false
		}
		if h.getter(ev.Fn) {
			var node, nm *Term
			create := false
			for i, q := range ev.Fn.Params {
				switch {
				case h.isNode(q.Type()) && node == nil:
					node = ev.Args[i]
				case isStringType(q.Type()):
					nm = ev.Args[i]
				case ev.Args[i] == tTrue:
					create = true
				}
			}
			res := ev.Fn.Signature.Results()
			site := e.siteTerm(ev.Frame, ev, ev.Name, "", res, ev.Args...)
			n, er := mkExt(site, 0, res.At(0).Type()), mkExt(site, 1, res.At(1).Type())
			if create && nm == mkStr(whOpaque) && (f == nil || node == f) {
				st.SetMark("mk:"+n.key, node)
			}
			// a getter returns a node or an error, never both or neither (C07.get decides that)
			var outs []callOut
			bad := st.clone()
			if st.assume(mkEq(er, tNil), true) && st.assume(mkEq(n, tNil), false) {
				outs = append(outs, callOut{st, tt.mk("tuple", "", n, tNil)})
			}
			if bad.assume(mkEq(er, tNil), false) && bad.assume(mkEq(n, tNil), true) {
				bad.ClearMark("mk:" + n.key)
				outs = append(outs, callOut{bad, tt.mk("tuple", "", tNil, er)})
			}
			return outs, true
		}
		if isS[ev.Fn] {
			var node, hd *Term
			for i, q := range ev.Fn.Params {
				switch {
				case h.isNode(q.Type()) && node == nil:
					node = ev.Args[i]
				case isTarHeaderPtr(q.Type()):
					hd = ev.Args[i]
				}
			}
			site := e.siteTerm(ev.Frame, ev, ev.Name, "", ev.Fn.Signature.Results(), ev.Args...)
			if d := st.Mark("mk:" + node.key); d != nil && hd != nil && !hd.isNil() {
				tf := fieldOf(st, hd, hdrT, "Typeflag")
				if tf == mkInt('0') || tf == tZero {
					st.SetMark("marker", d)
				}
			}
			site.T = ev.Fn.Signature.Results().At(0).Type()
			return []callOut{{st, site}}, true
		}
		return nil, false
	}
	e.hooks.MapUpdate = func(e *Eng, st *State, fr *frame, m, k, v *Term, in ssa.Instruction) {
		if k == mkStr(whOpaque) {
			if f == nil {
				st.SetMark("marker", tTrue)
			} else if m == h.field(st, f, h.children) {
				st.SetMark("marker", f)
			}
		}
	}
}

func init() {
	propRules["C06"] = ruleC06
	propRules["C07"] = ruleC07
}
