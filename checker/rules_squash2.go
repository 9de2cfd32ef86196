package main

// C08-C11: writing the squashed layer, bounded link following, the read-only view and its file operations.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// entryGetters: the getters that are called from functions that are not getters, with a name that is not a constant.
func (h *sqShape) entryGetters(p *Program) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, f := range p.pkgFns(squashDir) {
		if h.getter(f) {
			for _, q := range f.Params {
				if isIntPtr(q.Type()) && !h.primitive(f) {
					seen[f] = true
					out = append(out, f)
					break
				}
			}
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := call.Common().StaticCallee()
				if g == nil || !h.getter(g) || seen[g] {
					continue
				}
				for i, q := range g.Params {
					if isStringType(q.Type()) && i < len(call.Common().Args) {
						if _, k := call.Common().Args[i].(*ssa.Const); !k {
							seen[g] = true
							out = append(out, g)
						}
						break
					}
				}
			}
		}
	}
	return out
}

// walkRules: a path is looked up component by component.
func (c *Ctx) walkRules(h *sqShape, R, R9 string) {
	for _, fn := range h.entryGetters(c.P) {
		if h.loads(fn) {
			continue
		}
		cr, fo := h.boolParams(fn)
		if cr < 0 {
			c.failAt(R, fn.Pos(), fn, "it cannot be told which parameter says that missing nodes are created", nil)
			continue
		}
		args := symParams(fn)
		me := h.getArgs(fn, args)
		clean := mkCall("path.Clean", types.Typ[types.String], me.name)
		var eng *Eng
		exits := c.run(R, fn, args, func(e *Eng, st *State) {
			eng = e
			e.mergeAt = 3000
			e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
				for cond.Op == "not" {
					cond, val = cond.Args[0], !val
				}
				if cond.Op == "bin" && cond.Aux == "==" && val {
					for i := 0; i < 2; i++ {
						if x := cond.Args[i]; h.isNodeTerm(x) && cond.Args[1-i] == h.field(st, x, h.parent) {
							st.SetMark("root", tTrue)
						}
					}
				}
			}
			e.hooks.Model = func(e *Eng, st *State, ev *CallEvent) ([]callOut, bool) {
				if ev.Fn == nil || !h.primitive(ev.Fn) {
					return nil, false
				}
				g := h.getArgs(ev.Fn, ev.Args)
				bad := ""
				abs := st.decide(boolCall("path.IsAbs", clean))
				switch {
				case abs == unknown:
					bad = "a path is looked up without looking whether it is absolute"
				case abs == yes && !st.Marked("root"):
					bad = "an absolute path is looked up below something that may not be the root"
				}
				for _, y := range e.sources(g.node) {
					s, i := y.siteOf()
					switch {
					case s != nil && i == 0 && h.isNodeTerm(y):
					case y == me.node:
					case y.Op == "fld" && y.Aux == h.S.Field(h.parent).Name():
						// going up to the root
					default:
						bad = fmt.Sprintf("a component of a path is looked up below %v", y)
					}
				}
				switch {
				case bad != "":
				case g.create != args[cr]:
					bad = "a component of a path is looked up with another create flag than the one given"
				case !g.name.contains(clean):
					bad = fmt.Sprintf("what is looked up is %v, not a component of the cleaned path", g.name)
				}
				if bad != "" {
					c.fail(e, st, R, ev.Instr, "%s", bad)
				} else {
					c.ok(e, R, ev.Instr, "component")
				}
				if g.follow != nil {
					st.SetMark("follow", g.follow)
				}
				if g.counter != nil {
					if me.counter != nil && g.counter != me.counter {
						c.fail(e, st, R9, ev.Instr, "a component is looked up with a fresh count of links")
					} else {
						c.ok(e, R9, ev.Instr, "count passed on")
					}
				}
				res := ev.Fn.Signature.Results()
				site := e.siteTerm(ev.Frame, ev, ev.Name, "", res, ev.Args...)
				n, er := mkExt(site, 0, res.At(0).Type()), mkExt(site, 1, res.At(1).Type())
				st.SetMark("last", n)
				var outs []callOut
				st2 := st.clone()
				if st.assume(mkEq(er, tNil), true) && st.assume(mkEq(n, tNil), false) {
					outs = append(outs, callOut{st, tt.mk("tuple", "", n, tNil)})
				}
				if st2.assume(mkEq(er, tNil), false) && st2.assume(mkEq(n, tNil), true) {
					st2.SetMark("failed", tTrue)
					outs = append(outs, callOut{st2, tt.mk("tuple", "", tNil, er)})
				}
				return outs, true
			}
		})
		_ = eng
		for _, x := range exits {
			if x.kind != exitRet || len(x.res) != 2 {
				continue
			}
			switch errState(x.st, x.res[1]) {
			case yes:
				switch {
				case x.st.Mark("last") == nil || x.res[0] != x.st.Mark("last"):
					c.failAt(R, x.pos, fn, "the node returned is not the one that the last component led to", x.st)
				case fo >= 0 && x.st.Mark("follow") != args[fo]:
					c.failAt(R, x.pos, fn, "the last component is not looked up with the link-following flag given", x.st)
				default:
					c.okAt(R, shortName(fnName(fn))+" exit "+c.P.pos(x.pos))
				}
			case no:
				if !x.st.Marked("failed") {
					c.failAt(R, x.pos, fn, "a path is refused although every component was found", x.st)
				}
			default:
				c.failAt(R, x.pos, fn, "the error returned may or may not be nil", x.st)
			}
		}
	}
}

func (h *sqShape) loads(f *ssa.Function) bool {
	// a loader has the shape of a getter, but no name to look up
	for _, q := range f.Params {
		if isStringType(q.Type()) {
			return false
		}
	}
	return true
}

// ---- C08

func (h *sqShape) writers(p *Program) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.pkgFns(squashDir) {
		if f.Parent() != nil {
			continue
		}
		node := false
		for _, q := range f.Params {
			node = node || h.isNode(q.Type())
		}
		if node && p.reachesFn(f, func(g *ssa.Function) bool { return g == f }) && p.reaches(f, nWriteHeader, true) {
			out = append(out, f)
		}
	}
	return out
}

func ruleC08(c *Ctx) {
	c.only = true
	c.rule("C08.content", "unless content is to be omitted, what is kept of an entry is all that the archive has", 1)
	c.rule("C08.all", "every entry read from a layer is kept", 1)
	c.rule("C08.header", "a node is written with its own header in which only the name is set, to the path of the node with a slash after directories; nodes without header are not written", 2)
	c.rule("C08.body", "every header is followed by the content of the same node", 1)
	c.rule("C08.children", "every child of every node is written, after the node itself", 2)
	c.rule("C08.order", "the children are written in the order of their names, whiteouts first", 1)
	c.rule("C08.out", "Squash loads with content, writes the tree from its root, closes the archive, and returns the layer of exactly these bytes", 2)
	h := c.P.squashShape()
	if h == nil {
		c.missing("C08.header", "the node type")
		return
	}
	c.parserRules(h, map[string]bool{})
	ws := h.writers(c.P)
	isW := map[*ssa.Function]bool{}
	for _, f := range ws {
		isW[f] = true
	}
	for _, f := range ws {
		c.writerRules(h, f, isW)
	}
	c.squashOut(h, isW)
}

func (c *Ctx) writerRules(h *sqShape, fn *ssa.Function, isW map[*ssa.Function]bool) {
	args := symParams(fn)
	var f *Term
	for i, q := range fn.Params {
		if h.isNode(q.Type()) && f == nil {
			f = args[i]
		}
	}
	hdrT := c.P.typeOf("archive/tar", "Header")
	hs := hdrT.Underlying().(*types.Struct)
	s0 := newState()
	hd, body, name, kids := h.field(s0, f, h.header), h.field(s0, f, h.body), h.field(s0, f, h.name), h.field(s0, f, h.children)
	isDirT := mkEq(fieldOf(s0, hd, hdrT, "Typeflag"), mkInt('5'))
	exits := c.run("C08.header", fn, args, func(e *Eng, st *State) {
		e.mergeAt = 3000
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			if cond == mkEq(hd, tNil) {
				st.SetMark("nohdr", mkBool(val))
			}
			if cond.Op == "bin" && (cond.any(func(x *Term) bool { return x.isCall("len") && x.Args[0] == body }) || cond == mkEq(body, tNil)) {
				st.SetMark("bodytest", tTrue)
			}
		}
		e.hooks.Model = func(e *Eng, st *State, ev *CallEvent) ([]callOut, bool) {
			if ev.Fn == nil || !isW[ev.Fn] || ev.Frame == nil {
				return nil, false
			}
			if ev.Fn == fn && len(e.stack) == 0 {
				return nil, false
			}
			// a node below is written
			var ch *Term
			for i, q := range ev.Fn.Params {
				if h.isNode(q.Type()) && ch == nil {
					ch = ev.Args[i]
				}
			}
			switch {
			case ch == f && ev.Fn != fn:
				return nil, false
			case st.Mark("nohdr") != tTrue && !st.Marked("wrote"):
				c.fail(e, st, "C08.children", ev.Instr, "a child is written before its directory")
			case strings.HasPrefix(ch.Op, "lookup") && ch.Args[0] == kids:
				k := ch.Args[1]
				if k.Op == "idx" && e.ascending(k.Args[1]) {
					markIn(st, ev.Frame, "child", ch)
				} else if k.Op == "rangekey" {
					markIn(st, ev.Frame, "child", ch)
				} else {
					c.fail(e, st, "C08.children", ev.Instr, "the children written are those of %v", k)
				}
			case ch.Op == "rangeval" && ch.Args[0] == kids:
				markIn(st, ev.Frame, "child", ch)
			case ch.Op == "idx" && e.ascending(ch.Args[1]):
				markIn(st, ev.Frame, "child", ch)
			default:
				c.fail(e, st, "C08.children", ev.Instr, "what is written below a node is %v, not its child", ch)
			}
			site := e.siteTerm(ev.Frame, ev, ev.Name, "", ev.Fn.Signature.Results(), ev.Args...)
			site.T = ev.Fn.Signature.Results().At(0).Type()
			return []callOut{{st, site}}, true
		}
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			switch ev.Name {
			case "append":
				if ev.Args[1].any(kidOf(kids)) {
					markIn(st, ev.Frame, "child", tTrue)
				}
			case nWriteHeader:
				p := ev.Args[len(ev.Args)-1]
				if st.Mark("nohdr") != tFalse && st.decide(mkEq(hd, tNil)) != no {
					c.fail(e, st, "C08.header", ev.Instr, "something is written for a node that may have no header")
					return
				}
				for i := 0; i < hs.NumFields(); i++ {
					fl := hs.Field(i).Name()
					got := fieldOf(st, p, hdrT, fl)
					if fl == "Name" {
						ok := false
						switch st.decide(isDirT) {
						case yes:
							ok = got == mkConcat(types.Typ[types.String], name, mkStr("/"))
						case no:
							ok = got == name
						}
						if !ok {
							c.fail(e, st, "C08.header", ev.Instr, "the name written is %v, not the path of the node with a slash after directories only", got)
							return
						}
					} else if got != fieldOf(s0, hd, hdrT, fl) {
						c.fail(e, st, "C08.header", ev.Instr, "the field %s written is %v, not that of the node", fl, got)
						return
					}
				}
				c.ok(e, "C08.header", ev.Instr, st.decideStr(isDirT))
				st.SetMark("wrote", tTrue)
			case nTarWrite:
				if !st.Marked("wrote") {
					c.fail(e, st, "C08.body", ev.Instr, "content is written before its header")
				} else if ev.Args[1] != body {
					c.fail(e, st, "C08.body", ev.Instr, "the content written is %v, not that of the node", ev.Args[1])
				} else {
					c.ok(e, "C08.body", ev.Instr, "")
					st.SetMark("body", tTrue)
				}
			case "sort.Strings":
				c.ok(e, "C08.order", ev.Instr, "")
			case "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable":
				c.whiteoutOrder(e, st, ev)
			}
		}
		e.hooks.Store = func(e *Eng, st *State, fr *frame, addr, v *Term, in ssa.Instruction) {
			if v != nil && v.any(kidOf(kids)) && addr.Op != "alloc" {
				markIn(st, fr, "child", tTrue)
			}
		}
		e.hooks.Range = func(e *Eng, st *State, fr *frame, x *Term, in ssa.Instruction) {
			if x == kids {
				st.SetMark("ranging", tTrue)
			}
		}
		e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
			if inLoop(st, fr, "child") {
				c.iterOK(e, "C08.children", fr, header)
				clearIn(st, "child")
				return
			}
			c.iterBad(e, st, "C08.children", fr, header, "a child may not be written")
		}
	})
	for _, x := range exits {
		if x.kind != exitRet || errState(x.st, lastRes(x)) == no {
			continue
		}
		nh := x.st.Mark("nohdr")
		switch {
		case nh == nil:
			c.failAt("C08.header", x.pos, fn, "a node is done without looking whether it has a header", x.st)
		case nh == tFalse && !x.st.Marked("wrote"):
			c.failAt("C08.header", x.pos, fn, "a node that has a header may not be written", x.st)
		case nh == tFalse && !x.st.Marked("body") && !x.st.Marked("bodytest"):
			c.failAt("C08.body", x.pos, fn, "a header is written without its content", x.st)
		case !x.st.Marked("ranging"):
			c.failAt("C08.children", x.pos, fn, "a node is done without looking at its children", x.st)
		default:
			c.okAt("C08.header", shortName(fnName(fn))+" exit "+c.P.pos(x.pos)+" "+x.st.markKey())
		}
	}
}

const nTarWrite = "(*archive/tar.Writer).Write"

func (st *State) decideStr(t *Term) string {
	switch st.decide(t) {
	case yes:
		return "yes"
	case no:
		return "no"
	}
	return "unknown"
}

// kidOf: the term is the key or the value at which a range over m is.
func kidOf(m *Term) func(x *Term) bool {
	return func(x *Term) bool {
		return (x.Op == "rangekey" || x.Op == "rangeval") && x.Args[0] == m || strings.HasPrefix(x.Op, "lookup") && x.Args[0] == m
	}
}

// whiteoutOrder: the comparison sorts whiteouts first, and by name otherwise.
func (c *Ctx) whiteoutOrder(e *Eng, st *State, ev *CallEvent) {
	const R = "C08.order"
	i, j := tt.mkT("sym", "sort:i", types.Typ[types.Int]), tt.mkT("sym", "sort:j", types.Typ[types.Int])
	e.applyHooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
		for cond.Op == "not" {
			cond, val = cond.Args[0], !val
		}
		if cond.isCall("strings.HasPrefix") && cond.Args[1] == mkStr(whPrefix) {
			if cond.Args[0].contains(i) {
				st.SetMark("wi", mkBool(val))
			} else if cond.Args[0].contains(j) {
				st.SetMark("wj", mkBool(val))
			}
		}
		if cond.Op == "bin" && cond.Aux == "==" && cond.Args[0].isCall("strings.HasPrefix") && cond.Args[1].isCall("strings.HasPrefix") {
			st.SetMark("weq", mkBool(val))
		}
	}
	defer func() { e.applyHooks = Hooks{} }()
	var res []exit
	if len(ev.Args) == 2 {
		res = e.applyExits(st, ev.Args[1], i, j)
	} else {
		res = e.methodExits(st, ev.Args[0], "Less", i, j)
	}
	if len(res) == 0 {
		c.fail(e, st, R, ev.Instr, "the order in which children are sorted cannot be told")
		return
	}
	for _, x := range res {
		r := x.res[0]
		wi, wj := x.st.Mark("wi"), x.st.Mark("wj")
		byName := r.Op == "bin" && r.Aux == "<" && r.Args[0].contains(i) && r.Args[1].contains(j) && !r.Args[0].contains(j) && !r.Args[1].contains(i) && !notName(r)
		ok := false
		switch {
		case wi == tTrue && wj == tFalse:
			ok = r == tTrue
		case wi == tFalse && wj == tTrue:
			ok = r == tFalse
		case x.st.Mark("weq") == tFalse:
			ok = r.isCall("strings.HasPrefix") && r.Args[0].contains(i) || r == tTrue && wi == tTrue || r == tFalse && wi == tFalse
		default:
			ok = byName
		}
		if !ok {
			c.fail(e, st, R, ev.Instr, "children are put in the order given by %v", r)
			return
		}
	}
	c.ok(e, R, ev.Instr, "")
}

func (c *Ctx) squashOut(h *sqShape, isW map[*ssa.Function]bool) {
	const R = "C08.out"
	fn := c.P.fn(squashDir, "Squash")
	if fn == nil {
		c.missing(R, "Squash")
		return
	}
	isL := map[*ssa.Function]bool{}
	for _, f := range h.loaders(c.P) {
		isL[f] = true
	}
	exits := c.run(R, fn, nil, func(e *Eng, st *State) {
		e.opaqueFn = func(g *ssa.Function) bool { return isW[g] || isL[g] }
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			switch {
			case ev.Fn != nil && isL[ev.Fn]:
				for i, q := range ev.Fn.Params {
					if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && ev.Args[i] != tFalse {
						c.fail(e, st, R, ev.Instr, "the layers are loaded without their content")
					}
				}
			case ev.Fn != nil && isW[ev.Fn]:
				var root, w *Term
				for i, q := range ev.Fn.Params {
					if h.isNode(q.Type()) {
						root = ev.Args[i]
					} else if isNamed(pointee(q.Type()), "archive/tar", "Writer") {
						w = ev.Args[i]
					}
				}
				s, i := root.siteOf()
				if s == nil || i != 0 {
					c.fail(e, st, R, ev.Instr, "what is written is %v, not the root of the loaded layers", root)
					return
				}
				st.SetMark("written", w)
				if w != nil && w.siteName() == "archive/tar.NewWriter" {
					s, _ := w.siteOf()
					if s == nil {
						s = w
					}
					st.SetMark("buf", unbox(s.Args[0]))
				}
				c.ok(e, R, ev.Instr, "root")
			case ev.Name == "(*archive/tar.Writer).Close":
				if st.Mark("written") == ev.Args[0] {
					st.SetMark("closed", tTrue)
				}
			case strings.HasSuffix(ev.Name, "tarball.LayerFromOpener"):
				if !st.Marked("closed") {
					c.fail(e, st, R, ev.Instr, "the layer is made before the archive is written and closed")
					return
				}
				for _, rs := range e.applyAll(st, ev.Args[0]) {
					r := unbox(rs[0])
					for r != nil && (r.isCall("io.NopCloser") || r.siteName() == "io.NopCloser" || r.isCall("bytes.NewReader") || r.siteName() == "bytes.NewReader" || r.siteName() == "bytes.NewBuffer" || r.isCall("bytes.NewBuffer")) {
						x := r
						if s, _ := r.siteOf(); s != nil {
							x = s
						}
						r = unbox(x.Args[0])
					}
					if r == nil || st.Mark("buf") == nil || !r.any(func(x *Term) bool { return x == st.Mark("buf") || x.Op == "deref" && x.Args[0] == st.Mark("buf") }) || strings.Contains(r.siteName(), "Buffer).Next") {
						c.fail(e, st, R, ev.Instr, "the content of the layer is %v, not the archive written", r)
						return
					}
				}
				c.ok(e, R, ev.Instr, "opener")
				st.SetMark("layer", tTrue)
			}
		}
	})
	for _, x := range exits {
		if x.kind == exitRet && errState(x.st, lastRes(x)) != no && !x.st.Marked("layer") && !x.res[0].isNil() {
			c.failAt(R, x.pos, fn, "a layer is returned that was not made from the archive written", x.st)
		}
	}
}

func init() { propRules["C08"] = ruleC08 }
