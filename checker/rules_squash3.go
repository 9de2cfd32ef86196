package main

// C09: following links ends.  C10: the view of loaded layers is read-only, and handles may be shared.  C11: the operations of
// open files.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func ruleC09(c *Ctx) {
	c.only = true
	c.rule("C09.count", "before the target of a link is looked up, a counter is incremented and found to be within a constant bound, and the same counter is passed on", 2)
	c.rule("C09.pass", "the components of a path are looked up with the counter of the path", 2)
	c.rule("C09.root", "the root of a tree is its own parent and every node that is added gets a parent, so that going up ends", 1)
	h := c.P.squashShape()
	if h == nil {
		c.missing("C09.count", "the node type")
		return
	}
	for _, fn := range c.P.pkgFns(squashDir) {
		if !h.primitive(fn) {
			continue
		}
		args := symParams(fn)
		me := h.getArgs(fn, args)
		if me.counter == nil {
			c.failAt("C09.count", fn.Pos(), fn, "links are followed without a counter of links", nil)
			continue
		}
		isCount := func(t *Term) bool {
			return t.any(func(x *Term) bool { return x.Op == "deref" && x.Args[0] == me.counter })
		}
		exits := c.run("C09.count", fn, args, func(e *Eng, st *State) {
			e.mergeAt = 3000
			h.opaqueMarker(c, e, fn, nil)
			model := e.hooks.Model
			e.hooks.Model = func(e *Eng, st *State, ev *CallEvent) ([]callOut, bool) {
				if ev.Fn != nil && h.getter(ev.Fn) {
					g := h.getArgs(ev.Fn, ev.Args)
					_, konst := g.name.str()
					switch {
					case konst:
					case !st.Marked("inc") || !st.Marked("within"):
						c.fail(e, st, "C09.count", ev.Instr, "a link is followed without counting it or without a bound on the count")
					case g.counter != me.counter:
						c.fail(e, st, "C09.count", ev.Instr, "a link is followed with a fresh count of links")
					default:
						c.ok(e, "C09.count", ev.Instr, "")
					}
					st.ClearMark("inc")
					st.ClearMark("within")
				}
				return model(e, st, ev)
			}
			e.hooks.Store = func(e *Eng, st *State, fr *frame, addr, v *Term, in ssa.Instruction) {
				if addr == me.counter {
					old := st.load(addr, v.T)
					if d := intDiff(v, old); d >= 1 {
						st.SetMark("inc", tTrue)
					} else {
						c.fail(e, st, "C09.count", in, "the count of links is set to %v", v)
					}
				}
			}
			e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
				for cond.Op == "not" {
					cond, val = cond.Args[0], !val
				}
				if cond.Op != "bin" || cond.Aux != "<" {
					return
				}
				_, k0 := cond.Args[0].intv()
				_, k1 := cond.Args[1].intv()
				cnt := st.load(me.counter, pointee(me.counter.T))
				is := func(x *Term) bool {
					return x == cnt || isCount(x) || x.contains(cnt) || !x.isConst() && cnt.contains(x)
				}
				switch {
				case k0 && is(cond.Args[1]): // bound < count
					if val {
						st.SetMark("exceeded", tTrue)
					} else {
						st.SetMark("within", tTrue)
					}
				case k1 && is(cond.Args[0]): // count < bound
					if val {
						st.SetMark("within", tTrue)
					} else {
						st.SetMark("exceeded", tTrue)
					}
				}
			}
		})
		for _, x := range exits {
			if x.kind == exitRet && x.st.Marked("exceeded") {
				if errState(x.st, lastRes(x)) != no {
					c.failAt("C09.count", x.pos, fn, "following links goes on, or succeeds, although there are too many", x.st)
				} else {
					c.okAt("C09.count", "too many links: error at "+c.P.pos(x.pos))
				}
			}
		}
	}
	c.walkRules(h, "C09.walk", "C09.pass")
	for _, fn := range h.loaders(c.P) {
		exits := c.run("C09.root", fn, nil, func(e *Eng, st *State) {
			isP, isS := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
			for _, f := range c.P.layerParsers() {
				isP[f] = true
			}
			for _, f := range h.setters(c.P) {
				isS[f] = true
			}
			e.hooks.Model = func(e *Eng, st *State, ev *CallEvent) ([]callOut, bool) {
				if ev.Fn == nil || !isP[ev.Fn] && !isS[ev.Fn] && !h.getter(ev.Fn) || len(e.stack) == 0 {
					return nil, false
				}
				// what these do to the tree is decided by C07; they do not replace the root or its parent
				site := e.siteTerm(ev.Frame, ev, ev.Name, "", ev.Fn.Signature.Results(), ev.Args...)
				r := ev.Fn.Signature.Results()
				if r.Len() == 1 {
					site.T = r.At(0).Type()
					return []callOut{{st, site}}, true
				}
				var ts []*Term
				for i := 0; i < r.Len(); i++ {
					ts = append(ts, mkExt(site, i, r.At(i).Type()))
				}
				return []callOut{{st, tt.mk("tuple", "", ts...)}}, true
			}
		})
		for _, x := range exits {
			if x.kind != exitRet || errState(x.st, lastRes(x)) == no || len(x.res) == 0 || !h.isNodeTerm(x.res[0]) && x.res[0].Op != "alloc" {
				continue
			}
			r := x.res[0]
			if h.field(x.st, r, h.parent) != r {
				c.failAt("C09.root", x.pos, fn, "the root of the tree is not its own parent", x.st)
			} else {
				c.okAt("C09.root", c.P.pos(x.pos))
			}
		}
	}
}

func loadsField(f *ssa.Function, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				s := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				if s.Field(fa.Field).Name() == name {
					return true
				}
			}
		}
	}
	return false
}

// intDiff: v - old, if that is a constant; otherwise 0.
func intDiff(v, old *Term) int64 {
	if v.Op == "bin" && v.Aux == "+" && v.Args[0] == old {
		d, _ := v.Args[1].intv()
		return d
	}
	if v.Op == "bin" && v.Aux == "+" && v.Args[1] == old {
		d, _ := v.Args[0].intv()
		return d
	}
	if a, ok := v.intv(); ok {
		if b, ok := old.intv(); ok {
			return a - b
		}
	}
	if v.Op == "bin" && v.Aux == "+" && old.Op == "bin" && old.Aux == "+" && v.Args[0] == old.Args[0] {
		a, ok1 := v.Args[1].intv()
		b, ok2 := old.Args[1].intv()
		if ok1 && ok2 {
			return a - b
		}
	}
	return 0
}

// ---- C10

// handles: the struct types of the package that have a Read and a Stat method and hold a node: open files.
func (h *sqShape) handles(p *Program) []*types.Named {
	var out []*types.Named
	for _, sp := range p.prog.AllPackages() {
		if sp.Pkg.Path() != modPath+"/"+squashDir {
			continue
		}
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			named, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			s, ok := named.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			ms := types.NewMethodSet(types.NewPointer(named))
			if ms.Lookup(sp.Pkg, "Read") == nil || ms.Lookup(sp.Pkg, "Stat") == nil {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				if h.isNode(s.Field(i).Type()) {
					out = append(out, named)
					break
				}
			}
		}
	}
	return out
}

func (p *Program) methodsOf(n *types.Named) []*ssa.Function {
	var out []*ssa.Function
	ms := types.NewMethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		if f := p.prog.MethodValue(ms.At(i)); f != nil && f.Pkg != nil && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	return out
}

// viewMethods: the operations of the file system view: Open of the node type, and the methods of handles and directory entries.
func (h *sqShape) viewMethods(p *Program) []*ssa.Function {
	var out []*ssa.Function
	want := map[string]bool{"Open": true, "Stat": true, "Read": true, "ReadDir": true, "Close": true, "Name": true, "IsDir": true, "Type": true, "Info": true, "String": true,
		"ReadFile": true, "Glob": true, "Sub": true, "Seek": true, "ReadAt": true, "Size": true, "Mode": true, "ModTime": true, "Sys": true, "WriteTo": false}
	for _, f := range p.pkgFns(squashDir) {
		if f.Signature.Recv() != nil && f.Parent() == nil && f.Object() != nil && f.Object().Exported() && want[f.Name()] {
			out = append(out, f)
		}
	}
	return out
}

func ruleC10(c *Ctx) {
	c.only = true
	c.rule("C10.readonly", "no operation of the view can reach a statement that changes a node, the children of a node or a header", 5)
	c.rule("C10.locked", "the state of an open file is used only while the lock of the same file is held", 5)
	h := c.P.squashShape()
	if h == nil {
		c.missing("C10.readonly", "the node type")
		return
	}
	for _, f := range h.viewMethods(c.P) {
		c.fns[f] = true
		if path := c.writesNode(h, f); path != "" {
			c.failAt("C10.readonly", f.Pos(), f, path, nil)
		} else {
			c.okAt("C10.readonly", fnName(f))
		}
	}
	hs := h.handles(c.P)
	if len(hs) == 0 {
		c.missing("C10.locked", "the type of open files")
	}
	for _, n := range hs {
		c.lockRules(h, n)
	}
}

type specKey struct {
	f *ssa.Function
	k string
}

// writesNode: the path by which f can change the tree, with flags that are constants at call sites taken into account.
func (c *Ctx) writesNode(h *sqShape, root *ssa.Function) string {
	seen := map[specKey]bool{}
	var walk func(f *ssa.Function, bools map[*ssa.Parameter]bool, via string, depth int) string
	fresh := func(v ssa.Value) bool {
		// the address is in memory that this function made
		for i := 0; i < 20; i++ {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.Alloc:
				return true
			default:
				return false
			}
		}
		return false
	}
	walk = func(f *ssa.Function, bools map[*ssa.Parameter]bool, via string, depth int) string {
		key := specKey{f: f}
		for _, p := range f.Params {
			if b, ok := bools[p]; ok {
				key.k += fmt.Sprint(p.Name(), b, ";")
			}
		}
		if seen[key] || depth > 60 {
			return ""
		}
		seen[key] = true
		via += shortName(fnName(f))
		var konst func(v ssa.Value) (bool, bool)
		konst = func(v ssa.Value) (bool, bool) {
			switch x := v.(type) {
			case *ssa.Parameter:
				b, ok := bools[x]
				return b, ok
			case *ssa.Const:
				if x.Value != nil && x.Value.String() == "true" {
					return true, true
				}
				if x.Value != nil && x.Value.String() == "false" {
					return false, true
				}
			case *ssa.UnOp:
				if x.Op.String() == "!" {
					b, ok := konst(x.X)
					return !b, ok
				}
			}
			return false, false
		}
		live := map[*ssa.BasicBlock]bool{}
		work := []*ssa.BasicBlock{f.Blocks[0]}
		if f.Recover != nil {
			work = append(work, f.Recover)
		}
		dead := map[[2]*ssa.BasicBlock]bool{}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if live[b] {
				continue
			}
			live[b] = true
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				v, known := konst(iff.Cond)
				if !known {
					// a conjunction: false on every live edge
					if ph, ok := iff.Cond.(*ssa.Phi); ok && ph.Block() == b {
						v, known = false, true
						for i, e := range ph.Edges {
							pb := b.Preds[i]
							if dead[[2]*ssa.BasicBlock{pb, b}] {
								continue
							}
							ev, ek := konst(e)
							if !live[pb] && ek && !ev {
								continue
							}
							if !ek || ev {
								// the edge may be dead for another reason: its source is only reached if a constant flag is set
								if !live[pb] && c.constDead(pb, konst) {
									continue
								}
								known = false
							}
						}
					}
				}
				if known {
					i := 1
					if v {
						i = 0
					}
					dead[[2]*ssa.BasicBlock{b, b.Succs[1-i]}] = true
					work = append(work, b.Succs[i])
					continue
				}
			}
			work = append(work, b.Succs...)
		}
		for _, b := range f.Blocks {
			if !live[b] {
				continue
			}
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && (h.isNode(fa.X.Type()) || isTarHeaderPtr(fa.X.Type())) && !fresh(fa.X) {
						return "a node is changed: " + via + " at " + c.P.pos(x.Pos())
					}
					if pt, ok := x.Addr.Type().(*types.Pointer); ok && (types.Identical(pt.Elem(), h.T) || isNamed(pt.Elem(), "archive/tar", "Header")) && !fresh(x.Addr) {
						return "a node is overwritten: " + via + " at " + c.P.pos(x.Pos())
					}
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
						if h.bodyOf(ia.X) {
							return "the content of a node is changed: " + via + " at " + c.P.pos(x.Pos())
						}
					}
				case *ssa.MapUpdate:
					if h.isKids(x.Map.Type()) {
						if _, made := x.Map.(*ssa.MakeMap); !made {
							return "the children of a node are changed: " + via + " at " + c.P.pos(x.Pos())
						}
					}
				}
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := call.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok {
					switch {
					case (b.Name() == "delete" || b.Name() == "clear") && h.isKids(cc.Args[0].Type()):
						return "children of a node are removed: " + via + " at " + c.P.pos(call.Pos())
					case b.Name() == "copy" && h.bodyOf(cc.Args[0]):
						return "the content of a node is overwritten: " + via + " at " + c.P.pos(call.Pos())
					}
					continue
				}
				var gs []*ssa.Function
				if g := cc.StaticCallee(); g != nil {
					gs = append(gs, g)
				}
				for _, a := range cc.Args {
					if mc, ok := a.(*ssa.MakeClosure); ok {
						gs = append(gs, mc.Fn.(*ssa.Function))
					}
				}
				for _, g := range gs {
					if !inRepo(g) || len(g.Blocks) == 0 {
						continue
					}
					nb := map[*ssa.Parameter]bool{}
					if g == cc.StaticCallee() {
						for i, p := range g.Params {
							if i < len(cc.Args) {
								if v, ok := konst(cc.Args[i]); ok {
									nb[p] = v
								}
							}
						}
					}
					if s := walk(g, nb, via+" -> ", depth+1); s != "" {
						return s
					}
				}
			}
		}
		return ""
	}
	return walk(root, map[*ssa.Parameter]bool{}, "", 0)
}

// constDead: the block is reached only over a branch that a constant flag rules out.
func (c *Ctx) constDead(b *ssa.BasicBlock, konst func(ssa.Value) (bool, bool)) bool {
	for d := b; d != nil; d = d.Idom() {
		up := d.Idom()
		if up == nil {
			return false
		}
		if iff, ok := up.Instrs[len(up.Instrs)-1].(*ssa.If); ok {
			if v, known := konst(iff.Cond); known {
				i := 1
				if v {
					i = 0
				}
				if len(d.Preds) == 1 && up.Succs[1-i] == d && up.Succs[i] != d {
					return true
				}
			}
		}
	}
	return false
}

// bodyOf: the value is (part of) the content of a node.
func (h *sqShape) bodyOf(v ssa.Value) bool {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.Slice:
			v = x.X
		case *ssa.UnOp:
			fa, ok := x.X.(*ssa.FieldAddr)
			return ok && fa.Field == h.body && h.isNode(fa.X.Type())
		default:
			return false
		}
	}
	return false
}

// lockRules: the fields of the handle that are changed after it was made are used only under its lock.
func (c *Ctx) lockRules(h *sqShape, n *types.Named) {
	const R = "C10.locked"
	s := n.Underlying().(*types.Struct)
	mu := -1
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		if isNamed(t, "sync", "Mutex") || isNamed(t, "sync", "RWMutex") || isNamed(pointee(t), "sync", "Mutex") {
			mu = i
		}
	}
	isH := func(t types.Type) bool { return isPtrTo(t, n) }
	mutable := map[int]bool{}
	fns := c.P.pkgFns(squashDir)
	isAlloc := func(v ssa.Value) bool { _, ok := v.(*ssa.Alloc); return ok }
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isH(fa.X.Type()) && !isAlloc(fa.X) && fa.Field != mu {
						mutable[fa.Field] = true
					}
				}
			}
		}
	}
	if len(mutable) == 0 {
		return
	}
	if mu < 0 {
		c.failAt(R, n.Obj().Pos(), nil, "open files have state that changes but no lock", nil)
		return
	}
	isLock := func(in ssa.Instruction, names ...string) ssa.Value {
		call, ok := in.(*ssa.Call)
		if !ok {
			return nil
		}
		nm := calleeName(&call.Call)
		for _, w := range names {
			if strings.HasPrefix(nm, "(*sync.") && strings.HasSuffix(nm, ")."+w) && len(call.Call.Args) > 0 {
				a := call.Call.Args[0]
				if u, ok := a.(*ssa.UnOp); ok {
					a = u.X
				}
				if fa, ok := a.(*ssa.FieldAddr); ok && isH(fa.X.Type()) && fa.Field == mu {
					return fa.X
				}
			}
		}
		return nil
	}
	// held: the locks (by the handle they belong to) that are held before each instruction; nil is the lock held on entry
	var heldAt func(in ssa.Instruction, x ssa.Value, depth int) bool
	heldAt = func(in ssa.Instruction, x ssa.Value, depth int) bool {
		f := in.Parent()
		// backwards: every path from the entry to the instruction has a Lock that is not followed by an Unlock
		type pos struct {
			b *ssa.BasicBlock
			i int
		}
		seen := map[*ssa.BasicBlock]bool{}
		entryHeld := -1
		entry := func() bool {
			if entryHeld < 0 {
				entryHeld = 0
				p, isP := x.(*ssa.Parameter)
				idx := -1
				for i, q := range f.Params {
					if isP && q == p {
						idx = i
					}
				}
				cs := callersOf(c.P, f)
				if fv, ok := x.(*ssa.FreeVar); ok && depth < 5 {
					// a closure: deferred or called where the lock is held
					all, some := true, false
					if b := bindingOf(fv); b != nil {
						for _, r := range realRefsOf(f) {
							some = true
							if !heldAt(r, b, depth+1) {
								all = false
							}
						}
					}
					if all && some {
						entryHeld = 1
					}
				} else if idx >= 0 && len(cs) > 0 && depth < 5 && !(f.Object() != nil && f.Object().Exported()) {
					all := true
					for _, call := range cs {
						if _, ok := call.(*ssa.Call); !ok || !heldAt(call, call.Common().Args[idx], depth+1) {
							all = false
						}
					}
					if all {
						entryHeld = 1
					}
				}
			}
			return entryHeld == 1
		}
		var back func(b *ssa.BasicBlock, i int) bool
		back = func(b *ssa.BasicBlock, i int) bool {
			for ; i >= 0; i-- {
				if v := isLock(b.Instrs[i], "Lock"); v != nil && sameHandle(v, x) {
					return true
				}
				if v := isLock(b.Instrs[i], "Unlock"); v != nil && sameHandle(v, x) {
					return false
				}
			}
			if b == f.Blocks[0] {
				return entry()
			}
			if len(b.Preds) == 0 {
				return b != f.Blocks[0] && f.Recover == b
			}
			for _, p := range b.Preds {
				if seen[p] {
					continue
				}
				seen[p] = true
				if !back(p, len(p.Instrs)-1) {
					return false
				}
			}
			return true
		}
		for i, y := range in.Block().Instrs {
			if y == in {
				return back(in.Block(), i-1)
			}
		}
		return false
	}
	for _, f := range fns {
		if f.Name() == "String" || f.Name() == "GoString" {
			continue // diagnostics
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !isH(fa.X.Type()) || !mutable[fa.Field] || isAlloc(fa.X) {
					continue
				}
				for _, r := range *fa.Referrers() {
					c.fns[f] = true
					if heldAt(r, fa.X, 0) {
						c.okAt(R, shortName(fnName(f))+" "+s.Field(fa.Field).Name()+" "+c.P.pos(posOf(r)))
					} else {
						c.failAt(R, posOf(r), f, "the field "+s.Field(fa.Field).Name()+" of an open file is used without holding its lock", nil)
					}
				}
			}
		}
	}
}

func sameHandle(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	// loads of the same cell that is written once
	la, ok1 := a.(*ssa.UnOp)
	lb, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && la.X == lb.X
}

// realRefsOf: the places where the closure f is made and called.
func realRefsOf(f *ssa.Function) []ssa.Instruction {
	var out []ssa.Instruction
	if f.Parent() == nil {
		return nil
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				for _, r := range *mc.Referrers() {
					if _, ok := r.(*ssa.Call); ok {
						out = append(out, r)
					}
				}
			}
		}
	}
	return out
}

func init() {
	propRules["C09"] = ruleC09
	propRules["C10"] = ruleC10
}
