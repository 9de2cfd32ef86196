package main

// C11: the operations of the file system view.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type handleShape struct {
	n                              *types.Named
	s                              *types.Struct
	tgt, lnk, pos, closed, dirents int
}

func (hd *handleShape) field(st *State, p *Term, i int) *Term {
	t := hd.s.Field(i).Type()
	return st.load(mkFA(p, hd.s, i, types.NewPointer(t)), t)
}

// openRules decides Open and tells which field of the handle is the file itself and which the link that led there.
func (c *Ctx) openRules(h *sqShape, hs *handleShape) {
	const R = "C11.open"
	var fn *ssa.Function
	for _, f := range c.P.pkgFns(squashDir) {
		if f.Name() == "Open" && f.Signature.Recv() != nil && h.isNode(f.Signature.Recv().Type()) {
			fn = f
		}
	}
	if fn == nil {
		c.missing(R, "Open")
		return
	}
	args := symParams(fn)
	f, name := args[0], args[1]
	exits := c.run(R, fn, args, func(e *Eng, st *State) {
		e.mergeAt = 3000
		h.opaqueMarker(c, e, fn, nil)
		model := e.hooks.Model
		e.hooks.Model = func(e *Eng, st *State, ev *CallEvent) ([]callOut, bool) {
			if ev.Fn != nil && h.getter(ev.Fn) && !h.loads(ev.Fn) {
				g := h.getArgs(ev.Fn, ev.Args)
				if st.decide(boolCall("io/fs.ValidPath", name)) != yes {
					c.fail(e, st, R, ev.Instr, "a name is looked up that may not be valid")
				}
				if g.create != tFalse {
					c.fail(e, st, R, ev.Instr, "opening a file may create nodes")
				}
			}
			return model(e, st, ev)
		}
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			if cond == boolCall("io/fs.ValidPath", name) {
				st.SetMark("valid", mkBool(val))
			}
			if cond.Op == "bin" && cond.Aux == "==" && isErrorType(cond.Args[0].T) && cond.Args[1].isNil() && !val {
				st.SetMark("failed", tTrue)
			}
		}
	})
	get := func(t *Term) (getCall, bool) {
		s, i := t.siteOf()
		if s == nil || i != 0 {
			return getCall{}, false
		}
		for _, gf := range c.P.pkgFns(squashDir) {
			if h.getter(gf) && fnName(gf) == t.siteName() && len(gf.Params) == len(s.Args) {
				return h.getArgs(gf, s.Args), true
			}
		}
		return getCall{}, false
	}
	isLnk := func(t *Term) bool {
		g, ok := get(t)
		return ok && g.node == f && g.name == name && g.follow == tFalse
	}
	isTgt := func(t *Term) bool {
		g, ok := get(t)
		return ok && g.follow == tTrue && (g.node == f && g.name == name || isLnk(g.node) && g.name == mkStr("."))
	}
	for _, x := range exits {
		if x.kind != exitRet {
			continue
		}
		switch errState(x.st, lastRes(x)) {
		case no:
			if x.st.Mark("valid") == tTrue && !x.st.Marked("failed") {
				c.failAt(R, x.pos, fn, "a valid name that was found is refused", x.st)
			} else {
				c.okAt(R, "error exit "+c.P.pos(x.pos)+x.st.markKey())
			}
			if x.st.Mark("valid") == tFalse {
				// the error says that the name is invalid
				er := unbox(lastRes(x))
				if !x.st.mentions(er, "ErrInvalid", 4) {
					c.failAt(R, x.pos, fn, "the error for an invalid name is not fs.ErrInvalid", x.st)
				}
			}
			continue
		case unknown:
			c.failAt(R, x.pos, fn, "the error returned may or may not be nil", x.st)
			continue
		}
		if x.st.Mark("valid") != tTrue {
			c.failAt(R, x.pos, fn, "a name that is not valid may be opened", x.st)
			continue
		}
		p := unbox(x.res[0])
		tgt, lnk := -1, -1
		for i := 0; i < hs.s.NumFields(); i++ {
			if !h.isNode(hs.s.Field(i).Type()) {
				continue
			}
			v := hs.field(x.st, p, i)
			switch {
			case isTgt(v):
				tgt = i
			case isLnk(v):
				lnk = i
			default:
				c.failAt(R, x.pos, fn, fmt.Sprintf("the file opened is %v, not the node of that name", v), x.st)
			}
		}
		switch {
		case tgt < 0:
			c.failAt(R, x.pos, fn, "what is opened is not what the links lead to", x.st)
		case hs.tgt >= 0 && hs.tgt != tgt:
			c.failAt(R, x.pos, fn, "what is opened depends on the path taken", x.st)
		default:
			hs.tgt, hs.lnk = tgt, lnk
			c.okAt(R, "exit "+c.P.pos(x.pos))
		}
	}
}

// mentions: the value, or something stored in it, is the package-level variable of that name.
func (st *State) mentions(t *Term, name string, depth int) bool {
	if t == nil || depth < 0 {
		return false
	}
	if t.any(func(x *Term) bool {
		return x.Op == "global" && strings.HasSuffix(x.Aux, "."+name) || strings.HasSuffix(x.Aux, "."+name)
	}) {
		return true
	}
	for k, v := range st.mem {
		if rootOf(memBase(k)) == rootOf(t) && v != t && st.mentions(v, name, depth-1) {
			return true
		}
	}
	return false
}

func ruleC11(c *Ctx) {
	c.only = true
	c.rule("C11.open", "Open takes exactly the valid names and opens what the links lead to", 3)
	c.rule("C11.read", "Read returns the next bytes of the content and advances by as many; the end of the content is EOF and nothing else is; directories, closed files and omitted content are errors", 4)
	c.rule("C11.close", "Close closes the file, and fails if it is closed already", 2)
	c.rule("C11.stat", "Stat describes the file that the links lead to, and fails if the layers have no header for it", 2)
	c.rule("C11.readdir", "ReadDir returns the next entries, at most n if n is positive, and advances by as many; no entries and a positive n is EOF and nothing else is; closed files and files that are not directories are errors", 4)
	c.rule("C11.entries", "the entries of a directory are all its children but the whiteouts, in the order of their names", 2)
	h := c.P.squashShape()
	if h == nil {
		c.missing("C11.open", "the node type")
		return
	}
	for _, n := range h.handles(c.P) {
		hs := &handleShape{n: n, s: n.Underlying().(*types.Struct), tgt: -1, lnk: -1, pos: -1, closed: -1, dirents: -1}
		c.openRules(h, hs)
		if hs.tgt < 0 {
			c.missing("C11.read", "the node of an open file")
			return
		}
		for i := 0; i < hs.s.NumFields(); i++ {
			t := hs.s.Field(i).Type()
			if b, ok := t.Underlying().(*types.Basic); ok {
				switch {
				case b.Kind() == types.Bool:
					hs.closed = i
				case b.Info()&types.IsInteger != 0:
					hs.pos = i
				}
			}
			if s, ok := t.Underlying().(*types.Slice); ok && isNamed(s.Elem(), "io/fs", "DirEntry") {
				hs.dirents = i
			}
		}
		for _, f := range c.P.methodsOf(n) {
			switch f.Name() {
			case "Read":
				c.readRules(h, hs, f)
			case "Close":
				c.closeRules(h, hs, f)
			case "Stat":
				c.statRules(h, hs, f)
			case "ReadDir":
				c.readdirRules(h, hs, f)
			}
		}
	}
}

func isEOF(t *Term) bool {
	t = unbox(t)
	return t != nil && t.any(func(x *Term) bool { return x.Op == "gval" && x.Aux == "io.EOF" })
}

func (c *Ctx) readRules(h *sqShape, hs *handleShape, fn *ssa.Function) {
	const R = "C11.read"
	args := symParams(fn)
	f, buf := args[0], args[1]
	hdrT := c.P.typeOf("archive/tar", "Header")
	s0 := newState()
	tgt := hs.field(s0, f, hs.tgt)
	hd, body, pos := h.field(s0, tgt, h.header), h.field(s0, tgt, h.body), hs.field(s0, f, hs.pos)
	ln := mkCall("len", types.Typ[types.Int], body)
	exits := c.run(R, fn, args, func(e *Eng, st *State) {
		e.mergeAt = 3000
		st.assume(mkLt(pos, mkInt(0)), false)
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			switch {
			case cond == hs.field(s0, f, hs.closed):
				st.SetMark("closed", mkBool(val))
			case cond == mkEq(hd, tNil):
				st.SetMark("nohdr", mkBool(val))
			case cond == mkEq(fieldOf(s0, hd, hdrT, "Typeflag"), mkInt('5')):
				st.SetMark("dir", mkBool(val))
			case cond.Op == "bin" && cond.contains(fieldOf(s0, hd, hdrT, "Size")) && cond.contains(body):
				// shorter than the size in the header
				a, b := stripConv(cond.Args[0]), stripConv(cond.Args[1])
				switch {
				case cond.Aux == "<" && a.contains(body):
					st.SetMark("short", mkBool(val))
				case cond.Aux == "<" && b.contains(body) && !val:
					// size >= len
				case cond.Aux == "==" && val:
					st.SetMark("short", tFalse)
				case cond.Aux == "==" && !val:
					st.SetMark("short", tTrue)
				}
			case cond.Op == "bin" && cond.contains(pos) && cond.contains(body):
				end := tri(unknown)
				switch {
				case cond.Aux == "==":
					end = triOf(val)
				case cond.Aux == "<" && cond.Args[0].contains(pos): // pos < len
					end = triOf(!val)
				case cond.Aux == "<" && !val: // !(len < pos)
				}
				if end != unknown {
					st.SetMark("end", mkBool(end == yes))
				}
			case cond.Op == "bin" && cond.any(func(x *Term) bool { return x.isCall("len") && x.Args[0].Op == "slice" }):
			}
		}
	})
	_ = ln
	for _, x := range exits {
		if x.kind != exitRet {
			continue
		}
		st := x.st
		n, er := x.res[0], lastRes(x)
		bad := func(format string, a ...interface{}) { c.failAt(R, x.pos, fn, fmt.Sprintf(format, a...), st) }
		is := func(k string) bool { return st.Mark(k) == tTrue }
		np := hs.field(st, f, hs.pos)
		switch {
		case errState(st, er) == yes:
			cp := n.siteName() == "copy"
			var src *Term
			if cp {
				s, _ := n.siteOf()
				if s == nil {
					s = n
				}
				src = s.Args[1]
				if s.Args[0] != buf {
					bad("the bytes are not put in the buffer given")
				}
			}
			switch {
			case st.Mark("closed") != tFalse:
				bad("a closed file may be read")
			case !(st.Mark("nohdr") == tFalse && st.Mark("dir") == tFalse):
				bad("a directory may be read")
			case st.Mark("short") != tFalse:
				bad("content that was omitted may be read as empty")
			case n == tZero || n == mkInt(0):
				if is("end") {
					bad("at the end of the content, Read returns no bytes and no error")
				}
			case !cp || !fromPos(src, body, pos):
				bad("the bytes returned are %v, not the next ones of the content", n)
			case st.Mark("end") != tFalse:
				bad("at the end of the content, Read may return no bytes and no error")
			case np != mkBin(token.ADD, pos, n, np.T) && np != mkBin(token.ADD, n, pos, np.T):
				bad("the position is %v after reading %v bytes", np, n)
			default:
				c.okAt(R, "exit "+c.P.pos(x.pos))
			}
		case isEOF(er):
			if !is("end") {
				bad("EOF may be returned before the end of the content")
			} else if st.Mark("closed") != tFalse || st.Mark("dir") != tFalse || st.Mark("short") != tFalse {
				bad("EOF may be returned for a closed file, a directory or omitted content")
			} else if n != mkInt(0) {
				bad("EOF is returned together with %v bytes", n)
			} else {
				c.okAt(R, "EOF exit "+c.P.pos(x.pos))
			}
		default:
			switch {
			case !(is("closed") || is("nohdr") || is("dir") || is("short")):
				bad("a file that can be read is refused")
			case np != pos:
				bad("the position is changed although nothing was read")
			default:
				c.okAt(R, "error exit "+c.P.pos(x.pos)+" "+st.markKey())
			}
		}
	}
}

// fromPos: src is body[pos:].
func fromPos(src, body, pos *Term) bool {
	return src != nil && src.Op == "subslice" && src.Args[0] == body && len(src.Args) >= 2 && src.Args[1] == pos
}

func (c *Ctx) closeRules(h *sqShape, hs *handleShape, fn *ssa.Function) {
	const R = "C11.close"
	args := symParams(fn)
	s0 := newState()
	was := hs.field(s0, args[0], hs.closed)
	exits := c.run(R, fn, args, func(e *Eng, st *State) {
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			if cond == was {
				st.SetMark("closed", mkBool(val))
			}
		}
	})
	for _, x := range exits {
		if x.kind != exitRet {
			continue
		}
		now := hs.field(x.st, args[0], hs.closed)
		switch errState(x.st, lastRes(x)) {
		case yes:
			if x.st.Mark("closed") != tFalse || now != tTrue {
				c.failAt(R, x.pos, fn, "Close succeeds for a file that is closed already, or leaves it open", x.st)
				continue
			}
		case no:
			if x.st.Mark("closed") != tTrue || now == tFalse {
				c.failAt(R, x.pos, fn, "Close fails for an open file, or opens a closed one", x.st)
				continue
			}
		default:
			c.failAt(R, x.pos, fn, "the error returned may or may not be nil", x.st)
			continue
		}
		c.okAt(R, "exit "+c.P.pos(x.pos))
	}
}

func (c *Ctx) statRules(h *sqShape, hs *handleShape, fn *ssa.Function) {
	const R = "C11.stat"
	args := symParams(fn)
	hdrT := c.P.typeOf("archive/tar", "Header")
	s0 := newState()
	tgt := hs.field(s0, args[0], hs.tgt)
	hd := h.field(s0, tgt, h.header)
	exits := c.run(R, fn, args, func(e *Eng, st *State) {
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			if cond == mkEq(hd, tNil) {
				st.SetMark("nohdr", mkBool(val))
			}
		}
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			if ev.Name != "(*archive/tar.Header).FileInfo" {
				return
			}
			for _, fl := range []string{"Typeflag", "Size", "Mode", "ModTime", "Uid", "Gid"} {
				if fieldOf(st, ev.Args[0], hdrT, fl) != fieldOf(s0, hd, hdrT, fl) {
					c.fail(e, st, R, ev.Instr, "the %s described is not that of the file", fl)
					return
				}
			}
			if st.Mark("nohdr") != tFalse {
				c.fail(e, st, R, ev.Instr, "a header that may be missing is described")
				return
			}
			st.SetMark("info", tTrue)
		}
	})
	for _, x := range exits {
		if x.kind != exitRet {
			continue
		}
		switch errState(x.st, lastRes(x)) {
		case yes:
			if !x.st.Marked("info") {
				c.failAt(R, x.pos, fn, "what Stat returns does not describe the file", x.st)
				continue
			}
		case no:
			if x.st.Mark("nohdr") != tTrue {
				c.failAt(R, x.pos, fn, "Stat fails for a file that has a header", x.st)
				continue
			}
		default:
			c.failAt(R, x.pos, fn, "the error returned may or may not be nil", x.st)
			continue
		}
		c.okAt(R, "exit "+c.P.pos(x.pos))
	}
}

func (c *Ctx) readdirRules(h *sqShape, hs *handleShape, fn *ssa.Function) {
	const R, RE = "C11.readdir", "C11.entries"
	args := symParams(fn)
	f, n := args[0], args[1]
	hdrT := c.P.typeOf("archive/tar", "Header")
	s0 := newState()
	tgt := hs.field(s0, f, hs.tgt)
	hd, kids, pos := h.field(s0, tgt, h.header), h.field(s0, tgt, h.children), hs.field(s0, f, hs.pos)
	exits := c.run(R, fn, args, func(e *Eng, st *State) {
		e.mergeAt = 3000
		h.opaqueMarker(c, e, fn, nil)
		st.assume(mkLt(pos, mkInt(0)), false)
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			switch {
			case cond == hs.field(s0, f, hs.closed):
				st.SetMark("closed", mkBool(val))
			case cond == mkEq(hd, tNil):
				st.SetMark("nohdr", mkBool(val))
			case cond == mkEq(fieldOf(s0, hd, hdrT, "Typeflag"), mkInt('5')):
				st.SetMark("dir", mkBool(val))
			case cond.isCall("strings.HasPrefix") && cond.Args[1] == mkStr(whPrefix) && kidName(cond.Args[0], kids):
				markIn(st, fr, "wh", mkBool(val))
				st.SetMark("whval", mkBool(val))
			case cond.Op == "bin" && cond.Aux == "==" && isErrorType(cond.Args[0].T) && cond.Args[1].isNil() && !val:
				st.SetMark("failed", tTrue)
			case cond.Op == "bin" && cond.Aux == "<" && cond.Args[0] == mkInt(0) && cond.Args[1] == n:
				st.SetMark("npos", mkBool(val))
			case cond.Op == "bin" && cond.Aux == "<" && cond.Args[0] == n && cond.Args[1] == mkInt(1):
				st.SetMark("npos", mkBool(!val))
			case cond.Op == "bin" && cond.Aux == "<" && cond.Args[0] == n && cond.Args[1] == mkInt(0):
				if val {
					st.SetMark("npos", tFalse)
				}
			}
		}
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			switch {
			case ev.Name == "append":
				if st.Mark("whval") == nil {
					c.fail(e, st, RE, ev.Instr, "an entry is listed without looking whether it is a whiteout")
				} else if st.Mark("whval") == tTrue {
					c.fail(e, st, RE, ev.Instr, "a whiteout is listed")
				} else {
					markIn(st, ev.Frame, "listed", tTrue)
					c.ok(e, RE, ev.Instr, "")
				}
			case strings.HasPrefix(ev.Name, "sort.") || strings.HasPrefix(ev.Name, "slices.Sort"):
				st.SetMark("sorted", tTrue)
				c.nameOrder(e, st, ev, RE)
			}
		}
		e.hooks.Range = func(e *Eng, st *State, fr *frame, x *Term, in ssa.Instruction) {
			if x == kids {
				st.SetMark("ranged", tTrue)
				st.ClearMark("sorted")
			}
		}
		e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
			if inLoop(st, fr, "listed") || st.Mark("whval") == tTrue {
				c.iterOK(e, RE, fr, header)
			} else {
				c.iterBad(e, st, RE, fr, header, "a child that is not a whiteout may not be listed")
			}
			clearIn(st, "listed", "wh")
			st.ClearMark("whval")
		}
	})
	for _, x := range exits {
		if x.kind != exitRet {
			continue
		}
		st := x.st
		r, er := x.res[0], lastRes(x)
		bad := func(format string, a ...interface{}) { c.failAt(R, x.pos, fn, fmt.Sprintf(format, a...), st) }
		is := func(k string) bool { return st.Mark(k) == tTrue }
		all := hs.field(st, f, hs.dirents)
		np := hs.field(st, f, hs.pos)
		switch {
		case errState(st, er) == yes:
			switch {
			case st.Mark("closed") != tFalse:
				bad("a closed directory may be read")
			case !(is("nohdr") || is("dir")):
				bad("something that is not a directory may be listed")
			case st.Marked("ranged") && !st.Marked("sorted"):
				bad("the entries are not sorted")
			case st.Mark("npos") == nil:
				bad("the number of entries asked for is not looked at")
			default:
				if msg := window(st, r, all, pos, np, n, is("npos")); msg != "" {
					bad("%s", msg)
				} else {
					c.okAt(R, "exit "+c.P.pos(x.pos)+st.markKey())
				}
			}
		case isEOF(er):
			ln := mkCall("len", types.Typ[types.Int], all)
			if !is("npos") {
				bad("EOF may be returned although all remaining entries were asked for")
			} else if !(np == ln || st.decide(mkEq(mkBin(token.SUB, ln, pos, types.Typ[types.Int]), mkInt(0))) == yes || st.decide(mkEq(ln, pos)) == yes || st.decide(mkLt(pos, ln)) == no) {
				bad("EOF may be returned although there are more entries")
			} else {
				c.okAt(R, "EOF exit "+c.P.pos(x.pos))
			}
		default:
			if !(is("closed") || st.Mark("nohdr") == tFalse && st.Mark("dir") == tFalse || is("failed")) {
				bad("an open directory is refused")
			} else {
				c.okAt(R, "error exit "+c.P.pos(x.pos))
			}
		}
	}
}

// window: what is wrong with a list of entries that is returned without error: it is to be the part of all that starts at pos,
// of at most n entries if n is positive, and the new position is its end.
func window(st *State, r, all, pos, np, n *Term, npos bool) string {
	it := types.Typ[types.Int]
	ln := mkCall("len", it, all)
	rem := mkBin(token.SUB, ln, pos, it)
	if r.isNil() {
		if npos {
			return "neither entries nor EOF may be returned"
		}
		if np == ln || np == pos {
			return ""
		}
		return fmt.Sprintf("the position is %v after returning no entries", np)
	}
	var lo, hi *Term
	lo = mkInt(0)
	x := r
	var wins []*Term
	for x.Op == "subslice" {
		wins = append(wins, x)
		x = x.Args[0]
	}
	if x != all {
		return fmt.Sprintf("what is returned is %v, not a part of the entries", r)
	}
	for i := len(wins) - 1; i >= 0; i-- {
		w := wins[i]
		nlo := lo
		if w.Args[1] != nil && w.Args[1] != tZero {
			nlo = mkBin(token.ADD, lo, w.Args[1], it)
		}
		if h := w.Args[2]; h != nil && h != ln {
			hi = mkBin(token.ADD, lo, h, it)
		}
		lo = nlo
	}
	if lo != pos && lo != ln {
		return fmt.Sprintf("the entries returned start at %v, not at the position", lo)
	}
	switch {
	case hi == nil:
		if npos {
			// n was found to be large enough
			end := mkBin(token.ADD, pos, n, it)
			enough := st.decide(mkLt(n, rem)) == no || st.decide(mkLt(rem, n)) == yes || st.decide(mkLt(end, ln)) == no || st.decide(mkLt(ln, end)) == yes ||
				st.decide(mkLt(n, mkCall("len", it, r))) == no
			if !enough {
				return "more entries than asked for may be returned"
			}
			if st.decide(mkEq(rem, mkInt(0))) != no && st.decide(mkLt(pos, ln)) != yes && st.decide(mkEq(pos, ln)) != no {
				return "neither entries nor EOF may be returned"
			}
		}
		if np != ln && np != mkBin(token.ADD, pos, rem, it) {
			return fmt.Sprintf("the position is %v after returning all remaining entries", np)
		}
	case hi == mkBin(token.ADD, pos, n, it) || hi == mkBin(token.ADD, n, pos, it):
		if !npos {
			return "only some of the remaining entries may be returned although all were asked for"
		}
		if np != hi && np != mkBin(token.ADD, pos, mkBin(token.SUB, hi, pos, it), it) {
			return fmt.Sprintf("the position is %v after returning n entries", np)
		}
	default:
		return fmt.Sprintf("the entries returned end at %v", hi)
	}
	return ""
}

// kidName: the term is the name of a child.
func kidName(t, kids *Term) bool { return t.Op == "rangekey" && t.Args[0] == kids }

// notName: the term is computed from a name in a way that does not keep names apart.
func notName(r *Term) bool {
	return r.any(func(x *Term) bool {
		switch x.Op {
		case "call":
			return x.Aux == "len" || strings.HasPrefix(x.Aux, "strings.To") || strings.HasPrefix(x.Aux, "path.") || strings.HasPrefix(x.Aux, "strings.Trim")
		}
		return false
	})
}

// nameOrder: the comparison is by ascending name.
func (c *Ctx) nameOrder(e *Eng, st *State, ev *CallEvent, R string) {
	if len(ev.Args) < 2 && !strings.Contains(ev.Name, "Sort") && !strings.Contains(ev.Name, "Stable") {
		c.ok(e, R, ev.Instr, "sorted")
		return
	}
	i, j := tt.mkT("sym", "sort:i", types.Typ[types.Int]), tt.mkT("sym", "sort:j", types.Typ[types.Int])
	var res []exit
	if len(ev.Args) == 2 {
		res = e.applyExits(st, ev.Args[1], i, j)
	} else {
		res = e.methodExits(st, ev.Args[0], "Less", i, j)
	}
	for _, x := range res {
		r := x.res[0]
		if !(r.Op == "bin" && r.Aux == "<" && r.Args[0].contains(i) && r.Args[1].contains(j) && !r.Args[0].contains(j) && !r.Args[1].contains(i) && !notName(r)) {
			c.fail(e, st, R, ev.Instr, "entries are put in the order given by %v", r)
			return
		}
	}
	c.ok(e, R, ev.Instr, "sorted")
}

func init() { propRules["C11"] = ruleC11 }
