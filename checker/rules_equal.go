package main

// Comparing layers.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	nTarNew = "archive/tar.NewReader"
)

func ruleC31(c *Ctx) {
	c.rule("C31.entries", "going on to the next entries needs that those at hand have equal headers and contents", 1)
	c.rule("C31.headers", "headers are compared in all fields but the three times", 1)
	c.rule("C31.contents", "contents are found equal only if all chunks of them were equal up to an end that is known", 1)
	c.rule("C31.equal", "layers are found equal only if both of them have ended", 1)
	c.rule("C31.differ", "layers are found to differ only if a header, a content or the number of entries is known to", 2)
	fn := c.P.fn("pkg/fsutil", "LayersEqualExceptTimestamps")
	if fn == nil || len(fn.Params) != 2 {
		c.missing("C31.equal", "the function that compares layers")
		return
	}
	c.equalLayers(fn)
}

func init() { propRules["C31"] = ruleC31 }

// stepsLoop: one of the blocks of the loop calls that function, directly or not.
func (p *Program) stepsLoop(header *ssa.BasicBlock, name string) bool {
	for b := range naturalLoop(header) {
		for _, in := range b.Instrs {
			cc, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if calleeName(cc.Common()) == name {
				return true
			}
			if f := cc.Common().StaticCallee(); f != nil && inRepo(f) && p.reachesAny(f, name) {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) equalLayers(fn *ssa.Function) {
	side := []string{"0", "1"}
	// reader: the number of the layer that t reads the files of, or -1.
	reader := func(st *State, t *Term) int {
		t = unbox(t)
		n, a := calleeOf(t)
		if n == "" {
			n, a = t.siteName(), t.Args
			if s, _ := t.siteOf(); s != nil {
				a = s.Args
			}
		}
		if n != nTarNew || len(a) != 1 {
			return -1
		}
		if s := given(st, a[0], "Layer).Uncompressed"); s != nil {
			for i, p := range fn.Params {
				if s.Args[0] == symParam(p) {
					return i
				}
			}
		}
		return -1
	}
	next := func(st *State, t *Term) (layer, res int) {
		if s, i := t.siteOf(); s != nil && s.siteName() == nTarNext {
			return reader(st, s.Args[0]), i
		}
		return -1, 0
	}
	// chunk: t is the part of a buffer that a call filled with the content of a file.
	chunk := func(st *State, t *Term) (layer int, s *Term) {
		if t.Op == "slice" || t.Op == "subslice" {
			lo, ok := t.Args[1].intv()
			s, i := t.Args[2].siteOf()
			if ok && lo == 0 && s != nil && i == 0 && s.siteName() == "io.ReadFull" && bufOf(s.Args[1]) == bufOf(t) {
				return reader(st, s.Args[0]), s
			}
		}
		return -1, nil
	}
	size := func(b *Term) int64 {
		if b.Op == "slice" && len(b.Args) == 3 {
			lo, ok := b.Args[1].intv()
			hi, ok2 := b.Args[2].intv()
			if ok && ok2 {
				return hi - lo
			}
		}
		return -1
	}
	clearAll := func(st *State, keys ...string) {
		for _, k := range keys {
			st.ClearMark(k)
		}
	}
	is := func(st *State, k string) bool { m := st.Mark(k); return m == tTrue }
	done := func(st *State) bool {
		return is(st, "hdr") && (is(st, "all") || is(st, "chunk") && (is(st, "end0") || is(st, "end1")))
	}
	contents := func(st *State, x, y *Term, val bool) {
		l0, s0 := chunk(st, x)
		l1, s1 := chunk(st, y)
		if l0 == 1 && l1 == 0 {
			l0, s0, l1, s1 = l1, s1, l0, s0
		}
		if l0 == 0 && l1 == 1 && bufOf(s0.Args[1]) != bufOf(s1.Args[1]) && size(s0.Args[1]) > 0 && size(s0.Args[1]) == size(s1.Args[1]) &&
			st.Mark("read0") == s0 && st.Mark("read1") == s1 {
			if val {
				st.SetMark("chunk", tTrue)
			} else {
				st.SetMark("differ", tTrue)
			}
			return
		}
		r0, r1 := given(st, x, "io.ReadAll"), given(st, y, "io.ReadAll")
		if r0 != nil && r1 != nil && reader(st, r0.Args[0])+reader(st, r1.Args[0]) == 1 && reader(st, r0.Args[0]) >= 0 && reader(st, r1.Args[0]) >= 0 {
			if val {
				st.SetMark("all", tTrue)
			} else {
				st.SetMark("differ", tTrue)
			}
		}
	}
	// fields: the two terms are the same field of the headers of the entries at hand.
	fields := func(st *State, x, y *Term, val bool) bool {
		f, l := headerField(st, x, next)
		g, m := headerField(st, y, next)
		if f == "" || f != g || l+m != 1 {
			return false
		}
		if strings.HasSuffix(f, "Time") {
			return true
		}
		if !val {
			st.SetMark("differ", tTrue)
			return true
		}
		st.SetMark("f:"+f, tTrue)
		all := true
		s := c.P.typeOf("archive/tar", "Header").Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			n := s.Field(i).Name()
			all = all && (strings.HasSuffix(n, "Time") || is(st, "f:"+n))
		}
		if all {
			st.SetMark("hdr", tTrue)
		}
		return true
	}
	var at ssa.Instruction
	// note records what a condition that holds tells.
	note := func(e *Eng, st *State, cond *Term, val bool) {
		for cond.Op == "not" {
			cond, val = cond.Args[0], !val
		}
		if cond.Op == "bin" && (cond.Aux == "==" || cond.Aux == "!=") {
			if cond.Aux == "!=" {
				val = !val
			}
			a, b := cond.Args[0], cond.Args[1]
			if s, _ := a.siteOf(); s == nil {
				a, b = b, a
			}
			if a.Op == "conv" && b.Op == "conv" {
				contents(st, a.Args[0], b.Args[0], val)
			}
			fields(st, a, b, val)
			l, i := next(st, a)
			switch {
			case l >= 0 && i == 1 && b.isNil():
				if val {
					st.SetMark("got"+side[l], tTrue)
				}
			case l >= 0 && i == 1 && val && strings.HasSuffix(b.String(), "io.EOF"):
				st.SetMark("eof"+side[l], tTrue)
			case l >= 0 && i == 0 && b.isNil():
				s, _ := a.siteOf()
				if !val {
					st.SetMark("got"+side[l], tTrue)
				} else if errOf(st, s) == yes {
					st.SetMark("eof"+side[l], tTrue)
				}
			}
			if s, i := a.siteOf(); s != nil && i == 1 && s.siteName() == "io.ReadFull" && reader(st, s.Args[0]) >= 0 && val {
				l := side[reader(st, s.Args[0])]
				switch {
				case b.isNil():
					st.SetMark("read"+l, s)
				case strings.HasSuffix(b.String(), "io.EOF"), strings.HasSuffix(b.String(), "io.ErrUnexpectedEOF"):
					st.SetMark("read"+l, s)
					st.SetMark("end"+l, tTrue)
				}
			}
		}
		if cond.Op == "bin" && cond.Aux == "<" {
			x, y := cond.Args[0], cond.Args[1]
			if !val {
				x, y = y, x
			}
			// x < y, or x <= y
			s, i := x.siteOf()
			n, ok := y.intv()
			if s != nil && i == 0 && ok && s.siteName() == "io.ReadFull" && reader(st, s.Args[0]) >= 0 {
				if k := size(s.Args[1]); k > 0 && (n < k || n == k && val) {
					st.SetMark("end"+side[reader(st, s.Args[0])], tTrue)
				}
			}
		}
		if n, a := calleeOf(cond); n != "" && len(a) == 2 {
			switch n {
			case "errors.Is":
				if !val {
					return
				}
				if l, i := next(st, a[0]); l >= 0 && i == 1 && strings.HasSuffix(a[1].String(), "io.EOF") {
					st.SetMark("eof"+side[l], tTrue)
				}
				if s, i := a[0].siteOf(); s != nil && i == 1 && s.siteName() == "io.ReadFull" {
					if l := reader(st, s.Args[0]); l >= 0 && (strings.HasSuffix(a[1].String(), "io.EOF") || strings.HasSuffix(a[1].String(), "io.ErrUnexpectedEOF")) {
						st.SetMark("read"+side[l], s)
						st.SetMark("end"+side[l], tTrue)
					}
				}
			case "reflect.DeepEqual":
				if fields(st, unbox(a[0]), unbox(a[1]), val) {
					return
				}
				bad := c.sameHeaders(st, a[0], a[1], next)
				ok := bad == ""
				switch {
				case e == nil:
				case ok:
					c.okf(e, "C31.headers", "reflect.DeepEqual")
				default:
					c.fail(e, st, "C31.headers", at, "%s", bad)
				}
				switch {
				case ok && val:
					st.SetMark("hdr", tTrue)
				case ok:
					st.SetMark("differ", tTrue)
				}
			case "bytes.Equal":
				contents(st, a[0], a[1], val)
			}
		}
	}
	ends := map[*ssa.BasicBlock]tri{} // what is known when the loop with that header is left
	exits := c.run("C31.equal", fn, nil, func(e *Eng, st *State) {
		e.mergeAt = 3000
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			at = in
			note(e, st, cond, val)
			if b := in.Block(); ends[b] == yes && in == b.Instrs[len(b.Instrs)-1] && naturalLoop(b)[b.Succs[0]] != val {
				st.SetMark("all", tTrue)
			}
			// (*tar.Reader).Next returns a header exactly if it returns no error
			for l := range side {
				if s := st.Mark("next" + side[l]); s != nil {
					if h := mkExt(s, 0, types.NewPointer(c.P.typeOf("archive/tar", "Header"))); errOf(st, s) == yes {
						st.assume(mkEq(h, tNil), false)
					} else if is(st, "eof"+side[l]) {
						st.assume(mkEq(h, tNil), true)
					}
				}
			}
			if is(st, "all") || is(st, "chunk") && (is(st, "end0") || is(st, "end1")) {
				c.okf(e, "C31.contents", "")
			}
		}
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			switch ev.Name {
			case nTarNext:
				if l := reader(st, ev.Args[0]); l >= 0 {
					if is(st, "step"+side[l]) && !done(st) {
						c.fail(e, st, "C31.entries", ev.Instr, "an entry may not be compared")
					}
					clearAll(st, "eof"+side[l], "got"+side[l], "hdr", "all", "chunk", "end0", "end1")
					clearFields(st)
					st.SetMark("step"+side[l], tTrue)
				}
			case "io.ReadFull":
				if l := reader(st, ev.Args[0]); l >= 0 {
					if is(st, "full"+side[l]) && !is(st, "chunk") {
						c.fail(e, st, "C31.contents", ev.Instr, "a part of the contents may not be compared")
					}
					clearAll(st, "read"+side[l], "chunk", "end"+side[l])
					st.SetMark("full"+side[l], tTrue)
				}
			}
		}
		e.hooks.Post = func(e *Eng, st *State, ev *CallEvent) {
			if ev.Name == nTarNext {
				if l := reader(st, ev.Args[0]); l >= 0 && ev.Res != nil {
					s, _ := ev.Res.siteOf()
					st.SetMark("next"+side[l], s)
				}
			}
		}
		e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
			at := header.Instrs[0]
			if c.P.stepsLoop(header, nTarNext) {
				if is(st, "step0") != is(st, "step1") || is(st, "step0") && !done(st) {
					c.fail(e, st, "C31.entries", at, "the comparison may go on although the headers or the contents of the entries at hand are not known to be equal")
				} else if is(st, "step0") {
					c.ok(e, "C31.entries", at, "")
				}
				clearAll(st, "step0", "step1", "next0", "next1", "eof0", "eof1", "got0", "got1", "hdr", "all", "chunk", "end0", "end1", "full0", "full1", "read0", "read1")
				clearFields(st)
			} else if c.P.stepsLoop(header, "io.ReadFull") {
				if (is(st, "full0") || is(st, "full1")) && !is(st, "chunk") {
					c.fail(e, st, "C31.contents", at, "the comparison may go on although the parts of the contents at hand are not known to be equal")
				}
				if phi, goesOn := flagLoop(header); phi != nil && st.regs[phi] != nil && st.decide(st.regs[phi]) != triOf(goesOn) {
					if !is(st, "chunk") || !is(st, "end0") && !is(st, "end1") {
						ends[header] = no
					} else if ends[header] == unknown {
						ends[header] = yes
					}
				}
				clearAll(st, "chunk", "end0", "end1", "full0", "full1", "read0", "read1")
			}
		}
	})
	for _, x := range exits {
		if x.kind != 0 || errState(x.st, x.res[1]) == no {
			continue
		}
		for _, val := range []bool{true, false} {
			st := x.st
			if d := st.decide(x.res[0]); d != unknown && d != triOf(val) {
				continue
			}
			if st.decide(x.res[0]) == unknown {
				st = st.clone()
				note(nil, st, x.res[0], val)
			}
			switch {
			case val && is(st, "eof0") && is(st, "eof1"):
				c.okAt("C31.equal", "both have ended")
			case val:
				c.failAt("C31.equal", x.pos, fn, "layers may be found equal although one of them may have more entries", st)
			case is(st, "differ"):
				c.okAt("C31.differ", "header or content")
			case is(st, "eof0") && is(st, "got1") || is(st, "eof1") && is(st, "got0"):
				c.okAt("C31.differ", "number of entries")
			default:
				c.failAt("C31.differ", x.pos, fn, "layers may be found to differ although nothing in them but a time is known to", st)
			}
		}
	}
}

// sameHeaders: x and y are the headers of the entries of the two layers, except that their times are made the same.
func (c *Ctx) sameHeaders(st *State, x, y *Term, next func(*State, *Term) (int, int)) string {
	hT := c.P.typeOf("archive/tar", "Header")
	x, y = unbox(x), unbox(y)
	const other = "what is compared may not be the headers of the entries at hand"
	if hT == nil {
		return other
	}
	val := func(t *Term) *Term {
		if p := pointee(t.T); p != nil && isNamed(p, "archive/tar", "Header") {
			return st.load(t, p)
		}
		return t
	}
	x, y = val(x), val(y)
	if !isNamed(x.T, "archive/tar", "Header") || !isNamed(y.T, "archive/tar", "Header") {
		return other
	}
	// from: the layer that the field of that name in the header of t is from
	from := func(t *Term, f string) int {
		if g, l := headerField(st, fieldT(t, x.T, f), next); g == f {
			return l
		}
		return -1
	}
	bad := ""
	s := x.T.Underlying().(*types.Struct)
	side := from(x, "Name")
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i).Name()
		switch f {
		case "ModTime", "AccessTime", "ChangeTime":
			if fieldT(x, x.T, f) != fieldT(y, y.T, f) {
				bad = "layers may be found to differ because of a time: " + f
			}
		default:
			if side < 0 || from(x, f) != side || from(y, f) != 1-side {
				bad = "headers may not be compared in this field: " + f
			}
		}
	}
	return bad
}

// bufOf: what t is the start of.
func bufOf(t *Term) *Term {
	for t.Op == "slice" || t.Op == "subslice" {
		if lo, ok := t.Args[1].intv(); !ok || lo != 0 {
			break
		}
		t = t.Args[0]
	}
	return rootOf(t)
}

// headerField: v is that field of the header of the entry at hand of that layer.
func headerField(st *State, v *Term, next func(*State, *Term) (int, int)) (field string, layer int) {
	if v.Op != "fld" || v.Args[0].Op != "deref" {
		return "", -1
	}
	if l, i := next(st, v.Args[0].Args[0]); l >= 0 && i == 0 {
		return v.Aux, l
	}
	return "", -1
}

func clearFields(st *State) {
	for k := range st.marks {
		if strings.HasPrefix(k, "f:") {
			st.ClearMark(k)
		}
	}
}

// flagLoop: the flag that decides alone at the header of a loop whether the loop goes on, and its value then. It has that value at first.
func flagLoop(header *ssa.BasicBlock) (flag *ssa.Phi, goesOn bool) {
	if !isHeader(header) {
		return nil, false
	}
	br, ok := header.Instrs[len(header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	v := br.Cond
	goesOn = naturalLoop(header)[header.Succs[0]]
	if n, ok := v.(*ssa.UnOp); ok && n.Op == token.NOT {
		v, goesOn = n.X, !goesOn
	}
	phi, ok := v.(*ssa.Phi)
	if !ok || phi.Block() != header {
		return nil, false
	}
	for i, p := range header.Preds {
		if !header.Dominates(p) {
			if k, ok := phi.Edges[i].(*ssa.Const); !ok || k.Value == nil || constant.BoolVal(k.Value) != goesOn {
				return nil, false
			}
		}
	}
	return phi, goesOn
}
