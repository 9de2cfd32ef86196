package main

// Installing wheels: where files go, who owns them, what is rewritten.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// runInstall analyses InstallWheel past the integrity check (which C12 decides).
func (c *Ctx) runInstall(rule string, setup func(e *Eng, st *State)) []exit {
	fn := c.P.fn("pkg/python/pypa/bdist", "InstallWheel")
	if fn == nil {
		c.missing(rule, "bdist.InstallWheel")
		return nil
	}
	return c.run(rule, fn, nil, func(e *Eng, st *State) {
		e.mergeAt = 3000
		inner := exportedElsewhere(fn)
		e.opaqueFn = func(f *ssa.Function) bool { return inner(f) && pkgDir(f) != "pkg/python" }
		setup(e, st)
		model := e.hooks.Model
		e.hooks.Model = func(e *Eng, st *State, ev *CallEvent) ([]callOut, bool) {
			if ev.Fn != nil && pkgDir(ev.Fn) == "pkg/python/pypa/bdist" && onlyErr(ev.Fn) && c.P.reachesAny(ev.Fn, "(*encoding/csv.Reader).ReadAll", "(*encoding/csv.Reader).Read") {
				return []callOut{{st, tNil}}, true
			}
			if model != nil {
				return model(e, st, ev)
			}
			return nil, false
		}
	})
}

func onlyErr(f *ssa.Function) bool {
	r := f.Signature.Results()
	return r.Len() == 1 && isErrorType(r.At(0).Type())
}

func (p *Program) reachesAny(f *ssa.Function, names ...string) bool {
	for _, n := range names {
		if p.reaches(f, n, true) {
			return true
		}
	}
	return false
}

// method analyses a call of a method of the dynamic type of v on a copy of the state and returns the possible first results.
func (e *Eng) method(st *State, v *Term, name string, args ...*Term) []*Term {
	x := unbox(v)
	if x == nil || x.T == nil {
		return nil
	}
	ms := e.P.prog.MethodSets.MethodSet(x.T)
	var sel *types.Selection
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			sel = ms.At(i)
		}
	}
	if sel == nil || types.IsInterface(x.T) {
		return nil
	}
	f := e.P.prog.MethodValue(sel)
	if f == nil || len(f.Blocks) == 0 {
		return nil
	}
	return e.apply(st, e.fnTerm(f), append([]*Term{x}, args...)...)
}

func isFileRefMap(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && isNamed(m.Elem(), modPath+"/pkg/fsutil", "FileReference")
}

// schemeDir: the install directory of the platform from which t is made, if it is made from exactly one.
// destDir: the directory of the scheme that the file name k is in.
func destDir(k *Term) string {
	if k.isCall("path.Join") {
		return schemeDir(k.Args[0])
	}
	return schemeDir(k)
}

// schemeDir: the only directory of the scheme that t mentions.
func schemeDir(t *Term) string {
	name, n := "", 0
	seen := map[*Term]bool{}
	t.any(func(x *Term) bool {
		if x.Op == "fld" && !seen[x] && len(x.Args) == 1 && x.Args[0].Op == "fld" && x.Args[0].Aux == "Scheme" {
			seen[x] = true
			name = x.Aux
			n++
		}
		return false
	})
	if n == 1 {
		return name
	}
	return ""
}

var schemeKeys = map[string]string{"purelib": "PureLib", "platlib": "PlatLib", "headers": "Headers", "scripts": "Scripts", "data": "Data"}

// evalInt evaluates an integer term for given values of its leaves.
func evalInt(t *Term, leaf func(*Term) (int64, bool)) (int64, bool) {
	if v, ok := leaf(t); ok {
		return v, true
	}
	if v, ok := t.intv(); ok {
		return v, true
	}
	switch t.Op {
	case "conv":
		v, ok := evalInt(t.Args[0], leaf)
		if !ok {
			return 0, false
		}
		if b := basicOf(t.T); b != nil {
			if bits, unsigned := intWidth(b); bits > 0 && bits < 64 {
				if unsigned {
					return v & (1<<uint(bits) - 1), true
				}
				return v << uint(64-bits) >> uint(64-bits), true
			}
		}
		return v, true
	case "bin":
		a, ok := evalInt(t.Args[0], leaf)
		if !ok || len(t.Args) != 2 {
			return 0, false
		}
		b, ok := evalInt(t.Args[1], leaf)
		if !ok {
			return 0, false
		}
		switch t.Aux {
		case "+":
			return a + b, true
		case "-":
			return a - b, true
		case "*":
			return a * b, true
		case "|":
			return a | b, true
		case "&":
			return a & b, true
		case "&^":
			return a &^ b, true
		case "^":
			return a ^ b, true
		case "<<":
			r := a << uint(b)
			if bs := basicOf(t.T); bs != nil {
				if bits, unsigned := intWidth(bs); bits > 0 && bits < 64 && unsigned {
					r &= 1<<uint(bits) - 1
				}
			}
			return r, true
		case ">>":
			return a >> uint(b), true
		}
	}
	return 0, false
}

func zipFileOf(t *Term) *Term {
	// the entry of the zip whose Open gave t
	s, i := unbox(t).siteOf()
	if s != nil && i == 0 && s.siteName() == "(*archive/zip.File).Open" {
		return s.Args[0]
	}
	return nil
}

func zipHeaderOf(e *Eng, st *State, v *Term) *Term {
	for _, r := range e.method(st, v, "Mode") {
		var h *Term
		r.any(func(x *Term) bool {
			if x.isCall("(*archive/zip.FileHeader).FileInfo") {
				h = x.Args[0]
				return true
			}
			return false
		})
		if h != nil {
			return h
		}
	}
	return nil
}

const nLayerRefs = modPath + "/pkg/fsutil.LayerFromFileReferences"

func splitOf(x *Term) *Term {
	if x.isCall("strings.Split") || x.isCall("strings.SplitN") || x.isCall("strings.Cut") {
		return x.Args[0]
	}
	return nil
}

// relOf: x is what follows the data directory in the name old: TrimPrefix(old, dir+"/").
func relOf(x *Term) (old, dir *Term) {
	if x != nil && x.isCall("strings.TrimPrefix") && x.Args[1].Op == "concat" && x.Args[1].Args[len(x.Args[1].Args)-1] == mkStr("/") {
		a := x.Args[1].Args
		return x.Args[0], mkConcat(types.Typ[types.String], a[:len(a)-1]...)
	}
	return nil, nil
}

// isDataDir: t is root/NAME.data for the dist-info directory NAME.dist-info.
func isDataDir(t *Term) bool {
	if !t.isCall("path.Join") || len(t.Args) < 2 {
		return false
	}
	l := t.Args[len(t.Args)-1]
	return l.Op == "concat" && len(l.Args) == 2 && l.Args[1] == mkStr(".data") && l.Args[0].isCall("strings.TrimSuffix") && l.Args[0].Args[1] == mkStr(".dist-info")
}

func installRules(c *Ctx) {
	c.only = true
	fn := c.P.fn("pkg/python/pypa/bdist", "InstallWheel")
	if fn == nil {
		c.missing(c.Prop+".anchor", "bdist.InstallWheel")
		return
	}
	plat := paramOfType(fn, func(t types.Type) bool { return isNamed(t, modPath+"/pkg/python", "Platform") })
	var times []*Term
	for _, p := range fn.Params {
		if isTime(p.Type()) {
			times = append(times, symParam(p))
		}
	}
	if plat == nil || len(times) != 2 {
		c.missing(c.Prop+".anchor", "the parameters of bdist.InstallWheel")
		return
	}
	platV := symParam(plat)
	minTime := times[0]
	zfh := c.P.typeOf("archive/zip", "FileHeader")
	fileT := c.P.typeOf("archive/zip", "File")
	zipHdr := func(el *Term, f string) *Term {
		s := newState()
		h := fieldOf(s, el, fileT, "FileHeader")
		return valField(h, f)
	}
	c.runInstall(c.Prop+".anchor", func(e *Eng, st *State) {
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			if c.Prop == "C13" {
				markLocal(st, cond, val)
			}
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			if cond.Op == "bin" && cond.Aux == "==" {
				for i := 0; i < 2; i++ {
					a, b := cond.Args[i], cond.Args[1-i]
					s, isStr := b.str()
					if !isStr {
						continue
					}
					switch {
					case a.isCall("(net/textproto.MIMEHeader).Get") && a.Args[1] == mkStr("Root-Is-Purelib") && s == "true":
						st.SetMark("pure", mkBool(val))
					case schemeKeys[s] != "" && val:
						if rel := splitPart(st, a, "/", 0); rel != nil {
							markIn(st, fr, "key", b)
							st.SetMark("key.rel", rel)
						}
					}
					if s == "scripts" && (a.Op == "rangeval" || a.Op == "lookup") {
						markIn(st, fr, "s.key", mkBool(val))
						st.SetMark("s.of", a.Args[1])
					}
				}
			}
			if cond.Op == "bin" && cond.Aux == "<" {
				l, r := cond.Args[0], cond.Args[1]
				n, okn := r.intv()
				if m := majorOf(r); m != nil && m.contains(mkStr("Wheel-Version")) && !val {
					// not (supported < version)
					n, okn := l.intv()
					sm := majorOf(l)
					if okn && n <= 1 || sm != nil && sm.contains(mkStr("1.0")) && !sm.contains(mkStr("Wheel-Version")) {
						st.SetMark("gate", tTrue)
					}
				} else if m := majorOf(l); m != nil && m.contains(mkStr("Wheel-Version")) && val && okn && n <= 2 {
					st.SetMark("gate", tTrue)
				}
			}
			if cond.isCall("strings.HasPrefix") || cond.isCall("bytes.HasPrefix") || cond.isCall("bytes.Equal") || cond.Op == "bin" && cond.Aux == "==" {
				a := stripStr(cond.Args[0])
				b, _ := stripStr(cond.Args[1]).str()
				if cond.Op == "bin" && b == "" {
					a = stripStr(cond.Args[1])
					b, _ = stripStr(cond.Args[0]).str()
				}
				if b != "" && a.contains0("FileReference).Open") {
					switch {
					case b == "#!python" && cond.Op != "bin" && !cond.isCall("bytes.Equal"):
						markIn(st, fr, "s.py", mkBool(val))
						st.SetMark("s.file", openedFile(a))
					case b == "#!pythonw":
						markIn(st, fr, "s.w", mkBool(val))
						if n := limitOf(a); n < 9 {
							c.fail(e, st, "C18.rewrite", in, "only %d bytes are looked at, which cannot tell #!python from #!pythonw", n)
						}
					}
				}
			}
			// what is known of the entry being unpacked
			if cond.isCall("strings.HasSuffix") && cond.Args[1] == mkStr("/") && zipName(cond.Args[0]) != nil {
				st.SetMark("u.dir", mkBool(val))
			}
			if cond.Op == "bin" && cond.Aux == "==" {
				for i := 0; i < 2; i++ {
					x, k := cond.Args[i], cond.Args[1-i]
					if x.Op == "bin" && x.Aux == "&" && x.contains0x("ExternalAttrs") {
						m, okm := maskOver16(x)
						n, okn := k.intv()
						if okm && okn {
							switch {
							case m == 0xf000 && n == 0x8000:
								st.SetMark("u.reg", mkBool(val))
							case m == 0o111 && n == 0:
								st.SetMark("u.x", mkBool(!val))
							}
						}
					}
				}
			}
			if cond.isCall("(time.Time).IsZero") && cond.Args[0] == minTime {
				st.SetMark("min0", mkBool(val))
			}
			if cond.Op == "bin" && cond.Aux == "==" && val {
				for i := 0; i < 2; i++ {
					if cond.Args[i] == mkStr(".") && dirVar(e, cond.Args[1-i]) {
						// that there is nothing above y is the end only once y itself is there
						if x := cond.Args[1-i]; x.isCall("path.Dir") && dirVar(e, x.Args[0]) && st.Mark("d.k") != x.Args[0] && st.Mark("d.exists") != x.Args[0] && !c.madeBefore(e, x.Args[0]) {
							continue
						}
						markIn(st, fr, "d.done", tTrue)
					}
				}
			}
			if cond.Op == "lookupok" && isFileRefMap(cond.Args[0].T) && val && dirVar(e, cond.Args[1]) {
				markIn(st, fr, "d.exists", cond.Args[1])
			}
			// lengths
			cond.any(func(x *Term) bool {
				if x.Op == "call" && x.Aux == "len" {
					if one := st.decide(mkEq(x, mkInt(1))) == yes || boundsAre(st, x, 1); one {
						st.SetMark("one", x.Args[0])
					}
					if r := splitOf(x.Args[0]); r != nil {
						b := st.bounds(x)
						st.SetMark("norest", mkBool(b.hasHi && b.hi <= 1))
						st.SetMark("norest.rel", r)
					}
				}
				return false
			})
		}
		checkRoot := func(st *State, root *Term) string {
			p := st.Mark("pure")
			want := "PlatLib"
			if p == tTrue {
				want = "PureLib"
			}
			switch got := schemeDir(root); {
			case p == nil:
				return "the wheel is unpacked without Root-Is-Purelib having been consulted"
			case got != want:
				return "the root of the wheel goes to " + got + " although Root-Is-Purelib says " + want
			}
			return ""
		}
		e.hooks.MapUpdate = func(e *Eng, st *State, fr *frame, m, k, v *Term, in ssa.Instruction) {
			if !isFileRefMap(m.T) {
				if x := splitPart(st, k, "/", 0); x != nil && zipName(x) != nil {
					markIn(st, fr, "i.dir", k)
				}
				if mt, ok := m.T.Underlying().(*types.Map); ok && isStringType(mt.Elem()) && st.Marked("key") && inLoop(st, fr, "key") && destDir(k) != "" {
					s, isStr := v.str()
					markIn(st, fr, "t.set", k)
					if !(splitPart(st, v, "/", 0) == st.Mark("key.rel") || isStr && mkStr(s) == st.Mark("key")) {
						c.fail(e, st, "C18.which", in, "the kind recorded for a moved file is not the name of its directory")
					}
				} else if ok && destDir(k) != "" && inLoop(st, fr, "key") {
					if c.setKeys == nil {
						c.setKeys = map[*Term]map[string]bool{}
					}
					if c.setKeys[m] == nil {
						c.setKeys[m] = map[string]bool{}
					}
					c.setKeys[m][destDir(k)] = true
					markIn(st, fr, "t.set", k)
				}
				return
			}
			switch {
			case v.Op == "lookup" || v.Op == "rangeval":
				markIn(st, fr, "m.k", k)
				st.SetMark("m.old", v.Args[1])
				st.SetMark("m.v", v)
				for _, r := range recordFiles {
					st.ClearMark("del." + r)
				}
				return
			case v.Op == "idx":
				if s, _ := v.Args[0].siteOf(); s != nil && s.siteName() == "dyncall" {
					if k.Op == "call" && k.siteName() == "("+modPath+"/pkg/fsutil.FileReference).FullName" && k.Args[0] == v {
						markIn(st, fr, "p.k", k)
					} else {
						c.fail(e, st, "C14.compiled", in, "a compiled file is put under %v, which is not its name", k)
					}
				}
				return
			}
			if full, _, h, ok := inMem(st, v); ok && h != nil && full != nil && st.Marked("p.called") {
				if st.decide(mkEq(hdr(st, h, "Typeflag"), mkInt('5'))) == yes {
					markIn(st, fr, "d.k", k)
					st.SetMark("d.v", v)
					st.SetMark("d.any", tTrue)
					return
				}
			}
			for _, o := range e.method(st, v, "Open") {
				if el := zipFileOf(o); el != nil {
					markIn(st, fr, "u.k", k)
					st.SetMark("u.v", v)
					st.SetMark("u.el", el)
					for _, r := range recordFiles {
						st.ClearMark("del." + r)
					}
					if st.Marked("gate") {
						c.ok(e, "C14.version", in, "")
					} else {
						c.fail(e, st, "C14.version", in, "the wheel is unpacked without its Wheel-Version having been found to have a supported major number")
					}
					return
				}
			}
			if rec := e.methodAll(st, v, "Record"); len(rec) > 0 {
				markIn(st, fr, "s.k", k)
				st.SetMark("s.v", v)
				return
			}
		}
		e.hooks.Store = func(e *Eng, st *State, fr *frame, addr, v *Term, in ssa.Instruction) {
			if isStringType(v.T) && addr.Op == "fa" && addr.Aux == "Name" && addr.any(func(x *Term) bool { return x.Op == "lookup" || x.Op == "rangeval" }) {
				st.SetMark("m.name", v)
			}
		}
		e.hooks.MapDelete = func(e *Eng, st *State, fr *frame, m, k *Term, in ssa.Instruction) {
			if !isFileRefMap(m.T) {
				return
			}
			if isDataDir(k) {
				c.ok(e, "C14.deleted", in, "data directory")
				return
			}
			for _, r := range recordFiles {
				if k.isCall("path.Join") && (isJoinOf(k, r)) && checkRoot(st, k) == "" && len(k.Args) == 3 {
					st.SetMark("del."+r, tTrue)
					c.ok(e, "C14.deleted", in, r)
					return
				}
			}
			if k.Op == "idx" || k.Op == "rangekey" {
				markIn(st, fr, "m.del", k)
				return
			}
			c.fail(e, st, "C14.deleted", in, "%v is left out of the installation", k)
		}
		recordsGone := func(e *Eng, st *State, in ssa.Instruction) {
			for _, r := range recordFiles {
				if !st.Marked("del." + r) {
					c.fail(e, st, "C14.deleted", in, "%s of the wheel may be installed", r)
					return
				}
			}
			c.ok(e, "C14.deleted", in, "gone before use")
		}
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			switch {
			case ev.Name == "dyncall" && len(ev.Args) == 4 && isFileRefMap(ev.Args[2].T): // the hook
				if !st.Marked("p.called") {
					c.fail(e, st, "C14.order", ev.Instr, "the hook is called before the sources are compiled")
				}
				recordsGone(e, st, ev.Instr)
				if st.Marked("d.any") {
					c.fail(e, st, "C16.dirs", ev.Instr, "the parent directories are made before the hook, which may add files")
				}
				d := ev.Args[3]
				if !d.isCall("path.Join") || len(d.Args) != 2 {
					c.fail(e, st, "C14.info", ev.Instr, "the hook is told of %v, which is not a directory in the root", d)
					return
				}
				if why := checkRoot(st, d.Args[0]); why != "" {
					c.fail(e, st, "C14.info", ev.Instr, "%s", why)
				}
				if one := st.Mark("one"); d.Args[1].Op != "rangekey" && d.Args[1].Op != "idx" || one == nil || len(d.Args[1].Args) == 0 || d.Args[1].Args[0] != one {
					c.fail(e, st, "C14.info", ev.Instr, "the dist-info directory may not be the only one")
				}
				c.ok(e, "C14.info", ev.Instr, "")
			case ev.Name == "dyncall" && len(ev.Args) == 4 && isFileRefSlice(ev.Args[3].T): // the compiler
				st.SetMark("p.called", tTrue)
				c.ok(e, "C34.srcs", ev.Instr, "")
				if e.reach(ev.Args[3], func(x *Term) bool { return x.Op == "append" || x.Op == "list" }) {
					st.SetMark("p.srcs", ev.Args[3])
				}
				pp, ok := e.elems(st, ev.Args[2])
				if !ok || len(pp) != 2 || schemeDir(pp[0]) == "" || schemeDir(pp[1]) == "" || schemeDir(pp[0]) == schemeDir(pp[1]) || !libDir(pp[0]) || !libDir(pp[1]) {
					c.fail(e, st, "C34.path", ev.Instr, "the compiler is given %v as the search path, not purelib and platlib", ev.Args[2])
				} else {
					c.ok(e, "C34.path", ev.Instr, "")
				}
			case ev.Name == nLayerRefs:
				recordsGone(e, st, ev.Instr)
				raw := e.reach(ev.Args[0], func(x *Term) bool {
					if x.Op != "list" && x.Op != "append" {
						return false
					}
					for _, a := range x.Args {
						if a.Op == "rangeval" || a.Op == "lookup" {
							return true
						}
					}
					return false
				})
				if raw {
					c.fail(e, st, "C15.owner", ev.Instr, "a file is put in the layer without its owner having been set")
				}
			case ev.Name == "append":
				el := ev.Args[1]
				xs, ok := e.elems(st, el)
				if !ok {
					return
				}
				for _, x := range xs {
					c.ownerOK(e, st, ev, x, platV)
					if x.Op == "rangeval" && isFileRefMap(x.Args[0].T) {
						markIn(st, ev.Frame, "p.src", x)
					}
					if x.Op == "rangekey" && isFileRefMap(x.Args[0].T) {
						markIn(st, ev.Frame, "m.list", x)
					}
				}
			}
		}
		e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
			// what is noted of moved files
			if inLoop(st, fr, "key") && st.Mark("key") == mkStr("scripts") {
				if inLoop(st, fr, "t.set") {
					c.iterOK(e, "C18.which", fr, header)
				} else {
					c.iterBad(e, st, "C18.which", fr, header, "a script may not be noted as one")
				}
			}
			clearIn(st, "t.set")
			// unpacking
			if inLoop(st, fr, "u.k") {
				k, v, el := st.Mark("u.k"), st.Mark("u.v"), st.Mark("u.el")
				name := zipHdr(el, "Name")
				why := ""
				if !(k.isCall("path.Join") && len(k.Args) == 2 && k.Args[1] == name) {
					why = "an entry of the wheel is unpacked to " + k.String() + ", which is not its own name in the root"
				} else if why = checkRoot(st, k.Args[0]); why == "" {
					for _, f := range e.method(st, v, "FullName") {
						if f != k && !(f.isCall("path.Clean") && (f.Args[0] == k || f.Args[0] == mkConcat(types.Typ[types.String], k, mkStr("/")))) {
							why = "an unpacked file is installed as " + f.String() + " although it is known as " + k.String()
						}
					}
				}
				if why != "" {
					c.iterBad(e, st, "C14.unpack", fr, header, why)
				}
				if c.Prop == "C13" {
					if !c.namesChecked && !st.Marked("local:"+name.key) {
						c.iterBad(e, st, "C13.names", fr, header, "an entry is unpacked although its name may lead out of the directory")
					}
					c.iterOK(e, "C13.names", fr, header)
					if k.isCall("path.Join") {
						if why := rooted(st, k.Args[0]); why != "" {
							c.iterBad(e, st, "C13.scheme", fr, header, "the directory that an entry is unpacked in, "+k.Args[0].String()+", "+why)
						}
						c.iterOK(e, "C13.scheme", fr, header)
					}
				}
				c.iterOK(e, "C14.unpack", fr, header)
				c.checkAttrs(e, st, fr, header, v, el, zfh, zipHdr, minTime)
				clearIn(st, "u.k")
				st.ClearMark("u.v")
				st.ClearMark("u.el")
			} else {
				c.iterBad(e, st, "C14.unpack", fr, header, "an entry of the wheel may not be unpacked")
			}
			// dist-info directories
			if inLoop(st, fr, "i.dir") {
				clearIn(st, "i.dir")
				c.iterOK(e, "C14.dirs", fr, header)
			} else if !hasFact(st, false, func(f *Term) bool {
				if !f.isCall("strings.HasSuffix") || f.Args[1] != mkStr(".dist-info") {
					return false
				}
				x := splitPart(st, f.Args[0], "/", 0)
				return x != nil && zipName(x) != nil
			}) {
				c.iterBad(e, st, "C14.dirs", fr, header, "a dist-info directory may go unnoticed")
			}
			// spreading
			notData := hasFact(st, false, func(f *Term) bool {
				return f.isCall("strings.HasPrefix") && f.Args[1].Op == "concat" && len(f.Args[1].Args) >= 2 && f.Args[1].Args[len(f.Args[1].Args)-1] == mkStr("/") &&
					isDataDir(mkConcat(types.Typ[types.String], f.Args[1].Args[:len(f.Args[1].Args)-1]...))
			})
			if inLoop(st, fr, "m.k") {
				if k := st.Mark("m.k"); c.Prop == "C13" && k.isCall("path.Join") && k != st.Mark("m.old") {
					if why := rooted(st, k.Args[0]); why != "" {
						c.iterBad(e, st, "C13.scheme", fr, header, "the directory that a file is moved to, "+k.Args[0].String()+", "+why)
					}
					c.iterOK(e, "C13.scheme", fr, header)
				}
				if why := moveOK(st); why != "" {
					c.iterBad(e, st, "C14.spread", fr, header, why)
				}
				c.iterOK(e, "C14.spread", fr, header)
				clearIn(st, "m.k", "m.del", "key")
				for _, x := range []string{"m.old", "m.v", "m.name", "key.rel", "norest", "norest.rel"} {
					st.ClearMark(x)
				}
			} else {
				if inLoop(st, fr, "m.del") {
					c.iterBad(e, st, "C14.deleted", fr, header, "a file other than RECORD and its signatures is left out of the installation")
					c.iterOK(e, "C14.deleted", fr, header)
					clearIn(st, "m.del")
				}
				if !notData && !inLoop(st, fr, "m.list") {
					c.iterBad(e, st, "C14.spread", fr, header, "a file of the data directory may be left where it was unpacked")
				}
			}
			if inLoop(st, fr, "m.list") {
				c.iterOK(e, "C14.spread", fr, header)
				clearIn(st, "m.list")
			}
			// compiled files
			if inLoop(st, fr, "p.k") {
				c.iterOK(e, "C14.compiled", fr, header)
				clearIn(st, "p.k")
			} else {
				c.iterBad(e, st, "C14.compiled", fr, header, "a compiled file may be left out")
			}
			// sources
			if inLoop(st, fr, "p.src") {
				c.iterOK(e, "C34.srcs", fr, header)
				clearIn(st, "p.src")
			} else if !hasFact(st, false, func(f *Term) bool {
				return f.isCall("strings.HasSuffix") && f.Args[1] == mkStr(".py") || f.Op == "bin" && f.Aux == "==" && (f.Args[0] == mkStr(".py") || f.Args[1] == mkStr(".py"))
			}) {
				c.iterBad(e, st, "C34.srcs", fr, header, "a source file may not be compiled")
			}
			// owners
			if inLoop(st, fr, "o.ref") {
				c.iterOK(e, "C15.owner", fr, header)
				clearIn(st, "o.ref")
			} else {
				c.iterBad(e, st, "C15.owner", fr, header, "a file may be left out of the layer")
			}
			// scripts
			if inLoop(st, fr, "s.k") {
				why := c.scriptOK(e, st, platV, zfh)
				if why != "" {
					c.iterBad(e, st, "C18.rewrite", fr, header, why)
				}
				c.iterOK(e, "C18.rewrite", fr, header)
				clearIn(st, "s.k", "s.key", "s.py", "s.w")
			} else {
				if !(inLoop(st, fr, "s.key") && st.Mark("s.key") == tFalse || inLoop(st, fr, "s.py") && st.Mark("s.py") == tFalse) {
					c.iterBad(e, st, "C18.rewrite", fr, header, "a script may be passed over although it starts with #!python")
				}
				if inLoop(st, fr, "s.py") || inLoop(st, fr, "s.key") {
					clearIn(st, "s.key", "s.py", "s.w")
				}
			}
			// parent directories
			c.parentOK(e, st, fr, header)
		}
		e.hooks.LoopExit = func(e *Eng, st *State, fr *frame, header, from, to *ssa.BasicBlock) {
		}
	})
}

var recordFiles = []string{"RECORD", "RECORD.jws", "RECORD.p7s"}

func isFileRefSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(s.Elem(), modPath+"/pkg/fsutil", "FileReference")
}

func libDir(t *Term) bool { d := schemeDir(t); return d == "PureLib" || d == "PlatLib" }

// stripStr removes conversions between strings and byte slices.
func stripStr(t *Term) *Term {
	for t != nil && t.Op == "conv" && (isStringType(t.T) || isByteSlice(t.T)) {
		t = t.Args[0]
	}
	return t
}

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (t *Term) contains0x(field string) bool {
	return t.any(func(x *Term) bool { return x.Op == "fld" && x.Aux == field })
}

// maskOver16: the bits of the upper half of the attributes that x selects.
func maskOver16(x *Term) (int64, bool) {
	if x.Op == "bin" && x.Aux == "&" {
		for i := 0; i < 2; i++ {
			m, ok := x.Args[i].intv()
			if !ok {
				continue
			}
			y := stripConv(x.Args[1-i])
			if y.Op == "bin" && y.Aux == ">>" && y.Args[1] == mkInt(16) {
				return m, true
			}
			if y.Op == "fld" {
				return m >> 16, m&0xffff == 0
			}
		}
	}
	return 0, false
}

func boundsAre(st *State, x *Term, n int64) bool {
	b := st.bounds(x)
	return b.hasLo && b.hasHi && b.lo == n && b.hi == n
}

func openedFile(t *Term) *Term {
	var f *Term
	t.any(func(x *Term) bool {
		if strings.HasSuffix(x.siteName(), "FileReference).Open") {
			if s, _ := x.siteOf(); s != nil && len(s.Args) > 0 {
				f = s.Args[0]
				return true
			}
		}
		return false
	})
	return f
}

func limitOf(t *Term) int64 {
	n := int64(1 << 40)
	t.any(func(x *Term) bool {
		if x.isCall("io.LimitReader") || x.siteName() == "io.LimitReader" {
			if v, ok := mustSite(x).Args[1].intv(); ok && v < n {
				n = v
			}
		}
		return false
	})
	return n
}

// moveOK judges one move of a file of the data directory; the marks of the iteration are set.
func moveOK(st *State) string {
	k, old := st.Mark("m.k"), st.Mark("m.old")
	if k == old {
		return "" // copied, not moved
	}
	if !k.isCall("path.Join") {
		return "a file is moved to " + k.String()
	}
	dir := schemeDir(k.Args[0])
	key := st.Mark("key")
	rel := st.Mark("key.rel")
	if key == nil || rel == nil {
		return "a file is moved to " + dir + " whatever directory it was in"
	}
	ks, _ := key.str()
	if schemeKeys[ks] != dir {
		return "a file of " + ks + " goes to " + dir
	}
	o, d := relOf(rel)
	if o != old || d == nil || !isDataDir(d) {
		return "the directory that decides is not that of the file moved, below the data directory"
	}
	switch len(k.Args) {
	case 1:
		if !(st.Mark("norest") == tTrue && st.Mark("norest.rel") == rel) {
			return "a file of " + ks + " is moved onto the directory itself"
		}
	case 2:
		r := k.Args[1]
		ok := splitPart(st, r, "/", 1) == rel || r.isCall("strings.TrimPrefix") && r.Args[0] == rel && (r.Args[1] == mkStr(ks+"/") || r.Args[1] == mkStr(ks))
		if !ok {
			return "the name of a file of " + ks + " is changed when it is moved, to " + r.String()
		}
	default:
		return "a file is moved to " + k.String()
	}
	if st.Mark("m.del") != old {
		return "a file of the data directory stays where it was unpacked when it is moved"
	}
	if n := st.Mark("m.name"); n != nil && n != k && n != mkConcat(types.Typ[types.String], k, mkStr("/")) {
		return "a moved file is installed as " + n.String()
	} else if n == nil {
		return "a moved file keeps its old name"
	}
	return ""
}

func (e *Eng) methodAll(st *State, v *Term, name string, args ...*Term) [][]*Term {
	var out [][]*Term
	for _, x := range e.methodExits(st, v, name, args...) {
		out = append(out, x.res)
	}
	return out
}

func (e *Eng) methodExits(st *State, v *Term, name string, args ...*Term) []exit {
	x := unbox(v)
	if x == nil || x.T == nil || types.IsInterface(x.T) {
		return nil
	}
	ms := e.P.prog.MethodSets.MethodSet(x.T)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			if f := e.P.prog.MethodValue(ms.At(i)); f != nil && len(f.Blocks) > 0 {
				return e.applyExits(st, e.fnTerm(f), append([]*Term{x}, args...)...)
			}
		}
	}
	return nil
}

// ownerOK: x is one of the files handed to the layer; its owner is the platform's, all else is the file's own.
func (c *Ctx) ownerOK(e *Eng, st *State, ev *CallEvent, x, plat *Term) {
	sys := e.method(st, x, "Sys")
	if len(sys) != 1 {
		return
	}
	p := unbox(sys[0])
	if p.T == nil || !isTarHeader(pointee(p.T)) {
		return
	}
	src := headerSource(st, p)
	if src == nil {
		return
	}
	site, _ := src.siteOf()
	file := unbox(site.Args[0])
	if file.Op != "rangeval" && file.Op != "lookup" {
		return
	}
	markIn(st, ev.Frame, "o.ref", x)
	for f, pf := range map[string]string{"Uid": "UID", "Gid": "GID", "Uname": "UName", "Gname": "GName"} {
		if got, want := hdr(st, p, f), valField(plat, pf); got != want {
			c.fail(e, st, "C15.owner", ev.Instr, "%s of a file in the layer is %v, not the platform's %s", f, got, pf)
			return
		}
	}
	tt := pointee(p.T).Underlying().(*types.Struct)
	for i := 0; i < tt.NumFields(); i++ {
		switch f := tt.Field(i).Name(); f {
		case "Uid", "Gid", "Uname", "Gname":
		case "Name":
			if n := hdr(st, p, f); !strings.HasSuffix(n.siteName(), "FileReference).FullName") || n.Args[0] != file {
				c.fail(e, st, "C15.owner", ev.Instr, "a file is put in the layer as %v", n)
			}
		default:
			if hdr(st, p, f) != origHdr(src, f) {
				c.fail(e, st, "C15.owner", ev.Instr, "%s of a file is changed to %v on its way to the layer", f, hdr(st, p, f))
			}
		}
	}
	for _, o := range e.method(st, x, "Open") {
		if s, _ := unbox(o).siteOf(); s == nil || !strings.HasSuffix(s.siteName(), "FileReference).Open") || s.Args[0] != file {
			c.fail(e, st, "C15.owner", ev.Instr, "the content of a file is taken from %v", o)
		}
	}
	for _, o := range e.method(st, x, "FullName") {
		n := o
		if n.isCall("path.Clean") {
			n = n.Args[0]
		}
		if n.siteName() == "" || !strings.HasSuffix(n.siteName(), "FileReference).FullName") || n.Args[0] != file {
			c.fail(e, st, "C15.owner", ev.Instr, "a file is put in the layer as %v", o)
		}
	}
	c.ok(e, "C15.owner", ev.Instr, "")
}

// checkAttrs: permissions and time of an unpacked entry.
func (c *Ctx) checkAttrs(e *Eng, st *State, fr *frame, header *ssa.BasicBlock, v, el *Term, zfh types.Type, zipHdr func(*Term, string) *Term, minTime *Term) {
	h := zipHeaderOf(e, st, v)
	if h == nil {
		c.iterBad(e, st, "C15.mode", fr, header, "the attributes of an unpacked file cannot be told")
		return
	}
	dir, reg, x := st.Mark("u.dir"), st.Mark("u.reg"), st.Mark("u.x")
	attr := fieldOf(st, h, zfh, "ExternalAttrs")
	var want int64
	switch {
	case dir == tTrue:
		want = 0o040755
	case dir == nil:
		want = -1
	case reg == tTrue && x == tTrue:
		want = 0o100755
	case reg == tFalse || x == tFalse:
		want = 0o100644
	default:
		want = -1
	}
	n, ok := attr.intv()
	switch {
	case want < 0:
		c.iterBad(e, st, "C15.mode", fr, header, "permissions are given without it having been asked whether the entry is a directory (by its name) or a regular file that anyone may execute")
	case !ok || n>>16 != want:
		c.iterBad(e, st, "C15.mode", fr, header, fmt.Sprintf("an entry that should get mode %o gets attributes %v", want, attr))
	}
	if cv := fieldOf(st, h, zfh, "CreatorVersion"); cv == nil {
	} else if n, ok := cv.intv(); !ok || n>>8 != 3 {
		c.iterBad(e, st, "C15.mode", fr, header, "the mode given to an unpacked file is not marked as one of Unix")
	}
	mod := fieldOf(st, h, zfh, "Modified")
	switch m := st.Mark("min0"); {
	case m == tTrue && mod == zipHdr(el, "Modified"):
	case m == tFalse && mod == minTime:
	default:
		c.iterBad(e, st, "C15.time", fr, header, "an unpacked file gets the time "+mod.String())
	}
	for _, f := range []string{"UncompressedSize64"} {
		if fieldOf(st, h, zfh, f) != zipHdr(el, f) {
			c.iterBad(e, st, "C15.mode", fr, header, f+" of an unpacked file is changed")
		}
	}
	c.iterOK(e, "C15.mode", fr, header)
	c.iterOK(e, "C15.time", fr, header)
	st.ClearMark("u.dir")
	st.ClearMark("u.reg")
	st.ClearMark("u.x")
}

// scriptOK judges one rewritten script.
func (c *Ctx) scriptOK(e *Eng, st *State, plat *Term, zfh types.Type) string {
	k, v := st.Mark("s.k"), st.Mark("s.v")
	if st.Mark("s.py") != tTrue {
		return "a file is rewritten although it may not start with #!python"
	}
	file := st.Mark("s.file")
	if file == nil || len(file.Args) != 2 || file.Args[1] != k {
		return "the file rewritten is not the one whose first line was looked at"
	}
	if !(st.Mark("s.key") == tTrue && st.Mark("s.of") == k) {
		ok := false
		if k.Op == "idx" || k.Op == "rangekey" {
			n, bad := 0, false
			e.reach(k.Args[0], func(x *Term) bool {
				if x.isCall("path.Join") && schemeDir(x) != "" {
					n++
					bad = bad || schemeDir(x) != "Scripts"
				}
				return false
			})
			ok = n > 0 && !bad
			if ks := c.setKeys[k.Args[0]]; k.Op == "rangekey" && len(ks) == 1 && ks["Scripts"] {
				ok = true
			}
		}
		if !ok {
			return "a file is rewritten although it may not be a script"
		}
	}
	want, skip := "ConsoleShebang", int64(8)
	switch st.Mark("s.w") {
	case tTrue:
		want, skip = "GraphicalShebang", 9
	case nil:
		return "#!pythonw is not told from #!python"
	}
	// content
	opens := e.methodExits(st, v, "Open")
	good := false
	var sb *Term
	for _, x := range opens {
		o := x.res
		if o[0].isNil() {
			continue
		}
		var mr *Term
		o[0].any(func(x *Term) bool {
			if x.siteName() == "io.MultiReader" {
				mr = mustSite(x)
				return true
			}
			return false
		})
		if mr == nil {
			return "the content of a rewritten script cannot be told"
		}
		parts, ok := e.elems(x.st, mr.Args[0])
		if !ok || len(parts) != 2 {
			return "a rewritten script is not the new first line followed by the rest"
		}
		line := unbox(parts[0])
		line.any(func(x *Term) bool {
			if x.Op == "concat" {
				sb = x
			}
			return false
		})
		if sb == nil || len(sb.Args) != 2 || sb.Args[0] != mkStr("#!") {
			return "a rewritten script starts with " + line.String()
		}
		if why := shebangIs(st, sb.Args[1], plat, want); why != "" {
			return why
		}
		rest := unbox(parts[1])
		sk := intFields(x.st, rest)
		discarded := eqFact(x.st, func(a, b *Term) bool {
			s, i := a.siteOf()
			return b.isNil() && s != nil && i == 1 && (s.siteName() == "io.CopyN" && unbox(s.Args[1]) == rest && s.Args[2] == mkInt(skip) || s.siteName() == "(*bufio.Reader).Discard" && s.Args[0] == rest && s.Args[1] == mkInt(skip))
		})
		if len(sk) == 1 {
			c.skipper = rest.T
		}
		if (len(sk) != 1 || sk[0] != skip) && !discarded {
			return fmt.Sprintf("the rest of a rewritten script is not what follows its first %d bytes", skip)
		}
		good = true
	}
	if !good {
		return "the content of a rewritten script cannot be told"
	}
	// size and mode
	h := zipHeaderOf(e, st, v)
	if h == nil {
		return "the size of a rewritten script cannot be told"
	}
	leaf := func(x *Term) (int64, bool) {
		switch {
		case x.Op == "call" && x.Aux == "len" && x.Args[0] == sb.Args[1]:
			return 29, true
		case x == fieldOf(newState(), h, zfh, "UncompressedSize64"):
			return 1000, true
		case x == fieldOf(newState(), h, zfh, "ExternalAttrs"):
			return 0o100644 << 16, true
		case x.Op == "ld" || x.Op == "sym" || x.Op == "fld" || x.Op == "havoc":
			return 1000, x.T != nil && x.T.String() == "uint64"
		}
		return 0, false
	}
	if n, ok := evalInt(fieldOf(st, h, zfh, "UncompressedSize64"), leaf); !ok || n != 1000+2+29-skip {
		return "the size of a rewritten script is " + fieldOf(st, h, zfh, "UncompressedSize64").String()
	}
	at := fieldOf(st, h, zfh, "ExternalAttrs")
	leaf2 := func(x *Term) (int64, bool) {
		if x.T != nil && x.T.String() == "uint32" && x.Op != "bin" && x.Op != "conv" && !x.isConst() {
			return 0o100644 << 16, true
		}
		return 0, false
	}
	if n, ok := evalInt(at, leaf2); !ok || n != 0o100755<<16 {
		return "a rewritten script gets attributes " + at.String()
	}
	// RECORD
	for _, r := range e.methodAll(st, v, "Record") {
		hs, sz := r[0], r[1]
		if hs.Op != "concat" || hs.Args[0] != mkStr("sha256=") || !hs.contains0("base64.Encoding).EncodeToString") || !strings.Contains(hs.String(), "RawURLEncoding") || !hs.contains0("sha256.New") {
			return "the digest recorded for a rewritten script is " + hs.String()
		}
		if s, i := stripConv(sz).siteOf(); s == nil || i != 0 || s.siteName() != "io.Copy" || !origContent(s.Args[1]) || unbox(s.Args[0]).siteName() != "crypto/sha256.New" || !hs.contains(unbox(s.Args[0])) {
			return "the size recorded for a rewritten script is " + sz.String()
		}
	}
	return ""
}

// origContent: the reader is what the script's own open function gave before the rewriting.
func origContent(r *Term) bool {
	s, i := unbox(r).siteOf()
	return s != nil && i == 0 && (s.siteName() == "dyncall" || s.siteName() == "(*archive/zip.File).Open" || strings.HasSuffix(s.siteName(), "FileReference).Open"))
}

func shebangIs(st *State, t, plat *Term, want string) string {
	seen := ""
	t.any(func(x *Term) bool {
		if x.Op == "fld" && strings.HasSuffix(x.Aux, "Shebang") {
			seen = x.Aux
		}
		return false
	})
	own := valField(plat, want)
	other := valField(plat, map[string]string{"ConsoleShebang": "GraphicalShebang", "GraphicalShebang": "ConsoleShebang"}[want])
	switch {
	case t == own:
		return ""
	case t == other && (st.decide(mkEq(own, tEmpty)) != no):
		return "" // Init: the other one is used when this one is not given
	}
	return "a script gets " + seen + " where " + want + " is due"
}

// intFields: the constant integer fields of the struct that p points to.
func intFields(st *State, p *Term) []int64 {
	t := pointee(p.T)
	if t == nil {
		return nil
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []int64
	for i := 0; i < s.NumFields(); i++ {
		if b := basicOf(s.Field(i).Type()); b != nil && b.Info()&types.IsInteger != 0 {
			if n, ok := fieldOf(st, p, t, s.Field(i).Name()).intv(); ok {
				out = append(out, n)
			}
		}
	}
	return out
}

// majorOf: the version that x is the major number of.
func majorOf(x *Term) *Term {
	x = stripConv(x)
	if strings.HasSuffix(x.siteName(), "Version).Major") {
		return x.Args[0]
	}
	return nil
}

// dirVar: x is an ancestor directory of a name in the file system: Dir(name), Dir(Dir(name)), ...
func dirVar(e *Eng, x *Term) bool {
	return dirVar1(e, x, map[*Term]bool{})
}

func dirVar1(e *Eng, x *Term, seen map[*Term]bool) bool {
	if seen[x] {
		return true
	}
	seen[x] = true
	if x.isCall("path.Dir") {
		a := x.Args[0]
		return nameVar(e, a, seen) || dirVar1(e, a, seen)
	}
	if x.Op != "sym" || len(e.inflow[x]) == 0 {
		return false
	}
	for in := range e.inflow[x] {
		if !dirVar1(e, in, seen) {
			return false
		}
	}
	return true
}

// nameVar: x is a name in the file system, or a variable that starts as one and goes on to be an ancestor of it.
func nameVar(e *Eng, x *Term, seen map[*Term]bool) bool {
	if x.Op == "rangekey" && isFileRefMap(x.Args[0].T) || x.Op == "idx" {
		return true
	}
	if x.Op != "sym" || len(e.inflow[x]) == 0 {
		return false
	}
	for in := range e.inflow[x] {
		if !nameVar(e, in, seen) && !dirVar1(e, in, seen) {
			return false
		}
	}
	return true
}

// madeBefore: the values of the variable x are names of files, or directories that are there.
func (c *Ctx) madeBefore(e *Eng, x *Term) bool {
	if x.Op != "sym" || len(e.inflow[x]) == 0 {
		return false
	}
	for in := range e.inflow[x] {
		if !c.made[in] && !(in.Op == "rangekey" || in.Op == "idx") {
			return false
		}
	}
	return true
}

// parentOK: parent directories are made for every file.
func (c *Ctx) parentOK(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
	switch {
	case inLoop(st, fr, "d.done"): // the loop over the files
		c.iterOK(e, "C16.parents", fr, header)
		clearIn(st, "d.done", "d.k", "d.exists")
	case inLoop(st, fr, "d.k"):
		if why := c.dirOK(e, st); why != "" {
			c.iterBad(e, st, "C16.dirs", fr, header, why)
		}
		c.iterOK(e, "C16.dirs", fr, header)
		c.setMade(st.Mark("d.k"))
		clearIn(st, "d.k", "d.exists")
	case inLoop(st, fr, "d.exists"):
		c.setMade(st.Mark("d.exists"))
		clearIn(st, "d.exists")
	default:
		c.iterBad(e, st, "C16.parents", fr, header, "a file may go without its parent directories")
		c.iterBad(e, st, "C16.dirs", fr, header, "a missing parent directory may not be made")
	}
}

func (c *Ctx) setMade(x *Term) {
	if c.made == nil {
		c.made = map[*Term]bool{}
	}
	c.made[x] = true
}

func (c *Ctx) dirOK(e *Eng, st *State) string {
	k, v := st.Mark("d.k"), st.Mark("d.v")
	if !dirVar(e, k) {
		return "the directory made, " + k.String() + ", is not an ancestor of a file"
	}
	full, _, h, _ := inMem(st, v)
	if full != k {
		return "a directory is made as " + full.String() + " although it is known as " + k.String()
	}
	if n, ok := hdr(st, h, "Mode").intv(); !ok || n&0o7777 != 0o755 {
		return "a directory is made with mode " + hdr(st, h, "Mode").String()
	}
	return ""
}

// skipperOK: the reader that leaves out the first bytes of another does so.
func (c *Ctx) skipperOK(t types.Type) {
	const R = "C18.rest"
	sel := c.P.prog.MethodSets.MethodSet(t).Lookup(nil, "Read")
	if sel == nil {
		return
	}
	f := c.P.prog.MethodValue(sel)
	s, ok := pointee(t).Underlying().(*types.Struct)
	if f == nil || !ok {
		return
	}
	field := ""
	for i := 0; i < s.NumFields(); i++ {
		if b := basicOf(s.Field(i).Type()); b != nil && b.Info()&types.IsInteger != 0 {
			field = s.Field(i).Name()
		}
	}
	recv := symParam(f.Params[0])
	skip0 := fieldOf(newState(), recv, pointee(t), field)
	c.run(R, f, nil, func(e *Eng, st *State) {
		e.hooks.Post = func(e *Eng, st *State, ev *CallEvent) {
			if ev.Name == "io.ReadFull" {
				l := e.lenOf(st, ev.Args[1])
				if stripConv(l) == stripConv(skip0) {
					st.SetMark("full", ev.Res)
				}
			}
			if ev.Name == "io.CopyN" && stripConv(ev.Args[2]) == stripConv(skip0) {
				st.SetMark("full", ev.Res)
			}
		}
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			if ev.Name != "(io.Reader).Read" {
				return
			}
			full := st.Mark("full")
			now := fieldOf(st, recv, pointee(t), field)
			switch {
			case st.decide(mkLt(tZero, skip0)) == no:
				c.ok(e, R, ev.Instr, "nothing to skip")
			case full != nil && errOf(st, full) == yes && st.decide(mkLt(tZero, now)) != yes && now != skip0:
				c.ok(e, R, ev.Instr, "skipped")
			default:
				c.fail(e, st, R, ev.Instr, "bytes may be handed on although not all that were to be skipped were")
			}
		}
	})
}

func init() {
	propRules["C14"] = func(c *Ctx) {
		c.rule("C14.version", "the wheel is unpacked only once the major number of its Wheel-Version was found not to exceed the supported one", 1)
		c.rule("C14.unpack", "every entry of the wheel is unpacked as its own name below purelib (Root-Is-Purelib: true) or platlib (otherwise), and installed under that name", 1)
		c.rule("C14.spread", "every file of NAME.data/KEY goes to the same name below the directory that the platform has for KEY, and no longer exists where it was unpacked", 1)
		c.rule("C14.deleted", "RECORD, its signatures and the entry of the data directory are dropped before anything uses the result, and nothing else is", 2)
		c.rule("C14.dirs", "every top-level directory of the wheel ending in .dist-info is noticed", 1)
		c.rule("C14.info", "the hooks are given the only dist-info directory, in the root", 1)
		c.rule("C14.compiled", "every file the compiler returns is installed under its own name", 1)
		c.rule("C14.order", "hooks run after compilation", 0)
		installRules(c)
	}
	propRules["C15"] = func(c *Ctx) {
		c.rule("C15.owner", "every installed file, directory, generated or compiled file is put in the layer with the platform's uid, gid and names; its name, content and other attributes stay its own", 2)
		c.rule("C15.mode", "unpacked directories get mode 0755, regular files with any execute bit 0755, all else 0644", 1)
		c.rule("C15.time", "unpacked files get the requested time, or keep their own if there is none", 1)
		installRules(c)
	}
	propRules["C18"] = func(c *Ctx) {
		c.rule("C18.which", "scripts are the files moved from NAME.data/scripts", 0)
		c.rule("C18.rewrite", "exactly the scripts that start with #!python get a new first line", 1)
		c.rule("C18.rest", "the rest of a rewritten script is what followed #!python", 0)
		installRules(c)
		if c.skipper != nil {
			c.skipperOK(c.skipper)
		}
	}
	propRules["C16"] = func(c *Ctx) {
		c.rule("C16.parents", "for every installed file all ancestor directories are gone through", 1)
		c.rule("C16.dirs", "every ancestor directory that does not exist is made, after the hooks, under its own name and with mode 0755", 1)
		installRules(c)
		ruleLayerRefs(c)
	}
}

// ruleLayerRefs: LayerFromFileReferences writes every file once, in order, whole.
func ruleLayerRefs(c *Ctx) {
	const R = "C16.entry"
	c.rule(R, "every file given is written exactly once: header from the file, under its full name, followed by its content if it is a regular file", 1)
	c.rule("C16.sorted", "the files are in ascending order of their full name before the first is written", 1)
	c.rule("C16.errors", "no error is swallowed and the archive is closed before it is served", 1)
	fn := c.P.fn("pkg/fsutil", "LayerFromFileReferences")
	if fn == nil {
		c.missing(R, "fsutil.LayerFromFileReferences")
		return
	}
	pv := paramOfType(fn, isFileRefSlice)
	if pv == nil {
		c.missing(R, "the files of fsutil.LayerFromFileReferences")
		return
	}
	vfs := symParam(pv)
	tagT := mkInt('0')
	exits := c.run(R, fn, nil, func(e *Eng, st *State) {
		e.mergeAt = 3000
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			switch ev.Name {
			case "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "slices.SortFunc", "slices.SortStableFunc":
				c.sortOK(e, st, ev, vfs)
				st.SetMark("sorted", tTrue)
			case nWriteHeader:
				if st.Marked("w.hdr") && inLoop(st, ev.Frame, "w.hdr") {
					c.fail(e, st, R, ev.Instr, "a file is written twice")
				}
				h := ev.Args[1]
				src := headerSource(st, h)
				if src == nil {
					c.fail(e, st, R, ev.Instr, "the header of an entry is not made from a file")
					return
				}
				site, _ := src.siteOf()
				file := unbox(site.Args[0])
				if file.Op != "idx" {
					c.fail(e, st, R, ev.Instr, "an entry is made from %v, which is none of the files given", file)
					return
				}
				if !st.Marked("sorted") {
					c.fail(e, st, "C16.sorted", ev.Instr, "the files are written in the order in which they come")
				}
				if n := hdr(st, h, "Name"); !strings.HasSuffix(n.siteName(), "FileReference).FullName") || n.Args[0] != file {
					c.fail(e, st, R, ev.Instr, "a file is written as %v", n)
				}
				for _, f := range []string{"Typeflag", "Linkname", "Size", "Mode", "Uid", "Gid", "Uname", "Gname", "Devmajor", "Devminor", "PAXRecords", "Xattrs"} {
					if hdr(st, h, f) != origHdr(src, f) {
						c.fail(e, st, R, ev.Instr, "%s of a file is written as %v", f, hdr(st, h, f))
					}
				}
				markIn(st, ev.Frame, "w.hdr", file)
				st.SetMark("w.type", hdr(st, h, "Typeflag"))
			case "io.Copy":
				if f := openedFile(ev.Args[1]); f != nil && f == st.Mark("w.hdr") && unbox(ev.Args[1]).Op == "ext" {
					st.SetMark("w.copying", tTrue)
				}
			}
		}
		e.hooks.Post = func(e *Eng, st *State, ev *CallEvent) {
			switch ev.Name {
			case "io.Copy":
				if st.Marked("w.copying") {
					markIn(st, ev.Frame, "w.body", ev.Res)
					st.ClearMark("w.copying")
				}
			case nWriteHeader:
				st.SetMark("w.res", ev.Res)
			case "(*archive/tar.Writer).Close":
				st.SetMark("closed", ev.Res)
			}
		}
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			if t := st.Mark("w.type"); t != nil {
				if d := st.decide(mkEq(t, tagT)); d != unknown {
					st.SetMark("w.reg", mkBool(d == yes))
				}
			}
			if r := st.Mark("w.res"); r != nil && errState(st, r) == yes {
				st.SetMark("w.ok", tTrue)
			}
		}
		e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
			if !inLoop(st, fr, "w.hdr") {
				c.iterBad(e, st, R, fr, header, "a file may be left out")
				return
			}
			body := st.Mark("w.body")
			switch reg := st.Mark("w.reg"); {
			case errState(st, st.Mark("w.res")) != yes && !st.Marked("w.ok"):
				c.iterBad(e, st, R, fr, header, "the archive is continued although writing a header may have failed")
			case reg == nil && body == nil:
				c.iterBad(e, st, R, fr, header, "a regular file may be written without its content")
			case reg == tTrue && body == nil:
				c.iterBad(e, st, R, fr, header, "a regular file is written without its content")
			case body != nil && errOf(st, body) != yes:
				c.iterBad(e, st, R, fr, header, "the archive is continued although copying the content of a file may have failed")
			case body != nil && reg != tTrue:
				c.iterBad(e, st, R, fr, header, "content is written for what may not be a regular file")
			}
			c.iterOK(e, R, fr, header)
			clearIn(st, "w.hdr", "w.body")
			for _, k := range []string{"w.type", "w.reg", "w.res", "w.ok"} {
				st.ClearMark(k)
			}
		}
	})
	for _, x := range exits {
		if x.kind == exitRet && errState(x.st, lastRes(x)) != no {
			if len(x.res) == 2 && x.res[0].siteName() != "" && !strings.HasSuffix(x.res[0].siteName(), "LayerFromOpener") {
				continue
			}
			c.finishOK("C16.errors", fn, x, nil)
		}
	}
}

// sortOK: the comparison orders by full name, ascending.
func (c *Ctx) sortOK(e *Eng, st *State, ev *CallEvent, vfs *Term) {
	const R = "C16.sorted"
	if unbox(ev.Args[0]) != vfs && !ev.Args[0].contains(vfs) {
		return
	}
	var res []exit
	i, j := tt.mkT("sym", "sort:i", types.Typ[types.Int]), tt.mkT("sym", "sort:j", types.Typ[types.Int])
	e.applyHooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
		for cond.Op == "not" {
			cond, val = cond.Args[0], !val
		}
		if cond.Op == "bin" && cond.Aux == "<" && cond.contains0("FullName") {
			if cond.Args[0].contains(j) && cond.Args[1].contains(i) {
				st.SetMark("j<i", mkBool(val))
			} else if cond.Args[0].contains(i) && cond.Args[1].contains(j) {
				st.SetMark("i<j", mkBool(val))
			}
		}
	}
	defer func() { e.applyHooks = Hooks{} }()
	if len(ev.Args) == 2 {
		if strings.HasPrefix(ev.Name, "slices.") {
			el := vfs.T.Underlying().(*types.Slice).Elem()
			i, j = tt.mkT("sym", "sort:i", el), tt.mkT("sym", "sort:j", el)
		}
		res = e.applyExits(st, ev.Args[1], i, j)
	} else {
		res = e.methodExits(st, ev.Args[0], "Less", i, j)
	}
	if len(res) == 0 {
		c.fail(e, st, R, ev.Instr, "the order in which the files are sorted cannot be told")
		return
	}
	some := false
	for _, x := range res {
		r := x.res[0]
		less := x.st.Mark("i<j") == tTrue && x.st.Mark("j<i") != tTrue || x.st.Mark("i<j") == nil && x.st.Mark("j<i") == tFalse
		if r == tFalse && !less || r == tTrue && less {
			some = some || less
			continue
		}
		if r == tFalse && x.st.Mark("i<j") == nil {
			continue
		}
		if strings.HasPrefix(ev.Name, "slices.") && (r == tZero || r == mkInt(1) || r == mkInt(-1)) {
			some = true
			continue
		}
		a, b := r, r
		if r.Op == "bin" && r.Aux == "<" || r.isCall("strings.Compare") || r.isCall("cmp.Compare") {
			a, b = r.Args[0], r.Args[1]
		} else {
			c.fail(e, st, R, ev.Instr, "files are put in the order given by %v", r)
			return
		}
		if a.isCall("len") && a.Args[0].isCall("strings.Split") && b.isCall("len") && b.Args[0].isCall("strings.Split") {
			// of two paths one of which is a prefix of the other
			if a.contains(i) && b.contains(j) && !a.contains(j) && !b.contains(i) {
				continue
			}
		}
		for _, x := range []*Term{a, b} {
			for _, bad := range []string{"path.Base", "path.Dir", "FileInfo).Name", "FileInfo).Size", "FileInfo).ModTime", "strings.ToLower", "path.Ext", "len"} {
				if x.any(func(y *Term) bool {
					return y.siteName() == bad || strings.HasSuffix(y.siteName(), bad) && strings.Contains(bad, ")")
				}) {
					c.fail(e, st, R, ev.Instr, "files are ordered by %v, not by their full name", x)
					return
				}
			}
		}
		ai, aj, bi, bj := a.contains(i), a.contains(j), b.contains(i), b.contains(j)
		if ai && aj || bi && bj || aj || bi || !(a.contains0("FullName") || a == tEmpty) || !(b.contains0("FullName") || b == tEmpty) {
			c.fail(e, st, R, ev.Instr, "files are ordered by %v < %v, not by ascending full name", a, b)
			return
		}
		some = some || ai && bj
	}
	if some {
		c.ok(e, R, ev.Instr, "")
	} else {
		c.fail(e, st, R, ev.Instr, "the order in which the files are sorted does not depend on their full names")
	}
}
