package main

// The platform that a wheel is installed for is complete.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { propRules["C42"] = ruleC42 }

// platformOK: whether the platform (its fields as first given) has an interpreter for scripts and only absolute directories.
func platformOK(st *State, plat *Term, t types.Type) (ok tri, why string) {
	con, gui := fieldDeepT(plat, t, "ConsoleShebang"), fieldDeepT(plat, t, "GraphicalShebang")
	sch := fieldT(plat, t, "Scheme")
	if con == nil || gui == nil || sch == nil {
		return unknown, "fields"
	}
	ce, ge := st.decide(mkEq(con, tEmpty)), st.decide(mkEq(gui, tEmpty))
	ok = yes
	switch {
	case ce == yes && ge == yes:
		return no, "neither shebang is given"
	case ce != no && ge != no:
		ok, why = unknown, "neither shebang may be given"
	}
	for _, d := range schemeDirs {
		f := fieldDeepT(sch, sch.T, d)
		if f == nil {
			return unknown, "fields"
		}
		abs := st.decide(boolCall("path.IsAbs", f))
		if clean := mkCall("path.Clean", types.Typ[types.String], f); abs == unknown {
			abs = st.decide(boolCall("path.IsAbs", clean)) // cleaning a name does not change that
		}
		switch abs {
		case no:
			return no, "the directory " + d + " is not absolute"
		case unknown:
			if ok == yes {
				ok, why = unknown, "the directory "+d+" may not be absolute"
			}
		}
	}
	return ok, why
}

func ruleC42(c *Ctx) {
	c.rule("C42.init", "a platform is accepted exactly if it has a shebang and its directories are absolute; a missing shebang becomes the other one, and nothing else is changed", 2)
	c.rule("C42.install", "a wheel is installed only for a platform that is complete", 1)
	c.rule("C42.scripts", "scripts are made only for a platform that is complete", 1)
	c.platformInit(c.P.fn("pkg/python", "Platform.Init"))

	if fn := c.P.fn("pkg/python/pypa/bdist", "InstallWheel"); fn != nil {
		for _, x := range c.runInstall("C42.install", func(e *Eng, st *State) {}) {
			if x.kind != exitRet || len(x.res) == 0 || errState(x.st, x.res[len(x.res)-1]) == no {
				continue
			}
			plat, t := platformParam(x.st, fn)
			if plat == nil {
				c.missing("C42.install", "the platform that bdist.InstallWheel installs for")
				break
			}
			if ok, why := platformOK(x.st, plat, t); ok != yes {
				c.failAt("C42.install", x.pos, fn, "a wheel may be installed though "+why, x.st)
			} else {
				c.okAt("C42.install", "InstallWheel")
			}
		}
	} else {
		c.missing("C42.install", "bdist.InstallWheel")
	}

	if fn := c.P.fn("pkg/python/pypa/entry_points", "CreateScripts"); fn != nil {
		c.runHook("C42.scripts", fn, func(e *Eng, st *State, a hookArgs) {
			inner := e.opaqueFn
			e.opaqueFn = func(f *ssa.Function) bool { return inner(f) && !(pkgDir(f) == "pkg/python" && f.Name() == "Init") }
			plat, t := platformParam(st, fn)
			e.hooks.MapUpdate = func(e *Eng, st *State, fr *frame, m, k, v *Term, in ssa.Instruction) {
				if m != a.vfs {
					return
				}
				if plat == nil {
					c.fail(e, st, "C42.scripts", in, "the platform is not that of CreateScripts")
				} else if ok, why := platformOK(st, plat, t); ok != yes {
					c.fail(e, st, "C42.scripts", in, "a script may be made though "+why)
				} else {
					c.ok(e, "C42.scripts", in, "CreateScripts")
				}
			}
		})
	} else {
		c.missing("C42.scripts", "entry_points.CreateScripts")
	}
}

func platformParam(st *State, fn *ssa.Function) (*Term, types.Type) {
	for _, p := range fn.Params {
		if isNamed(p.Type(), modPath+"/pkg/python", "Platform") {
			v, t := symParam(p), p.Type()
			if u := pointee(t); u != nil {
				v, t = newState().load(v, u), u
			}
			return v, t
		}
	}
	return nil, nil
}

func (c *Ctx) platformInit(fn *ssa.Function) {
	const R = "C42.init"
	if fn == nil || pointee(fn.Params[0].Type()) == nil {
		c.missing(R, "python.Platform.Init")
		return
	}
	p, t := symParam(fn.Params[0]), pointee(fn.Params[0].Type())
	old := newState().load(p, t)
	str, ok := t.Underlying().(*types.Struct)
	if !ok {
		c.missing(R, "the fields of python.Platform")
		return
	}
	for _, x := range c.run(R, fn, nil, func(e *Eng, st *State) { e.mergeAt = 3000 }) {
		if x.kind != exitRet || len(x.res) != 1 {
			continue
		}
		bad := func(msg string) { c.failAt(R, x.pos, fn, msg, x.st) }
		ok, why := platformOK(x.st, old, t)
		if why == "fields" {
			c.missing(R, "the fields of python.Platform")
			return
		}
		switch errState(x.st, x.res[0]) {
		case no:
			if ok != no {
				bad("a platform that is complete may be refused")
			} else {
				c.okAt(R, "refused")
			}
			continue
		case unknown:
			bad("an error may be returned for no reason")
			continue
		}
		if ok != yes {
			bad("a platform may be accepted though " + why)
			continue
		}
		now := x.st.load(p, t)
		good := true
		for i := 0; i < str.NumFields(); i++ {
			f := str.Field(i)
			a, b := fieldT(old, t, f.Name()), fieldT(now, t, f.Name())
			other := map[string]string{"ConsoleShebang": "GraphicalShebang", "GraphicalShebang": "ConsoleShebang"}[f.Name()]
			if other == "" {
				if a != b && x.st.decide(mkEq(a, b)) != yes && !sameFields(x.st, a, b, f.Type()) {
					bad("the field " + f.Name() + " is changed")
					good = false
				}
				continue
			}
			want := a
			switch x.st.decide(mkEq(a, tEmpty)) {
			case yes:
				want = fieldT(old, t, other)
			case unknown:
				want = nil
			}
			if want == nil || b != want && x.st.decide(mkEq(b, want)) != yes {
				bad("the field " + f.Name() + " is not the one given or, without it, the " + other)
				good = false
			}
		}
		if good {
			c.okAt(R, "accepted")
		}
	}
}

func sameFields(st *State, a, b *Term, t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		x, y := fieldT(a, t, f.Name()), fieldT(b, t, f.Name())
		if x == nil || x != y && st.decide(mkEq(x, y)) != yes && !sameFields(st, x, y, f.Type()) {
			return false
		}
	}
	return true
}
