package main

// Looking at a Python: the file system of an image or of the host, and the interpreter itself.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const pyinspectPkg = "pkg/python/pyinspect"

func ruleC40(c *Ctx) {
	c.rule("C40.stat", "what is found at a path in an image is what all of its layers together have there, with that file's owner", 1)
	c.rule("C40.native", "what is found at a path on the host is that file, with its owner", 1)
	c.rule("C40.program", "a program is found only if it is a file that somebody may run", 2)
	c.rule("C40.lookup", "a name with a slash is a path; any other is looked for in PATH; relative to the working directory", 2)
	c.rule("C40.search", "the first directory of PATH that has the program wins", 1)
	c.rule("C40.error", "failure to find a program is an fs.PathError for it", 2)
	c.rule("C40.shebangs", "the console interpreter is the one without the w, the graphical one the one with it, where they exist", 2)
	c.rule("C40.answer", "what an interpreter is said to have answered is what it wrote, in full", 1)
	if f := c.P.fn(pyinspectPkg, "ImageFS.Stat"); f != nil {
		c.imageStat(f)
	} else {
		c.missing("C40.stat", "ImageFS.Stat")
	}
	if f := c.P.fn(pyinspectPkg, "ImageFS.LookPath"); f != nil {
		c.imageLookPath(f)
	} else {
		c.missing("C40.lookup", "ImageFS.LookPath")
	}
	if f := c.P.fn(pyinspectPkg, "NativeFS.Stat"); f != nil {
		c.nativeStat(f)
	} else {
		c.missing("C40.native", "NativeFS.Stat")
	}
	if f := c.P.fn(pyinspectPkg, "Shebangs"); f != nil {
		c.shebangs(f)
	} else {
		c.missing("C40.shebangs", "Shebangs")
	}
	if f := c.P.fn(pyinspectPkg, "Dynamic"); f != nil {
		c.pyAnswer(f)
	} else {
		c.missing("C40.answer", "Dynamic")
	}
}

func init() { propRules["C40"] = ruleC40 }

// cleanName: t is the name in an io/fs.FS of a path; the path is returned ("." means the root, for which any is given).
func cleanName(t *Term) (*Term, bool) {
	if t == mkStr(".") {
		return nil, true
	}
	var x *Term
	n, a := calleeOf(t)
	switch {
	case n == "strings.TrimPrefix" && len(a) == 2 && a[1] == mkStr("/"):
		x = a[0]
	case n == "strings.TrimLeft" && len(a) == 2 && a[1] == mkStr("/"):
		x = a[0]
	case (t.Op == "substr" || t.Op == "subslice") && t.Args[1] == mkInt(1):
		x = t.Args[0]
	default:
		return nil, false
	}
	switch n, a := calleeOf(x); n {
	case "path.Clean":
		return a[0], true
	case "path.Join":
		return x, true
	}
	return nil, false
}

// imageStatSite: t is what fs.Stat says of a name in the file system of the image.
func imageStatSite(st *State, t *Term, sys *Term) *Term {
	s := given(st, t, "fs.Stat")
	if s == nil || !imageFSOf(st, s.Args[0], sys) {
		return nil
	}
	return s
}

// imageState: the fields of an ImageFS that hold what was found out about the image, and whether all of what is
// stored there is right.
type imageState map[string]bool

var imageFields = imageState{}

// store notes what is put in a field of the ImageFS.
func (f imageState) store(st *State, sys, addr, v *Term) {
	if addr.Op != "fa" || addr.Args[0] != sys || v.T == nil {
		return
	}
	ok := true
	switch u := v.T.Underlying().(type) {
	case *types.Interface:
		if isErrType(v.T) {
			return
		}
		ok = imageFSOf(st, unbox(v), sys) || imageFSOf(st, v, sys) || v.isNil()
	case *types.Slice:
		ok = pathList(v)
	case *types.Basic:
		if u.Info()&types.IsString == 0 {
			return
		}
		ok = v == mkStr("/") || v.any(func(t *Term) bool { return (t.Op == "fld" || t.Op == "fa") && t.Aux == "WorkingDir" })
	}
	if old, has := f[addr.Aux]; has {
		ok = ok && old
	}
	f[addr.Aux] = ok
}

// field: t is the value of a field of the ImageFS that holds what was found out about the image.
func (f imageState) field(t, sys *Term) bool {
	for n, ok := range f {
		if ok && t.String() == "*"+sys.String()+"."+n {
			return true
		}
	}
	return false
}

// pathList: t is empty or what the colons of PATH separate.
func pathList(t *Term) bool {
	if t.isNil() || t.Op == "zero" || t.Op == "list" && len(t.Args) == 0 {
		return true
	}
	if n, a := calleeOf(t); n == "strings.Split" {
		return len(a) == 2 && a[1] == mkStr(":") && a[0].any(func(t *Term) bool { return (t.Op == "fld" || t.Op == "fa") && t.Aux == "Env" }) && pathVar(a[0])
	}
	return t.Op == "slice" || t.Op == "subslice" || t.Op == "new" || t.Op == "alloc"
}

// pathVar: the variable that is looked for in t is PATH.
func pathVar(t *Term) bool {
	found := false
	other := t.any(func(t *Term) bool {
		s, ok := t.str()
		if ok && (s == "PATH" || s == "PATH=") {
			found = true
			return false
		}
		return ok && strings.Contains(s, "PATH")
	})
	return found && !other
}

func isErrType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

func imageFSOf(st *State, t, sys *Term) bool {
	if imageFields.field(t, sys) && !st.Marked("ran") {
		if s, ok := pointee(sys.T).Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ { // having failed to find it out is an error, whenever it was
				if f := s.Field(i); isErrType(f.Type()) && st.decide(mkEq(fieldOf(st, sys, pointee(sys.T), f.Name()), tNil)) != yes {
					return false
				}
			}
		}
		return true
	}
	l := given(st, t, modPath+"/pkg/squash.Load")
	if l == nil {
		return false
	}
	ls := given(st, l.Args[0], ".Layers")
	return ls != nil && ls.Args[0] == fieldOf(st, sys, pointee(sys.T), "Image")
}

func (c *Ctx) imageStat(fn *ssa.Function) {
	const R = "C40.stat"
	args := symParams(fn)
	imageFields = imageState{}
	c.runThen(R, fn, args, func(e *Eng, st *State) {
		e.mergeAt = 3000
		e.hooks.Store = func(e *Eng, st *State, fr *frame, addr, v *Term, in ssa.Instruction) {
			imageFields.store(st, args[0], addr, v)
		}
		e.hooks.Model = func(e *Eng, st *State, ev *CallEvent) ([]callOut, bool) { // what is done once has been done or is now
			if ev.Name != "(*sync.Once).Do" || len(ev.Args) != 2 {
				return nil, false
			}
			f := st.resolve(ev.Args[1])
			if f.Op != "closure" && f.Op != "fn" {
				return nil, false
			}
			ran := st.clone()
			ran.SetMark("ran", tTrue)
			outs := []callOut{{st, tNil}}
			for _, o := range e.callTerm(ev.Frame, ran, &CallEvent{Instr: ev.Instr, Pos: ev.Pos, Frame: ev.Frame}, f, nil, f.Fn.Signature) {
				outs = append(outs, callOut{o.st, tNil})
			}
			return outs, true
		}
	}, func(e *Eng, exits []exit) []exit {
		for f, ok := range imageFields {
			if !ok {
				c.failAt(R, fn.Pos(), fn, "what is noted in "+f+" may not be what the image says", nil)
			}
		}
		for _, x := range exits {
			if x.kind != 0 || len(x.res) != 2 || errState(x.st, x.res[1]) == no {
				continue
			}
			bad := ""
			if x.st.decide(mkCall("strings.HasPrefix", types.Typ[types.Bool], args[1], mkStr("/"))) != yes {
				bad = "a path that is not absolute may be looked at"
			}
			info, owner := c.ownerOfInfo(e, x.st, x.res[0])
			s := (*Term)(nil)
			if info != nil {
				s = imageStatSite(x.st, info, args[0])
			}
			switch {
			case bad != "":
			case s == nil:
				bad = "what is returned may not be what the layers of the image have"
			default:
				p, ok := cleanName(s.Args[1])
				switch {
				case !ok || p != nil && p != args[1]:
					bad = "what is looked at may not be the path that is asked for: " + s.Args[1].show(4)
				case p == nil && x.st.decide(mkEq(mkCall("strings.TrimPrefix", types.Typ[types.String], mkCall("path.Clean", types.Typ[types.String], args[1]), mkStr("/")), mkStr(""))) == no:
					bad = "the root may be looked at instead of the path that is asked for"
				}
			}
			for m, f := range map[string]string{"UID": "Uid", "GID": "Gid", "UName": "Uname", "GName": "Gname"} {
				if t := owner[m]; bad == "" && !(t != nil && (t.Op == "fld" || t.Op == "fa") && t.Aux == f && isSysOf(t.Args[0], info)) {
					bad = m + " may not be that of the file"
				}
			}
			if bad != "" {
				c.failAt(R, x.pos, fn, bad, x.st)
			} else {
				c.okAt(R, "stat")
			}
		}
		return exits
	})
}

// isSysOf: t is the system-specific part of info.
func isSysOf(t, info *Term) bool {
	for t != nil && (t.Op == "deref" || t.Op == "as") {
		t = t.Args[0]
	}
	n, a := calleeOf(t)
	return strings.HasSuffix(n, ").Sys") && len(a) == 1 && a[0] == info
}

// ownerOfInfo: the io/fs.FileInfo that a FileInfo is about, and what its own methods return.
func (c *Ctx) ownerOfInfo(e *Eng, st *State, t *Term) (*Term, map[string]*Term) {
	owner := map[string]*Term{}
	for _, m := range []string{"UID", "GID", "UName", "GName"} {
		if r := e.method(st, t, m); len(r) == 1 {
			owner[m] = r[0]
		}
	}
	var info *Term
	for _, m := range []string{"Mode", "IsDir", "Size", "Name"} {
		r := e.method(st, t, m)
		if len(r) != 1 {
			return nil, owner
		}
		n, a := calleeOf(r[0])
		if !strings.HasSuffix(n, ")."+m) || len(a) != 1 || info != nil && info != a[0] {
			return nil, owner
		}
		info = a[0]
	}
	return info, owner
}

func (c *Ctx) nativeStat(fn *ssa.Function) {
	const R = "C40.native"
	args := symParams(fn)
	c.runThen(R, fn, args, nil, func(e *Eng, exits []exit) []exit {
		for _, x := range exits {
			if x.kind != 0 || len(x.res) != 2 || errState(x.st, x.res[1]) == no {
				continue
			}
			bad := ""
			info, owner := c.ownerOfInfo(e, x.st, x.res[0])
			s := (*Term)(nil)
			if info != nil {
				s = given(x.st, info, "os.Stat")
			}
			if s == nil || s.Args[0] != args[1] {
				bad = "what is returned may not be the file that is asked for"
			}
			if bad == "" && x.st.decide(mkCall("strings.HasPrefix", types.Typ[types.Bool], args[1], mkStr("/"))) != yes {
				bad = "a path that is not absolute may be looked at"
			}
			id := func(t *Term, f string) bool {
				for t != nil && (t.Op == "conv" || t.Op == "iface") {
					t = t.Args[0]
				}
				return t != nil && (t.Op == "fld" || t.Op == "fa") && t.Aux == f && isSysOf(t.Args[0], info)
			}
			for m, f := range map[string]string{"UID": "Uid", "GID": "Gid"} {
				if bad == "" && !id(owner[m], f) {
					bad = m + " may not be that of the file"
				}
			}
			for m, w := range map[string][2]string{"UName": {"Uid", "user.LookupId"}, "GName": {"Gid", "user.LookupGroupId"}} {
				if bad != "" {
					break
				}
				bad = m + " may not be that of the file's owner"
				t := owner[m]
				if t == nil || t.Op != "fld" && t.Op != "fa" {
					continue
				}
				p := t.Args[0]
				if p.Op == "deref" {
					p = p.Args[0]
				}
				if l := given(x.st, p, w[1]); l != nil {
					ok := l.Args[0].any(func(t *Term) bool { return id(t, w[0]) })
					if ok && (m == "UName" && t.Aux == "Username" || m == "GName" && t.Aux == "Name") {
						bad = ""
					}
				}
			}
			if bad != "" {
				c.failAt(R, x.pos, fn, bad, x.st)
			} else {
				c.okAt(R, "stat")
			}
		}
		return exits
	})
}

func (c *Ctx) imageLookPath(fn *ssa.Function) {
	args := symParams(fn)
	name := args[1]
	hasSlash := mkCall("strings.Contains", types.Typ[types.Bool], name, mkStr("/"))
	// statName: the name (as in marks) of the path that info is about
	statName := func(st *State, info *Term) string {
		s := imageStatSite(st, info, args[0])
		if s == nil {
			return ""
		}
		p, ok := cleanName(s.Args[1])
		switch {
		case !ok:
			return ""
		case p == nil:
			return "."
		}
		return p.String()
	}
	element := func(t *Term) bool { // an element of PATH
		if t.Op != "idx" && t.Op != "rangeval" && !(t.Op == "deref" && t.Args[0].Op == "ia") {
			return false
		}
		return true
	}
	progress := map[int64]bool{-1: true}
	isWD := func(t *Term) bool {
		return t == mkStr("/") || imageFields.field(t, args[0]) || strings.Contains(t.String(), "WorkingDir")
	}
	c.runThen("C40.lookup", fn, args, func(e *Eng, st *State) {
		e.mergeAt = 3000
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			n, a := calleeOf(cond)
			switch {
			case n == "(io/fs.FileMode).IsDir" || n == "(fs.FileMode).IsDir" || strings.HasSuffix(n, "FileMode).IsDir") || strings.HasSuffix(n, ").IsDir"):
				info := a[0]
				if m, b := calleeOf(info); strings.HasSuffix(m, ").Mode") {
					info = b[0]
				}
				if s := statName(st, info); s != "" {
					if val {
						markIn(st, fr, "bad", tTrue)
					} else {
						st.SetMark("file:"+s, tTrue)
					}
				}
			case cond.Op == "bin" && cond.Aux == "==" && cond.Args[1] == mkInt(0) && cond.Args[0].Op == "bin" && cond.Args[0].Aux == "&":
				m, b := calleeOf(cond.Args[0].Args[0])
				bits, _ := cond.Args[0].Args[1].intv()
				if !strings.HasSuffix(m, ").Mode") && !strings.HasSuffix(m, ").Perm") {
					return
				}
				info := b[0]
				if k, d := calleeOf(info); strings.HasSuffix(k, ").Mode") {
					info = d[0]
				}
				if s := statName(st, info); s != "" && bits == 0o111 {
					if val {
						markIn(st, fr, "bad", tTrue)
					} else {
						st.SetMark("exec:"+s, tTrue)
					}
				}
			case cond.Op == "bin" && cond.Aux == "==" && cond.Args[1].isNil() && !val:
				if s, i := cond.Args[0].siteOf(); s != nil && i == 1 && strings.HasSuffix(cond.Args[0].siteName(), "fs.Stat") && len(s.Args) == 2 {
					if p, ok := cleanName(s.Args[1]); ok && imageFSOf(st, s.Args[0], args[0]) && (p == nil || p != name) {
						markIn(st, fr, "bad", tTrue)
					}
				}
			case n == "strings.HasPrefix" && len(a) == 2 && a[1] == mkStr("/") && !val:
				if m, b := calleeOf(a[0]); m == "path.Join" && len(b) > 2 {
					markIn(st, fr, "looked", tTrue)
					markIn(st, fr, "bad", tTrue) // (a relative directory below a working directory that is not absolute)
				}
			}
		}
		e.hooks.Model = func(e *Eng, st *State, ev *CallEvent) ([]callOut, bool) {
			if ev.Name == "(*sync.Once).Do" && len(imageFields) > 0 { // (imageStat has looked at that)
				return []callOut{{st, tNil}}, true
			}
			return nil, false
		}
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			if !strings.HasSuffix(ev.Name, "fs.Stat") || len(ev.Args) != 2 {
				return
			}
			markIn(st, ev.Frame, "looked", tTrue)
			if st.decide(hasSlash) == yes {
				return
			}
			p, ok := cleanName(ev.Args[1])
			if !ok || p == nil {
				return
			}
			if _, b := calleeOf(p); len(b) > 1 {
				if d := b[len(b)-2]; d.Op == "idx" && len(d.Args) == 2 && !inTurn(e, d.Args[1], progress) {
					c.fail(e, st, "C40.search", ev.Instr, "the directories of PATH may not be looked at in their order")
				}
			}
		}
		e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
			const R = "C40.search"
			if fr.fn != fn && !inLoop(st, fr, "looked") {
				return
			}
			switch {
			case !inLoop(st, fr, "looked"):
				c.iterBad(e, st, R, fr, header, "a directory of PATH may not be looked at")
			case !inLoop(st, fr, "bad"):
				c.iterBad(e, st, R, fr, header, "a directory of PATH may be passed over although the program is there")
			default:
				c.iterOK(e, R, fr, header)
			}
			clearIn(st, "looked", "bad")
		}
	}, func(e *Eng, exits []exit) []exit {
		for _, x := range exits {
			if x.kind != 0 || len(x.res) != 2 {
				continue
			}
			st := x.st
			if errState(st, x.res[1]) == no {
				bad := ""
				v := unbox(x.res[1])
				p := pointee(v.T)
				switch {
				case p == nil || !isNamed(p, "io/fs", "PathError"):
					bad = "the error may not be an fs.PathError"
				case fieldOf(st, v, p, "Path") != name:
					bad = "the error may be for another name"
				case st.decide(mkEq(fieldOf(st, v, p, "Err"), tNil)) == yes:
					bad = "the error may not say what is wrong"
				case st.Marked("looked") && st.decide(hasSlash) == no:
					bad = "the search may end at a directory of PATH that does not have the program"
				}
				if bad != "" {
					c.failAt("C40.error", x.pos, fn, bad, st)
				} else {
					c.okAt("C40.error", "slash "+st.decideName(hasSlash))
				}
				continue
			}
			r := x.res[0]
			key := r.String()
			has := func(m string) bool {
				if st.Marked(m + key) {
					return true
				}
				root := st.Marked(m + ".")
				return root && st.decide(mkEq(mkCall("strings.TrimPrefix", types.Typ[types.String], mkCall("path.Clean", types.Typ[types.String], r), mkStr("/")), mkStr(""))) != no
			}
			switch {
			case !has("file:"):
				c.failAt("C40.program", x.pos, fn, "what is found may be a directory, or not be there", st)
			case !has("exec:"):
				c.failAt("C40.program", x.pos, fn, "what is found may be a file that nobody may run", st)
			default:
				c.okAt("C40.program", "slash "+st.decideName(hasSlash))
			}
			bad := ""
			_, a := calleeOf(r)
			abs := func(t *Term) tri {
				return st.decide(mkCall("strings.HasPrefix", types.Typ[types.Bool], t, mkStr("/")))
			}
			switch slash := st.decide(hasSlash); {
			case slash == unknown:
				bad = "a name may be looked up in the same way with a slash and without"
			case slash == yes && r == name:
				if abs(name) != yes {
					bad = "a relative path may be returned"
				}
			case slash == yes:
				if !r.isCall("path.Join") || len(a) != 2 || a[1] != name || abs(name) != no || !isWD(a[0]) {
					bad = "a path with a slash may not be looked up as it is: " + r.show(4)
				}
			case !r.isCall("path.Join") || len(a) < 2 || len(a) > 3 || a[len(a)-1] != name || !element(a[len(a)-2]):
				bad = "a name without a slash may not be looked up in PATH: " + r.show(4)
			case len(a) == 3 && !isWD(a[0]):
				bad = "a relative directory of PATH may not be one below the working directory"
			case len(a) == 2 && abs(r) != yes:
				bad = "a relative path may be returned"
			}
			if bad != "" {
				c.failAt("C40.lookup", x.pos, fn, bad, st)
			} else {
				c.okAt("C40.lookup", "slash "+st.decideName(hasSlash))
			}
		}
		return exits
	})
}

func (s *State) decideName(t *Term) string {
	switch s.decide(t) {
	case yes:
		return "yes"
	case no:
		return "no"
	}
	return "unknown"
}

func (c *Ctx) shebangs(fn *ssa.Function) {
	const R = "C40.shebangs"
	args := symParams(fn)
	look := func(st *State, t *Term) *Term { // t was found by looking for the result
		if s, i := t.siteOf(); s != nil && i == 0 && strings.HasSuffix(t.siteName(), ".FS).LookPath") && s.Args[0] == args[0] && errOf(st, s) == yes {
			return s.Args[1]
		}
		return nil
	}
	split := func(t *Term, of *Term, i int) bool {
		s, j := t.siteOf()
		if s != nil {
			return j == i && strings.HasSuffix(t.siteName(), ".FS).Split") && s.Args[1] == of
		}
		return false
	}
	var sibling func(e *Eng, st *State, t, of *Term, from, to string) bool
	sibling = func(e *Eng, st *State, t, of *Term, from, to string) bool {
		n, a := calleeOf(t)
		if !strings.HasSuffix(n, ".FS).Join") || len(a) != 2 {
			return false
		}
		l := argList(e, st, a[1])
		if len(l) != 2 || !split(l[0], of, 0) || l[1].Op != "concat" || l[1].Args[0] != mkStr(to) || len(l[1].Args) != 2 {
			return false
		}
		n, a = calleeOf(l[1].Args[1])
		return (n == "strings.TrimPrefix" && len(a) == 2 && a[1] == mkStr(from) || l[1].Args[1].Op == "substr") && split(a[0], of, 1)
	}
	c.runThen(R, fn, args, func(e *Eng, st *State) {
		e.hooks.Model = func(e *Eng, st *State, ev *CallEvent) ([]callOut, bool) {
			if !strings.HasSuffix(ev.Name, ".FS).Split") || ev.Instr == nil { // (which depends on nothing but the path)
				return nil, false
			}
			v, ok := ev.Instr.(ssa.Value)
			if !ok {
				return nil, false
			}
			return []callOut{{st, tt.mkT("site", ev.Name+"@pure", v.Type(), ev.Args...)}}, true
		}
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			n, a := calleeOf(cond)
			switch {
			case n == "strings.HasPrefix" && len(a) == 2:
				if p, ok := a[1].str(); ok {
					if s, i := a[0].siteOf(); s != nil && i == 1 {
						st.SetMark("prefix:"+p+":"+s.Args[1].String(), mkBool(val))
					}
				}
			case cond.Op == "bin" && cond.Aux == "==" && cond.Args[1].isNil() && !val:
				if s, i := cond.Args[0].siteOf(); s != nil && i == 1 && strings.HasSuffix(cond.Args[0].siteName(), ".FS).LookPath") {
					st.SetMark("nothere:"+s.Args[1].String(), s.Args[1])
				}
			}
		}
	}, func(e *Eng, exits []exit) []exit {
		for _, x := range exits {
			if x.kind != 0 || len(x.res) != 3 || errState(x.st, x.res[2]) == no {
				continue
			}
			st := x.st
			prefix := func(p string, of *Term, want *Term) bool { return st.Mark("prefix:"+p+":"+of.String()) == want }
			gone := func(of *Term, from, to string) bool {
				for k, v := range st.marks {
					if strings.HasPrefix(k, "nothere:") && sibling(e, st, v, of, from, to) {
						return true
					}
				}
				return false
			}
			console, graphical := x.res[0], x.res[1]
			var generic *Term // what is asked for
			kind := ""
			bad := ""
			switch a := look(st, console); {
			case a == args[1]:
				generic = console
				kind = "itself"
				if !prefix("pythonw", console, tFalse) && !gone(console, "pythonw", "python") {
					bad = "the console interpreter may be a graphical one although there is one for the console"
				}
			case a != nil:
				kind = "python"
				if g := look(st, graphical); g == args[1] {
					generic = graphical
				} else if _, b := calleeOf(a); len(b) == 2 {
					if l := argList(e, st, b[1]); len(l) == 2 {
						if s, _ := l[0].siteOf(); s != nil {
							generic = s.Args[1]
						}
					}
				}
				if generic == nil || look(st, generic) != args[1] || !sibling(e, st, a, generic, "pythonw", "python") || !prefix("pythonw", generic, tTrue) {
					bad = "the console interpreter may not be the one that belongs to the one that is named: " + a.show(6)
				}
			default:
				bad = "the console interpreter may not be one that was found"
			}
			switch a := look(st, graphical); {
			case bad != "":
			case a == args[1]:
				kind += "/itself"
				if prefix("python", console, tTrue) && prefix("pythonw", console, tFalse) && !gone(console, "python", "pythonw") {
					bad = "the graphical interpreter may be one for the console although there is a graphical one"
				}
				if st.Mark("prefix:python:"+console.String()) == nil && graphical == console {
					bad = "the graphical interpreter may be one for the console although there is a graphical one"
				}
			case a != nil:
				kind += "/pythonw"
				if !sibling(e, st, a, console, "python", "pythonw") && !sibling(e, st, a, generic, "python", "pythonw") {
					bad = "the graphical interpreter may not be the one that belongs to the one that is named: " + a.show(6)
				}
			default:
				bad = "the graphical interpreter may not be one that was found"
			}
			if bad != "" {
				c.failAt(R, x.pos, fn, bad, st)
			} else {
				c.okAt(R, kind)
			}
		}
		return exits
	})
}

func (c *Ctx) pyAnswer(fn *ssa.Function) {
	const R = "C40.answer"
	args := symParams(fn)
	c.runThen(R, fn, args, func(e *Eng, st *State) {
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			if !strings.HasSuffix(ev.Name, "json.Unmarshal") {
				return
			}
			bad := ""
			s := given(st, ev.Args[0], ".Cmd).Output")
			cm := (*Term)(nil)
			if s != nil {
				cm = s.Args[0]
			}
			n, a := calleeOf(cm)
			switch {
			case s == nil:
				bad = "what is decoded may not be what the interpreter wrote, or it may have failed"
			case !strings.HasSuffix(n, ".CommandContext") || len(a) != 3 || a[0] != args[0]:
				bad = "what is run may not be the interpreter"
			case a[1].Op != "idx" || a[1].Args[0] != args[1] || a[1].Args[1] != mkInt(0):
				bad = "what is run may not be the interpreter"
			case a[2].Op != "append" || a[2].Args[0].Op != "subslice" || a[2].Args[0].Args[0] != args[1] || a[2].Args[0].Args[1] != mkInt(1):
				bad = "the interpreter may not get the arguments that are given"
			default:
				var l []*Term
				for _, y := range a[2].Args[1:] {
					l = append(l, argList(e, st, y)...)
				}
				if len(l) != 2 || l[0] != mkStr("-c") {
					bad = "the interpreter may not be told what to run"
					break
				}
				script, ok := l[1].str()
				if !ok {
					bad = "what the interpreter runs is not a constant"
					break
				}
				if p := pointee(unbox(ev.Args[1]).T); p != nil {
					bad = answerKeys(script, p)
				}
			}
			if bad != "" {
				c.fail(e, st, R, ev.Instr, "%s", bad)
			}
			st.SetMark("decoded", unbox(ev.Args[1]))
		}
		e.hooks.Post = func(e *Eng, st *State, ev *CallEvent) {
			if strings.HasSuffix(ev.Name, "json.Unmarshal") {
				st.SetMark("decode", ev.Res)
			}
		}
	}, func(e *Eng, exits []exit) []exit {
		for _, x := range exits {
			if x.kind != 0 || len(x.res) != 2 || errState(x.st, x.res[1]) == no {
				continue
			}
			if m := x.st.Mark("decoded"); m == nil || m != unbox(x.res[0]) {
				c.failAt(R, x.pos, fn, "what is returned may not be what the interpreter answered", x.st)
			} else if d := x.st.Mark("decode"); d == nil || x.st.decide(mkEq(d, tNil)) != yes {
				c.failAt(R, x.pos, fn, "what is returned may be what could not be decoded", x.st)
			} else {
				c.okAt(R, "answer")
			}
		}
		return exits
	})
}

// answerKeys: every field of the answer is a key that the script writes.
func answerKeys(script string, t types.Type) string {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	low := strings.ToLower(script)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() {
			continue
		}
		if k := strings.ToLower(f.Name()); !strings.Contains(low, "\""+k+"\"") && !strings.Contains(low, "'"+k+"'") {
			return "the interpreter may not be asked for " + f.Name()
		}
		if isNamed(f.Type(), modPath+"/pkg/python", "VersionInfo") {
			v := f.Type().Underlying().(*types.Struct)
			for j := 0; j < v.NumFields(); j++ {
				if k := strings.ToLower(v.Field(j).Name()); !strings.Contains(low, "'"+k+"'") && !strings.Contains(low, "\""+k+"\"") {
					return "the interpreter may not be asked for " + v.Field(j).Name()
				}
			}
		}
	}
	return ""
}
