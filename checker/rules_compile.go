package main

// Compiling Python sources, and keeping what a wheel names inside the directories it may write to.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// runCompiler analyses the compiler function that ExternalCompiler returns, called with arbitrary arguments.
func (c *Ctx) runCompiler(rule string, setup func(e *Eng, st *State, args []*Term)) []exit {
	fn := c.P.fn("pkg/python", "ExternalCompiler")
	ct := c.P.repoType("pkg/python", "Compiler")
	if fn == nil || ct == nil {
		c.missing(rule, "python.ExternalCompiler")
		return nil
	}
	sig := ct.Underlying().(*types.Signature)
	var args []*Term
	for i := 0; i < sig.Params().Len(); i++ {
		args = append(args, tt.mkT("sym", "compile:"+itoa(i), sig.Params().At(i).Type()))
	}
	return c.runThen(rule, fn, nil, func(e *Eng, st *State) {
		e.mergeAt = 3000
		setup(e, st, args)
	}, func(e *Eng, exits []exit) []exit {
		var out []exit
		for _, x := range exits {
			if x.kind != exitRet || len(x.res) != 2 {
				continue
			}
			h := x.st.resolve(x.res[0])
			if h.isNil() {
				continue
			}
			if h.Op != "closure" && h.Op != "fn" {
				c.addViol(&Violation{Rule: rule, Where: c.P.pos(fn.Pos()), Fn: shortName(fnName(fn)), Msg: "the compiler returned cannot be resolved: " + h.String()})
				continue
			}
			out = append(out, e.runFn(h.Fn, "H;", args, h.Args, x.st)...)
		}
		return out
	})
}

// isFileName: t is the full name of an input file of the compiler (in either slash convention).
func compileFile(t *Term) *Term {
	for t.isCall("path/filepath.FromSlash") || t.isCall("path.Clean") {
		t = t.Args[0]
	}
	if strings.HasSuffix(t.siteName(), "FileReference).FullName") && len(t.Args) > 0 && t.Args[0].Op == "idx" {
		return t.Args[0]
	}
	return nil
}

func ruleCompiler(c *Ctx) {
	c.rule("C34.write", "every source file is written below the temporary directory under its own full name, with its content and its time, before the compiler runs", 1)
	c.rule("C34.env", "the compiler runs with PYTHONHASHSEED=0, with SOURCE_DATE_EPOCH set to the clamp time if there is one, and in the caller's environment otherwise", 1)
	c.rule("C34.strip", "the compiler is told to replace the temporary directory by / in what it writes", 1)
	c.rule("C34.collect", "every .pyc file found afterwards is returned, named relative to the temporary directory, with its content", 1)
	c.rule("C34.fail", "if the compiler or the collection fails, so does the compilation", 1)
	c.rule("C13.temp", "a source file is written to the temporary directory only if its full name is known to stay in it", 1)
	var clamp, files, ppath *Term
	exits := c.runCompiler("C34.write", func(e *Eng, st *State, args []*Term) {
		for _, a := range args {
			switch {
			case isTime(a.T):
				clamp = a
			case isFileRefSlice(a.T):
				files = a
			case a.T.String() == "[]string":
				ppath = a
			}
		}
		tmp := func(t *Term) bool { s, i := t.siteOf(); return s != nil && i == 0 && s.siteName() == "os.MkdirTemp" }
		dest := func(t *Term) *Term {
			if (t.isCall("path.Join") || t.isCall("path/filepath.Join")) && len(t.Args) == 2 && tmp(t.Args[0]) {
				return compileFile(t.Args[1])
			}
			return nil
		}
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			if n := localCond(st, cond, val); n != nil {
				if f := compileFile(n); f != nil {
					st.SetMark("local", f)
				}
			}
		}
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			switch ev.Name {
			case "os.Create", "os.OpenFile", "os.WriteFile":
				f := dest(ev.Args[0])
				if f == nil {
					c.fail(e, st, "C34.write", ev.Instr, "a source file is written to %v, which is not its own name below the temporary directory", ev.Args[0])
					return
				}
				if st.Mark("local") != f {
					c.fail(e, st, "C13.temp", ev.Instr, "a file is written although its name may lead out of the temporary directory")
				} else {
					c.ok(e, "C13.temp", ev.Instr, "")
				}
				markIn(st, ev.Frame, "w.file", f)
				st.SetMark("w.bytes", ev.Args[len(ev.Args)-1])
				if ev.Name == "os.WriteFile" && contentFrom(ev.Args[1], f) {
					markIn(st, ev.Frame, "w.copied", f)
				}
			case "io.Copy":
				s, i := unbox(ev.Args[0]).siteOf()
				f := openedFile(ev.Args[1])
				if s != nil && i == 0 && (s.siteName() == "os.Create" || s.siteName() == "os.OpenFile") && f != nil && dest(s.Args[0]) == f && unbox(ev.Args[1]).Op == "ext" {
					markIn(st, ev.Frame, "w.copied", f)
					st.SetMark("w.pending", tTrue)
				}
			case "os.Chtimes":
				f := dest(ev.Args[0])
				mt := ev.Args[2]
				if f != nil && strings.HasSuffix(mt.siteName(), "FileInfo).ModTime") && mt.Args[0] == f {
					markIn(st, ev.Frame, "w.timed", f)
				}
			case "(*github.com/datawire/dlib/dexec.Cmd).Run", "(*github.com/datawire/dlib/dexec.Cmd).Output", "(*github.com/datawire/dlib/dexec.Cmd).CombinedOutput":
				cmd := mustSite(ev.Args[0])
				if cmd == nil || cmd.siteName() != "github.com/datawire/dlib/dexec.CommandContext" {
					c.fail(e, st, "C34.strip", ev.Instr, "the command run cannot be told")
					return
				}
				st.SetMark("ran", tTrue)
				// arguments
				var as []*Term
				flat(cmd.Args[2], &as)
				s, p, dir := false, false, false
				for i, a := range as {
					if a == mkStr("-s") && i+1 < len(as) && tmp(as[i+1]) {
						s = true
					}
					if a == mkStr("-p") && i+1 < len(as) && as[i+1] == mkStr("/") {
						p = true
					}
				}
				dir = len(as) > 0 && tmp(as[len(as)-1])
				if !s || !p || !dir {
					c.fail(e, st, "C34.strip", ev.Instr, "the compiler is run with %v: the name of the temporary directory may end up in what it writes", cmd.Args[2])
				} else {
					c.ok(e, "C34.strip", ev.Instr, "")
				}
				// environment
				env := envOf(st, ev.Args[0])
				if env == nil {
					c.fail(e, st, "C34.env", ev.Instr, "the environment of the compiler cannot be told")
					return
				}
				var es []*Term
				flat(env, &es)
				seed, epoch, inherit, path := "", false, false, false
				for _, x := range es {
					switch {
					case x.siteName() == "os.Environ":
						inherit = true
						seed, epoch, path = "", false, false
					case hasStrPrefix(x, "PYTHONHASHSEED="):
						seed, _ = x.str()
					case x.isCall("fmt.Sprintf") && x.Args[0] == mkStr("SOURCE_DATE_EPOCH=%d") || hasStrPrefix(x, "SOURCE_DATE_EPOCH="):
						epoch = x.any(func(y *Term) bool { return y.isCall("(time.Time).Unix") && y.Args[0] == clamp })
					case hasStrPrefix(x, "PYTHONPATH="):
						path = x.contains0("strings.Join")
					}
				}
				switch {
				case seed != "PYTHONHASHSEED=0":
					c.fail(e, st, "C34.env", ev.Instr, "the compiler runs without PYTHONHASHSEED=0: what it writes may differ from run to run")
				case !epoch && st.decide(boolCall("(time.Time).IsZero", clamp)) != yes:
					c.fail(e, st, "C34.env", ev.Instr, "the compiler runs without SOURCE_DATE_EPOCH being the clamp time")
				case !inherit:
					c.fail(e, st, "C34.env", ev.Instr, "the compiler does not get the caller's environment")
				case !path && !emptyLen(st, ppath):
					c.fail(e, st, "C34.env", ev.Instr, "the compiler runs without the search path it was given")
				default:
					c.ok(e, "C34.env", ev.Instr, "")
				}
			case "io/fs.WalkDir", "path/filepath.WalkDir", "path/filepath.Walk":
				st.SetMark("walked", tTrue)
			case "append":
				xs, ok := e.elems(st, ev.Args[1])
				if !ok {
					return
				}
				for _, x := range xs {
					full, content, _, isMem := inMem(st, x)
					if !isMem {
						continue
					}
					p := unbox(x)
					fi := unbox(fieldOf(st, p, pointee(p.T), "FileInfo"))
					switch {
					case !isWalkPath(full):
						c.fail(e, st, "C34.collect", ev.Instr, "a compiled file is returned as %v, not under its name in the temporary directory", full)
					case !(content.siteName() == "io/fs.ReadFile" && mustSite(content).Args[1] == full || content.siteName() == "os.ReadFile" && content.contains(full)):
						c.fail(e, st, "C34.collect", ev.Instr, "a compiled file is returned with the content %v", content)
					case fi.siteName() != "(io/fs.DirEntry).Info":
						c.fail(e, st, "C34.collect", ev.Instr, "a compiled file is returned with the attributes of %v", fi)
					default:
						st.SetMark("col", full)
						c.ok(e, "C34.collect", ev.Instr, "")
					}
				}
			}
		}
		e.hooks.CallbackRet = func(e *Eng, st *State, ev *CallEvent, fn *ssa.Function, res []*Term) {
			if ev.Name != "io/fs.WalkDir" && ev.Name != "path/filepath.WalkDir" && ev.Name != "path/filepath.Walk" {
				return
			}
			if !st.Marked("ran") {
				c.fail(e, st, "C34.collect", ev.Instr, "compiled files are looked for before the compiler has run")
			}
			if st.Marked("col") {
				st.ClearMark("col")
				return
			}
			if len(res) == 1 && errState(st, res[0]) == no {
				return
			}
			skip := hasFact(st, true, func(f *Term) bool { return strings.HasSuffix(f.siteName(), ").IsDir") }) ||
				hasFact(st, false, func(f *Term) bool { return f.isCall("strings.HasSuffix") && f.Args[1] == mkStr(".pyc") }) ||
				hasFact(st, false, func(f *Term) bool {
					return f.Op == "bin" && f.Aux == "==" && (f.Args[0] == mkStr(".pyc") || f.Args[1] == mkStr(".pyc"))
				})
			if !skip {
				c.fail(e, st, "C34.collect", ev.Instr, "a compiled file may be left out")
			}
		}
		e.hooks.Post = func(e *Eng, st *State, ev *CallEvent) {
			if strings.HasPrefix(ev.Name, "(*github.com/datawire/dlib/dexec.Cmd).") {
				st.SetMark("run.res", ev.Res)
			}
			if strings.HasSuffix(ev.Name, ".WalkDir") || strings.HasSuffix(ev.Name, ".Walk") {
				st.SetMark("walk.res", ev.Res)
			}
		}
		e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
			if inLoop(st, fr, "w.file") {
				f := st.Mark("w.file")
				switch {
				case !inLoop(st, fr, "w.copied") || st.Mark("w.copied") != f:
					c.iterBad(e, st, "C34.write", fr, header, "a source file may be written without its content")
				case !inLoop(st, fr, "w.timed") || st.Mark("w.timed") != f:
					c.iterBad(e, st, "C34.write", fr, header, "a source file does not get its own time, which the compiler records")
				}
				c.iterOK(e, "C34.write", fr, header)
				clearIn(st, "w.file", "w.copied", "w.timed", "local")
			} else {
				c.iterBad(e, st, "C34.write", fr, header, "a source file may not be written")
			}
		}
	})
	_ = files
	fn := c.P.fn("pkg/python", "ExternalCompiler")
	for _, x := range exits {
		if x.kind != exitRet || errState(x.st, lastRes(x)) == no {
			continue
		}
		r := x.st.Mark("run.res")
		lr := lastRes(x)
		fine := func(m *Term) bool {
			if m == nil || m.isNil() {
				return m != nil
			}
			if e := errPart(m); e != nil {
				return errState(x.st, e) == yes || lr == e
			}
			return false
		}
		switch {
		case !fine(r):
			c.failAt("C34.fail", x.pos, fn, "success may be reported although the compiler was not run or failed", x.st)
		case !x.st.Marked("walked") || !fine(x.st.Mark("walk.res")):
			c.failAt("C34.fail", x.pos, fn, "success may be reported although its output was not collected", x.st)
		default:
			c.okAt("C34.fail", "success exit "+c.P.pos(x.pos))
		}
	}
}

// errPart: the error among the results of a call.
func errPart(m *Term) *Term {
	if isErrorType(m.T) {
		return m
	}
	if m.T != nil {
		if tu, ok := m.T.(*types.Tuple); ok && tu.Len() > 0 {
			return mkExt(m, tu.Len()-1, tu.At(tu.Len()-1).Type())
		}
	}
	return nil
}

func emptyLen(st *State, x *Term) bool {
	if x == nil {
		return true
	}
	b := st.bounds(mkCall("len", types.Typ[types.Int], x))
	return b.hasHi && b.hi <= 0 || st.decide(mkEq(mkCall("len", types.Typ[types.Int], x), tZero)) == yes
}

func isWalkPath(t *Term) bool {
	for t != nil && (t.isCall("path/filepath.ToSlash") || t.isCall("path.Clean")) {
		t = t.Args[0]
	}
	return t != nil && strings.HasPrefix(t.String(), "walk.path(")
}

func contentFrom(t, f *Term) bool { return openedFile(t) == f }

func hasStrPrefix(t *Term, p string) bool {
	if s, ok := t.str(); ok {
		return strings.HasPrefix(s, p)
	}
	if t.Op == "concat" {
		return hasStrPrefix(t.Args[0], p)
	}
	if t.isCall("fmt.Sprintf") {
		return hasStrPrefix(t.Args[0], p)
	}
	return false
}

// flat lists the elements of a slice built with append; what is not known element by element is listed itself.
func flat(t *Term, out *[]*Term) {
	switch t.Op {
	case "append":
		for _, a := range t.Args {
			flat(a, out)
		}
	case "list":
		*out = append(*out, t.Args...)
	case "nil":
	default:
		*out = append(*out, t)
	}
}

// envOf: the environment of a command.
func envOf(st *State, cmd *Term) *Term {
	for k, v := range st.mem {
		if k.Op == "fa" && k.Aux == "Env" && k.contains(mustSite(cmd)) {
			return v
		}
	}
	return nil
}

// localCond: having found cond to be val establishes that a name (returned) stays below the directory it is joined to.
func localCond(st *State, cond *Term, val bool) *Term {
	if val && (cond.isCall("io/fs.ValidPath") || cond.isCall("path/filepath.IsLocal")) {
		return cond.Args[0]
	}
	// not absolute, not .. and not starting with ../
	var x *Term
	neg := func(f *Term) (string, *Term) {
		switch {
		case f.isCall("strings.HasPrefix"):
			s, _ := f.Args[1].str()
			return s, f.Args[0]
		case f.isCall("path.IsAbs") || f.isCall("path/filepath.IsAbs"):
			return "/", f.Args[0]
		case f.Op == "bin" && f.Aux == "==":
			if s, ok := f.Args[1].str(); ok {
				return "=" + s, f.Args[0]
			}
			if s, ok := f.Args[0].str(); ok {
				return "=" + s, f.Args[1]
			}
		}
		return "", nil
	}
	if val {
		return nil
	}
	_, x = neg(cond)
	if x == nil || !x.isCall("path.Clean") {
		return nil
	}
	got := map[string]bool{}
	for f, v := range st.facts {
		if !v {
			if s, y := neg(f); y == x {
				got[s] = true
			}
		}
	}
	s, _ := neg(cond)
	got[s] = true
	if (got["../"] && got["=.."] || got[".."]) && got["/"] {
		return x
	}
	return nil
}

func init() {
	propRules["C34"] = func(c *Ctx) {
		c.only = true
		c.rule("C34.srcs", "every installed file whose name ends in .py is given to the compiler", 1)
		c.rule("C34.path", "the compiler searches purelib and platlib", 1)
		installRules(c)
		ruleCompiler(c)
		delete(c.rules, "C13.temp")
		delete(c.need, "C13.temp")
		for k, v := range c.viol {
			if v.Rule == "C13.temp" {
				delete(c.viol, k)
			}
		}
	}
}
