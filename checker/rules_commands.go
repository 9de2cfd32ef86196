package main

// The commands layer dir, layer squash, layer wheel and python getwheel.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	nLayerFromDir = modPath + "/pkg/dir.LayerFromDir"
	nSquash       = modPath + "/pkg/squash.Squash"
	nInstallWheel = modPath + "/pkg/python/pypa/bdist.InstallWheel"
	nHooks        = modPath + "/pkg/python/pypa/bdist.PostInstallHooks"
	nScripts      = modPath + "/pkg/python/pypa/entry_points.CreateScripts"
	nRecord       = modPath + "/pkg/python/pypa/recording_installs.Record"
	nExtCompiler  = modPath + "/pkg/python.ExternalCompiler"
	nWriteLayer   = modPath + "/pkg/fsutil.WriteLayer"
	nListFiles    = "(" + modPath + "/pkg/python/pep503.Client).ListPackageFiles"
	nNow          = modPath + "/pkg/reproducible.Now"
)

func ruleC26(c *Ctx) {
	c.rule("C26.dir", "the layer is that of the named directory, below the prefix that is asked for, with the owners that are asked for and the time of the build", 1)
	c.rule("C26.default", "without flags there is no prefix, a prefix belongs to root, and the owners of files are kept", 1)
	c.rule("C26.order", "the layers squashed are those of the files that are named, each once and in order", 1)
	c.rule("C26.squash", "the layer is that of squashing all of these", 1)
	c.rule("C26.wheel", "the wheel that is named is installed for the platform of the platform file, with its time not limited, its scripts made and then recorded", 1)
	c.rule("C26.platform", "what the platform file says is read whole, and unknown fields in it are an error", 1)
	c.rule("C26.hooks", "of several hooks all are run, in order, and the first error ends this", 1)
	c.rule("C26.write", "the layer that was made is written whole and once, to the standard output, and success means that it was", 4)
	c.rule("C26.getwheel", "the file that is downloaded is the one whose name is given, from the index that is given", 2)
	c.rule("C26.stdout", "nothing else is written to the standard output", 1)
	n := 0
	for _, f := range c.P.cmdFns() {
		switch {
		case c.P.reachesAny(f, nInstallWheel):
			n |= 1
			c.layerCmd(f, c.wheelCmd(f))
		case c.P.reachesAny(f, nSquash) && c.P.reachesAny(f, nWriteLayer):
			n |= 2
			c.layerCmd(f, c.squashCmd(f))
		case c.P.reachesAny(f, nLayerFromGo):
		case c.P.reachesAny(f, nLayerFromDir):
			n |= 4
			c.layerCmd(f, c.dirCmd(f))
		case c.P.reachesAny(f, nListFiles):
			n |= 8
			c.getwheelCmd(f)
		}
	}
	for i, r := range []string{"C26.wheel", "C26.squash", "C26.dir", "C26.getwheel"} {
		if n&(1<<i) == 0 {
			c.missing(r, "the command")
		}
	}
	if w := c.P.fn("pkg/fsutil", "WriteLayer"); w == nil {
		c.missing("C26.write", "the function that writes layers")
	} else {
		c.writeLayer("C26.write", w)
	}
	c.composeHooks()
	c.onlyOutput("C26.stdout")
}

func init() { propRules["C26"] = ruleC26 }

func isStdout(t *Term) bool {
	s := t.String()
	return strings.Contains(s, "os.Stdout") || strings.Contains(s, "OutOrStdout")
}

// cmdSpec: how a command makes its layer.
type cmdSpec struct {
	maker  string
	attach func(e *Eng)
	call   func(e *Eng, st *State, ev *CallEvent)
}

// layerCmd: the command writes the layer that the maker made.
func (c *Ctx) layerCmd(fn *ssa.Function, sp cmdSpec) {
	const R = "C26.write"
	_, exits := c.runCmd(R, fn, func(e *Eng, st *State) {
		e.mergeAt = 3000
		if sp.attach != nil {
			sp.attach(e)
		}
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			sp.call(e, st, ev)
			if ev.Name != nWriteLayer || len(ev.Args) != 2 {
				return
			}
			s := given(st, ev.Args[0], sp.maker)
			switch {
			case s == nil:
				c.fail(e, st, R, ev.Instr, "what is written may not be the layer that was made")
			case !isStdout(ev.Args[1]):
				c.fail(e, st, R, ev.Instr, "the layer may not be written to the standard output")
			case st.Marked("written"):
				c.fail(e, st, R, ev.Instr, "the layer may be written more than once")
			default:
				c.ok(e, R, ev.Instr, "")
			}
			st.SetMark("written", tTrue)
		}
		e.hooks.Post = func(e *Eng, st *State, ev *CallEvent) {
			if ev.Name == nWriteLayer {
				st.SetMark("result", ev.Res)
			}
		}
	})
	c.mustWrite(R, fn, exits)
}

// mustWrite: success means that something was written.
func (c *Ctx) mustWrite(R string, fn *ssa.Function, exits []exit) {
	for _, x := range exits {
		if x.kind != 0 || errState(x.st, x.res[0]) == no {
			continue
		}
		r := x.st.Mark("result")
		if r != nil && x.res[0].isNil() && mustSite(r) != nil && errOf(x.st, r) != yes {
			c.failAt(R, x.pos, fn, "success may be reported although not all was written", x.st)
		} else if x.st.Marked("written") {
			c.okAt(R, "success of "+c.P.pos(fn.Pos()))
		} else {
			c.failAt(R, x.pos, fn, "success may be reported although nothing was written", x.st)
		}
	}
}

func isNowTerm(t *Term) bool { return t.isCall(nNow) || t.siteName() == nNow }

func (c *Ctx) dirCmd(fn *ssa.Function) cmdSpec {
	return cmdSpec{maker: "dir.LayerFromDir", call: func(e *Eng, st *State, ev *CallEvent) {
		if ev.Name != nLayerFromDir || len(ev.Args) < 4 {
			return
		}
		pfx, own := ev.Args[1], ev.Args[2]
		// owner: fields are those of the flags
		owner := func(v *Term, p string) string {
			if v == nil || v.T == nil {
				return "owner"
			}
			for f, n := range map[string]string{"UID": "uid", "GID": "gid", "UName": "uname", "GName": "gname"} {
				if flagOf(fieldT(v, v.T, f)) != p+"-"+n {
					return "--" + p + "-" + n
				}
			}
			return ""
		}
		bad := ""
		switch {
		case !isArg0(ev.Args[0], symParam(fn.Params[1])):
			bad = "the layer may not be that of the directory that is named"
		case !isNowTerm(ev.Args[3]):
			bad = "the layer may not be made for the time of the build"
		case own.isNil() || pointee(own.T) == nil:
			bad = "the --chown flags may have no effect"
		case pfx.isNil():
			if flagGiven(st, "prefix") != no {
				bad = "the --prefix flag may have no effect"
			}
		case pointee(pfx.T) == nil:
			bad = "the prefix cannot be told"
		default:
			p := st.load(pfx, pointee(pfx.T))
			if flagOf(fieldT(p, pointee(pfx.T), "DirName")) != "prefix" {
				bad = "the --prefix flag may have no effect"
			} else if flagGiven(st, "prefix") != yes {
				bad = "there may be a prefix although none is asked for"
			} else if f := owner(fieldT(p, pointee(pfx.T), "Ownership"), "prefix"); f != "" {
				bad = "the flag " + f + " may have no effect, or another one"
			} else if m := fieldT(p, pointee(pfx.T), "Mode"); m != tZero && m != mkInt(0o755) {
				bad = "the directories of the prefix may not have mode 0755"
			}
		}
		if bad == "" {
			if f := owner(st.load(own, pointee(own.T)), "chown"); f != "" {
				bad = "the flag " + f + " may have no effect, or another one"
			}
		}
		if bad != "" {
			c.fail(e, st, "C26.dir", ev.Instr, "%s", bad)
		} else {
			c.ok(e, "C26.dir", ev.Instr, "")
		}
		// defaults
		for f, d := range map[string]*Term{"prefix": tEmpty, "prefix-uid": tZero, "prefix-gid": tZero, "prefix-uname": mkStr("root"), "prefix-gname": mkStr("root"), "chown-uname": tEmpty} {
			if v := st.Mark("default:" + f); v != nil && v != d {
				c.fail(e, st, "C26.default", ev.Instr, "the default of --%s is not %s", f, d.show(2))
			}
		}
		for _, f := range []string{"chown-uid", "chown-gid"} {
			if v := st.Mark("default:" + f); v != nil {
				if i, ok := v.intv(); ok && i >= 0 {
					c.fail(e, st, "C26.default", ev.Instr, "without --%s the owners of files are not kept", f)
				}
			}
		}
		c.ok(e, "C26.default", ev.Instr, "")
	}}
}

// isArg0: the first of the arguments.
func isArg0(t, args *Term) bool {
	if t.Op != "idx" || t.Args[0] != args {
		return false
	}
	i, ok := t.Args[1].intv()
	return ok && i == 0
}

func (c *Ctx) squashCmd(fn *ssa.Function) cmdSpec {
	al := &argLayers{c: c, args: symParam(fn.Params[1]), rule: "C26.order"}
	return cmdSpec{maker: "squash.Squash", attach: al.attach, call: func(e *Eng, st *State, ev *CallEvent) {
		if ev.Name != nSquash || len(ev.Args) < 1 {
			return
		}
		if al.isLayers(e, st, ev.Args[0]) && st.Marked("all") {
			c.ok(e, "C26.squash", ev.Instr, "")
		} else {
			c.fail(e, st, "C26.squash", ev.Instr, "what is squashed may not be the layers of all files that are named")
		}
	}}
}

func (c *Ctx) wheelCmd(fn *ssa.Function) cmdSpec {
	args := symParam(fn.Params[1])
	return cmdSpec{maker: "bdist.InstallWheel", call: func(e *Eng, st *State, ev *CallEvent) {
		if s := ev.Name; strings.HasSuffix(s, "yaml.Unmarshal") || strings.HasSuffix(s, "yaml.UnmarshalStrict") {
			src := given(st, ev.Args[0], "ReadFile")
			strict := strings.HasSuffix(s, "Strict")
			if len(ev.Args) == 3 {
				for _, o := range argList(e, st, ev.Args[2]) {
					strict = strict || strings.HasSuffix(o.String(), "yaml.DisallowUnknownFields")
				}
			}
			switch {
			case src == nil || flagOf(src.Args[0]) != "platform-file":
				c.fail(e, st, "C26.platform", ev.Instr, "what is read may not be the whole platform file")
			case !strict:
				c.fail(e, st, "C26.platform", ev.Instr, "unknown fields of the platform file may be ignored")
			default:
				c.ok(e, "C26.platform", ev.Instr, "")
			}
			st.SetMark("plat", rootOf(unbox(ev.Args[1])))
			return
		}
		if ev.Name != nInstallWheel || len(ev.Args) < 6 {
			return
		}
		bad := platformAsRead(st, ev.Args[1])
		hook := ev.Args[5]
		switch {
		case bad != "":
		case !isZeroTime(ev.Args[2]) || !isZeroTime(ev.Args[3]):
			bad = "the times of the files may be limited to other ones than those of the wheel"
		case !isArg0(ev.Args[4], args):
			bad = "the wheel may not be the one that is named"
		default:
			n, a := calleeOf(hook)
			if n == "" {
				n, a = hook.siteName(), hook.Args
			}
			var hooks []*Term
			if n == nHooks {
				hooks = argList(e, st, a[0])
			}
			scripts, record := -1, -1
			for i, h := range hooks {
				n, a := calleeOf(h)
				if n == "" {
					n, a = h.siteName(), h.Args
				}
				switch n {
				case nScripts:
					scripts = i
					if m := platformAsRead(st, a[0]); m != "" {
						bad = "for the scripts: " + m
					}
				case nRecord:
					record = i
					if s, _ := a[0].str(); s != "sha256" && s != "sha384" && s != "sha512" {
						bad = "files may be recorded with a hash that is not allowed"
					} else if !a[2].isNil() {
						bad = "a wheel that is installed from a file that was named may get a direct_url.json"
					}
				}
			}
			if bad == "" && (scripts < 0 || record < scripts) {
				bad = "the scripts may not be made, or not be recorded"
			}
		}
		if bad != "" {
			c.fail(e, st, "C26.wheel", ev.Instr, "%s", bad)
		} else {
			c.ok(e, "C26.wheel", ev.Instr, "")
		}
	}}
}

// platformAsRead: a platform is the one that was read, with its compiler.
func platformAsRead(st *State, p *Term) string {
	plat := st.Mark("plat")
	if plat == nil {
		return "the platform may not be that of the platform file"
	}
	if p.Op != "agg" {
		return "the platform may have no compiler"
	}
	read := func(t *Term, name string) bool {
		if t.Op != "fld" || t.Aux != name {
			return false
		}
		for t.Op == "fld" || t.Op == "deref" || t.Op == "fa" {
			t = t.Args[0]
		}
		return t == plat
	}
	s, ok := p.T.Underlying().(*types.Struct)
	if !ok {
		return "the platform cannot be told"
	}
	for i := range p.Args {
		n, v := s.Field(i).Name(), p.Args[i]
		if n != "PyCompile" {
			if !read(v, n) {
				return n + " of the platform may not be what the platform file says"
			}
			continue
		}
		if k := given(st, v, "python.ExternalCompiler"); k == nil || !read(k.Args[0], n) {
			return "the compiler may not be the one of the platform file"
		}
	}
	return ""
}

func isZeroTime(t *Term) bool {
	return t != nil && t.Op == "zero"
}

// composeHooks: PostInstallHooks runs all hooks.
func (c *Ctx) composeHooks() {
	const R = "C26.hooks"
	fn := c.P.fn("pkg/python/pypa/bdist", "PostInstallHooks")
	if fn == nil {
		c.missing(R, "bdist.PostInstallHooks")
		return
	}
	hooks := symParam(fn.Params[0])
	var last *ssa.Function
	var eng *Eng
	kept := false
	seen := map[int64]bool{-1: true} // indices of iterations that were analysed by themselves
	exits := c.runThen(R, fn, nil, func(e *Eng, st *State) { e.mergeAt = 3000 }, func(e *Eng, exits []exit) []exit {
		var out []exit
		eng = e
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			if ranThrough(e, st, fr, in, val) == hooks {
				st.SetMark("all", tTrue)
			}
		}
		for _, x := range exits {
			if x.kind != exitRet {
				continue
			}
			h := x.st.resolve(x.res[0])
			if h.isNil() {
				if x.st.decide(mkEq(mkCall("len", nil, hooks), tZero)) != yes {
					c.failAt(R, x.pos, fn, "hooks may not be run", x.st)
				}
				continue
			}
			if h.Op != "closure" && h.Op != "fn" {
				if h.Op == "idx" && h.Args[0] == hooks {
					continue // the only hook
				}
				c.failAt(R, x.pos, fn, "the hook made of several cannot be told", x.st)
				continue
			}
			args := symParams(h.Fn)
			last = h.Fn
			e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
				if ev.Name != "dyncall" || ev.Callee == nil || ev.Callee.Op != "idx" || ev.Callee.Args[0] != hooks {
					return
				}
				if kept && !keptNil(e, st) {
					c.fail(e, st, R, ev.Instr, "a hook may be run although one before it failed")
				}
				ok := len(ev.Args) == len(args) && inTurn(e, ev.Callee.Args[1], seen)
				for i := range ev.Args {
					ok = ok && ev.Args[i] == args[i]
				}
				if inLoop(st, ev.Frame, "ran") {
					ok = false
				}
				if !ok {
					c.fail(e, st, R, ev.Instr, "a hook may be run more than once, out of order or for something else")
				}
				markIn(st, ev.Frame, "ran", ev.Callee)
			}
			e.hooks.Post = func(e *Eng, st *State, ev *CallEvent) {
				if ev.Name == "dyncall" && ev.Callee != nil && ev.Callee.Op == "idx" && ev.Callee.Args[0] == hooks {
					st.SetMark("result", ev.Res)
				}
			}
			e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
				if _, l := listTest(e, st, fr, header); l != hooks {
					return
				}
				if inLoop(st, fr, "ran") {
					c.iterOK(e, R, fr, header)
					r := st.Mark("result")
					held := false // the error is kept for the next iteration
					for _, s := range slotsOf(header) {
						held = held || r != nil && s.cur(st) == r
					}
					if held {
						kept = true
					} else if r == nil || st.decide(mkEq(r, tNil)) != yes {
						c.iterBad(e, st, R, fr, header, "the failure of a hook may not be noticed")
					}
				} else {
					c.iterBad(e, st, R, fr, header, "a hook may not be run")
				}
				clearIn(st, "ran")
				st.ClearMark("result")
			}
			out = append(out, e.runFn(h.Fn, "H;", args, h.Args, x.st)...)
		}
		return out
	})
	for _, x := range exits {
		if x.kind != 0 || errState(x.st, x.res[0]) == no {
			continue
		}
		if kept && x.res[0].isNil() && !keptNil(eng, x.st) {
			c.failAt(R, x.pos, last, "the failure of the last hook may not be noticed", x.st)
		} else if x.st.Marked("all") {
			c.okAt(R, "all")
		} else {
			c.failAt(R, x.pos, last, "success may be reported although not all hooks were run", x.st)
		}
	}
}

// errSym: t is the error of the call before, kept from one iteration to the next.
func errSym(e *Eng, t *Term) bool {
	if t.Op != "sym" || t.T == nil || !isErrorType(t.T) {
		return false
	}
	for in := range e.inflow[t] {
		if in.siteName() == "dyncall" {
			return true
		}
	}
	return false
}

// keptNil: such errors are known to be nil.
func keptNil(e *Eng, st *State) bool {
	for t := range e.inflow {
		if errSym(e, t) && st.decide(mkEq(t, tNil)) != yes {
			return false
		}
	}
	return true
}

// inTurn: the index goes up by one from zero; seen holds the indices of the iterations before a loop that is analysed as a whole.
func inTurn(e *Eng, ix *Term, seen map[int64]bool) bool {
	if k, ok := ix.intv(); ok {
		seen[k] = seen[k] || seen[k-1]
		return seen[k]
	}
	if e.ascending(ix) {
		return true
	}
	if ix.Op == "bin" && ix.Aux == "+" && ix.Args[1] == mkInt(1) {
		ix = ix.Args[0]
	}
	for in := range e.inflow[ix] {
		if k, ok := in.intv(); ok {
			if !seen[k-1] && !e.inflow[ix][mkInt(k-1)] {
				return false
			}
		} else if in.Op != "bin" || in.Aux != "+" || in.Args[0] != ix || in.Args[1] != mkInt(1) {
			return false
		}
	}
	return len(e.inflow[ix]) > 0
}

func (c *Ctx) getwheelCmd(fn *ssa.Function) {
	const R = "C26.getwheel"
	args := symParam(fn.Params[1])
	isList := func(st *State, t *Term) bool { return given(st, t, nListFiles) != nil }
	link := func(st *State, t *Term) *Term { // the element of the list that t is a field of
		for t != nil {
			if t.Op == "idx" && isList(st, t.Args[0]) || t.Op == "rangeval" {
				return t
			}
			if len(t.Args) == 0 {
				return nil
			}
			t = t.Args[0]
		}
		return nil
	}
	// named: the name of an element of the list is the one that is asked for
	named := func(st *State, is func(el *Term) bool) tri {
		for f, v := range st.facts {
			if f.Op != "bin" || f.Aux != "==" {
				continue
			}
			a, b := f.Args[0], f.Args[1]
			if !isArg0(b, args) {
				a, b = b, a
			}
			if isArg0(b, args) && a.Op == "fld" && a.Aux == "Text" && link(st, a) != nil && is(link(st, a)) {
				return triOf(v)
			}
		}
		return unknown
	}
	_, exits := c.runCmd(R, fn, func(e *Eng, st *State) {
		e.mergeAt = 3000
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			if l := ranThrough(e, st, fr, in, val); l != nil && isList(st, l) {
				st.SetMark("none", tTrue)
			}
		}
		e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
			_, l := listTest(e, st, fr, header)
			if l == nil || !isList(st, l) {
				return
			}
			if named(st, func(el *Term) bool { return el.Args[0] == l }) == no {
				c.iterOK(e, R, fr, header)
			} else {
				c.iterBad(e, st, R, fr, header, "a file may be passed over although it is the one that is asked for")
			}
		}
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			switch {
			case strings.HasSuffix(ev.Name, nListFiles) && len(ev.Args) >= 3:
				p := ev.Args[2]
				ok := p.Op == "fld" && p.Aux == "Distribution"
				if ok {
					t := p
					for t.Op == "fld" || t.Op == "deref" {
						t = t.Args[0]
					}
					s := given(st, t, "bdist.ParseFilename")
					ok = s != nil && isArg0(s.Args[0], args)
				}
				cl := unbox(ev.Args[0])
				var u *Term
				if ct := pointee(cl.T); ct != nil && hasField(ct, "BaseURL") {
					u = fieldOf(st, cl, ct, "BaseURL")
				} else if cl.T != nil && hasField(cl.T, "BaseURL") {
					u = fieldT(cl, cl.T, "BaseURL")
				}
				switch {
				case !ok:
					c.fail(e, st, R, ev.Instr, "the package that is listed may not be that of the wheel that is named")
				case u != nil && flagOf(u) != "index-server":
					c.fail(e, st, R, ev.Instr, "the index may not be the one that is asked for")
				default:
					c.ok(e, R, ev.Instr, "list")
				}
			case isStdoutWrite(ev): // what is written is for C20 to decide
				if st.Marked("written") {
					c.fail(e, st, R, ev.Instr, "the file may be written more than once")
				} else {
					c.ok(e, R, ev.Instr, "write")
				}
				st.SetMark("written", tTrue)
			}
		}
		e.hooks.Post = func(e *Eng, st *State, ev *CallEvent) {
			if isStdoutWrite(ev) {
				st.SetMark("result", ev.Res)
			}
		}
	})
	c.mustWrite(R, fn, exits)
	for _, x := range exits {
		// the error that there is no such file
		if x.kind != 0 || errState(x.st, x.res[0]) != no || x.st.Marked("none") {
			continue
		}
		if n, a := calleeOf(x.res[0]); n == "fmt.Errorf" || n == "errors.New" {
			if !(tt.mk("l", "", a...)).any(func(t *Term) bool { return t.T != nil && isErrorType(t.T) }) {
				c.failAt(R, x.pos, fn, "the file may be said not to be there although not all files of the index were looked at", x.st)
			}
		}
	}
}

// isStdoutWrite: a call that writes to the standard output.
func isStdoutWrite(ev *CallEvent) bool {
	switch {
	case strings.HasSuffix(ev.Name, ").Write"), strings.HasSuffix(ev.Name, ").WriteString"), ev.Name == "io.Copy", ev.Name == "io.WriteString":
		return len(ev.Args) > 1 && isStdout(ev.Args[0])
	}
	return false
}

// onlyOutput: the standard output is for results; messages do not go there.
func (c *Ctx) onlyOutput(R string) {
	for _, f := range c.shipped() {
		bad := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cl, ok := in.(ssa.CallInstruction); ok {
					switch n := calleeName(cl.Common()); n {
					case "fmt.Print", "fmt.Printf", "fmt.Println":
						bad = true
						c.addViol(&Violation{Rule: R, Where: c.P.pos(in.Pos()), Fn: shortName(fnName(f)), Msg: "a message gets into the standard output"})
					}
				}
				u, ok := in.(*ssa.UnOp)
				if !ok {
					continue
				}
				if g, ok := u.X.(*ssa.Global); !ok || g.String() != "os.Stdout" {
					continue
				}
				if why := misused(u, map[ssa.Value]bool{}); why != "" {
					bad = true
					c.addViol(&Violation{Rule: R, Where: c.P.pos(u.Pos()), Fn: shortName(fnName(f)), Msg: why})
				}
			}
		}
		if !bad {
			c.okAt(R, shortName(fnName(f)))
		}
	}
}

// misused: what is wrong with a use of the standard output.
func misused(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] || v.Referrers() == nil {
		return ""
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.MakeInterface:
			if w := misused(x, seen); w != "" {
				return w
			}
		case *ssa.ChangeInterface:
			if w := misused(x, seen); w != "" {
				return w
			}
		case *ssa.Phi:
			if w := misused(x, seen); w != "" {
				return w
			}
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && x.Val == v {
				if s, ok := pointee(fa.X.Type()).Underlying().(*types.Struct); ok && (s.Field(fa.Field).Name() == "Stdout" || s.Field(fa.Field).Name() == "Stderr") {
					return "what another program prints gets into the standard output"
				}
			}
			if g, ok := x.Addr.(*ssa.Global); ok && g.String() == "os.Stderr" {
				return "messages get into the standard output"
			}
		case ssa.CallInstruction:
			switch n := calleeName(x.Common()); {
			case strings.HasPrefix(n, "fmt.Fprint"), strings.HasPrefix(n, "log."), strings.HasPrefix(n, "(*log.Logger)"), strings.Contains(n, "dlog."), strings.Contains(n, "logrus."):
				return "messages get into the standard output"
			}
		}
	}
	return ""
}
