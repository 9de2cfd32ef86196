package main

// ocibuild layer gobuild, and comparing layers.

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	nLayerFromGo = modPath + "/pkg/gobuild.LayerFromGo"
	nEqualLayers = modPath + "/pkg/fsutil.LayersEqualExceptTimestamps"
)

// runsCommand: the call runs the external command that is its first argument.
func runsCommand(n string) bool {
	i := strings.Index(n, "exec.Cmd).")
	if i < 0 {
		return false
	}
	switch n[i+len("exec.Cmd)."):] {
	case "Run", "Start", "Output", "CombinedOutput":
		return true
	}
	return false
}

// argList: the elements of a list of strings; lists whose elements are not known stand for themselves.
func argList(e *Eng, st *State, l *Term) []*Term {
	switch {
	case l == nil || l.isNil():
		return nil
	case l.Op == "append":
		var r []*Term
		for _, a := range l.Args {
			r = append(r, argList(e, st, a)...)
		}
		return r
	case l.Op == "list":
		return append([]*Term{}, l.Args...)
	case l.Op == "subslice":
		if lo, ok := l.Args[1].intv(); ok && len(l.Args) == 3 && strings.Contains(l.Args[2].String(), "none") {
			r := argList(e, st, l.Args[0])
			if int(lo) <= len(r) {
				return r[lo:]
			}
		}
	}
	if es, ok := e.elems(st, l); ok {
		return es
	}
	return []*Term{l}
}

// commandOf: the name and the arguments of a command.
func commandOf(e *Eng, st *State, cmd *Term) (name *Term, args []*Term) {
	n := cmd.siteName()
	a := cmd.Args
	if n == "" {
		n, a = calleeOf(cmd)
	}
	switch {
	case strings.HasSuffix(n, "exec.CommandContext") && len(a) == 3:
		name, args = a[1], argList(e, st, a[2])
	case strings.HasSuffix(n, "exec.Command") && len(a) == 2:
		name, args = a[0], argList(e, st, a[1])
	default:
		return nil, nil
	}
	if name.Op == "idx" {
		if i, ok := name.Args[1].intv(); ok {
			if l := argList(e, st, name.Args[0]); int(i) < len(l) {
				name = l[i]
			}
		}
	}
	return name, args
}

func ruleC30(c *Ctx) {
	c.rule("C30.command", "go build is run once, with -trimpath and -o naming a fresh directory, and all packages after --", 1)
	c.rule("C30.env", "the command runs in the environment of the caller, except that it builds for linux and amd64", 1)
	c.rule("C30.stdout", "what the command prints does not get into the standard output", 1)
	c.rule("C30.layer", "the layer is that of the directory that was built to, below /usr/local/bin and owned by root", 1)
	c.rule("C30.args", "the layer written is built from the packages that are named, at the time of the build", 1)
	c.rule("C30.keep", "the output file is left alone exactly if it holds the same layer except for timestamps, and is replaced only if it is known to hold another or not to exist", 2)
	c.rule("C30.replace", "the file written to is empty at first", 1)
	c.rule("C30.write", "the whole layer is written, to the output file if one is named and to the standard output if not", 2)
	fn := c.P.fn("pkg/gobuild", "LayerFromGo")
	if fn == nil {
		c.missing("C30.command", "the function that builds a layer of Go programs")
		return
	}
	c.layerFromGo(fn)
	found := false
	for _, f := range c.P.cmdFns() {
		if c.P.reachesAny(f, nLayerFromGo) {
			found = true
			c.gobuildCmd(f)
		}
	}
	if !found {
		c.missing("C30.keep", "the command that builds a layer of Go programs")
	}
	if w := c.P.fn("pkg/fsutil", "WriteLayer"); w == nil {
		c.missing("C30.write", "the function that writes layers")
	} else {
		c.writeLayer("C30.write", w)
	}
}

func init() { propRules["C30"] = ruleC30 }

func (c *Ctx) layerFromGo(fn *ssa.Function) {
	clamp := paramOfType(fn, isTime)
	var pkgs *Term
	for _, p := range fn.Params {
		if p.Type().String() == "[]string" {
			pkgs = symParam(p)
		}
	}
	if clamp == nil || pkgs == nil {
		c.missing("C30.command", "the parameters of LayerFromGo")
		return
	}
	fresh := func(st *State, t *Term) bool {
		s := given(st, t, "os.MkdirTemp")
		if s == nil {
			s = given(st, t, "ioutil.TempDir")
		}
		return s != nil
	}
	exits := c.run("C30.command", fn, nil, func(e *Eng, st *State) {
		e.mergeAt = 3000
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			if runsCommand(ev.Name) && len(ev.Args) > 0 {
				c.goCommand(e, st, ev, pkgs, fresh)
				if st.Marked("ran") {
					c.fail(e, st, "C30.command", ev.Instr, "a command may be run more than once")
				}
				st.SetMark("ran", tTrue)
			}
			if strings.HasSuffix(ev.Name, "/dir.LayerFromDir") && len(ev.Args) >= 4 {
				dir := ev.Args[0]
				pfx := pointee(ev.Args[1].T)
				own := pointee(ev.Args[2].T)
				bad := ""
				switch {
				case !st.Marked("ran") || !fresh(st, dir) || dir != st.Mark("out"):
					bad = "the layer may not be that of the directory that was built to"
				case ev.Args[3] != symParam(clamp):
					bad = "the layer may not be made for the time that is given"
				case pfx == nil || own == nil || ev.Args[1].isNil() || ev.Args[2].isNil():
					bad = "the programs may not be below /usr/local/bin and owned by root"
				default:
					p, o := st.load(ev.Args[1], pfx), st.load(ev.Args[2], own)
					d, _ := fieldT(p, pfx, "DirName").str()
					if strings.Trim(d, "/") != "usr/local/bin" || !ownedByRoot(o) || !ownedByRoot(fieldT(p, pfx, "Ownership")) {
						bad = "the programs may not be below /usr/local/bin and owned by root"
					}
					if m := fieldT(p, pfx, "Mode"); m != tZero && m != mkInt(0o755) {
						bad = "the directories above the programs may not have mode 0755"
					}
				}
				if bad != "" {
					c.fail(e, st, "C30.layer", ev.Instr, "%s", bad)
				} else {
					c.ok(e, "C30.layer", ev.Instr, "")
				}
			}
		}
	})
	for _, x := range exits {
		if x.kind != 0 || errState(x.st, x.res[1]) == no {
			continue
		}
		s, i := unbox(x.res[0]).siteOf()
		if s == nil || i != 0 || !strings.HasSuffix(unbox(x.res[0]).siteName(), "/dir.LayerFromDir") {
			c.failAt("C30.layer", x.pos, fn, "what is returned may not be the layer of the directory that was built to", x.st)
		}
	}
}

func ownedByRoot(o *Term) bool {
	if o == nil || o.T == nil {
		return false
	}
	u, _ := fieldT(o, o.T, "UName").str()
	g, _ := fieldT(o, o.T, "GName").str()
	return fieldT(o, o.T, "UID") == tZero && fieldT(o, o.T, "GID") == tZero && u == "root" && g == "root"
}

// cmdField: the value of a field of a command (which may be that of the command it wraps).
func cmdField(st *State, cmd *Term, name string) *Term {
	for {
		ct := pointee(cmd.T)
		if ct == nil {
			return nil
		}
		if hasField(ct, name) {
			return fieldOf(st, cmd, ct, name)
		}
		if !hasField(ct, "Cmd") {
			return nil
		}
		cmd = fieldOf(st, cmd, ct, "Cmd")
	}
}

// goCommand decides the run of the go command.
func (c *Ctx) goCommand(e *Eng, st *State, ev *CallEvent, pkgs *Term, fresh func(*State, *Term) bool) {
	cmd := ev.Args[0]
	name, args := commandOf(e, st, cmd)
	bad := ""
	if n, _ := name.strOr(); n != "go" || len(args) == 0 || args[0] != mkStr("build") {
		bad = "the command may not be go build"
	}
	var out *Term
	trim, sep := false, -1
	for i := 1; i < len(args) && sep < 0; i++ {
		s, ok := args[i].str()
		switch {
		case ok && s == "--":
			sep = i
		case ok && s == "-trimpath":
			trim = true
		case ok && s == "-o" && i+1 < len(args):
			i++
			out = args[i]
		case ok && strings.HasPrefix(s, "-"):
		default:
			if bad == "" {
				bad = "an argument before -- may not be a flag: " + args[i].show(4)
			}
		}
	}
	switch {
	case bad != "":
	case sep < 0:
		bad = "packages may be taken for flags"
	case !trim:
		bad = "the programs may depend on the directory that they are built in"
	case out == nil || !fresh(st, out):
		bad = "the output may not go to a fresh directory"
	case len(args) != sep+2 || args[sep+1] != pkgs:
		bad = "what is built may not be all the packages that are named, and only these"
	}
	st.SetMark("out", out)
	if bad != "" {
		c.fail(e, st, "C30.command", ev.Instr, "%s", bad)
	} else {
		c.ok(e, "C30.command", ev.Instr, "")
	}
	// environment: the last setting of a variable counts
	env := argList(e, st, cmdField(st, cmd, "Env"))
	all, last := false, map[string]string{}
	for _, v := range env {
		if v.isCall("os.Environ") || v.siteName() == "os.Environ" {
			all, last = true, map[string]string{}
			continue
		}
		s, ok := v.str()
		if i := strings.Index(s, "="); ok && i > 0 {
			last[s[:i]] = s[i+1:]
		} else {
			last["?"] = v.show(4)
		}
	}
	if d := cmdField(st, cmd, "Dir"); d != nil && d != tEmpty && d.Op != "fld" {
		c.fail(e, st, "C30.env", ev.Instr, "the command may run in another directory, where the packages that are named may be others")
		return
	}
	if all && len(last) == 2 && last["GOOS"] == "linux" && last["GOARCH"] == "amd64" {
		c.ok(e, "C30.env", ev.Instr, "")
	} else {
		c.fail(e, st, "C30.env", ev.Instr, "the environment may not be that of the caller with GOOS=linux and GOARCH=amd64: %v %v", all, last)
	}
	out = cmdField(st, cmd, "Stdout")
	if out != nil && strings.Contains(out.String(), "os.Stdout") {
		c.fail(e, st, "C30.stdout", ev.Instr, "what the command prints may get in front of the layer")
	} else {
		c.ok(e, "C30.stdout", ev.Instr, "")
	}
}

// strOr: the value of a constant string; "" for anything else.
func (t *Term) strOr() (string, bool) {
	if t == nil {
		return "", false
	}
	return t.str()
}

func (c *Ctx) gobuildCmd(fn *ssa.Function) {
	args := symParam(fn.Params[1])
	isOut := func(t *Term) bool { return flagOf(t) == "output" }
	layerT := func(st *State, t *Term) bool { return given(st, t, "gobuild.LayerFromGo") != nil }
	// oldOf: the call that opens the layer in the output file
	oldOf := func(t *Term) *Term {
		if s, _ := unbox(t).siteOf(); s != nil && strings.HasSuffix(s.siteName(), "fsutil.OpenLayer") && isOut(s.Args[0]) {
			return s
		}
		return nil
	}
	_, exits := c.runCmd("C30.keep", fn, func(e *Eng, st *State) {
		e.mergeAt = 3000
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			if n, a := calleeOf(cond); n == "errors.Is" && len(a) == 2 && val && strings.HasSuffix(a[1].String(), "ErrNotExist") {
				if s := oldOf(a[0]); s != nil {
					st.SetMark("absent", tTrue)
				}
				if s, _ := unbox(a[0]).siteOf(); a[0].isCall("os.Remove") || s != nil && s.siteName() == "os.Remove" {
					st.SetMark("removed", tTrue)
				}
			}
			if cond.Op == "bin" && cond.Aux == "==" && cond.Args[1].isNil() && val {
				if n := cond.Args[0].siteName(); n == "os.Remove" || n == "os.RemoveAll" {
					st.SetMark("removed", tTrue)
				}
			}
			if s, i := cond.siteOf(); s != nil && i == 0 && s.siteName() == nEqualLayers && errOf(st, s) == yes {
				a, b := s.Args[0], s.Args[1]
				if layerT(st, b) {
					a, b = b, a
				}
				if layerT(st, a) && oldOf(b) != nil && given(st, b, "fsutil.OpenLayer") != nil {
					if val {
						st.SetMark("equal", tTrue)
					} else {
						st.SetMark("differs", tTrue)
					}
				}
			}
		}
		touch := func(e *Eng, st *State, ev *CallEvent) {
			st.SetMark("touched", tTrue)
			if (st.Marked("absent") || st.Marked("differs")) && !st.Marked("equal") {
				c.ok(e, "C30.keep", ev.Instr, "")
			} else {
				c.fail(e, st, "C30.keep", ev.Instr, "the output file may be replaced although it is not known to hold another layer")
			}
		}
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			switch {
			case ev.Name == nLayerFromGo:
				ok := len(ev.Args) >= 3 && ev.Args[2] == args && ev.Args[1].isCall(modPath+"/pkg/reproducible.Now")
				if s, _ := ev.Args[1].siteOf(); s != nil && s.siteName() == modPath+"/pkg/reproducible.Now" {
					ok = ev.Args[2] == args
				}
				if ok {
					c.ok(e, "C30.args", ev.Instr, "")
				} else {
					c.fail(e, st, "C30.args", ev.Instr, "the layer may not be built from the packages that are named, at the time of the build")
				}
			case (ev.Name == "os.Remove" || ev.Name == "os.RemoveAll" || ev.Name == "os.Truncate") && isOut(ev.Args[0]):
				touch(e, st, ev)
			case (ev.Name == "os.OpenFile" || ev.Name == "os.Create") && isOut(ev.Args[0]):
				n, known := int64(0), false
				if ev.Name == "os.OpenFile" {
					n, known = ev.Args[1].intv()
				}
				if known && n&3 == 0 {
					return // only reads
				}
				touch(e, st, ev)
				if ev.Name == "os.Create" || known && n&0o1000 != 0 || known && n&0o100 != 0 && st.Marked("removed") {
					c.ok(e, "C30.replace", ev.Instr, "")
				} else {
					c.fail(e, st, "C30.replace", ev.Instr, "what the output file held may be left behind the new layer")
				}
			case strings.HasSuffix(ev.Name, "/fsutil.WriteLayer") && len(ev.Args) == 2:
				dst := ev.Args[1]
				s := given(st, dst, "os.OpenFile")
				if s == nil {
					s = given(st, dst, "os.Create")
				}
				out := strings.Contains(dst.String(), "os.Stdout") || strings.Contains(dst.String(), "OutOrStdout")
				switch {
				case !layerT(st, ev.Args[0]):
					c.fail(e, st, "C30.write", ev.Instr, "what is written may not be the layer that was built")
				case s != nil && isOut(s.Args[0]) && flagGiven(st, "output") != no:
					c.ok(e, "C30.write", ev.Instr, "file")
				case out && flagGiven(st, "output") == no:
					c.ok(e, "C30.write", ev.Instr, "stdout")
				default:
					c.fail(e, st, "C30.write", ev.Instr, "the layer may not be written where it is asked for")
				}
				st.SetMark("written", tTrue)
			}
		}
	})
	for _, x := range exits {
		if x.kind != 0 || errState(x.st, x.res[0]) == no {
			continue
		}
		switch {
		case x.st.Marked("equal") && !x.st.Marked("touched"), x.st.Marked("written"):
			c.okAt("C30.keep", "success, written "+mkBool(x.st.Marked("written")).Aux)
		default:
			c.failAt("C30.keep", x.pos, fn, "success may be reported although the layer was not written and the output file is not known to hold it", x.st)
		}
	}
}

// writeLayer: success means that the whole layer was copied.
func (c *Ctx) writeLayer(R string, fn *ssa.Function) {
	layer, dst := symParam(fn.Params[0]), symParam(fn.Params[1])
	exits := c.run(R, fn, nil, func(e *Eng, st *State) {
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			if cond.Op != "bin" || cond.Aux != "==" || !cond.Args[1].isNil() || !val {
				return
			}
			if s, i := cond.Args[0].siteOf(); s != nil && i == 1 && (s.siteName() == "io.Copy" || s.siteName() == "io.CopyBuffer") {
				src := given(st, s.Args[1], "Layer).Uncompressed")
				if unbox(s.Args[0]) == dst && src != nil && src.Args[0] == layer {
					st.SetMark("copied", tTrue)
				}
			}
		}
	})
	for _, x := range exits {
		if x.kind != 0 || errState(x.st, x.res[0]) == no {
			continue
		}
		copied := x.st.Marked("copied")
		if s, i := x.res[0].siteOf(); s != nil && i == 1 && s.siteName() == "io.Copy" {
			copied = unbox(s.Args[0]) == dst
		}
		if copied {
			c.okAt(R, "copied")
		} else {
			c.failAt(R, x.pos, fn, "success may be reported although not all of the layer was written", x.st)
		}
	}
}
