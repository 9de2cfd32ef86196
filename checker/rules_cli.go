package main

// The command line: what is accepted, and what happens with what is not.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	cobraPkg   = "github.com/spf13/cobra"
	cobraCmd   = "(*" + cobraPkg + ".Command)."
	cliutilPkg = modPath + "/pkg/cliutil"
	flagSet    = "(*github.com/spf13/pflag.FlagSet)."
)

func ruleC37(c *Ctx) {
	c.rule("C37.error", "a usage error ends the program with status 2 and a message on the standard error, and nothing else does", 2)
	c.rule("C37.wrap", "what a validator of arguments objects to is a usage error, and nothing else is", 2)
	c.rule("C37.group", "a command that only has subcommands accepts nothing else, and fails when it is run", 2)
	c.rule("C37.commands", "every command can be reached, checks its arguments and reports failures", 9)
	c.rule("C37.args", "every argument that is accepted is used, and none is used that need not be there", 7)
	c.rule("C37.flags", "every flag has a variable of its own, which is used", 10)
	c.cliFlagError()
	c.cliWrap()
	c.cliOnly()
	c.cliRun()
	c.cliCommands()
}

func init() { propRules["C37"] = ruleC37 }

// isStderr: t is where errors go.
func isStderr(t *Term) bool {
	t = unbox(t)
	if n, _ := calleeOf(t); n == cobraCmd+"ErrOrStderr" {
		return true
	}
	return t.String() == "os.Stderr" || t.String() == "*os.Stderr"
}

// printsTo: where the call writes to, if it does.
func printsTo(ev *CallEvent) (*Term, bool) {
	switch ev.Name {
	case "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint", "io.WriteString", "io.Copy":
		return ev.Args[0], true
	case "fmt.Printf", "fmt.Println", "fmt.Print", cobraCmd + "OutOrStdout":
		return mkStr("standard output"), true
	}
	if isStdoutWrite(ev) {
		return mkStr("standard output"), true
	}
	return nil, false
}

func exitCode(x exit) (int64, bool) {
	if x.code == nil {
		return 0, false
	}
	return x.code.intv()
}

func (c *Ctx) cliFlagError() {
	const R = "C37.error"
	fn := c.P.fn("pkg/cliutil", "FlagErrorFunc")
	if fn == nil {
		c.missing(R, "FlagErrorFunc")
		return
	}
	args := symParams(fn)
	c.runThen(R, fn, args, func(e *Eng, st *State) {
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			w, ok := printsTo(ev)
			switch {
			case !ok:
			case !isStderr(w):
				c.fail(e, st, R, ev.Instr, "a usage error may be reported elsewhere than on the standard error")
			default:
				for _, a := range ev.Args[1:] {
					if a.any(func(t *Term) bool { return t == args[1] }) {
						st.SetMark("said", tTrue)
					}
				}
			}
		}
	}, func(e *Eng, exits []exit) []exit {
		for _, x := range exits {
			bad := ""
			null := x.st.decide(mkEq(args[1], tNil))
			code, ok := exitCode(x)
			switch {
			case x.kind == exitRet && (null != yes || x.res[0] != tNil):
				bad = "a usage error may not end the program"
			case x.kind == exitRet:
			case x.kind == exitPanic:
				bad = "a usage error may cause a panic"
			case null != no:
				bad = "the program may end although there is no error"
			case !ok || code != 2:
				bad = "the status after a usage error may not be 2"
			case !x.st.Marked("said"):
				bad = "a usage error may not be reported"
			}
			if bad != "" {
				c.failAt(R, x.pos, fn, bad, x.st)
			} else {
				c.okAt(R, "error "+mkBool(null == no).Aux)
			}
		}
		return exits
	})
}

func (c *Ctx) cliWrap() {
	const R = "C37.wrap"
	fn := c.P.fn("pkg/cliutil", "WrapPositionalArgs")
	if fn == nil {
		c.missing(R, "WrapPositionalArgs")
		return
	}
	inner := symParams(fn)[0]
	c.runThen(R, fn, []*Term{inner}, nil, func(e *Eng, exits []exit) []exit {
		for _, x := range exits {
			if x.kind != exitRet {
				continue
			}
			f := unbox(x.res[0])
			if f.Op != "closure" && f.Op != "fn" {
				c.failAt(R, fn.Pos(), fn, "what is returned is not a function of its own", x.st)
				continue
			}
			cmd, as := symParam(f.Fn.Params[0]), symParam(f.Fn.Params[1])
			e.hooks = Hooks{}
			e.hooks.Post = func(e *Eng, st *State, ev *CallEvent) {
				if len(ev.Args) == 2 && ev.Res != nil && ev.Callee == inner {
					if ev.Args[0] != cmd || ev.Args[1] != as {
						c.fail(e, st, R, ev.Instr, "the validator may be given other arguments")
					}
					st.SetMark("inner", ev.Res)
				}
			}
			for _, y := range e.runFn(f.Fn, "A;", []*Term{cmd, as}, f.Args, x.st.clone()) {
				bad := ""
				in := y.st.Mark("inner")
				code, _ := exitCode(y)
				switch {
				case in == nil:
					bad = "the arguments may not be validated"
				case y.kind == exitRet && y.st.decide(mkEq(in, tNil)) != yes:
					bad = "an objection to the arguments may not be a usage error"
				case y.kind == exitRet && errState(y.st, y.res[0]) != yes:
					bad = "arguments that are valid may be rejected"
				case y.kind == exitRet:
				case y.st.decide(mkEq(in, tNil)) != no:
					bad = "arguments that are valid may be rejected"
				case code != 2:
					bad = "an objection to the arguments may not be a usage error"
				}
				if bad != "" {
					c.failAt(R, y.pos, f.Fn, bad, y.st)
				} else {
					c.okAt(R, "valid "+mkBool(y.kind == exitRet).Aux)
				}
			}
		}
		return exits
	})
}

func (c *Ctx) cliOnly() {
	const R = "C37.group"
	fn := c.P.fn("pkg/cliutil", "OnlySubcommands")
	if fn == nil {
		c.missing(R, "OnlySubcommands")
		return
	}
	args := symParams(fn)
	empty := mkEq(mkCall("len", types.Typ[types.Int], args[1]), mkInt(0))
	for _, x := range c.run(R, fn, args, nil) {
		bad := ""
		none := x.st.decide(empty)
		code, _ := exitCode(x)
		usage := x.kind != exitRet && code == 2
		if x.kind == exitRet {
			n, a := calleeOf(x.res[0])
			usage = n == "dyncall" && len(a) == 2 && x.st.nonNil(a[1]) || errState(x.st, x.res[0]) == no
			if n == "dyncall" && len(a) == 2 {
				if m, _ := calleeOf(a[1]); m == "fmt.Errorf" || m == "errors.New" {
					usage = true
				}
			}
		}
		switch {
		case none == unknown:
			bad = "a word that is no subcommand may be treated like no word at all"
		case none == yes && (x.kind != exitRet || x.res[0] != tNil):
			bad = "the command may be rejected although there is no other word"
		case none == no && !usage:
			bad = "a word that is no subcommand may be accepted"
		}
		if bad != "" {
			c.failAt(R, x.pos, fn, bad, x.st)
		} else {
			c.okAt(R, "words "+mkBool(none == no).Aux)
		}
	}
}

func (c *Ctx) cliRun() {
	const R = "C37.group"
	fn := c.P.fn("pkg/cliutil", "RunSubcommands")
	if fn == nil {
		c.missing(R, "RunSubcommands")
		return
	}
	exits := c.run(R, fn, nil, func(e *Eng, st *State) {
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			help := false
			switch ev.Name {
			case cobraCmd + "SetOutput", cobraCmd + "SetOut":
				if isStderr(ev.Args[1]) {
					st.SetMark("stderr", tTrue)
				} else {
					st.ClearMark("stderr")
				}
			case cobraCmd + "HelpFunc", cobraCmd + "Help":
				help = true
			case cobraCmd + "Usage", cobraCmd + "UsageFunc":
				st.SetMark("help", tTrue)
			}
			if w, ok := printsTo(ev); ok {
				if !isStderr(w) {
					c.fail(e, st, R, ev.Instr, "the help may be printed elsewhere than on the standard error")
				}
				st.SetMark("help", tTrue)
			}
			if help {
				if !st.Marked("stderr") {
					c.fail(e, st, R, ev.Instr, "the help may be printed elsewhere than on the standard error")
				}
				st.SetMark("help", tTrue)
			}
		}
	})
	for _, x := range exits {
		bad := ""
		code, ok := exitCode(x)
		switch {
		case x.kind == exitRet && errState(x.st, x.res[0]) != no:
			bad = "a command without a subcommand may succeed"
		case x.kind == exitRet:
		case x.kind != exitPanic && (!ok || code == 0):
			bad = "a command without a subcommand may succeed"
		case !x.st.Marked("help"):
			bad = "a command without a subcommand may end without the help"
		}
		if bad != "" {
			c.failAt(R, x.pos, fn, bad, x.st)
		} else {
			c.okAt(R, "run")
		}
	}
}

// a command that has been found.
type cliCmd struct {
	obj, parent *Term
	args, runE  *Term
	run         *Term
	fn          *ssa.Function // that adds it
	inner       *Term
	silent      bool
	use         string
	group       bool
}

func (c *Ctx) cliCommands() {
	const R = "C37.commands"
	cmds := map[*Term]*cliCmd{}
	parents := map[*Term]*cliCmd{}
	var order []*cliCmd
	type flag struct {
		name string
		ptr  *Term
		fn   *ssa.Function
		pos  token.Pos
	}
	var flags []flag
	usage := map[*Term]bool{} // flag errors are usage errors
	for _, f := range c.P.fns {
		if pkgDir(f) != "" || !strings.HasPrefix(f.Name(), "init#") || f.Parent() != nil {
			continue
		}
		f := f
		c.runThen(R, f, nil, func(e *Eng, st *State) {
			e.hooks.Model = func(e *Eng, st *State, ev *CallEvent) ([]callOut, bool) {
				if strings.HasPrefix(ev.Name, cobraCmd) || strings.HasPrefix(ev.Name, cliutilPkg+".") || strings.HasPrefix(ev.Name, flagSet) {
					var t types.Type
					if v, ok := ev.Instr.(ssa.Value); ok {
						t = v.Type()
					}
					return []callOut{{st, mkCall(ev.Name, t, ev.Args...)}}, true
				}
				return nil, false
			}
			e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
				switch {
				case ev.Name == cobraCmd+"AddCommand":
					for _, x := range argList(e, st, ev.Args[1]) {
						if x.Op == "iface" {
							x = x.Args[0]
						}
						if cmds[x] == nil {
							cmds[x] = &cliCmd{obj: x, fn: f}
							order = append(order, cmds[x])
						}
						cmds[x].parent = ev.Args[0]
						st.SetMark("cmd:"+itoa(int(x.ID)), x)
						if parents[ev.Args[0]] == nil {
							parents[ev.Args[0]] = &cliCmd{obj: ev.Args[0], fn: f}
						}
					}
				case ev.Name == cobraCmd+"SetFlagErrorFunc":
					if g := unbox(ev.Args[1]); g.Op == "fn" && fnName(g.Fn) == cliutilPkg+".FlagErrorFunc" {
						usage[ev.Args[0]] = true
					}
				case strings.HasPrefix(ev.Name, flagSet) && (strings.HasSuffix(ev.Name, "Var") || strings.HasSuffix(ev.Name, "VarP")) && len(ev.Args) >= 3:
					if nm, ok := ev.Args[2].str(); ok {
						p := ev.Args[1]
						if p.Op == "iface" {
							p = p.Args[0]
						}
						flags = append(flags, flag{nm, p, f, ev.Pos})
					}
				}
			}
		}, func(e *Eng, exits []exit) []exit {
			for _, x := range exits {
				if x.kind != exitRet {
					continue
				}
				get := func(cm *cliCmd) {
					p := cm.obj
					t := pointee(p.T)
					if t == nil {
						return
					}
					cm.args, cm.runE, cm.run = x.st.resolve(fieldOf(x.st, p, t, "Args")), x.st.resolve(fieldOf(x.st, p, t, "RunE")), x.st.resolve(fieldOf(x.st, p, t, "Run"))
					cm.use, _ = x.st.resolve(fieldOf(x.st, p, t, "Use")).str()
					cm.silent = x.st.resolve(fieldOf(x.st, p, t, "SilenceErrors")) == tTrue
					cm.inner = validator(x.st, cm.args)
				}
				for _, cm := range cmds {
					if cm.fn == f {
						get(cm)
					}
				}
				for _, cm := range parents {
					if cm.fn == f {
						get(cm)
					}
				}
			}
			return exits
		})
	}
	// the tree
	var root *cliCmd
	for _, p := range parents {
		if cmds[p.obj] == nil {
			if root != nil {
				c.addViol(&Violation{Rule: R, Where: c.P.pos(p.fn.Pos()), Fn: shortName(fnName(p.fn)), Msg: "there may be commands that do not belong to the program"})
			}
			root = p
		} else {
			cmds[p.obj].group = true
		}
	}
	if root == nil {
		c.missing(R, "the tree of commands")
		return
	}
	root.group = true
	if usage[root.obj] {
		c.okAt(R, "flag errors")
	} else {
		c.addViol(&Violation{Rule: R, Where: c.P.pos(root.fn.Pos()), Fn: shortName(fnName(root.fn)), Msg: "a flag that is wrong may not be reported as a usage error"})
	}
	c.cliMain(root.silent)
	made := 0
	for _, f := range c.P.fns {
		if pkgDir(f) != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok && isNamed(pointee(al.Type()), cobraPkg, "Command") {
					made++
				}
			}
		}
	}
	if ini := c.P.fn("", "init"); ini != nil && len(c.P.fns) > 0 {
		known := false
		for _, f := range c.P.fns {
			known = known || f == ini
		}
		if !known {
			for _, b := range ini.Blocks {
				for _, in := range b.Instrs {
					if al, ok := in.(*ssa.Alloc); ok && isNamed(pointee(al.Type()), cobraPkg, "Command") {
						made++
					}
				}
			}
		}
	}
	if made > len(cmds)+1 {
		c.addViol(&Violation{Rule: R, Where: "?", Msg: "a command may never be added to the program"})
	}
	for _, cm := range append(order, root) {
		if p := parents[cm.obj]; p != nil && p != cm && cm.runE == nil {
			cm.args, cm.inner, cm.runE, cm.run, cm.use = p.args, p.inner, p.runE, p.run, p.use
		}
		c.cliCommand(cm)
	}
	// flags
	const F = "C37.flags"
	seen := map[string]string{}
	byFn := map[*ssa.Function]map[string]token.Pos{}
	for _, fl := range flags {
		k := shortName(fnName(fl.fn)) + c.P.pos(fl.fn.Pos()) + fl.ptr.String() + itoa(fl.ptr.ID)
		if o := seen[k]; o != "" && o != fl.name {
			c.addViol(&Violation{Rule: F, Where: c.P.pos(fl.pos), Fn: shortName(fnName(fl.fn)), Msg: "--" + fl.name + " may overwrite what --" + o + " says"})
		}
		seen[k] = fl.name
		if byFn[fl.fn] == nil {
			byFn[fl.fn] = map[string]token.Pos{}
		}
		byFn[fl.fn][fl.name] = fl.pos
	}
	for _, cm := range order {
		want := byFn[cm.fn]
		if len(want) == 0 || cm.runE == nil || cm.runE.Op != "closure" && cm.runE.Op != "fn" {
			continue
		}
		used := map[string]bool{}
		note := func(t *Term) {
			if t == nil {
				return
			}
			t.any(func(t *Term) bool {
				if n := flagOf(t); n != "" {
					used[n] = true
				}
				return false
			})
		}
		c.runCmd(F, cm.runE.Fn, func(e *Eng, st *State) {
			e.hooks.Load = func(e *Eng, st *State, fr *frame, addr *Term, in ssa.Instruction) {
				if t := pointee(addr.T); t != nil {
					note(st.load(addr, t))
				}
			}
			e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
				for _, a := range ev.Args {
					note(a)
					if t := pointee(a.T); t != nil {
						note(st.load(a, t))
					}
				}
			}
		})
		for n, pos := range want {
			if used[n] {
				c.okAt(F, n+" of "+c.P.pos(pos))
			} else {
				c.addViol(&Violation{Rule: F, Where: c.P.pos(pos), Fn: shortName(fnName(cm.fn)), Msg: "--" + n + " has no effect"})
			}
		}
	}
}

// validator: the function that judges the arguments, if what it objects to is a usage error.
func validator(st *State, t *Term) *Term {
	switch {
	case t == nil:
		return nil
	case t.isCall(cliutilPkg + ".WrapPositionalArgs"):
		return t.Args[0]
	case t.Op == "closure" && t.Fn.Parent() != nil && fnName(t.Fn.Parent()) == cliutilPkg+".WrapPositionalArgs" && len(t.Args) == 1:
		if p := pointee(t.Args[0].T); p != nil && (t.Args[0].Op == "alloc" || t.Args[0].Op == "new") {
			return st.resolve(st.load(t.Args[0], p))
		}
		return t.Args[0]
	case t.Op == "fn" && fnName(t.Fn) == cliutilPkg+".OnlySubcommands":
		return t
	}
	return nil
}

// arity: how many arguments are accepted (max -1: any number); ok is false if that is unknown.
func arity(t *Term) (min, max int64, ok bool) {
	n := ""
	var a []*Term
	if t.Op == "fn" || t.Op == "closure" {
		n = fnName(t.Fn)
	} else {
		n, a = calleeOf(t)
	}
	arg := func(i int) int64 {
		if i >= len(a) {
			ok = false
			return 0
		}
		v, o := a[i].intv()
		ok = ok && o
		return v
	}
	ok = true
	switch n {
	case cobraPkg + ".NoArgs", cliutilPkg + ".OnlySubcommands":
		return 0, 0, true
	case cobraPkg + ".ArbitraryArgs":
		return 0, -1, true
	case cobraPkg + ".ExactArgs":
		v := arg(0)
		return v, v, ok
	case cobraPkg + ".MinimumNArgs":
		return arg(0), -1, ok
	case cobraPkg + ".MaximumNArgs":
		return 0, arg(0), ok
	case cobraPkg + ".RangeArgs":
		return arg(0), arg(1), ok
	}
	return 0, 0, false
}

func (c *Ctx) cliCommand(cm *cliCmd) {
	const R = "C37.commands"
	where, fname := c.P.pos(cm.fn.Pos()), shortName(fnName(cm.fn))
	fail := func(rule, msg string) {
		c.addViol(&Violation{Rule: rule, Where: where, Fn: fname, Msg: msg})
	}
	isNil := func(t *Term) bool { return t == nil || t.isNil() }
	if !isNil(cm.runE) && cm.runE.Fn != nil {
		where, fname = c.P.pos(cm.runE.Fn.Pos()), shortName(fnName(cm.runE.Fn))
	}
	v := cm.inner
	var custom bool
	if v == nil && cm.args != nil && (cm.args.Op == "fn" || cm.args.Op == "closure") && len(cm.args.Fn.Blocks) > 0 && inRepo(cm.args.Fn) {
		custom = c.usageOnly(cm.args)
	}
	switch {
	case v == nil && !custom:
		fail(R, "arguments may be accepted that make no sense, or be rejected otherwise than as a usage error")
	case isNil(cm.runE):
		fail(R, "the command may do nothing, or can not report a failure")
	case cm.group && !custom && func() bool { _, max, ok := arity(v); return !ok || max != 0 }():
		fail(R, "a word that is no subcommand may be accepted")
	default:
		c.okAt(R, fname+cm.obj.String()+itoa(cm.obj.ID))
	}
	if cm.group || v == nil || isNil(cm.runE) || cm.runE.Fn == nil || len(cm.runE.Fn.Params) < 2 {
		return
	}
	// arguments
	const A = "C37.args"
	min, max, ok := arity(v)
	if !ok {
		return
	}
	u := &argUse{idx: map[int64]bool{}, from: -1, seen: map[ssa.Value]bool{}}
	u.value(cm.runE.Fn.Params[len(cm.runE.Fn.Params)-1], 0)
	bad := ""
	for k := range u.idx {
		if k >= min && !u.len {
			bad = "argument " + itoa(int(k)) + " may be used although it is not there"
		}
		if max >= 0 && k >= max {
			bad = "argument " + itoa(int(k)) + " is used but can not be given"
		}
	}
	whole := func(k int64) bool { return u.from >= 0 && k >= u.from }
	if max < 0 {
		if u.from < 0 && !u.loop {
			bad = "arguments may be given that are ignored"
		}
	} else {
		for k := int64(0); k < max; k++ {
			if !u.idx[k] && !whole(k) && !u.loop {
				bad = "argument " + itoa(int(k)) + " may be given but is ignored"
			}
		}
	}
	need, many, words := int64(0), false, int64(0)
	for i, w := range strings.Fields(cm.use) { // what the usage says
		switch {
		case i == 0, w == "[flags]", strings.HasPrefix(w, ">"), strings.HasPrefix(w, "<"), strings.HasPrefix(w, "{"):
			continue
		case !strings.HasPrefix(w, "["):
			need++
		}
		words++
		many = many || strings.Contains(w, "...")
	}
	switch {
	case bad != "" || cm.use == "":
	case many && max >= 0:
		bad = "fewer arguments may be accepted than the usage says"
	case !many && (max < 0 || max > words):
		bad = "more arguments may be accepted than the usage says"
	case !many && max < words:
		bad = "fewer arguments may be accepted than the usage says"
	case min < need:
		bad = "fewer arguments may be needed than the usage says"
	}
	if bad != "" {
		fail(A, bad)
	} else {
		c.okAt(A, fname)
	}
}

// usageOnly: the validator itself ends the program with status 2 if it objects.
func (c *Ctx) usageOnly(t *Term) bool {
	exits := c.run("C37.commands", t.Fn, nil, nil)
	exit2 := false
	for _, x := range exits {
		switch x.kind {
		case exitRet:
			if errState(x.st, x.res[0]) != yes {
				return false
			}
		case exitOS:
			if k, ok := exitCode(x); !ok || k != 2 {
				return false
			}
			exit2 = true
		}
	}
	return exit2
}

// argUse: how a function uses its list of arguments.
type argUse struct {
	idx  map[int64]bool // elements
	from int64          // all elements from this one on (-1: not)
	loop bool           // an element that is not a constant one
	len  bool           // their number
	seen map[ssa.Value]bool
}

func (u *argUse) value(v ssa.Value, off int64) {
	if u.seen[v] || v.Referrers() == nil {
		return
	}
	u.seen[v] = true
	all := func() {
		if u.from < 0 || off < u.from {
			u.from = off
		}
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			if k, ok := x.Index.(*ssa.Const); ok {
				n, _ := constant.Int64Val(k.Value)
				u.idx[n+off] = true
			} else {
				u.loop = true
			}
		case *ssa.Slice:
			n := int64(0)
			if x.Low != nil {
				k, ok := x.Low.(*ssa.Const)
				if !ok {
					all()
					continue
				}
				n, _ = constant.Int64Val(k.Value)
			}
			u.value(x, off+n)
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			if al, ok := x.Addr.(*ssa.Alloc); ok {
				u.cell(al, off)
			} else {
				all()
			}
		case *ssa.Phi:
			u.value(x, off)
		case ssa.CallInstruction:
			if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "len" {
				u.len = true
				continue
			}
			g := x.Common().StaticCallee()
			if g != nil && inRepo(g) && len(g.Blocks) > 0 && pkgDir(g) == "" {
				for i, a := range x.Common().Args {
					if a == v && i < len(g.Params) {
						u.value(g.Params[i], off)
					}
				}
				continue
			}
			all()
		case *ssa.DebugRef:
		default:
			all()
		}
	}
}

// cell: a variable that holds the list.
func (u *argUse) cell(p ssa.Value, off int64) {
	if u.seen[p] || p.Referrers() == nil {
		return
	}
	u.seen[p] = true
	for _, r := range *p.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			u.value(x, off)
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == p && i < len(f.FreeVars) {
					u.cell(f.FreeVars[i], off)
				}
			}
		}
	}
}

// cliMain: the program says why it failed.
func (c *Ctx) cliMain(silent bool) {
	const R = "C37.error"
	fn := c.P.fn("", "main")
	if fn == nil {
		c.missing(R, "main.main")
		return
	}
	for _, x := range c.run(R, fn, nil, func(e *Eng, st *State) {
		e.hooks.Post = func(e *Eng, st *State, ev *CallEvent) {
			if strings.HasPrefix(ev.Name, cobraCmd+"Execute") {
				st.SetMark("cmderr", ev.Res)
			}
		}
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			w, ok := printsTo(ev)
			err := st.Mark("cmderr")
			if !ok || err == nil {
				return
			}
			if !isStderr(w) {
				c.fail(e, st, R, ev.Instr, "a failure may be reported elsewhere than on the standard error")
			}
			for _, a := range ev.Args[1:] {
				if a.any(func(t *Term) bool { return t == err }) {
					st.SetMark("said", tTrue)
				}
			}
		}
	}) {
		err := x.st.Mark("cmderr")
		switch {
		case err == nil:
		case errState(x.st, err) == yes:
			if x.kind == exitOS {
				if k, ok := exitCode(x); !ok || k != 0 {
					c.failAt(R, x.pos, fn, "success may be reported as failure", x.st)
				}
			}
		case x.kind == exitRet || x.kind == exitOS && x.code != nil && x.st.decide(mkEq(x.code, mkInt(0))) != no:
			c.failAt(R, x.pos, fn, "failure may be reported as success", x.st)
		case silent && !x.st.Marked("said"):
			c.failAt(R, x.pos, fn, "the program may fail without saying why", x.st)
		default:
			c.okAt(R, "failure")
		}
	}
}
