package main

// The commands that make images and layers of files: ocibuild image build, and ocibuild layer gobuild.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// runCmd analyses the function of a command with what its init function has bound to it: variables that flags are stored
// to hold the values of the flags.
func (c *Ctx) runCmd(rule string, fn *ssa.Function, setup func(e *Eng, st *State)) (*Eng, []exit) {
	var eng *Eng
	if fn.Parent() == nil {
		return eng, c.run(rule, fn, nil, func(e *Eng, st *State) {
			eng = e
			setup(e, st)
		})
	}
	return eng, c.runThen(rule, fn.Parent(), nil, func(e *Eng, st *State) {
		eng = e
		e.hooks.Model = func(e *Eng, st *State, ev *CallEvent) ([]callOut, bool) {
			if strings.HasPrefix(ev.Name, "(*github.com/spf13/cobra.Command).") || strings.HasPrefix(ev.Name, modPath+"/pkg/cliutil.") {
				var t types.Type
				if v, ok := ev.Instr.(ssa.Value); ok {
					t = v.Type()
				}
				return []callOut{{st, mkCall(ev.Name, t, ev.Args...)}}, true
			}
			return nil, false
		}
		e.hooks.Store = func(e *Eng, st *State, fr *frame, addr, v *Term, in ssa.Instruction) {
			if (v.Op == "closure" || v.Op == "fn") && v.Fn == fn {
				st.SetMark("cmd", v)
			}
		}
	}, func(e *Eng, exits []exit) []exit {
		e.hooks = Hooks{}
		var out []exit
		for _, x := range exits {
			h := x.st.Mark("cmd")
			if x.kind != exitRet || h == nil {
				continue
			}
			st := x.st.clone()
			setup(e, st)
			out = append(out, e.runFn(fn, "H;", symParams(fn), h.Args, st)...)
		}
		return out
	})
}

const (
	ggcr        = "github.com/google/go-containerregistry/pkg/v1"
	nAppend     = ggcr + "/mutate.AppendLayers"
	nConfig     = ggcr + "/mutate.Config"
	nConfigFile = "(" + ggcr + ".Image).ConfigFile"
)

// configFlags: the fields of the config that flags are for.
var configFlags = map[string][]string{
	"Env":        {"config.Env.clear", "config.Env.append"},
	"Entrypoint": {"config.Entrypoint"},
	"Cmd":        {"config.Cmd"},
	"WorkingDir": {"config.WorkingDir"},
}

func flagOf(t *Term) string {
	if t != nil && t.Op == "sym" && strings.HasPrefix(t.Aux, "flag:") {
		return t.Aux[len("flag:"):]
	}
	return ""
}

// flagGiven: a flag has a value other than its default (of no value).
func flagGiven(st *State, name string) tri {
	r := unknown
	for x, v := range st.facts {
		switch {
		case flagOf(x) == name:
			r = triOf(v)
		case x.Op == "bin" && x.Aux == "==" && flagOf(x.Args[0]) == name && (x.Args[1].isNil() || x.Args[1] == tEmpty):
			r = triOf(!v)
		case x.Op == "bin" && x.Aux == "==" && x.Args[0].isCall("len") && flagOf(x.Args[0].Args[0]) == name && x.Args[1] == tZero:
			r = triOf(!v)
		case x.isCall("(reflect.Value).IsZero") && v && x.any(func(t *Term) bool { return flagOf(t) == name }):
			// the zero value of a struct that the value of the flag is a field of
			a := x.Args[0]
			for a.Op == "iface" || a.isCall("reflect.ValueOf") {
				a = a.Args[0]
			}
			for _, e := range append([]*Term{a}, a.Args...) {
				if flagOf(e) == name && (e == a || a.Op == "agg") {
					r = no
				}
			}
		}
	}
	return r
}

// flagsPossible: flags for lists that are given have elements.
func flagsPossible(st *State) bool {
	for x, v := range st.facts {
		if x.Op == "bin" && x.Aux == "==" && x.Args[0].isCall("len") && flagOf(x.Args[0].Args[0]) != "" && x.Args[1] == tZero {
			if isnil := st.decide(mkEq(x.Args[0].Args[0], tNil)); isnil != unknown && isnil != triOf(v) {
				return false
			}
		}
	}
	return true
}

// given: the first result of a call, where its error is known to be nil.
func given(st *State, t *Term, name string) *Term {
	t = unbox(t)
	if s, i := t.siteOf(); s != nil && i == 0 && strings.HasSuffix(t.siteName(), name) && errOf(st, s) == yes {
		return s
	}
	return nil
}

// layerFile: t is the layer of the file of that name.
func layerFile(st *State, t *Term) *Term {
	if s := given(st, t, "fsutil.OpenLayer"); s != nil {
		return s.Args[0]
	}
	if s := given(st, t, "tarball.LayerFromFile"); s != nil {
		return s.Args[0]
	}
	return nil
}

func ruleC29(c *Ctx) {
	c.rule("C29.order", "the layers appended are those of the files that are named, each once and in order", 1)
	c.rule("C29.layers", "the image written is the base image (or the empty one) with these layers appended", 1)
	c.rule("C29.config", "the config of the image is that of the base image except for what flags say", 1)
	c.rule("C29.tag", "the image is tagged as asked for, or not at all", 1)
	c.rule("C29.out", "the image is written to the standard output, and success means that it was", 2)
	c.rule("C29.open", "each time that a layer or image file is opened, all of that file can be read", 3)
	found := false
	for _, fn := range c.P.cmdFns() {
		if c.P.reachesAny(fn, nAppend) {
			found = true
			c.imageBuild(fn)
		}
	}
	if !found {
		c.missing("C29.layers", "the command that puts layers together")
	}
	c.openers("C29.open")
}

func init() { propRules["C29"] = ruleC29 }

func (c *Ctx) imageBuild(fn *ssa.Function) {
	args := symParam(fn.Params[1])
	al := &argLayers{c: c, args: args, rule: "C29.order"}
	// base: img is a base image with the layers appended; returns the base image
	var base func(e *Eng, st *State, img *Term) *Term
	base = func(e *Eng, st *State, img *Term) *Term {
		if s := given(st, img, "mutate.AppendLayers"); s != nil && len(s.Args) == 2 && al.isLayers(e, st, s.Args[1]) {
			return s.Args[0]
		}
		return nil
	}
	_, exits := c.runCmd("C29.layers", fn, func(e *Eng, st *State) {
		e.mergeAt = 3000
		al.attach(e)
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			if !strings.HasSuffix(ev.Name, "/tarball.Write") || len(ev.Args) < 3 {
				if strings.Contains(ev.Name, "/tarball.") && strings.Contains(ev.Name, "Write") {
					c.fail(e, st, "C29.out", ev.Instr, "the image may be written otherwise than asked for")
				}
				return
			}
			st.SetMark("written", tTrue)
			if !flagsPossible(st) {
				return
			}
			// destination
			if out := ev.Args[2].String(); strings.Contains(out, "os.Stdout") || strings.Contains(out, "OutOrStdout") {
				c.ok(e, "C29.out", ev.Instr, "")
			} else {
				c.fail(e, st, "C29.out", ev.Instr, "the image is not written to the standard output")
			}
			// tag
			tag := ev.Args[0]
			switch s := given(st, tag, "name.NewTag"); {
			case tag.isNil() && flagGiven(st, "tag") == no, s != nil && flagOf(s.Args[0]) == "tag" && flagGiven(st, "tag") != no:
				c.ok(e, "C29.tag", ev.Instr, "")
			default:
				c.fail(e, st, "C29.tag", ev.Instr, "the image may not be tagged as asked for")
			}
			// layers
			img, cfg := ev.Args[1], (*Term)(nil)
			if s := given(st, img, "mutate.Config"); s != nil {
				img, cfg = s.Args[0], s.Args[1]
			}
			b := base(e, st, img)
			switch {
			case b == nil || !st.Marked("all"):
				c.fail(e, st, "C29.layers", ev.Instr, "the image may not be the base image with the layers of all files that are named appended")
				return
			default:
				s := given(st, b, "fsutil.OpenImage")
				ok := s != nil && flagOf(s.Args[0]) == "base" && flagGiven(st, "base") != no
				if strings.HasSuffix(b.show(3), "empty.Image") && flagGiven(st, "base") == no {
					ok = true
				}
				if !ok {
					c.fail(e, st, "C29.layers", ev.Instr, "the base image may not be the one that is asked for, or the empty one")
					return
				}
				c.ok(e, "C29.layers", ev.Instr, "")
			}
			// config
			if cfg == nil {
				for f, flags := range configFlags {
					for _, n := range flags {
						if flagGiven(st, n) != no {
							c.fail(e, st, "C29.config", ev.Instr, "the flag for %s may have no effect", f)
							return
						}
					}
				}
				c.ok(e, "C29.config", ev.Instr, "unchanged")
				return
			}
			if msg := configAsAsked(e, st, cfg, img); msg != "" {
				c.fail(e, st, "C29.config", ev.Instr, "%s", msg)
				return
			}
			c.ok(e, "C29.config", ev.Instr, "changed")
		}
	})
	for _, x := range exits {
		if x.kind != 0 || errState(x.st, x.res[0]) == no {
			continue
		}
		if x.st.Marked("written") {
			c.okAt("C29.out", "success")
		} else {
			c.failAt("C29.out", x.pos, fn, "success may be reported although no image was written", x.st)
		}
	}
}

// argLayers: the list of the layers of the files that the arguments name.
type argLayers struct {
	c    *Ctx
	args *Term
	rule string
	made *Term // a list with an element per argument, filled by index
}

func (al *argLayers) layerAt(e *Eng, st *State, t *Term) *Term {
	if n := layerFile(st, t); n != nil && n.Op == "idx" && n.Args[0] == al.args && e.ascending(n.Args[1]) {
		return n.Args[1]
	}
	return nil
}

// isLayers: l holds nothing but layers of files.
func (al *argLayers) isLayers(e *Eng, st *State, l *Term) bool {
	if al.made != nil && rootOf(l) == al.made {
		return true
	}
	n := 0
	seen := map[*Term]bool{}
	var ok func(l *Term) bool
	ok = func(l *Term) bool {
		if seen[l] {
			return true
		}
		seen[l] = true
		switch {
		case l.isNil() || isEmptyList(e, st, l):
			return true
		case l.Op == "list":
			for _, a := range l.Args {
				// where the layer was added, its error was known to be nil
				s, i := unbox(a).siteOf()
				if s == nil || i != 0 || !strings.HasSuffix(unbox(a).siteName(), "fsutil.OpenLayer") && !strings.HasSuffix(unbox(a).siteName(), "tarball.LayerFromFile") {
					return false
				}
				n++
			}
			return true
		case l.Op == "append":
			for _, a := range l.Args {
				if !ok(a) {
					return false
				}
			}
			return true
		case l.Op == "sym" && len(e.inflow[l]) > 0:
			for in := range e.inflow[l] {
				if !ok(in) {
					return false
				}
			}
			return true
		}
		return false
	}
	return ok(l) && n > 0
}

// attach decides each iteration of the loops over the arguments, and marks where such a loop has run to its end.
func (al *argLayers) attach(e *Eng) {
	e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
		if ranThrough(e, st, fr, in, val) == al.args {
			st.SetMark("all", tTrue)
		}
		carried(st, in)
	}
	e.hooks.Store = func(e *Eng, st *State, fr *frame, addr, v *Term, in ssa.Instruction) {
		if addr.Op == "ia" {
			if s, i := unbox(v).siteOf(); s != nil && i == 0 && strings.HasSuffix(s.siteName(), "fsutil.OpenLayer") && s.Args[0].Op == "idx" && s.Args[0].Args[1] == addr.Args[1] {
				al.made = rootOf(addr)
				markIn(st, fr, "stored", v)
			}
		}
	}
	e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
		if _, l := listTest(e, st, fr, header); l != al.args {
			return
		}
		ok := inLoop(st, fr, "stored") && al.layerAt(e, st, st.Mark("stored")) != nil
		for _, s := range slotsOf(header) {
			start, end := st.Mark(s.key), s.cur(st)
			if start == nil || end == nil {
				continue
			}
			if l, is := appended(start, end); is && len(l) == 1 && al.layerAt(e, st, l[0]) != nil {
				ok = true
			}
		}
		if ok {
			al.c.iterOK(e, al.rule, fr, header)
		} else {
			al.c.iterBad(e, st, al.rule, fr, header, "a file that is named may not be added, or not at its place")
		}
		clearIn(st, "stored")
	}
}

// configAsAsked: each field of a config is that of the config of img, or what the flags ask for.
func configAsAsked(e *Eng, st *State, cfg, img *Term) string {
	if cfg.T == nil {
		return "the config cannot be told"
	}
	s, ok := cfg.T.Underlying().(*types.Struct)
	if !ok {
		return "the config cannot be told"
	}
	// orig: t is that field of the config of the image
	orig := func(t *Term, name string) bool {
		if t.Op != "fld" || t.Aux != name {
			return false
		}
		t = t.Args[0]
		if t.Op != "fld" || t.Aux != "Config" {
			return false
		}
		t = t.Args[0]
		if t.Op != "deref" {
			return false
		}
		cf := given(st, t.Args[0], "Image).ConfigFile")
		return cf != nil && unbox(cf.Args[0]) == unbox(img)
	}
	for i := 0; i < s.NumFields(); i++ {
		n := s.Field(i).Name()
		v := fieldT(cfg, cfg.T, n)
		var bad bool
		switch n {
		case "Env":
			bad = true
			for _, clear := range []tri{yes, no} {
				if g := flagGiven(st, "config.Env.clear"); g != unknown && g != clear {
					continue
				}
				parts := []*Term{v}
				if v.Op == "append" {
					parts = v.Args
				}
				ok, added := true, false
				if clear == no {
					ok = len(parts) > 0 && orig(parts[0], n)
					if ok {
						parts = parts[1:]
					}
				}
				for _, p := range parts {
					switch {
					case flagOf(p) == "config.Env.append" && !added:
						added = true
					case p.isNil() || isEmptyList(e, st, p):
					default:
						ok = false
					}
				}
				if !added && flagGiven(st, "config.Env.append") != no {
					ok = false
				}
				if bad = !ok; bad {
					break
				}
			}
		case "Entrypoint", "Cmd", "WorkingDir":
			flag := configFlags[n][0]
			switch g := flagGiven(st, flag); {
			case g == yes:
				bad = flagOf(v) != flag
			case g == no:
				bad = !orig(v, n)
			default:
				bad = true
			}
		default:
			bad = !orig(v, n)
		}
		if bad {
			return n + " of the config may be neither that of the base image nor what is asked for"
		}
	}
	return ""
}

// openers decides the functions that open files of images and layers.
func (c *Ctx) openers(R string) {
	const pkg = "pkg/fsutil"
	fn := c.P.fn(pkg, "PathOpener")
	if fn == nil {
		c.missing(R, "the function that opens files of layers and images")
		return
	}
	name := symParam(fn.Params[0])
	c.runThen(R, fn, nil, func(e *Eng, st *State) {
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			if n, a := calleeOf(cond); strings.HasSuffix(n, "FileMode).IsRegular") && len(a) == 1 && val {
				if a[0].any(func(t *Term) bool { return t.siteName() == "os.Stat" && t.Args[0] == name }) {
					st.SetMark("regular", tTrue)
				}
			}
		}
		e.applyHooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			switch ev.Name {
			case "bytes.NewReader", "bytes.NewBuffer", "os.Open":
				st.SetMark("fresh", tTrue)
			}
		}
	}, func(e *Eng, exits []exit) []exit {
		for _, x := range exits {
			if x.kind != 0 {
				continue
			}
			for _, y := range e.applyExits(x.st, x.res[0]) {
				if len(y.res) != 2 || errState(y.st, y.res[1]) == no {
					continue
				}
				r := unbox(y.res[0])
				for r != nil && r.isCall("io.NopCloser") {
					r = unbox(r.Args[0])
				}
				s := given(y.st, r, "os.Open")
				content := (*Term)(nil)
				if r != nil && (r.isCall("bytes.NewReader") || r.isCall("bytes.NewBuffer")) {
					content = given(y.st, r.Args[0], "os.ReadFile")
				}
				switch {
				case s != nil && s.Args[0] == name && y.st.Marked("regular") && y.st.Marked("fresh"):
					c.okAt(R, "opened each time")
				case s != nil && s.Args[0] == name && y.st.Marked("fresh"):
					c.failAt(R, x.pos, fn, "a file that can be read only once may be opened again", y.st)
				case content != nil && content.Args[0] == name && y.st.Marked("fresh"):
					c.okAt(R, "read once")
				default:
					c.failAt(R, x.pos, fn, "what is opened may not be the whole content of the file", y.st)
				}
			}
		}
		return exits
	})
	for n, from := range map[string]string{"OpenLayer": "tarball.LayerFromOpener", "OpenImage": "tarball.Image"} {
		fn := c.P.fn(pkg, n)
		if fn == nil {
			c.missing(R, n)
			continue
		}
		name := symParam(fn.Params[0])
		for _, x := range c.run(R, fn, nil, func(e *Eng, st *State) {
			e.hooks.Model = func(e *Eng, st *State, ev *CallEvent) ([]callOut, bool) {
				if strings.HasSuffix(ev.Name, "/fsutil.PathOpener") {
					return []callOut{{st, mkCall("opener", ev.Fn.Signature.Results().At(0).Type(), ev.Args...)}}, true
				}
				return nil, false
			}
		}) {
			if x.kind != 0 || errState(x.st, x.res[1]) == no {
				continue
			}
			s := given(x.st, x.res[0], from)
			if s != nil && len(s.Args) > 0 && s.Args[0].isCall("opener") && s.Args[0].Args[0] == name && (n != "OpenImage" || s.Args[1].isNil()) {
				c.okAt(R, n)
			} else {
				c.failAt(R, x.pos, fn, "the result may not be what is in the file of that name", x.st)
			}
		}
	}
}
