package main

// ocibuild python inspect.

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	nDynamic   = modPath + "/pkg/python/pyinspect.Dynamic"
	nShebangs  = modPath + "/pkg/python/pyinspect.Shebangs"
	nWithImage = modPath + "/pkg/dockerutil.WithImage"
)

var schemeDirs = []string{"PureLib", "PlatLib", "Headers", "Scripts", "Data"}

func ruleC33(c *Ctx) {
	c.rule("C33.shebang", "the shebangs are those of the interpreter that is named, in the image that is named or on the host", 1)
	c.rule("C33.dynamic", "what is asked is the interpreter of the shebang, in the image that is named or on the host", 2)
	c.rule("C33.fields", "the scheme, version, magic number and tags are the ones that it answered with", 2)
	c.rule("C33.owner", "the owner is that of the first directory of the scheme that exists", 2)
	c.rule("C33.compile", "the compiler is the interpreter itself, or for an image one of the host with the same magic number", 2)
	c.rule("C33.keys", "what is written can be read by ocibuild layer wheel, with each field in its place", 1)
	c.rule("C33.write", "all of it is written to the standard output, and success means that it was", 2)
	found := false
	var wheel *ssa.Function
	for _, f := range c.P.cmdFns() {
		if c.P.reachesAny(f, nInstallWheel) {
			wheel = f
		}
	}
	for _, f := range c.P.cmdFns() {
		if c.P.reachesAny(f, nShebangs) {
			found = true
			c.inspectCmd(f)
			c.platformKeys(f, wheel)
		}
	}
	if !found {
		c.missing("C33.shebang", "the command that inspects Python")
	}
}

func init() { propRules["C33"] = ruleC33 }

// inspected: the file system to look at is that of the image exactly if there is one.
func inspected(st *State, t *Term) bool {
	if t.Op != "iface" {
		return false
	}
	x := t.Args[0]
	switch {
	case isNamed(x.T, modPath+"/pkg/python/pyinspect", "NativeFS"):
		return flagGiven(st, "imagefile") == no
	case pointee(x.T) != nil && isNamed(pointee(x.T), modPath+"/pkg/python/pyinspect", "ImageFS"):
		if st.Marked("imagefs:" + x.String()) { // (its state is unknown once it has been used)
			return true
		}
		s := given(st, fieldOf(st, x, pointee(x.T), "Image"), "fsutil.OpenImage")
		return s != nil && flagOf(s.Args[0]) == "imagefile" && flagGiven(st, "imagefile") != no
	}
	return false
}

func (c *Ctx) inspectCmd(fn *ssa.Function) {
	// shebang: the i-th result of Shebangs for what is asked for
	shebang := func(st *State, t *Term, i int) bool {
		s, j := t.siteOf()
		return s != nil && j == i && t.siteName() == nShebangs && errOf(st, s) == yes && inspected(st, s.Args[0]) && flagOf(s.Args[1]) == "interpreter"
	}
	// answer: t is the (pointer to the) answer of the interpreter that is inspected
	answer := func(e *Eng, st *State, t *Term) bool {
		s := given(st, t, "pyinspect.Dynamic")
		if s == nil {
			return false
		}
		a := argList(e, st, s.Args[1])
		if len(a) == 1 {
			return flagGiven(st, "imagefile") == no && shebang(st, a[0], 0)
		}
		return len(a) > 1 && flagGiven(st, "imagefile") != no
	}
	statDir := func(e *Eng, st *State, s *Term) string { // the directory of the scheme that is looked at
		if s == nil || !strings.HasSuffix(s.siteName(), ").Stat") {
			return ""
		}
		d := s.Args[len(s.Args)-1]
		if d.Op == "fld" && d.Args[0].Op == "fld" && d.Args[0].Aux == "Scheme" && d.Args[0].Args[0].Op == "deref" && answer(e, st, d.Args[0].Args[0].Args[0]) {
			return d.Aux
		}
		return ""
	}
	_, exits := c.runCmd("C33.fields", fn, func(e *Eng, st *State) {
		e.mergeAt = 3000
		e.hooks.Model = func(e *Eng, st *State, ev *CallEvent) ([]callOut, bool) {
			if ev.Name != nWithImage || len(ev.Args) != 4 {
				return nil, false
			}
			cb := st.resolve(ev.Args[3])
			if cb.Op != "closure" && cb.Op != "fn" {
				return nil, false
			}
			ok := false
			if s := given(st, ev.Args[2], "fsutil.OpenImage"); s != nil && flagOf(s.Args[0]) == "imagefile" {
				ok = true
			}
			if ok {
				c.ok(e, "C33.dynamic", ev.Instr, "image")
			} else {
				c.fail(e, st, "C33.dynamic", ev.Instr, "the image that is run may not be the one that is named")
			}
			tag := tt.mkT("sym", "image:tag", cb.Fn.Signature.Params().At(1).Type())
			var t types.Type
			if v, ok := ev.Instr.(ssa.Value); ok {
				t = v.Type()
			}
			st.SetMark("image", tTrue)
			var outs []callOut
			for _, o := range e.callTerm(ev.Frame, st, &CallEvent{Instr: ev.Instr, Pos: ev.Pos, Frame: ev.Frame}, cb, []*Term{ev.Args[0], tag}, cb.Fn.Signature) {
				o.st.ClearMark("image")
				switch o.st.decide(mkEq(o.res, tNil)) {
				case no:
				case yes:
					bad := o.st.clone()
					err := tt.mkT("sym", "image:error", t)
					bad.assume(mkEq(err, tNil), false)
					outs = append(outs, callOut{bad, err})
				default: // nil only if the callback's error is
					bad := o.st.clone()
					bad.assume(mkEq(o.res, tNil), false)
					outs = append(outs, callOut{bad, o.res})
					o.st.assume(mkEq(o.res, tNil), true)
					o.res = tNil
				}
				outs = append(outs, o)
			}
			return outs, true
		}
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			if cond.Op == "bin" && cond.Aux == "==" && val {
				for i, x := range cond.Args {
					y := cond.Args[1-i]
					if magicOf(y) == nil || magicOf(x) == nil || !answer(e, st, magicOf(y)) {
						continue
					}
					if s := given(st, magicOf(x), "pyinspect.Dynamic"); s != nil {
						if al := argList(e, st, s.Args[1]); len(al) == 1 {
							st.SetMark("magic:"+al[0].String(), tTrue)
						}
					}
				}
			}
			if cond.Op == "bin" && cond.Aux == "==" && cond.Args[1].isNil() && !val {
				if s, i := cond.Args[0].siteOf(); s != nil && i == 1 {
					if d := statDir(e, st, s); d != "" {
						st.SetMark("gone:"+d, tTrue)
					}
				}
			}
		}
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			switch {
			case ev.Name == nShebangs:
				if inspected(st, ev.Args[0]) && flagOf(ev.Args[1]) == "interpreter" {
					st.SetMark("imagefs:"+unbox(ev.Args[0]).String(), tTrue)
					c.ok(e, "C33.shebang", ev.Instr, "")
				} else {
					c.fail(e, st, "C33.shebang", ev.Instr, "the shebangs may not be those of the interpreter that is named")
				}
			case ev.Name == nDynamic && (flagGiven(st, "imagefile") == no || st.Marked("image")):
				a := argList(e, st, ev.Args[1])
				if flagGiven(st, "imagefile") == no {
					if len(a) == 1 && shebang(st, a[0], 0) {
						c.ok(e, "C33.dynamic", ev.Instr, "host")
					} else {
						c.fail(e, st, "C33.dynamic", ev.Instr, "what is run may not be the interpreter that is named")
					}
					return
				}
				if msg := dockerRun(a, func(t *Term) bool { return shebang(st, t, 0) }); msg == "" {
					c.ok(e, "C33.dynamic", ev.Instr, "image")
				} else {
					c.fail(e, st, "C33.dynamic", ev.Instr, "%s", msg)
				}
			case strings.HasSuffix(ev.Name, ".Marshal") && strings.Contains(ev.Name, "yaml"):
				c.inspectOut(e, st, ev, shebang, answer, statDir)
			case isStdoutWrite(ev):
				s := given(st, ev.Args[1], ".Marshal")
				if s == nil && ev.Args[1].Op == "conv" {
					s = given(st, ev.Args[1].Args[0], ".Marshal")
				}
				switch {
				case s == nil:
					c.fail(e, st, "C33.write", ev.Instr, "what is written may not be what was found")
				case st.Marked("written"):
					c.fail(e, st, "C33.write", ev.Instr, "it may be written more than once")
				default:
					c.ok(e, "C33.write", ev.Instr, "")
				}
				st.SetMark("written", tTrue)
			}
		}
		e.hooks.Post = func(e *Eng, st *State, ev *CallEvent) {
			if isStdoutWrite(ev) {
				st.SetMark("result", ev.Res)
			}
		}
	})
	c.mustWrite("C33.write", fn, exits)
}

// magicOf: the answer that t is the magic number of.
func magicOf(t *Term) *Term {
	for t.Op == "conv" {
		t = t.Args[0]
	}
	if s, i := t.siteOf(); s != nil && i == 0 && strings.HasSuffix(t.siteName(), ".DecodeString") {
		t = s.Args[len(s.Args)-1]
	}
	if t.Op == "fld" && t.Aux == "MagicNumberB64" && t.Args[0].Op == "deref" {
		return t.Args[0].Args[0]
	}
	return nil
}

// dockerRun: what is wrong with the arguments of docker run.
func dockerRun(a []*Term, isPython func(*Term) bool) string {
	if len(a) < 3 || a[0] != mkStr("docker") || a[1] != mkStr("run") {
		return "what is run may not be the image that is named"
	}
	entry := false
	for i, t := range a[2:] {
		s, ok := t.str()
		switch {
		case ok && s == "--rm", ok && strings.HasPrefix(s, "--network"):
		case ok && s == "--entrypoint" && i+3 < len(a):
			entry = isPython(a[i+3])
		case t.Op == "concat" && len(t.Args) == 2 && t.Args[0] == mkStr("--entrypoint="):
			entry = isPython(t.Args[1])
		case isPython(t) && entry:
		case strings.Contains(t.String(), "image:tag"):
			if i+3 != len(a) {
				return "the program in the image may get other arguments"
			}
			if !entry {
				return "the program that is run in the image may not be the interpreter that is named"
			}
			return ""
		default:
			return "the image may not be run as it is: " + t.show(3)
		}
	}
	return "what is run may not be the image that is named"
}

// inspectOut decides the platform that is written.
func (c *Ctx) inspectOut(e *Eng, st *State, ev *CallEvent, shebang func(*State, *Term, int) bool, answer func(*Eng, *State, *Term) bool, statDir func(*Eng, *State, *Term) string) {
	v := unbox(ev.Args[0])
	if p := pointee(v.T); p != nil {
		v = st.load(v, p)
	}
	get := func(name string) *Term {
		if f := fieldDeep(v, name); f != nil {
			return f
		}
		return tNil
	}
	ofAnswer := func(t *Term, name string) *Term {
		if (t.Op == "fld" || t.Op == "fa") && t.Aux == name {
			x := t.Args[0]
			if x.Op == "deref" {
				x = x.Args[0]
			}
			if answer(e, st, x) {
				return x
			}
		}
		return nil
	}
	// fields
	bad := ""
	if !shebang(st, get("ConsoleShebang"), 0) || !shebang(st, get("GraphicalShebang"), 1) {
		bad = "the shebangs may not be those of the interpreter that is named"
	}
	for _, f := range []string{"Scheme", "Tags"} {
		if ofAnswer(get(f), f) == nil && bad == "" {
			bad = f + " may not be what the interpreter answered"
		}
	}
	if vi := get("VersionInfo"); bad == "" && ofAnswer(vi, "VersionInfo") == nil {
		if p := pointee(vi.T); p == nil || ofAnswer(st.load(vi, p), "VersionInfo") == nil {
			bad = "VersionInfo may not be what the interpreter answered"
		}
	}
	if s := given(st, get("MagicNumber"), ".DecodeString"); bad == "" && (s == nil || !strings.Contains(s.Args[0].String(), "StdEncoding") || ofAnswer(s.Args[1], "MagicNumberB64") == nil) {
		bad = "MagicNumber may not be what the interpreter answered"
	}
	if bad != "" {
		c.fail(e, st, "C33.fields", ev.Instr, "%s", bad)
	} else {
		c.ok(e, "C33.fields", ev.Instr, "image "+mkBool(flagGiven(st, "imagefile") != no).Aux)
	}
	// owner
	dir := ""
	var info *Term
	for _, f := range []string{"UID", "GID", "UName", "GName"} {
		t := get(f)
		n, a := calleeOf(t)
		if !strings.HasSuffix(n, ")."+f) || len(a) != 1 {
			bad = f + " may not be that of a directory of the scheme"
			break
		}
		s := given(st, a[0], ").Stat")
		d := statDir(e, st, s)
		if d == "" || !inspected(st, s.Args[0]) && !inspected(st, mkIface(s.Args[0].T, s.Args[0])) {
			bad = f + " may not be that of a directory of the scheme in what is inspected"
			break
		}
		if info != nil && info != unbox(a[0]) {
			bad = "the user and the group may be those of different directories"
			break
		}
		info, dir = unbox(a[0]), d
	}
	for _, d := range schemeDirs {
		if bad != "" || d == dir {
			break
		}
		if !st.Marked("gone:" + d) {
			bad = "the owner may be that of " + dir + " although " + d + " exists"
		}
	}
	if bad != "" {
		c.fail(e, st, "C33.owner", ev.Instr, "%s", bad)
	} else {
		c.ok(e, "C33.owner", ev.Instr, dir)
	}
	// compiler
	bad = ""
	var pc *Term
	if v.Op == "agg" {
		s := v.T.Underlying().(*types.Struct)
		for i := range v.Args {
			if s.Field(i).Name() == "PyCompile" {
				pc = v.Args[i]
			}
		}
	}
	l := argList(e, st, pc)
	switch {
	case len(l) != 3 || l[1] != mkStr("-m") || l[2] != mkStr("compileall"):
		bad = "the compiler may not be the module compileall"
	case flagGiven(st, "imagefile") == no:
		if !shebang(st, l[0], 0) {
			bad = "the compiler may not be that of the interpreter"
		}
	default:
		if !st.Marked("magic:" + l[0].String()) {
			bad = "the compiler may be of a Python with another magic number"
		}
	}
	if bad != "" {
		c.fail(e, st, "C33.compile", ev.Instr, "%s", bad)
	} else {
		c.ok(e, "C33.compile", ev.Instr, "image "+mkBool(flagGiven(st, "imagefile") != no).Aux)
	}
}

// fieldDeep: a field of a struct or of one that is embedded in it.
func fieldDeep(v *Term, name string) *Term {
	if v == nil || v.T == nil {
		return nil
	}
	s, ok := v.T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return fieldT(v, v.T, name)
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if f := fieldDeep(fieldT(v, v.T, s.Field(i).Name()), name); f != nil {
				return f
			}
		}
	}
	return nil
}

// platformKeys: every key that is written is one that is read, for the same field.
func (c *Ctx) platformKeys(inspect, wheel *ssa.Function) {
	const R = "C33.keys"
	if wheel == nil {
		c.missing(R, "the command that installs wheels")
		return
	}
	argOf := func(f *ssa.Function, suffix string, i int) (types.Type, string) {
		var t types.Type
		var n string
		seen := map[*ssa.Function]bool{}
		var rec func(f *ssa.Function)
		rec = func(f *ssa.Function) {
			if f == nil || seen[f] {
				return
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					cl, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if nm := calleeName(cl.Common()); strings.HasSuffix(nm, suffix) || strings.HasSuffix(nm, suffix+"Strict") {
						if mi, ok := cl.Common().Args[i].(*ssa.MakeInterface); ok {
							t, n = mi.X.Type(), nm
						}
					}
					if g := cl.Common().StaticCallee(); g != nil && inRepo(g) && pkgDir(g) == "" {
						rec(g)
					}
				}
			}
		}
		rec(f)
		return t, n
	}
	wt, wn := argOf(inspect, ".Marshal", 0)
	rt, rn := argOf(wheel, "yaml.Unmarshal", 1)
	if wt == nil || rt == nil {
		c.missing(R, "where platform files are written and read")
		return
	}
	w := map[string]string{}
	yamlKeys(wt, wn, "", "", w, true)
	r := map[string]string{}
	yamlKeys(rt, rn, "", "", r, false)
	for k, f := range w {
		switch g, ok := r[k]; {
		case !ok:
			c.addViol(&Violation{Rule: R, Where: c.P.pos(inspect.Pos()), Fn: shortName(fnName(inspect)), Msg: "the key " + k + " that is written is unknown to ocibuild layer wheel"})
		case g != f:
			c.addViol(&Violation{Rule: R, Where: c.P.pos(inspect.Pos()), Fn: shortName(fnName(inspect)), Msg: "the key " + k + " is written for " + f + " but read for " + g})
		default:
			c.okAt(R, k)
		}
	}
}

// yamlKeys: the keys (in lower case) that a value of the type is written with, or read from, and their fields.
func yamlKeys(t types.Type, pkg, prefix, fpre string, out map[string]string, write bool) {
	if p := pointee(t); p != nil {
		t = p
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	json := strings.HasPrefix(pkg, "sigs.k8s.io/") || strings.HasPrefix(pkg, "encoding/json")
	type ent struct{ f string }
	outer := map[string]bool{}
	for pass := 0; pass < 2; pass++ { // fields of the struct itself take precedence over those of embedded ones
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			tagKey := "yaml"
			if json {
				tagKey = "json"
			}
			tag := reflect.StructTag(s.Tag(i)).Get(tagKey)
			name, opts := tag, ""
			if j := strings.Index(tag, ","); j >= 0 {
				name, opts = tag[:j], tag[j:]
			}
			if tag == "-" || !f.Exported() && !f.Embedded() {
				continue
			}
			inline := strings.Contains(opts, "inline")
			if json {
				inline = f.Embedded() && name == ""
			}
			if inline != (pass == 1) {
				continue
			}
			if inline {
				sub := map[string]string{}
				yamlKeys(f.Type(), pkg, prefix, fpre, sub, write)
				for k, v := range sub {
					if _, dup := out[k]; !dup {
						out[k] = v
					}
				}
				continue
			}
			if name == "" {
				name = f.Name()
			}
			k := prefix + strings.ToLower(name)
			out[k] = fpre + f.Name()
			outer[k] = true
			yamlKeys(f.Type(), pkg, k+".", fpre+f.Name()+".", out, write)
		}
	}
}
