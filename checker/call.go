package main

// Calls: builtins, inlining of repository code, purity of library calls, higher-order library models.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func resType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func inRepo(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return strings.HasPrefix(o.Pkg.Pkg.Path(), modPath)
	}
	if fn.Parent() != nil {
		return inRepo(fn.Parent())
	}
	return len(fn.Blocks) > 0 // wrappers, thunks, bound methods
}

func (e *Eng) call(fr *frame, st *State, in ssa.Instruction, cc *ssa.CallCommon, fnT *Term, args []*Term, isDefer bool) []callOut {
	e.callsites[in] = true
	pos := cc.Pos()
	ev := &CallEvent{Instr: in, Pos: pos, Frame: fr, Deferred: isDefer}
	if cc.IsInvoke() {
		recv := fnT
		if recv.Op == "iface" && recv.T != nil {
			if fn := e.P.prog.LookupMethod(recv.T, cc.Method.Pkg(), cc.Method.Name()); fn != nil {
				return e.callFn(fr, st, ev, fn, nil, append([]*Term{recv.Args[0]}, args...), cc.Signature())
			}
		}
		ev.Name = cc.Method.FullName()
		ev.Args = append([]*Term{recv}, args...)
		return e.external(fr, st, ev, cc.Signature())
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, st, ev, b, cc, args)
	}
	return e.callTerm(fr, st, ev, fnT, args, cc.Signature())
}

// callTerm calls a function value.
func (e *Eng) callTerm(fr *frame, st *State, ev *CallEvent, fnT *Term, args []*Term, sig *types.Signature) []callOut {
	fnT = st.resolve(fnT)
	if fnT.Op == "fn" || fnT.Op == "closure" {
		var bind []*Term
		if fnT.Op == "closure" {
			bind = fnT.Args
		}
		return e.callFn(fr, st, ev, fnT.Fn, bind, args, sig)
	}
	if fnT.Op == "builtin" {
		ev.Name = "builtin " + fnT.Aux
		ev.Args = args
		return e.external(fr, st, ev, sig)
	}
	ev.Name = "dyncall"
	ev.Callee = fnT
	ev.Args = args
	return e.external(fr, st, ev, sig)
}

func (e *Eng) callFn(fr *frame, st *State, ev *CallEvent, fn *ssa.Function, bind, args []*Term, sig *types.Signature) []callOut {
	ev.Fn = fn
	ev.Name = fnName(fn)
	ev.Args = args
	// bound-method / thunk wrappers of external methods: go straight to the method
	if fn.Synthetic != "" && len(fn.Blocks) > 0 && fn.Object() != nil && fn.Pkg == nil {
		if tf, ok := fn.Object().(*types.Func); ok && tf.Pkg() != nil && !strings.HasPrefix(tf.Pkg().Path(), modPath) && strings.HasPrefix(fn.Synthetic, "bound") {
			ev.Name = tf.FullName()
			ev.Args = append(append([]*Term{}, bind...), args...)
			return e.external(fr, st, ev, sig)
		}
	}
	if len(fn.Blocks) == 0 || !inRepo(fn) || e.opaque[ev.Name] || (e.opaqueFn != nil && e.opaqueFn(fn)) {
		return e.external(fr, st, ev, sig)
	}
	depth := 0
	for _, f := range e.stack {
		if f == fn {
			depth++
		}
	}
	if depth > e.maxRec || len(e.stack) > 60 {
		ev.Name = "rec:" + ev.Name
		e.recCalls = append(e.recCalls, ev)
		return e.external(fr, st, ev, sig)
	}
	if e.hooks.Pre != nil {
		e.hooks.Pre(e, st, ev)
	}
	if e.hooks.Model != nil {
		if outs, ok := e.hooks.Model(e, st, ev); ok {
			return outs
		}
	}
	savedRegs, savedDefers := st.regs, st.defers
	st.note(ev.Pos, "call "+shortName(ev.Name))
	exits := e.runFn(fn, fr.ctx+"/"+e.iid(ev.Instr)+";", args, bind, st)
	var outs []callOut
	for i, x := range exits {
		if i == len(exits)-1 {
			x.st.regs = savedRegs
		} else {
			x.st.regs = cp(savedRegs)
		}
		x.st.defers = append([]deferred(nil), savedDefers...)
		switch x.kind {
		case exitRet:
			var r *Term
			switch len(x.res) {
			case 0:
				r = tNil
			case 1:
				r = x.res[0]
			default:
				r = tt.mk("tuple", "", x.res...)
			}
			o := callOut{x.st, r}
			if e.hooks.Post != nil {
				ev2 := *ev
				ev2.Res = r
				e.hooks.Post(e, x.st, &ev2)
			}
			outs = append(outs, o)
		case exitPanic:
			for _, s := range e.runDefers(fr, x.st) {
				fr.exits = append(fr.exits, exit{st: s, kind: exitPanic, pos: x.pos})
			}
		case exitOS:
			fr.exits = append(fr.exits, x)
		}
	}
	return outs
}

func (e *Eng) external(fr *frame, st *State, ev *CallEvent, sig *types.Signature) []callOut {
	for i, a := range ev.Args {
		ev.Args[i] = e.snap(st, a)
	}
	if e.hooks.Pre != nil {
		e.hooks.Pre(e, st, ev)
	}
	if e.hooks.Model != nil {
		if outs, ok := e.hooks.Model(e, st, ev); ok {
			return e.post(ev, outs)
		}
	}
	if outs, ok := e.model(fr, st, ev, sig); ok {
		return e.post(ev, outs)
	}
	rt := resType(sig)
	if isPure(ev.Name) {
		var r *Term
		if rt == nil {
			r = tNil
		} else {
			r = e.pureCall(st, ev.Name, rt, ev.Args)
		}
		return e.post(ev, []callOut{{st, r}})
	}
	site := tt.mkT("site", ev.Name+"@"+fr.ctx+"#"+e.iid(ev.Instr), rt, ev.Args...)
	site.Ctx = fr.ctx
	site.Pos = ev.Pos
	if site.T == nil {
		site.T = types.NewTuple()
	}
	st.forget(site)
	if !nonMutating(ev.Name) {
		for _, a := range ev.Args {
			e.havocArg(st, a, site, 0)
		}
	}
	outs := []callOut{{st, site}}
	// closures passed to unknown code may run any number of times
	if !e.noCallbacks {
		for _, a := range ev.Args {
			f := st.resolve(a)
			if (f.Op == "closure" || f.Op == "fn") && len(f.Fn.Blocks) > 0 && inRepo(f.Fn) {
				outs = e.callbackLoop(fr, outs[0].st, ev, f, nil, false)
				for i := range outs {
					outs[i].res = site
				}
				break
			}
		}
	}
	return e.post(ev, outs)
}

// forget drops facts mentioning a term that is being redefined.
func (s *State) forget(t *Term) {
	for f := range s.facts {
		if f.contains(t) {
			delete(s.facts, f)
		}
	}
	for f := range s.eq {
		if f.contains(t) {
			delete(s.eq, f)
		}
	}
	for f := range s.rng {
		if f.contains(t) {
			delete(s.rng, f)
		}
	}
}

func (e *Eng) post(ev *CallEvent, outs []callOut) []callOut {
	if e.hooks.Post != nil {
		for _, o := range outs {
			ev2 := *ev
			ev2.Res = o.res
			e.hooks.Post(e, o.st, &ev2)
		}
	}
	return outs
}

func (e *Eng) havocArg(st *State, a, site *Term, d int) {
	if a == nil || d > 3 {
		return
	}
	switch a.Op {
	case "iface", "as":
		e.havocArg(st, a.Args[0], site, d+1)
	case "list", "agg":
		for _, x := range a.Args {
			e.havocArg(st, x, site, d+1)
		}
	case "alloc":
		if a.T != nil {
			if _, ok := a.T.Underlying().(*types.Pointer); ok {
				st.havocPtr(a, site)
			} else {
				st.havocPtr(a, site)
			}
		}
	case "fa", "ia", "global":
		st.havocPtr(a, site)
	case "sym", "deref", "fld", "ext", "site", "call", "idx", "lookup", "rangeval":
		if a.T != nil {
			switch a.T.Underlying().(type) {
			case *types.Pointer:
				st.havocPtr(a, site)
			}
		}
	}
}

func (e *Eng) pureCall(st *State, name string, rt types.Type, args []*Term) *Term {
	as := make([]*Term, len(args))
	for i, a := range args {
		as[i] = a
		if c := st.eq[a]; c != nil && c.isConst() {
			as[i] = c
		}
	}
	// method value receivers through known interface boxes
	switch name {
	case "errors.Is", "errors.As":
		if as[0].isNil() {
			return tFalse
		}
	case "strings.Join":
		if as[0].Op == "list" {
			var parts []*Term
			for i, a := range as[0].Args {
				if i > 0 {
					parts = append(parts, as[1])
				}
				parts = append(parts, a)
			}
			return mkConcat(types.Typ[types.String], parts...)
		}
	case "fmt.Sprintf":
		if t := sprintf(as); t != nil {
			return t
		}
	case "path.Join", "path/filepath.Join":
		if len(as) == 1 && as[0].Op == "list" {
			return mkCall(name, rt, as[0].Args...)
		}
	}
	return mkCall(name, rt, as...)
}

// isStringer: a struct type that is printed by its String method.
func isStringer(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return false
	}
	ms := types.NewMethodSet(t)
	str := false
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "String":
			str = true
		case "Error", "Format":
			return false
		}
	}
	return str
}

// sprintf resolves formats made of %s/%v/%d over string operands and %% only.
func sprintf(as []*Term) *Term {
	f, ok := as[0].str()
	if !ok || len(as) < 2 || (as[1].Op != "list" && !as[1].isNil()) {
		return nil
	}
	var parts []*Term
	ai := 0
	lit := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		switch f[i] {
		case '%':
			lit += "%"
		case 's', 'v':
			if ai >= len(as[1].Args) {
				return nil
			}
			a := as[1].Args[ai]
			ai++
			if a.Op == "iface" && isStringer(a.T) {
				parts = append(parts, mkStr(lit), mkCall("stringer", types.Typ[types.String], a.Args[0]))
				lit = ""
				continue
			}
			if a.Op != "iface" || a.T == nil || !isStringType(a.T) {
				return nil
			}
			if n, ok := types.Unalias(a.T).(*types.Named); ok && n.NumMethods() > 0 {
				return nil
			}
			parts = append(parts, mkStr(lit), a.Args[0])
			lit = ""
		default:
			return nil
		}
	}
	if ai != len(as[1].Args) {
		return nil
	}
	parts = append(parts, mkStr(lit))
	return mkConcat(types.Typ[types.String], parts...)
}

// ---------------------------------------------------------------------------
// builtins

func (e *Eng) builtin(fr *frame, st *State, ev *CallEvent, b *ssa.Builtin, cc *ssa.CallCommon, args []*Term) []callOut {
	one := func(t *Term) []callOut { return []callOut{{st, t}} }
	switch b.Name() {
	case "len":
		return one(e.lenOf(st, args[0]))
	case "cap":
		return one(mkCall("cap", types.Typ[types.Int], args[0]))
	case "append":
		typ := cc.Signature().Results().At(0).Type()
		if len(args) == 1 {
			return one(args[0])
		}
		x := e.snap(st, args[0])
		y := e.snap(st, args[1])
		ev.Name = "append"
		ev.Args = []*Term{x, y}
		if e.hooks.Pre != nil {
			e.hooks.Pre(e, st, ev)
		}
		r := mkAppend(typ, x, y)
		return one(r)
	case "copy":
		ev.Name = "copy"
		ev.Args = args
		if e.hooks.Pre != nil {
			e.hooks.Pre(e, st, ev)
		}
		site := tt.mkT("site", "copy@"+fr.ctx+"#"+e.iid(ev.Instr), types.Typ[types.Int], args...)
		site.Ctx = fr.ctx
		site.Pos = ev.Pos
		ln := st.mem[tt.mk("fa", "[len]", args[0])]
		st.havocPtr(args[0], site)
		if ln != nil {
			st.mem[tt.mk("fa", "[len]", args[0])] = ln
		}
		return e.post(ev, []callOut{{st, site}})
	case "delete":
		m, k := args[0], args[1]
		if e.hooks.MapDelete != nil {
			e.hooks.MapDelete(e, st, fr, m, k, ev.Instr)
		}
		e.mapWrite(st, m, k, tAbsent)
		return one(tNil)
	case "panic":
		st.note(ev.Pos, "panic")
		for _, s := range e.runDefers(fr, st) {
			fr.exits = append(fr.exits, exit{st: s, kind: exitPanic, pos: ev.Pos})
		}
		return nil
	case "recover":
		return one(e.sym(fr, "recover", e.iid(ev.Instr), cc.Signature().Results().At(0).Type()))
	case "ssa:wrapnilchk":
		return one(args[0])
	case "print", "println":
		ev.Name = "builtin " + b.Name()
		ev.Args = args
		if e.hooks.Pre != nil {
			e.hooks.Pre(e, st, ev)
		}
		return one(tNil)
	case "close":
		return one(tNil)
	}
	var rt types.Type
	if cc.Signature() != nil {
		rt = resType(cc.Signature())
	}
	return one(tt.mkT("call", b.Name(), rt, args...))
}

// ---------------------------------------------------------------------------
// library models

// callbackLoop runs callback f zero or more times; stopOnErr: a non-nil error result ends the iteration and
// is returned (fs.SkipDir resumes).
func (e *Eng) callbackLoop(fr *frame, st *State, ev *CallEvent, f *Term, mkArgs func(s *State) []*Term, stopOnErr bool) []callOut {
	saved := fr.ctx
	defer func() { fr.ctx = saved }()
	fr.ctx = saved + "|C" + e.iid(ev.Instr) + "."
	sig := f.Fn.Signature
	w := st
	variants := map[string]map[string]*Term{w.markKey(): cp(w.marks)}
	vorder := []string{w.markKey()}
	logLen := len(e.log)
	for round := 0; ; round++ {
		if round > 40 {
			panic(budgetErr{"callback fixpoint did not converge"})
		}
		e.log = e.log[:logLen]
		exitsLen := len(fr.exits)
		changed := false
		var errOuts []callOut
		for vi := 0; vi < len(vorder); vi++ {
			s := w.clone()
			s.marks = cp(variants[vorder[vi]])
			var args []*Term
			if mkArgs != nil {
				args = mkArgs(s)
			} else {
				for i := 0; i < sig.Params().Len(); i++ {
					p := sig.Params().At(i)
					args = append(args, e.sym(fr, "cb:"+p.Name(), e.iid(ev.Instr)+"."+itoa(i), p.Type()))
				}
			}
			cev := &CallEvent{Instr: ev.Instr, Pos: ev.Pos, Frame: fr}
			outs := e.callTerm(fr, s, cev, f, args, sig)
			for _, o := range outs {
				if e.hooks.CallbackRet != nil {
					e.hooks.CallbackRet(e, o.st, ev, f.Fn, unpack(o.res))
				}
				back := o.st
				if stopOnErr && o.res != nil {
					isNil := mkEq(o.res, tNil)
					bad := back.clone()
					if bad.assume(isNil, false) {
						skip := mkCall("skipdir", types.Typ[types.Bool], o.res)
						cont := bad.clone()
						if gv := isSkipDir(o.res); gv {
							bad = nil
						} else if o.res.Op == "call" || o.res.Op == "iface" {
							cont = nil
						}
						if bad != nil && bad.assume(skip, false) {
							errOuts = append(errOuts, callOut{bad, o.res})
						}
						if cont != nil {
							if e.widenMem(fr, w, cont, fr.ctx, "") {
								changed = true
							}
							if e.addVariant(fr, cont, variants, &vorder) {
								changed = true
							}
						}
					}
					if !back.assume(isNil, true) {
						continue
					}
				}
				if e.widenMem(fr, w, back, fr.ctx, "") {
					changed = true
				}
				if e.addVariant(fr, back, variants, &vorder) {
					changed = true
				}
			}
		}
		if !changed {
			var outs []callOut
			for _, vk := range vorder {
				s := w.clone()
				s.marks = cp(variants[vk])
				outs = append(outs, callOut{s, tNil})
			}
			return append(outs, errOuts...)
		}
		fr.exits = fr.exits[:exitsLen]
	}
}

func isSkipDir(t *Term) bool {
	return t.Op == "gval" && (strings.HasSuffix(t.Aux, ".SkipDir") || strings.HasSuffix(t.Aux, ".SkipAll"))
}

func unpack(t *Term) []*Term {
	if t == nil {
		return nil
	}
	if t.Op == "tuple" {
		return t.Args
	}
	return []*Term{t}
}

func (e *Eng) siteTerm(fr *frame, ev *CallEvent, name, sub string, typ types.Type, args ...*Term) *Term {
	x := tt.mkT("site", name+"@"+fr.ctx+"#"+e.iid(ev.Instr)+sub, typ, args...)
	x.Ctx = fr.ctx
	x.Pos = ev.Pos
	return x
}

func (e *Eng) model(fr *frame, st *State, ev *CallEvent, sig *types.Signature) ([]callOut, bool) {
	switch ev.Name {
	case "os.Exit":
		fr.exits = append(fr.exits, exit{st: st, kind: exitOS, pos: ev.Pos, code: ev.Args[0]})
		return nil, true
	case "log.Fatal", "log.Fatalf", "log.Fatalln":
		fr.exits = append(fr.exits, exit{st: st, kind: exitOS, pos: ev.Pos, code: mkInt(1)})
		return nil, true
	case "path/filepath.Walk", "path/filepath.WalkDir", "io/fs.WalkDir":
		cb := ev.Args[len(ev.Args)-1]
		cb = st.resolve(cb)
		root := ev.Args[len(ev.Args)-2]
		if cb.Op == "closure" || cb.Op == "fn" {
			outs := e.callbackLoop(fr, st, ev, cb, func(s *State) []*Term {
				ps := cb.Fn.Signature.Params()
				pth := e.siteTerm(fr, ev, "walk.path", "p", types.Typ[types.String], root)
				info := e.siteTerm(fr, ev, "walk.info", "i", ps.At(1).Type(), root)
				er := e.siteTerm(fr, ev, "walk.err", "e", ps.At(2).Type(), root)
				s.forget(pth)
				return []*Term{pth, info, er}
			}, true)
			return outs, true
		}
	case "sort.Slice", "sort.SliceStable", "sort.Strings", "sort.Ints", "sort.Sort", "sort.Stable":
		x := ev.Args[0]
		if x.Op == "iface" {
			x = x.Args[0]
		}
		site := tt.mkT("site", ev.Name+"@"+fr.ctx+"#"+e.iid(ev.Instr), types.NewTuple(), ev.Args...)
		site.Ctx = fr.ctx
		ln := st.mem[tt.mk("fa", "[len]", x)]
		st.havocPtr(x, site)
		if ln != nil {
			st.mem[tt.mk("fa", "[len]", x)] = ln
		}
		return []callOut{{st, tNil}}, true
	case "(*sync.Once).Do":
		f := st.resolve(ev.Args[1])
		if f.Op == "closure" || f.Op == "fn" {
			skip := st.clone()
			outs := e.callTerm(fr, st, &CallEvent{Instr: ev.Instr, Pos: ev.Pos, Frame: fr}, f, nil, f.Fn.Signature)
			return append(outs, callOut{skip, tNil}), true
		}
	}
	if strings.HasPrefix(ev.Name, "(*github.com/spf13/pflag.FlagSet).") {
		m := ev.Name[len("(*github.com/spf13/pflag.FlagSet)."):]
		if (strings.HasSuffix(m, "Var") || strings.HasSuffix(m, "VarP")) && len(ev.Args) >= 3 {
			if nm, ok := ev.Args[2].str(); ok {
				p := ev.Args[1]
				if p.Op == "iface" {
					p = p.Args[0]
				}
				f := tt.mkT("sym", "flag:"+nm, elemType(p.T))
				st.purge(p)
				if f.T != nil && expandable(f.T) {
					// custom flag.Value struct
				}
				st.mem[p] = f
				if m != "Var" && m != "VarP" {
					st.SetMark("default:"+nm, ev.Args[len(ev.Args)-2])
				}
				return []callOut{{st, tNil}}, true
			}
		}
	}
	return nil, false
}

func itoa(i int) string { return mkIntStr(i) }
func mkIntStr(i int) string {
	if i == 0 {
		return "0"
	}
	neg := i < 0
	if neg {
		i = -i
	}
	s := ""
	for i > 0 {
		s = string(rune('0'+i%10)) + s
		i /= 10
	}
	if neg {
		s = "-" + s
	}
	return s
}

var _ = token.NoPos

// ---------------------------------------------------------------------------
// purity tables

var purePrefixes = []string{
	"strings.", "path.", "unicode.", "unicode/utf8.", "strconv.", "math.", "math/bits.",
	"(time.Time).", "(time.Duration).", "(time.Month).", "(io/fs.FileMode).", "(io/fs.FileInfo).", "(io/fs.DirEntry).",
	"regexp.", "(*regexp.Regexp).", "encoding/hex.", "(*encoding/base64.Encoding).", "(net/textproto.MIMEHeader).Get",
	"(os.FileMode).", "(os.FileInfo).", "html.", "encoding/binary.",
	"(reflect.Type).", "(reflect.Value).", "go/token.", "go/types.",
	"(encoding/binary.", "(k8s.io/apimachinery/pkg/util/intstr.",
	"(*k8s.io/apimachinery/pkg/util/intstr.IntOrString).String", "(*k8s.io/apimachinery/pkg/util/intstr.IntOrString).IntValue",
	"(*net/url.URL).String", "(*net/url.URL).Parse", "(*net/url.URL).Query", "(*net/url.URL).ResolveReference", "(*net/url.URL).EscapedPath", "(*net/url.URL).Hostname", "(*net/url.URL).Redacted",
	"net/url.Parse", "net/url.QueryEscape", "net/url.PathEscape", "net/url.PathUnescape", "net/url.QueryUnescape", "(net/url.Values).Get",
}

var pureNames = map[string]bool{
	"errors.Is": true, "errors.New": true, "errors.Unwrap": true, "fmt.Sprintf": true, "fmt.Errorf": true, "fmt.Sprint": true, "fmt.Sprintln": true,
	"time.Unix": true, "time.Date": true, "time.Parse": true, "time.ParseDuration": true, "reflect.DeepEqual": true, "reflect.TypeOf": true, "reflect.ValueOf": true,
	"io/fs.ValidPath": true, "io/fs.FileInfoToDirEntry": true,
	"bytes.Equal": true, "bytes.HasPrefix": true, "bytes.HasSuffix": true, "bytes.Contains": true, "bytes.TrimSpace": true, "bytes.Split": true, "bytes.SplitN": true,
	"bytes.Compare": true, "bytes.Index": true, "bytes.IndexByte": true, "bytes.TrimPrefix": true, "bytes.TrimSuffix": true, "bytes.ToLower": true, "bytes.Fields": true,
	"bytes.Trim": true, "bytes.TrimRight": true, "bytes.TrimLeft": true, "bytes.Join": true, "bytes.ReplaceAll": true, "bytes.Replace": true, "bytes.Repeat": true,
	"bytes.NewReader": true, "io.NopCloser": true, "io.MultiReader": true, "io.LimitReader": true, "io.TeeReader": true, "io.MultiWriter": true,
	"archive/tar.NewWriter": true, "archive/tar.NewReader": true, "encoding/csv.NewReader": true, "encoding/csv.NewWriter": true,
	"net/textproto.NewReader": true, "bufio.NewReader": true, "bufio.NewScanner": true, "bufio.NewWriter": true,
	"(*archive/tar.Header).FileInfo": true, "(error).Error": true, "(fmt.Stringer).String": true,
	"encoding/json.NewDecoder": true, "encoding/json.NewEncoder": true,
	"(reflect.Kind).String": true, "net/textproto.CanonicalMIMEHeaderKey": true,
	"(*archive/zip.FileHeader).Mode": true, "(*archive/zip.FileHeader).FileInfo": true, "(*archive/zip.FileHeader).ModTime": true,
	"os.IsNotExist": true, "os.SameFile": true, "os.IsExist": true, "os.Getpagesize": true,
	"k8s.io/apimachinery/pkg/util/intstr.FromInt": true, "k8s.io/apimachinery/pkg/util/intstr.FromString": true, "k8s.io/apimachinery/pkg/util/intstr.Parse": true,
}

var filepathImpure = map[string]bool{"Walk": true, "WalkDir": true, "Abs": true, "Glob": true, "EvalSymlinks": true}

func isPure(name string) bool {
	if pureNames[name] {
		return true
	}
	if strings.HasPrefix(name, "path/filepath.") {
		return !filepathImpure[name[len("path/filepath."):]]
	}
	for _, p := range purePrefixes {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	// getters of the repository's file-reference interface
	if strings.HasPrefix(name, "("+modPath+"/pkg/fsutil.FileReference).") && !strings.HasSuffix(name, ".Open") {
		return true
	}
	switch name {
	case "strings.NewReader":
		return true
	}
	return false
}

var nonMutPrefixes = []string{
	"os.", "fmt.", "(*archive/tar.Writer).", "(*encoding/csv.Writer).", "github.com/datawire/dlib/", "(*sync.", "(sync.",
	"(*github.com/spf13/", "github.com/spf13/", "(*archive/zip.", "(context.Context).", "context.", "io.WriteString", "io.ReadAll", "io.Copy",
	"(io.Writer).", "(*os.File).Close", "(*os.File).Name", "(*os.File).Sync", "(*os.File).Stat", "(*os.File).Fd", "(hash.Hash).", "encoding/json.Marshal", "(io.Closer).",
	"(github.com/google/go-containerregistry/", "github.com/google/go-containerregistry/", "(*net/http.Client).Do", "sigs.k8s.io/yaml.Marshal", "errors.",
	"(*os/exec.Cmd).", "(*github.com/datawire/dlib/", "golang.org/x/term.", "time.", "runtime.",
}

func nonMutating(name string) bool {
	if name == "errors.As" {
		return false
	}
	for _, p := range nonMutPrefixes {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}
