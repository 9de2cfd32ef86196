package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Properties C02 (clock and other ambient values) and C03 (order of maps), decided on the SSA form of every function of the
// repository other than the test helpers.

// shipped: functions that are part of the program or its library packages, rather than test helpers.
func (c *Ctx) shipped() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.P.fns {
		p := fnPkgPath(f)
		if strings.HasPrefix(p, modPath+"/pkg/testutil") || strings.HasPrefix(p, modPath+"/tools") {
			continue
		}
		out = append(out, f)
		c.fns[f] = true
	}
	return out
}

func fnPkgPath(f *ssa.Function) string {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg.Pkg.Path()
		}
		if g.Origin() != nil && g.Origin().Pkg != nil {
			return g.Origin().Pkg.Pkg.Path()
		}
	}
	return ""
}

// ---------------------------------------------------------------------------------------------------------------------
// C02

// ambient: functions whose result differs from run to run.
func ambient(name string) string {
	switch name {
	case "time.Now", "time.Since", "time.Until":
		return "the time of day"
	case "os.Getpid", "os.Getppid":
		return "the process ID"
	case "os.Hostname":
		return "the name of the host"
	case "os.Getuid", "os.Geteuid", "os.Getgid", "os.Getegid", "os/user.Current":
		return "the user who runs the program"
	case "runtime.NumGoroutine", "runtime.NumCPU", "runtime.GOMAXPROCS":
		return "the machine"
	case "os.Getwd":
		return "the working directory"
	}
	for _, p := range []string{"math/rand.", "math/rand/v2.", "crypto/rand."} {
		if strings.HasPrefix(name, p) {
			switch strings.TrimPrefix(name, p) {
			case "New", "NewSource", "NewZipf", "NewPCG", "NewChaCha8":
				return ""
			}
			return "a random number"
		}
	}
	return ""
}

// flowsOnlyTo: every use of v ends, through pure computations in the function, in an argument of one of the functions.
func flowsOnlyTo(v ssa.Value, ok func(name string) bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			n := calleeName(&x.Call)
			if ok(n) {
				continue
			}
			if strings.HasPrefix(n, "fmt.Sprint") || strings.HasPrefix(n, "strconv.") || strings.HasPrefix(n, "(time.Time).") || strings.HasPrefix(n, "strings.") || x.Call.StaticCallee() != nil && strings.HasPrefix(fnPkgPath(x.Call.StaticCallee()), "time") {
				if !flowsOnlyTo(x, ok, seen) {
					return false
				}
				continue
			}
			return false
		case *ssa.Return:
			// follow the result of an unexported function to its callers
			f := x.Parent()
			if f.Object() == nil || f.Object().Exported() || f.Referrers() == nil {
				return false
			}
			return false
		case *ssa.Store:
			switch a := x.Addr.(type) {
			case *ssa.IndexAddr:
				if !flowsOnlyTo(a.X, ok, seen) {
					return false
				}
			default:
				return false
			}
		case *ssa.IndexAddr:
		case ssa.Value:
			if !flowsOnlyTo(x, ok, seen) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func init() {
	propRules["C02"] = func(c *Ctx) {
		c.rule("C02.sources", "the time of day, process and user IDs, random numbers and the like are used only for the default of the clock of reproducible builds, and in the name of temporary Docker tags", 2)
		c.rule("C02.epoch", "the clock of reproducible builds is SOURCE_DATE_EPOCH if that is a number, and the time of day only if it is not", 2)
		c.rule("C02.once", "the clock of reproducible builds is set once per process", 1)
		c.rule("C02.clamp", "the commands clamp the times of the files that they read to the clock of reproducible builds", 2)
		repro := modPath + "/pkg/reproducible"
		for _, f := range c.shipped() {
			p := fnPkgPath(f)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok {
						n := calleeName(call.Common())
						if what := ambient(n); what != "" {
							c.sites[in] = true
							switch {
							case p == repro && n == "time.Now":
								c.okAt("C02.sources", c.P.pos(posOf(in))+" "+n)
							case call.Value() != nil && flowsOnlyTo(call.Value(), func(n string) bool {
								return strings.HasSuffix(n, "go-containerregistry/pkg/name.NewTag") || strings.Contains(n, "dlib/dlog.")
							}, map[ssa.Value]bool{}):
								c.okAt("C02.sources", c.P.pos(posOf(in))+" "+n)
							default:
								c.failAt("C02.sources", posOf(in), f, "what the program does may depend on "+what+" ("+n+")", nil)
							}
						}
					}
					for _, op := range in.Operands(nil) {
						if op == nil || *op == nil {
							continue
						}
						if g, ok := (*op).(*ssa.Function); ok && ambient(fnName(g)) != "" {
							if call, isCall := in.(ssa.CallInstruction); isCall && call.Common().Value == g {
								continue
							}
							if p == repro && fnName(g) == "time.Now" {
								continue
							}
							c.failAt("C02.sources", posOf(in), f, "what the program does may depend on "+ambient(fnName(g))+" ("+fnName(g)+" used as a value)", nil)
						}
					}
				}
			}
		}
		// the clock itself
		now := c.P.fn("pkg/reproducible", "Now")
		if now == nil {
			c.missing("C02.epoch", "reproducible.Now")
			return
		}
		isTimeVal := func(e *Eng, st *State, v *Term, in ssa.Instruction) {
			parse := func(x *Term) bool {
				s, i := stripConv(x).siteOf()
				return s != nil && i == 0 && (s.siteName() == "strconv.ParseInt" || s.siteName() == "strconv.Atoi") && s.Args[0].contains(mkStr("SOURCE_DATE_EPOCH")) &&
					(s.siteName() == "strconv.Atoi" || s.Args[1] == mkInt(10) && (s.Args[2] == mkInt(64) || s.Args[2] == tZero))
			}
			v = stripUTC(v)
			switch {
			case v.isCall("time.Unix") || v.siteName() == "time.Unix":
				u := v
				if s, _ := v.siteOf(); s != nil {
					u = s
				}
				if len(u.Args) == 2 && parse(u.Args[0]) && u.Args[1] == tZero {
					s, _ := stripConv(u.Args[0]).siteOf()
					if errOf(st, s) == yes || st.Mark("parsed") == tTrue {
						c.ok(e, "C02.epoch", in, "SOURCE_DATE_EPOCH")
						return
					}
				}
				c.fail(e, st, "C02.epoch", in, "the clock is set to %v", v)
			case v.siteName() == "time.Now":
				switch st.Mark("parsed") {
				case tFalse:
					c.ok(e, "C02.epoch", in, "time of day")
				default:
					c.fail(e, st, "C02.epoch", in, "the clock may be the time of day although SOURCE_DATE_EPOCH is set")
				}
			case v.Op == "ld" || v.Op == "sym" || v.Op == "zero" || v.Op == "havoc" || v.Op == "fld":
			default:
				if len(v.Args) == 0 {
					return // a variable, judged where it is set
				}
				c.fail(e, st, "C02.epoch", in, "the clock is set to %v (%s)", v, v.Op)
			}
		}
		branch := func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			if cond.Op == "bin" && cond.Aux == "==" {
				for i := 0; i < 2; i++ {
					a, b := cond.Args[i], cond.Args[1-i]
					s, k := a.siteOf()
					if s != nil && k == 1 && b.isNil() && (s.siteName() == "strconv.ParseInt" || s.siteName() == "strconv.Atoi") {
						st.SetMark("parsed", mkBool(val))
					}
					if b == tEmpty && a.contains(mkStr("SOURCE_DATE_EPOCH")) && val {
						st.SetMark("parsed", tFalse)
					}
				}
			}
			if s, k := cond.siteOf(); s != nil && k == 1 && s.siteName() == "os.LookupEnv" && !val {
				st.SetMark("parsed", tFalse)
			}
		}
		for _, f := range c.P.fns {
			if fnPkgPath(f) != repro || f.Synthetic != "" {
				continue
			}
			retTime := f.Signature.Results().Len() > 0 && isTime(f.Signature.Results().At(0).Type())
			storesTime := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok && isTime(s.Val.Type()) {
						if _, ok := s.Addr.(*ssa.Global); ok {
							storesTime = true
							once := c.runOnce(f)
							if once {
								c.okAt("C02.once", c.P.pos(posOf(in)))
							} else {
								c.failAt("C02.once", posOf(in), f, "the clock may be set more than once", nil)
							}
						}
					}
				}
			}
			if !retTime && !storesTime {
				continue
			}
			f := f
			exits := c.run("C02.epoch", f, nil, func(e *Eng, st *State) {
				e.hooks.Branch = branch
				e.hooks.Store = func(e *Eng, st *State, fr *frame, addr, v *Term, in ssa.Instruction) {
					if s, ok := in.(*ssa.Store); ok && isTime(s.Val.Type()) {
						if _, ok := s.Addr.(*ssa.Global); ok {
							isTimeVal(e, st, v, in)
						}
					}
				}
				e.hooks.FuncRet = func(e *Eng, st *State, g *ssa.Function, args, res []*Term) {
					if g == f && retTime && len(res) > 0 {
						isTimeVal(e, st, st.resolve(res[0]), g.Blocks[0].Instrs[0])
					}
				}
			})
			_ = exits
		}
		onceValue := false
		for _, b := range now.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok && strings.Contains(calleeName(call.Common()), "sync.Once") {
					onceValue = true
				}
			}
		}
		if onceValue {
			c.okAt("C02.once", "reproducible.Now")
		} else {
			c.once2(now)
		}
		// what the commands clamp to
		for _, f := range c.shipped() {
			if fnPkgPath(f) != modPath {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					n := calleeName(call.Common())
					if n != modPath+"/pkg/dir.LayerFromDir" && n != modPath+"/pkg/gobuild.LayerFromGo" {
						continue
					}
					for _, a := range call.Common().Args {
						if !isTime(a.Type()) {
							continue
						}
						if c.isReproNow(a, repro, 0) {
							c.okAt("C02.clamp", c.P.pos(posOf(in)))
						} else {
							c.failAt("C02.clamp", posOf(in), f, "the times of files are not clamped to the clock of reproducible builds", nil)
						}
					}
				}
			}
		}
	}
}

func stripUTC(v *Term) *Term {
	for v.Op == "call" && (v.Aux == "(time.Time).UTC" || v.Aux == "(time.Time).Truncate") && len(v.Args) > 0 {
		v = v.Args[0]
	}
	return v
}

// isReproNow: the value is the result of reproducible.Now, possibly through local variables and helpers.
func (c *Ctx) isReproNow(v ssa.Value, repro string, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			return false
		}
		if fnName(f) == repro+".Now" {
			return true
		}
		if n := fnName(f); n == "(time.Time).UTC" {
			return c.isReproNow(x.Call.Args[0], repro, depth+1)
		}
		if len(f.Blocks) == 0 || !inRepo(f) {
			return false
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && (len(r.Results) == 0 || !c.isReproNow(r.Results[0], repro, depth+1)) {
				return false
			}
		}
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !c.isReproNow(e, repro, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		if fv, ok := x.X.(*ssa.FreeVar); ok {
			return c.cellIs(bindingOf(fv), repro, depth)
		}
		return c.cellIs(x.X, repro, depth)
	case *ssa.FreeVar:
		if b := bindingOf(x); b != nil {
			return c.isReproNow(b, repro, depth+1)
		}
	case *ssa.Parameter:
		// all callers
		f := x.Parent()
		refs := callersOf(c.P, f)
		if len(refs) == 0 {
			return false
		}
		for i, p := range f.Params {
			if p == x {
				for _, r := range refs {
					if i >= len(r.Common().Args) || !c.isReproNow(r.Common().Args[i], repro, depth+1) {
						return false
					}
				}
			}
		}
		return true
	}
	return false
}

func (c *Ctx) cellIs(cell ssa.Value, repro string, depth int) bool {
	if cell == nil || cell.Referrers() == nil {
		return false
	}
	n := 0
	for _, r := range *cell.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == cell {
			n++
			if !c.isReproNow(s.Val, repro, depth+1) {
				return false
			}
		}
	}
	return n > 0
}

func bindingOf(fv *ssa.FreeVar) ssa.Value {
	f := fv.Parent()
	if f.Parent() == nil {
		return nil
	}
	idx := -1
	for i, x := range f.FreeVars {
		if x == fv {
			idx = i
		}
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				return mc.Bindings[idx]
			}
		}
	}
	return nil
}

var callerCache = map[*ssa.Function][]ssa.CallInstruction{}
var callerDone *Program

func callersOf(P *Program, f *ssa.Function) []ssa.CallInstruction {
	if callerDone != P {
		callerDone = P
		for _, g := range P.fns {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok {
						if h := call.Common().StaticCallee(); h != nil {
							callerCache[h] = append(callerCache[h], call)
						}
					}
				}
			}
		}
	}
	return callerCache[f]
}

// runOnce: the function is only ever run through sync.Once, or by such functions, or by package initialisation.
func (c *Ctx) runOnce(f *ssa.Function) bool {
	return c.runOnce1(f, 0)
}

func (c *Ctx) runOnce1(f *ssa.Function, depth int) bool {
	if depth > 5 {
		return false
	}
	if f.Parent() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
		return true
	}
	n := 0
	for _, g := range c.P.fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				uses := false
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
					for _, r := range *mc.Referrers() {
						n++
						if call, ok := r.(ssa.CallInstruction); !ok || !strings.Contains(calleeName(call.Common()), "sync.Once") {
							return false
						}
					}
					continue
				}
				for _, op := range in.Operands(nil) {
					if op != nil && *op == ssa.Value(f) {
						uses = true
					}
				}
				if !uses {
					continue
				}
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					return false
				}
				n++
				if call.Common().Value == ssa.Value(f) {
					if !c.runOnce1(g, depth+1) {
						return false
					}
				} else if !strings.Contains(calleeName(call.Common()), "sync.Once") {
					return false
				}
			}
		}
	}
	return n > 0
}

// once2: Now does not use sync.Once: it must return a variable that is set by package initialisation only.
func (c *Ctx) once2(now *ssa.Function) {
	for _, b := range now.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			good := false
			switch x := r.Results[0].(type) {
			case *ssa.UnOp:
				_, good = x.X.(*ssa.Global)
			case *ssa.Call:
				// a memoizing function value
				if u, ok := x.Call.Value.(*ssa.UnOp); ok {
					_, good = u.X.(*ssa.Global)
				}
				if g := x.Call.StaticCallee(); g != nil && inRepo(g) {
					good = true
				}
			}
			if good {
				c.okAt("C02.once", c.P.pos(posOf(r)))
			} else {
				c.failAt("C02.once", posOf(r), now, "the clock may differ between calls", nil)
			}
		}
	}
}

// ---------------------------------------------------------------------------------------------------------------------
// C03

type mloop struct {
	f      *ssa.Function
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	key    map[ssa.Value]bool // iteration key
	seeds  []ssa.Value        // iteration key and value
	of     ssa.Value          // the map
	pos    token.Pos
}

func naturalLoop(header *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	m := map[*ssa.BasicBlock]bool{header: true}
	var work []*ssa.BasicBlock
	for _, p := range header.Preds {
		if header.Dominates(p) {
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if m[b] {
			continue
		}
		m[b] = true
		work = append(work, b.Preds...)
	}
	return m
}

// outputName: the function puts its arguments somewhere in the order of the calls.
func outputName(n string) bool {
	switch n {
	case "io.Copy", "io.CopyN", "io.CopyBuffer", "io.WriteString", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "fmt.Print", "fmt.Printf", "fmt.Println",
		"(io.Writer).Write", "(hash.Hash).Write", "(io.StringWriter).WriteString":
		return true
	}
	for _, p := range []string{"(*bytes.Buffer).Write", "(*strings.Builder).Write", "(*bufio.Writer).Write", "(*archive/tar.Writer).Write", "(*encoding/csv.Writer).Write", "(*os.File).Write", "(*archive/zip.Writer).Create"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// rootOf: where an address or value comes from.
func vroot(v ssa.Value) ssa.Value {
	for i := 0; i < 30; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Field:
			v = x.X
		default:
			return v
		}
	}
	return v
}

// writesOut: the function writes to something that it was given.
func (c *Ctx) writesOut(f *ssa.Function, depth int) bool {
	if f == nil || depth > 4 || !inRepo(f) {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := call.Common()
			n := calleeName(cc)
			if outputName(n) {
				if strings.HasPrefix(n, "(hash.Hash)") && resets(f) {
					continue
				}
				var w ssa.Value
				if cc.IsInvoke() {
					w = cc.Value
				} else if len(cc.Args) > 0 {
					w = cc.Args[0]
				}
				if w == nil {
					continue
				}
				if isHash(w) && resets(f) {
					continue
				}
				switch vroot(w).(type) {
				case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
					return true
				}
			}
			if g := cc.StaticCallee(); g != nil && g != f && inRepo(g) && c.writesOut(g, depth+1) {
				for _, a := range cc.Args {
					switch vroot(a).(type) {
					case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
						if _, basic := a.Type().Underlying().(*types.Basic); !basic {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// resets: the function resets a hash.
func resets(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok && calleeName(call.Common()) == "(hash.Hash).Reset" {
				return true
			}
		}
	}
	return false
}

func isHash(v ssa.Value) bool {
	for i := 0; i < 5; i++ {
		if isNamed(v.Type(), "hash", "Hash") {
			return true
		}
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		default:
			return false
		}
	}
	return false
}

// plain: the value is an element of the map, or part of one, as it is.
func (l *mloop) plain(v ssa.Value) bool {
	for i := 0; i < 10; i++ {
		for _, s := range l.seeds {
			if v == s {
				return true
			}
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.Index:
			v = x.X
		case *ssa.Alloc:
			var w ssa.Value
			for _, r := range *x.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == x {
					w = s.Val
				}
			}
			if w == nil {
				return false
			}
			v = w
		default:
			return false
		}
	}
	return false
}

// searched: the block is reached only once an element was found to equal something that does not depend on the iteration.
func (l *mloop) searched(b *ssa.BasicBlock, t map[ssa.Value]bool) bool {
	for d := b; d != nil && l.blocks[d.Idom()]; d = d.Idom() {
		p := d.Idom()
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bin, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bin.Op != token.EQL && bin.Op != token.NEQ {
			continue
		}
		succ := p.Succs[0]
		if bin.Op == token.NEQ {
			succ = p.Succs[1]
		}
		if succ != d {
			continue
		}
		if l.plain(bin.X) && !t[bin.Y] || l.plain(bin.Y) && !t[bin.X] {
			return true
		}
	}
	return false
}

func (c *Ctx) taint(l *mloop) map[ssa.Value]bool {
	t := map[ssa.Value]bool{}
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		if t[v] {
			return
		}
		t[v] = true
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			if r.Block() == nil || !l.blocks[r.Block()] {
				continue
			}
			if s, ok := r.(*ssa.Store); ok {
				// a variable declared in the loop
				if a, ok := vroot(s.Addr).(*ssa.Alloc); ok && l.blocks[a.Block()] && s.Val == v {
					add(a)
				}
				continue
			}
			if x, ok := r.(ssa.Value); ok {
				if p, ok := x.(*ssa.Phi); ok && p.Block() == l.header {
					continue
				}
				add(x)
			}
		}
	}
	for _, s := range l.seeds {
		add(s)
	}
	return t
}

// appendOf: the slice that the append adds to, looking through the temporary for the variadic list.
func appendOf(v ssa.Value) *ssa.Call {
	if call, ok := v.(*ssa.Call); ok {
		if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return call
		}
	}
	return nil
}

// guardedLen1: the loop is reached only if the map has one element.
func guardedLen1(l *mloop) bool {
	for b := l.header; b != nil; b = b.Idom() {
		if len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bin, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		var lenOf ssa.Value
		var k int64 = -1
		for _, o := range []ssa.Value{bin.X, bin.Y} {
			if call, ok := o.(*ssa.Call); ok {
				if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					lenOf = call.Call.Args[0]
				}
			}
			if cn, ok := o.(*ssa.Const); ok && cn.Value != nil && isIntConst(cn) {
				k = cn.Int64()
			}
		}
		if lenOf == nil || !sameVal(lenOf, l.of) {
			continue
		}
		var succ *ssa.BasicBlock
		switch {
		case bin.Op == token.EQL && k == 1:
			succ = b.Succs[0]
		case bin.Op == token.NEQ && k == 1:
			succ = b.Succs[1]
		case bin.Op == token.GTR && k == 1 && bin.X != nil:
			succ = b.Succs[1]
		case bin.Op == token.LSS && k == 2, bin.Op == token.LEQ && k == 1:
			succ = b.Succs[0]
		}
		if succ != nil && len(succ.Preds) == 1 && (succ == l.header || succ.Dominates(l.header)) {
			return true
		}
	}
	return false
}

func isIntConst(cn *ssa.Const) bool {
	b := basicOf(cn.Type())
	return b != nil && b.Info()&types.IsInteger != 0
}

func sameVal(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL {
		return sameVal(x.X, y.X)
	}
	fx, ok1 := a.(*ssa.FieldAddr)
	fy, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && fx.Field == fy.Field && sameVal(fx.X, fy.X)
}

// keyOf: v is the iteration key, possibly through the copy of the loop variable.
func (l *mloop) isKey(v ssa.Value) bool {
	if l.key[v] {
		return true
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if a, ok := u.X.(*ssa.Alloc); ok {
			n := 0
			good := true
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					n++
					good = good && l.key[s.Val]
				}
			}
			return n > 0 && good
		}
	}
	return false
}

func (c *Ctx) checkLoop(l *mloop, what string) {
	const R = "C03.loops"
	t := c.taint(l)
	len1 := guardedLen1(l)
	bad := func(pos token.Pos, msg string) {
		if !pos.IsValid() {
			pos = l.pos
		}
		c.failAt(R, pos, l.f, msg+" in the order of "+what, nil)
	}
	if len1 {
		c.okAt(R, c.P.pos(l.pos))
		return
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case ssa.CallInstruction:
				cc := x.Common()
				n := calleeName(cc)
				tainted := false
				for _, a := range cc.Args {
					tainted = tainted || c.argTainted(l, t, a)
				}
				if !tainted {
					continue
				}
				var w ssa.Value
				if cc.IsInvoke() {
					w = cc.Value
				} else if len(cc.Args) > 0 {
					w = cc.Args[0]
				}
				if outputName(n) && w != nil {
					if c.outside(l, w) {
						bad(posOf(in), "something is written")
					}
					continue
				}
				g := cc.StaticCallee()
				if g != nil && inRepo(g) {
					if c.writesOut(g, 0) {
						for _, a := range cc.Args {
							if _, basic := a.Type().Underlying().(*types.Basic); !basic && c.outside(l, a) {
								bad(posOf(in), "something is written by "+shortName(fnName(g)))
								break
							}
						}
					}
					if i, j := movesIn(g); i >= 0 && i < len(cc.Args) && (!isMap(l.of) || sameVal(cc.Args[i], l.of)) && !l.isKey(cc.Args[j]) && t[cc.Args[j]] {
						bad(posOf(in), "files are moved, possibly onto each other,")
					}
				}
			case *ssa.MapUpdate:
				if !l.isKey(x.Key) && t[x.Key] && t[x.Value] && !t[vroot(x.Map)] {
					switch v := x.Value.(type) {
					case *ssa.Extract, *ssa.Lookup, *ssa.Phi, *ssa.Next, *ssa.UnOp:
						_ = v
						if _, isAlloc := vroot(x.Value).(*ssa.Alloc); !isAlloc {
							bad(posOf(in), "a map is filled under keys that may coincide, so the last one wins,")
						}
					}
				}
			case *ssa.Return:
				if l.searched(b, t) {
					continue
				}
				for _, r := range x.Results {
					if t[r] && !isErrorType(r.Type()) {
						bad(posOf(in), "a result is picked")
					}
				}
			}
		}
	}
	// what is carried from one iteration to the next
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		c.checkCarried(l, t, phi, bad)
	}
	// values of the iteration used after the loop: the first match
	for v := range t {
		if v.Referrers() == nil || isErrorType(v.Type()) {
			continue
		}
		for _, r := range *v.Referrers() {
			if r.Block() == nil || l.blocks[r.Block()] {
				continue
			}
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			// leaving the loop through a break or return with a value of the iteration
			if phi, ok := r.(*ssa.Phi); ok {
				all := true
				for i, e := range phi.Edges {
					if e == v && !l.searched(phi.Block().Preds[i], t) {
						all = false
					}
				}
				if all {
					continue
				}
			} else if l.searched(r.Block(), t) || leftSearched(l, r.Block(), t) {
				continue
			}
			if appendOf(v) != nil || isBool(v.Type()) {
				continue
			}
			if ret, ok := r.(*ssa.Return); ok {
				hasErr := false
				for _, x := range ret.Results {
					hasErr = hasErr || isErrorType(x.Type()) && t[x]
				}
				if hasErr {
					continue
				}
			}
			if call, ok := r.(ssa.CallInstruction); ok {
				n := calleeName(call.Common())
				if strings.HasPrefix(n, "fmt.Errorf") || strings.HasPrefix(n, "errors.") {
					continue
				}
			}
			if usedForErrorOnly(r, 0) {
				continue
			}
			bad(posOf(r), "the first match is taken")
		}
	}
	// accumulators in variables
	for b := range l.blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ap := appendOf(s.Val)
			if ap == nil || !c.appendTaint(l, t, ap) {
				continue
			}
			switch cell := s.Addr.(type) {
			case *ssa.Alloc:
				if !l.blocks[cell.Block()] {
					c.unordered(l, cell, true, posOf(ap), what)
				}
			case *ssa.FieldAddr, *ssa.FreeVar:
				c.unorderedCell(l, s.Addr, posOf(ap), what)
			}
		}
	}
	c.okAt(R, c.P.pos(l.pos))
}

// leftSearched: the block outside the loop is entered from it only where the search succeeded.
func leftSearched(l *mloop, b *ssa.BasicBlock, t map[ssa.Value]bool) bool {
	for d := b; d != nil; d = d.Idom() {
		if l.blocks[d] {
			return l.searched(d, t)
		}
		if p := d.Idom(); p != nil && l.blocks[p] && len(d.Preds) == 1 {
			// d hangs off the comparison itself
			iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
			if ok {
				if bin, ok := iff.Cond.(*ssa.BinOp); ok && (bin.Op == token.EQL && p.Succs[0] == d || bin.Op == token.NEQ && p.Succs[1] == d) &&
					(l.plain(bin.X) && !t[bin.Y] || l.plain(bin.Y) && !t[bin.X]) {
					return true
				}
			}
		}
	}
	return false
}

// usedForErrorOnly: the instruction builds something that ends in an error.
func usedForErrorOnly(r ssa.Instruction, depth int) bool {
	if depth > 12 {
		return false
	}
	v, ok := r.(ssa.Value)
	if !ok {
		if s, ok := r.(*ssa.Store); ok {
			if a, ok := vroot(s.Addr).(*ssa.Alloc); ok && a.Referrers() != nil {
				some := false
				for _, u := range *a.Referrers() {
					switch y := u.(type) {
					case *ssa.Store, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.DebugRef:
					case *ssa.Slice:
						some = usedForErrorOnly(y, depth+1)
					case *ssa.MakeInterface:
						some = isErrorType(y.Type())
					}
				}
				return some
			}
		}
		return false
	}
	if isErrorType(v.Type()) {
		return true
	}
	if call, ok := v.(*ssa.Call); ok {
		n := calleeName(&call.Call)
		if n == "fmt.Errorf" || strings.HasPrefix(n, "errors.") {
			return true
		}
	}
	if v.Referrers() == nil || len(*v.Referrers()) == 0 {
		return false
	}
	for _, u := range *v.Referrers() {
		if !usedForErrorOnly(u, depth+1) {
			return false
		}
	}
	return true
}

func isBool(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsBoolean != 0
}

func (c *Ctx) outside(l *mloop, v ssa.Value) bool {
	r := vroot(v)
	in, ok := r.(ssa.Instruction)
	if !ok {
		return true // parameters, free variables, globals
	}
	return !l.blocks[in.Block()]
}

func (c *Ctx) argTainted(l *mloop, t map[ssa.Value]bool, a ssa.Value) bool {
	if t[a] {
		return true
	}
	return c.listTainted(t, a)
}

// listTainted: a is a variadic list some element of which depends on the iteration.
func (c *Ctx) listTainted(t map[ssa.Value]bool, a ssa.Value) bool {
	sl, ok := a.(*ssa.Slice)
	if !ok {
		return false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return false
	}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok || ia.Referrers() == nil {
			continue
		}
		for _, q := range *ia.Referrers() {
			if s, ok := q.(*ssa.Store); ok && (t[s.Val] || t[vroot(s.Val)]) {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) appendTaint(l *mloop, t map[ssa.Value]bool, ap *ssa.Call) bool {
	for _, a := range ap.Call.Args[1:] {
		if c.argTainted(l, t, a) {
			return true
		}
	}
	return false
}

func (c *Ctx) checkCarried(l *mloop, t map[ssa.Value]bool, phi *ssa.Phi, bad func(token.Pos, string)) {
	// values that flow into phi from inside the loop
	var in []ssa.Value
	seen := map[ssa.Value]bool{phi: true}
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if p, ok := v.(*ssa.Phi); ok && l.blocks[p.Block()] {
			for _, e := range p.Edges {
				add(e)
			}
			return
		}
		in = append(in, v)
	}
	for i, e := range phi.Edges {
		if l.blocks[phi.Block().Preds[i]] {
			add(e)
		}
	}
	acc := false
	for _, v := range in {
		if ap := appendOf(v); ap != nil {
			if c.appendTaint(l, t, ap) {
				acc = true
			}
			continue
		}
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD && isStringType(b.Type()) && (t[b.X] || t[b.Y]) {
			bad(posOf(b), "a string is put together")
			continue
		}
		if t[v] && !isErrorType(v.Type()) && !isBool(v.Type()) {
			if _, isBin := v.(*ssa.BinOp); isBin {
				continue // sums and the like
			}
			if comparedIn(l, phi, t) {
				continue
			}
			bad(l.pos, "the last match is taken")
		}
	}
	if acc {
		c.unordered(l, phi, false, posOf(phi), "a map")
	}
}

// comparedIn: the value carried is compared with values of the iteration: a minimum or maximum.
func comparedIn(l *mloop, phi *ssa.Phi, t map[ssa.Value]bool) bool {
	if phi.Referrers() == nil {
		return false
	}
	for _, r := range *phi.Referrers() {
		if r.Block() == nil || !l.blocks[r.Block()] {
			continue
		}
		switch x := r.(type) {
		case *ssa.BinOp:
			switch x.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				return true
			}
		case *ssa.Call:
			n := calleeName(&x.Call)
			if strings.HasSuffix(n, ".After") || strings.HasSuffix(n, ".Before") || strings.HasSuffix(n, ".Cmp") || strings.HasSuffix(n, ".Compare") {
				return true
			}
		case *ssa.UnOp, *ssa.FieldAddr, *ssa.Field:
			return true // looked into: assume a comparison
		}
	}
	return false
}

func isMap(v ssa.Value) bool {
	_, ok := v.Type().Underlying().(*types.Map)
	return ok
}

// movesIn: the function puts what it looked up in its map parameter i under another of its parameters, j.
func movesIn(f *ssa.Function) (int, int) {
	idx := func(v ssa.Value) int {
		for i, p := range f.Params {
			if v == p {
				return i
			}
		}
		return -1
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if mu, ok := in.(*ssa.MapUpdate); ok {
				i, j := idx(mu.Map), idx(mu.Key)
				if i < 0 || j < 0 {
					continue
				}
				switch r := vroot(mu.Value).(type) {
				case *ssa.Lookup:
					if r.X == mu.Map {
						return i, j
					}
				case *ssa.Extract:
					if lk, ok := r.Tuple.(*ssa.Lookup); ok && lk.X == mu.Map {
						return i, j
					}
				}
			}
		}
	}
	return -1, -1
}

func isSortCall(n string) bool {
	if strings.HasPrefix(n, "sort.") {
		switch strings.TrimPrefix(n, "sort.") {
		case "Strings", "Ints", "Float64s", "Slice", "SliceStable", "Sort", "Stable":
			return true
		}
	}
	return strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "golang.org/x/exp/slices.Sort")
}

// sortsParam: the function sorts its parameter i.
func (c *Ctx) sortsParam(f *ssa.Function, i, depth int) bool {
	if f == nil || depth > 3 || i >= len(f.Params) || len(f.Blocks) == 0 {
		return false
	}
	return len(c.sortPoints(f, f.Params[i], depth)) > 0
}

// aliases: the values that are (conversions or copies of) v in the function.
func aliases(v ssa.Value) map[ssa.Value]bool {
	m := map[ssa.Value]bool{}
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		if m[v] {
			return
		}
		m[v] = true
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.ChangeType:
				add(x)
			case *ssa.MakeInterface:
				add(x)
			case *ssa.Slice:
				add(x)
			case *ssa.Store:
				if a, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					for _, q := range *a.Referrers() {
						if u, ok := q.(*ssa.UnOp); ok && u.Op == token.MUL {
							add(u)
						}
					}
				}
			}
		}
	}
	add(v)
	return m
}

func (c *Ctx) sortPoints(f *ssa.Function, v ssa.Value, depth int) []ssa.Instruction {
	var out []ssa.Instruction
	for a := range aliases(v) {
		if a.Referrers() == nil {
			continue
		}
		for _, r := range *a.Referrers() {
			call, ok := r.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := call.Common()
			for i, x := range cc.Args {
				if x != a {
					continue
				}
				if isSortCall(calleeName(cc)) && i == 0 {
					out = append(out, r)
				} else if g := cc.StaticCallee(); g != nil && inRepo(g) && c.sortsParam(g, i, depth+1) {
					out = append(out, r)
				}
			}
		}
	}
	return out
}

func instrBefore(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, x := range a.Block().Instrs {
			if x == a {
				return true
			}
			if x == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// unordered: v (or the variable v) holds a slice in random order after the loop: it must be sorted before its order matters.
func (c *Ctx) unordered(l *mloop, v ssa.Value, cell bool, pos token.Pos, what string) {
	vals := map[ssa.Value]bool{}
	if cell {
		for _, r := range *v.Referrers() {
			if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL && !l.blocks[u.Block()] && blockReachable(l.header, u.Block()) {
				vals[u] = true
			}
		}
	} else {
		vals[v] = true
	}
	c.unorderedVals(l.f, l.blocks, vals, pos, what, 0)
}

func blockReachable(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if rec(s) {
				return true
			}
		}
		return false
	}
	return rec(a)
}

func (c *Ctx) unorderedVals(f *ssa.Function, inside map[*ssa.BasicBlock]bool, vals map[ssa.Value]bool, pos token.Pos, what string, depth int) {
	const R = "C03.sorted"
	all := map[ssa.Value]bool{}
	var sorts []ssa.Instruction
	for v := range vals {
		for a := range aliases(v) {
			all[a] = true
		}
		sorts = append(sorts, c.sortPoints(f, v, 0)...)
		// phis that only merge it after the loop
		if v.Referrers() != nil {
			for _, r := range *v.Referrers() {
				if p, ok := r.(*ssa.Phi); ok && !inside[p.Block()] && !all[p] {
					for a := range aliases(p) {
						all[a] = true
					}
					sorts = append(sorts, c.sortPoints(f, p, 0)...)
				}
			}
		}
	}
	ok := true
	var list []ssa.Value
	for v := range all {
		list = append(list, v)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].Pos() < list[j].Pos() })
	for _, v := range list {
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			if r.Block() == nil || inside[r.Block()] || r.Parent() != f {
				continue
			}
			sorted := false
			for _, s := range sorts {
				if s == r || instrBefore(s, r) {
					sorted = true
				}
			}
			if sorted {
				continue
			}
			switch x := r.(type) {
			case *ssa.DebugRef, *ssa.ChangeType, *ssa.MakeInterface, *ssa.Phi, *ssa.Slice, *ssa.MakeClosure:
				continue
			case *ssa.Store:
				if _, isAlloc := x.Addr.(*ssa.Alloc); isAlloc {
					continue
				}
				if _, isFV := x.Addr.(*ssa.FreeVar); isFV {
					continue
				}
			case *ssa.BinOp:
				continue
			case *ssa.Return:
				if depth > 3 {
					break
				}
				// judged where it is called
				cs := callersOf(c.P, f)
				idx := -1
				for i, y := range x.Results {
					if y == v {
						idx = i
					}
				}
				if len(cs) > 0 && (f.Object() == nil || !f.Object().Exported()) {
					for _, call := range cs {
						cv, okv := call.(*ssa.Call)
						if !okv {
							continue
						}
						var res ssa.Value = cv
						if f.Signature.Results().Len() > 1 {
							res = nil
							for _, q := range *cv.Referrers() {
								if e, ok := q.(*ssa.Extract); ok && e.Index == idx {
									res = e
								}
							}
						}
						if res != nil {
							c.unorderedVals(call.Parent(), nil, map[ssa.Value]bool{res: true}, posOf(call), what, depth+1)
						}
					}
					continue
				}
			case ssa.CallInstruction:
				cc := x.Common()
				n := calleeName(cc)
				if n == "len" || n == "cap" {
					continue
				}
				if bi, isB := cc.Value.(*ssa.Builtin); isB {
					if bi.Name() == "len" || bi.Name() == "cap" {
						continue
					}
					if bi.Name() == "append" && len(cc.Args) > 0 && cc.Args[0] == v {
						// appended to: still unordered
						if cv, okv := x.(*ssa.Call); okv && depth < 3 {
							c.unorderedVals(f, inside, map[ssa.Value]bool{cv: true}, pos, what, depth+1)
						}
						continue
					}
				}
				g := cc.StaticCallee()
				if g == nil {
					if isCompiler(cc.Value.Type()) {
						c.assume("a python.Compiler gives each source file its own output, so the order of the sources does not matter")
						continue
					}
				} else if inRepo(g) && len(g.Blocks) > 0 && depth < 3 {
					for i, a := range cc.Args {
						if a == v && i < len(g.Params) {
							c.unorderedVals(g, nil, map[ssa.Value]bool{g.Params[i]: true}, posOf(x), what, depth+1)
						}
					}
					continue
				}
			case *ssa.IndexAddr, *ssa.Index, *ssa.Range:
				// gone over: the loop must not depend on the order either
				if c.loopOver(f, r, what) {
					continue
				}
			}
			ok = false
			c.failAt(R, posOf(r), f, "a list in the order of "+what+" is used without being sorted", nil)
		}
	}
	if ok {
		c.okAt(R, c.P.pos(pos))
	}
}

func isCompiler(t types.Type) bool {
	return isNamed(t, modPath+"/pkg/python", "Compiler")
}

func (c *Ctx) unorderedCell(l *mloop, addr ssa.Value, pos token.Pos, what string) {
	// a field or captured variable: look for its uses after the loop in this function only
	vals := map[ssa.Value]bool{}
	for _, b := range l.f.Blocks {
		if l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && sameVal(u.X, addr) && blockReachable(l.header, b) {
				vals[u] = true
			}
		}
	}
	if fv, ok := addr.(*ssa.FreeVar); ok {
		// and in the function that declares it
		if b := bindingOf(fv); b != nil && b.Referrers() != nil {
			pv := map[ssa.Value]bool{}
			for _, r := range *b.Referrers() {
				if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
					pv[u] = true
				}
			}
			c.unorderedVals(l.f.Parent(), nil, pv, pos, what, 1)
		}
	}
	c.unorderedVals(l.f, l.blocks, vals, pos, what, 0)
}

// loopOver: the index expression belongs to a loop whose effect does not depend on the order of the elements; reports if it does.
func (c *Ctx) loopOver(f *ssa.Function, at ssa.Instruction, what string) bool {
	ia, ok := at.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	// the innermost loop that it is in
	var best *mloop
	for _, b := range f.Blocks {
		isHeader := false
		for _, p := range b.Preds {
			if b.Dominates(p) {
				isHeader = true
			}
		}
		if !isHeader {
			continue
		}
		bl := naturalLoop(b)
		if bl[ia.Block()] && (best == nil || len(bl) < len(best.blocks)) {
			best = &mloop{f: f, header: b, blocks: bl, of: ia.X, pos: posOf(ia), key: map[ssa.Value]bool{}}
		}
	}
	if best == nil {
		return false
	}
	for _, r := range *ia.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
			best.seeds = append(best.seeds, u)
			best.key[u] = true
		}
	}
	k := c.P.pos(best.pos) + "|loop"
	if c.loopsDone[k] {
		return true
	}
	if c.loopsDone == nil {
		c.loopsDone = map[string]bool{}
	}
	c.loopsDone[k] = true
	c.checkLoop(best, what)
	return true
}

func init() {
	propRules["C03"] = func(c *Ctx) {
		c.rule("C03.loops", "what is done for each element of a map, or of a list in the order of a map, does not depend on the order", 4)
		c.rule("C03.sorted", "a list that is filled in the order of a map or of a raw directory listing is sorted before its order can matter", 2)
		c.rule("C03.concurrent", "no list is filled from several goroutines in the order in which they happen to finish", 0)
		for _, f := range c.shipped() {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Next:
						rg, ok := x.Iter.(*ssa.Range)
						if !ok {
							continue
						}
						if _, ok := rg.X.Type().Underlying().(*types.Map); !ok {
							continue
						}
						c.sites[in] = true
						l := &mloop{f: f, header: x.Block(), blocks: naturalLoop(x.Block()), of: rg.X, pos: posOf(rg), key: map[ssa.Value]bool{}}
						for _, r := range *x.Referrers() {
							if e, ok := r.(*ssa.Extract); ok && e.Index > 0 {
								l.seeds = append(l.seeds, e)
								if e.Index == 1 {
									l.key[e] = true
								}
							}
						}
						c.checkLoop(l, "a map")
					case *ssa.Call:
						n := calleeName(&x.Call)
						switch n {
						case "(*os.File).Readdir", "(*os.File).Readdirnames", "(*os.File).ReadDir":
							c.sites[in] = true
							for _, r := range *x.Referrers() {
								if e, ok := r.(*ssa.Extract); ok && e.Index == 0 {
									c.unorderedVals(f, nil, map[ssa.Value]bool{e: true}, posOf(x), "a raw directory listing", 0)
								}
							}
						case "golang.org/x/exp/maps.Keys", "golang.org/x/exp/maps.Values":
							c.unorderedVals(f, nil, map[ssa.Value]bool{x: true}, posOf(x), "a map", 0)
						}
					case *ssa.Go:
						g := x.Call.StaticCallee()
						if g == nil {
							continue
						}
						for _, gb := range g.Blocks {
							for _, gi := range gb.Instrs {
								if s, ok := gi.(*ssa.Store); ok && appendOf(s.Val) != nil {
									if _, ok := vroot(s.Addr).(*ssa.FreeVar); ok {
										c.failAt("C03.concurrent", posOf(gi), g, "a shared list is filled in the order in which goroutines happen to run", nil)
									}
								}
							}
						}
					}
				}
			}
		}
	}
}
