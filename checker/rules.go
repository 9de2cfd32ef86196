package main

// Rule framework: obligations, violations, vacuity floors, evidence.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Violation struct {
	Rule  string
	Where string // file:line of the offending construct
	Fn    string
	Msg   string
	Trace []string
}

// Ctx collects what one property's rules analysed and found.
type Ctx struct {
	P     *Program
	Prop  string
	Tier  string
	viol  map[string]*Violation
	obl   map[string]map[string]bool // rule -> constructs on which the obligation was decided
	need  map[string]int
	rules map[string]string // rule -> text
	fns   map[*ssa.Function]bool
	sites map[ssa.Instruction]bool
	paths int
	steps int
	lossy int
	notes []string
	assum []string
	engs  int

	loopsDone    map[string]bool
	skipper      types.Type
	setKeys      map[*Term]map[string]bool // map -> directories of the scheme that its keys are in
	made         map[*Term]bool            // directories that are there when the loop goes on
	namesChecked bool
	only         bool // report on declared rules only
	iterOKs      map[string]string
	iterBads     map[string][]*Violation
}

func newCtx(P *Program, prop, tier string) *Ctx {
	return &Ctx{P: P, Prop: prop, Tier: tier, viol: map[string]*Violation{}, obl: map[string]map[string]bool{}, need: map[string]int{},
		iterOKs: map[string]string{}, iterBads: map[string][]*Violation{}, rules: map[string]string{}, fns: map[*ssa.Function]bool{}, sites: map[ssa.Instruction]bool{}}
}

// rule declares a rule, its text and the minimum number of constructs it must have decided.
func (c *Ctx) rule(id, text string, min int) {
	c.rules[id] = text
	if min > 0 {
		c.need[id] = min
	}
}

func (c *Ctx) assume(s string) {
	for _, a := range c.assum {
		if a == s {
			return
		}
	}
	c.assum = append(c.assum, s)
}

// okAt records a decided obligation outside an engine run.
func (c *Ctx) okAt(rule, construct string) {
	if c.obl[rule] == nil {
		c.obl[rule] = map[string]bool{}
	}
	c.obl[rule][construct] = true
}

func (c *Ctx) failAt(rule string, pos token.Pos, fn *ssa.Function, msg string, st *State) {
	v := &Violation{Rule: rule, Where: c.P.pos(pos), Msg: msg}
	if fn != nil {
		v.Fn = shortName(fnName(fn))
	}
	if st != nil {
		v.Trace = c.P.trace(st)
	}
	c.addViol(v)
}

func (c *Ctx) addViol(v *Violation) {
	k := v.Rule + "|" + v.Where + "|" + v.Msg
	if c.viol[k] == nil {
		c.viol[k] = v
	}
}

func (p *Program) trace(st *State) []string {
	var out []string
	for ev := st.trace; ev != nil && len(out) < 60; ev = ev.Prev {
		out = append(out, p.pos(ev.Pos)+": "+ev.Desc)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ok / fail from inside engine hooks (kept in the engine log: rounds before the loop fixpoint are discarded).
func (c *Ctx) ok(e *Eng, rule string, in ssa.Instruction, detail string) {
	if c.off(rule) {
		return
	}
	k := c.P.pos(posOf(in))
	if in != nil && in.Parent() != nil {
		k = shortName(fnName(in.Parent())) + "@" + k
	}
	if detail != "" {
		k += " " + detail
	}
	e.report(Rec{Kind: "ok", Key: rule, Det: k})
}

func (c *Ctx) okf(e *Eng, rule, detail string) {
	if c.off(rule) {
		return
	}
	e.report(Rec{Kind: "ok", Key: rule, Det: detail})
}

func (c *Ctx) off(rule string) bool { return c.only && c.rules[rule] == "" }

func (c *Ctx) fail(e *Eng, st *State, rule string, in ssa.Instruction, format string, a ...interface{}) {
	if c.off(rule) {
		return
	}
	v := &Violation{Rule: rule, Where: c.P.pos(posOf(in)), Msg: fmt.Sprintf(format, a...)}
	if in != nil && in.Parent() != nil {
		v.Fn = shortName(fnName(in.Parent()))
	}
	if st != nil {
		v.Trace = c.P.trace(st)
	}
	e.report(Rec{Kind: "violation", Key: rule, V: v})
}

func posOf(in ssa.Instruction) token.Pos {
	if in == nil {
		return token.NoPos
	}
	if in.Pos().IsValid() {
		return in.Pos()
	}
	if c, ok := in.(ssa.CallInstruction); ok && c.Common().Pos().IsValid() {
		return c.Common().Pos()
	}
	// nearest position in the block
	for _, x := range in.Block().Instrs {
		if x.Pos().IsValid() {
			return x.Pos()
		}
	}
	return in.Parent().Pos()
}

// missing reports an anchor that no longer resolves: the rule cannot be decided.
func (c *Ctx) missing(rule, what string) {
	c.addViol(&Violation{Rule: rule, Where: "?", Msg: "anchor not found, the property is undecided: " + what})
}

// run analyses fn from an arbitrary caller state and absorbs obligations.
func (c *Ctx) run(rule string, fn *ssa.Function, args []*Term, setup func(e *Eng, st *State)) (exits []exit) {
	return c.runThen(rule, fn, args, setup, nil)
}

// runThen analyses fn, then lets the rule go on from its exits with the same engine.
func (c *Ctx) runThen(rule string, fn *ssa.Function, args []*Term, setup func(e *Eng, st *State), then func(e *Eng, exits []exit) []exit) (exits []exit) {
	e := c.P.engine()
	e.mergeAt = 64
	e.opaqueFn = exportedElsewhere(fn)
	st := newState()
	if args == nil {
		args = symParams(fn)
	}
	var bind []*Term
	for _, fv := range fn.FreeVars {
		bind = append(bind, tt.mkT("sym", "free:"+fv.Name(), fv.Type()))
	}
	if setup != nil {
		setup(e, st)
	}
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if b, ok := r.(budgetErr); ok {
				msg = b.msg
			} else if debugPanics {
				panic(r)
			}
			c.addViol(&Violation{Rule: rule, Where: c.P.pos(fn.Pos()), Fn: shortName(fnName(fn)), Msg: "the analysis could not be completed, the property is undecided here: " + msg})
			exits = nil
		}
		c.absorb(e)
	}()
	exits = e.runFn(fn, "E;", args, bind, st)
	if then != nil {
		exits = then(e, exits)
	}
	c.paths += len(exits)
	return exits
}

var debugPanics = false

func symParams(fn *ssa.Function) []*Term {
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, symParam(p))
	}
	return args
}
func symParam(p *ssa.Parameter) *Term { return tt.mkT("sym", "param:"+p.Name(), p.Type()) }

// exportedElsewhere: the exported functions of other repository packages (as of the analysed release) are analysed as
// entries of their own and are opaque here; functions added later are looked into.
func exportedElsewhere(fn *ssa.Function) func(f *ssa.Function) bool {
	root := fn
	for root.Parent() != nil {
		root = root.Parent()
	}
	return func(f *ssa.Function) bool {
		return f.Pkg != nil && f.Pkg != root.Pkg && f.Object() != nil && f.Object().Exported() && f.Parent() == nil && knownExport[fnName(f)]
	}
}

func (c *Ctx) absorb(e *Eng) {
	for _, r := range e.log {
		switch r.Kind {
		case "violation":
			c.addViol(r.V)
		case "ok":
			c.okAt(r.Key, r.Det)
		case "iterok":
			c.iterOKs[r.Key+"|"+r.Det] = r.Key
		case "iterbad":
			c.iterBads[r.Key+"|"+r.Det] = append(c.iterBads[r.Key+"|"+r.Det], r.V)
		}
	}
	for f := range e.fns {
		c.fns[f] = true
	}
	for s := range e.callsites {
		c.sites[s] = true
	}
	c.steps += e.steps
	c.lossy += e.lossy
	c.engs++
}

// iterOK / iterBad: one iteration of the loop at header did (did not) what the rule asks of every iteration. A loop is
// subject to the rule if some iteration did it.
func (c *Ctx) iterOK(e *Eng, rule string, fr *frame, header *ssa.BasicBlock) {
	if c.off(rule) {
		return
	}
	e.report(Rec{Kind: "iterok", Key: rule, Det: c.loopKey(fr, header)})
}

func (c *Ctx) iterBad(e *Eng, st *State, rule string, fr *frame, header *ssa.BasicBlock, msg string) {
	if c.off(rule) {
		return
	}
	v := &Violation{Rule: rule, Where: c.P.pos(loopPos(header)), Fn: shortName(fnName(fr.fn)), Msg: msg, Trace: c.P.trace(st)}
	e.report(Rec{Kind: "iterbad", Key: rule, Det: c.loopKey(fr, header), V: v})
}

func (c *Ctx) loopKey(fr *frame, header *ssa.BasicBlock) string {
	return shortName(fnName(fr.fn)) + "#" + itoa(header.Index) + "@" + c.P.pos(loopPos(header))
}

// loopPos: the position of the first instruction of the loop that has one.
func loopPos(header *ssa.BasicBlock) token.Pos {
	for _, b := range append([]*ssa.BasicBlock{header}, header.Succs...) {
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				return x.Pos()
			}
		}
	}
	return header.Parent().Pos()
}

// markIn sets a mark together with the context it was set in; inLoop tells whether it was set inside the loop of frame fr
// whose back edge is being taken (directly or in functions called there).
func markIn(st *State, fr *frame, key string, v *Term) {
	st.SetMark(key, v)
	st.SetMark(key+"@", mkStr(fr.ctx))
}
func inLoop(st *State, fr *frame, key string) bool {
	if m := st.Mark(key + "@"); m != nil {
		s, _ := m.str()
		return strings.HasPrefix(s, fr.ctx)
	}
	return false
}
func clearIn(st *State, keys ...string) {
	for _, k := range keys {
		st.ClearMark(k)
		st.ClearMark(k + "@")
	}
}

// finish checks the vacuity floors.
func (c *Ctx) finish() {
	for k, rule := range c.iterOKs {
		if bs := c.iterBads[k]; len(bs) > 0 {
			for _, v := range bs {
				c.addViol(v)
			}
		} else {
			c.okAt(rule, "loop "+strings.TrimPrefix(k, rule+"|"))
		}
	}
	var ids []string
	for id := range c.need {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		bad := false
		for _, v := range c.viol {
			if v.Rule == id {
				bad = true
			}
		}
		if len(c.obl[id]) < c.need[id] && !bad {
			c.addViol(&Violation{Rule: id, Where: "?", Msg: fmt.Sprintf("only %d construct(s) were decided where at least %d are expected: the guarded construct is gone or no longer recognised, so the property is not established (%s)", len(c.obl[id]), c.need[id], c.rules[id])})
		}
	}
}

// ---------------------------------------------------------------------------
// shared term helpers

func (p *Program) typeOf(pkg, name string) types.Type {
	for _, sp := range p.prog.AllPackages() {
		if sp.Pkg.Path() == pkg {
			if o := sp.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

// fieldOf reads field name of the struct that pointer p points to, in state st.
func fieldOf(st *State, p *Term, structT types.Type, name string) *Term {
	s, ok := structT.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return st.load(mkFA(p, s, i, types.NewPointer(s.Field(i).Type())), s.Field(i).Type())
		}
	}
	return nil
}

func pointee(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// valField reads field name of a struct value term.
func valField(v *Term, name string) *Term {
	if v == nil || v.T == nil {
		return nil
	}
	s, ok := v.T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return mkField(v, name, s.Field(i).Type())
		}
	}
	return nil
}

func unbox(t *Term) *Term {
	for t != nil && t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

func isNamed(t types.Type, pkg, name string) bool {
	if t == nil {
		return false
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

// isErrNil reports whether the error result res is known nil / known non-nil / unknown.
func errState(st *State, res *Term) tri {
	if res == nil {
		return unknown
	}
	return st.decide(mkEq(res, tNil))
}

func lastRes(x exit) *Term {
	if len(x.res) == 0 {
		return nil
	}
	return x.res[len(x.res)-1]
}

func hasErrResult(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	return r.Len() > 0 && isErrorType(r.At(r.Len()-1).Type())
}

// funcs with bodies of one repository package directory (all packages if dir=="").
func (p *Program) pkgFns(dir string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.fns {
		if dir == "" || pkgDir(f) == dir {
			out = append(out, f)
		}
	}
	return out
}

func pkgDir(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return "?"
	}
	return strings.TrimPrefix(strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath), "/")
}

func paramOfType(fn *ssa.Function, pred func(types.Type) bool) *ssa.Parameter {
	for _, p := range fn.Params {
		if pred(p.Type()) {
			return p
		}
	}
	return nil
}

func isTime(t types.Type) bool { return isNamed(t, "time", "Time") }

// repoType looks up a named type of the repository.
func (p *Program) repoType(pkg, name string) types.Type { return p.typeOf(modPath+"/"+pkg, name) }

// hookFactories: exported functions that return a post-install hook.
func (p *Program) hookFactories() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.fns {
		if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil {
			continue
		}
		r := f.Signature.Results()
		if r.Len() == 1 && isNamed(r.At(0).Type(), modPath+"/pkg/python/pypa/bdist", "PostInstallHook") {
			out = append(out, f)
		}
	}
	return out
}

type hookArgs struct{ ctx, clamp, vfs, dir *Term }

// runHook analyses the hook that factory f returns, called with arbitrary arguments; returns the exits of the hook.
func (c *Ctx) runHook(rule string, f *ssa.Function, setup func(e *Eng, st *State, a hookArgs)) []exit {
	ht := c.P.repoType("pkg/python/pypa/bdist", "PostInstallHook")
	if ht == nil {
		c.missing(rule, "bdist.PostInstallHook")
		return nil
	}
	sig := ht.Underlying().(*types.Signature)
	var args []*Term
	for i := 0; i < sig.Params().Len(); i++ {
		args = append(args, tt.mkT("sym", "hook:"+itoa(i), sig.Params().At(i).Type()))
	}
	if len(args) != 4 {
		c.missing(rule, "the parameters of a post-install hook")
		return nil
	}
	ha := hookArgs{args[0], args[1], args[2], args[3]}
	return c.runThen(rule, f, nil, func(e *Eng, st *State) {
		e.mergeAt = 2000
		setup(e, st, ha)
	}, func(e *Eng, exits []exit) []exit {
		var out []exit
		for _, x := range exits {
			if x.kind != exitRet || len(x.res) != 1 {
				continue
			}
			h := x.st.resolve(x.res[0])
			if h.isNil() {
				continue
			}
			if h.Op != "closure" && h.Op != "fn" {
				c.addViol(&Violation{Rule: rule, Where: c.P.pos(f.Pos()), Fn: shortName(fnName(f)), Msg: "the hook returned cannot be resolved: " + h.String()})
				continue
			}
			out = append(out, e.runFn(h.Fn, "H;", args, h.Args, x.st)...)
		}
		return out
	})
}

// apply analyses a call of a function value on a copy of the state and returns the possible results.
func (e *Eng) apply(st *State, f *Term, args ...*Term) []*Term {
	var out []*Term
	for _, r := range e.applyAll(st, f, args...) {
		out = append(out, r[0])
	}
	return out
}

// applyAll: the same with all results of each return.
func (e *Eng) applyAll(st *State, f *Term, args ...*Term) [][]*Term {
	var out [][]*Term
	for _, x := range e.applyExits(st, f, args...) {
		out = append(out, x.res)
	}
	return out
}

// applyExits: the same with the states.
func (e *Eng) applyExits(st *State, f *Term, args ...*Term) []exit {
	f = unbox(f)
	if f == nil || f.Op != "closure" && f.Op != "fn" || f.Fn == nil || len(f.Fn.Blocks) == 0 {
		return nil
	}
	hk := e.hooks
	e.hooks = e.applyHooks
	defer func() { e.hooks = hk }()
	var out []exit
	for _, x := range e.runFn(f.Fn, "A;", args, f.Args, st.clone()) {
		if x.kind == exitRet && len(x.res) > 0 {
			var rs []*Term
			for _, r := range x.res {
				rs = append(rs, x.st.resolve(r))
			}
			x.res = rs
			out = append(out, x)
		}
	}
	return out
}
