package main

// Path-sensitive abstract interpreter over go/ssa: forks at branches, joins equal states after
// garbage collection, widens loop-carried values, inlines repository functions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type CallEvent struct {
	Name     string
	Args     []*Term
	Res      *Term // Post only
	Fn       *ssa.Function
	Callee   *Term // dynamic callee term (dyncall)
	Instr    ssa.Instruction
	Pos      token.Pos
	Frame    *frame
	Deferred bool
}

type Rec struct {
	Kind string // "violation", "count", ...
	Key  string
	Det  string
	V    *Violation
	N    int
	T    *Term
	Pos  token.Pos
}

type Hooks struct {
	Pre         func(e *Eng, st *State, ev *CallEvent)
	Post        func(e *Eng, st *State, ev *CallEvent)
	Model       func(e *Eng, st *State, ev *CallEvent) (outs []callOut, handled bool)
	Store       func(e *Eng, st *State, fr *frame, addr, v *Term, in ssa.Instruction)
	Load        func(e *Eng, st *State, fr *frame, addr *Term, in ssa.Instruction)
	MapUpdate   func(e *Eng, st *State, fr *frame, m, k, v *Term, in ssa.Instruction)
	MapDelete   func(e *Eng, st *State, fr *frame, m, k *Term, in ssa.Instruction)
	Lookup      func(e *Eng, st *State, fr *frame, m, k *Term, in ssa.Instruction)
	Range       func(e *Eng, st *State, fr *frame, x *Term, in ssa.Instruction)
	BackEdge    func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock)
	LoopExit    func(e *Eng, st *State, fr *frame, header, from, to *ssa.BasicBlock)
	Branch      func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction)
	Panic       func(e *Eng, st *State, fr *frame, in ssa.Instruction)
	CallbackRet func(e *Eng, st *State, ev *CallEvent, fn *ssa.Function, res []*Term)
	FuncRet     func(e *Eng, st *State, fn *ssa.Function, args, res []*Term)
}

type Eng struct {
	P           *Program
	opaque      map[string]bool
	opaqueFn    func(fn *ssa.Function) bool
	hooks       Hooks
	applyHooks  Hooks // for apply and friends
	log         []Rec
	stack       []*ssa.Function
	steps       int
	maxSteps    int
	maxRec      int
	inflow      map[*Term]map[*Term]bool
	fns         map[*ssa.Function]bool
	paths       int
	joins       int
	merges      int
	lossy       int
	callsites   map[ssa.Instruction]bool
	noCallbacks bool
	initMode    bool
	mergeAt     int
	noUnroll    bool
	over        bool
	loopSeq     int
	recCalls    []*CallEvent
}

type callOut struct {
	st  *State
	res *Term
}

type exitKind int

const (
	exitRet exitKind = iota
	exitPanic
	exitOS
)

type exit struct {
	st   *State
	res  []*Term
	kind exitKind
	pos  token.Pos
	code *Term
}

type edgeState struct {
	st   *State
	pred *ssa.BasicBlock
}

type frame struct {
	fn     *ssa.Function
	ctx    string // current context incl. loops
	ctx0   string // context at activation
	bind   []*Term
	args   []*Term
	info   *fnInfo
	exits  []exit
	parent *frame
}

type budgetErr struct{ msg string }

func (e *Eng) report(r Rec) { e.log = append(e.log, r) }
func (e *Eng) count(key string, pos token.Pos) {
	e.log = append(e.log, Rec{Kind: "count", Key: key, N: 1, Pos: pos})
}

// ---------------------------------------------------------------------------
// function info

type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	rpo    map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]*loop
	liveIn []map[ssa.Value]bool
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	if fi, ok := p.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loop{}}
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		order = append(order, b)
	}
	dfs(fn.Blocks[0])
	for i := range order {
		fi.rpo[order[len(order)-1-i]] = i
	}
	// natural loops
	for _, b := range order {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := fi.loops[h]
				if l == nil {
					l = &loop{header: h, body: map[*ssa.BasicBlock]bool{h: true}}
					fi.loops[h] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	// Fix RPO so that loop bodies are contiguous before exits: with natural loops plain RPO may
	// interleave exits; the region evaluator does not depend on it.
	// liveness
	n := len(fn.Blocks)
	liveIn := make([]map[ssa.Value]bool, n)
	for i := range liveIn {
		liveIn[i] = map[ssa.Value]bool{}
	}
	isReg := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin, *ssa.FreeVar:
			return false
		}
		return v != nil
	}
	changed := true
	for changed {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range liveIn[s.Index] {
					live[v] = true
				}
				for pi, p := range s.Preds {
					if p == b {
						for _, in := range s.Instrs {
							if phi, ok := in.(*ssa.Phi); ok {
								delete(live, phi)
								if isReg(phi.Edges[pi]) {
									live[phi.Edges[pi]] = true
								}
							}
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					if _, isphi := in.(*ssa.Phi); !isphi {
						delete(live, v)
					}
				}
				if _, isphi := in.(*ssa.Phi); isphi {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && isReg(*op) {
						live[*op] = true
					}
				}
			}
			// phis defined here are live-in after resolution
			for _, in := range b.Instrs {
				if phi, ok := in.(*ssa.Phi); ok {
					_ = phi
				}
			}
			if len(live) != len(liveIn[i]) {
				liveIn[i] = live
				changed = true
			} else {
				for v := range live {
					if !liveIn[i][v] {
						liveIn[i] = live
						changed = true
						break
					}
				}
			}
		}
	}
	fi.liveIn = liveIn
	p.infos[fn] = fi
	return fi
}

// ---------------------------------------------------------------------------
// values

func (e *Eng) sym(fr *frame, label string, id string, typ types.Type) *Term {
	x := tt.mkT("sym", label+"@"+fr.ctx+"#"+id, typ)
	x.Ctx = fr.ctx
	return x
}

func (e *Eng) val(fr *frame, st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroOf(v.Type())
		}
		return mkConst(v.Value, v.Type())
	case *ssa.Function:
		return e.fnTerm(v)
	case *ssa.Global:
		return e.globalTerm(v)
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v {
				if i < len(fr.bind) {
					return fr.bind[i]
				}
			}
		}
		return e.sym(fr, "free:"+v.Name(), v.Name(), v.Type())
	case *ssa.Builtin:
		return tt.mk("builtin", v.Name())
	}
	if t, ok := st.regs[v]; ok {
		return t
	}
	return e.sym(fr, "undef:"+v.Name(), v.Name(), v.Type())
}

func (e *Eng) fnTerm(f *ssa.Function) *Term {
	x := tt.mkT("fn", fnName(f), f.Type())
	x.Fn = f
	return x
}

func (e *Eng) globalTerm(g *ssa.Global) *Term {
	return tt.mkT("global", g.Pkg.Pkg.Path()+"."+g.Name(), g.Type())
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil && f.Object() != nil {
		if tf, ok := f.Object().(*types.Func); ok {
			return tf.FullName()
		}
	}
	if f.Object() != nil && f.Parent() == nil && f.Synthetic == "" {
		if tf, ok := f.Object().(*types.Func); ok {
			return tf.FullName()
		}
	}
	return f.String()
}

// ---------------------------------------------------------------------------
// running

func (e *Eng) step() {
	e.steps++
	if e.steps > e.maxSteps {
		panic(budgetErr{fmt.Sprintf("analysis budget of %d steps exceeded", e.maxSteps)})
	}
}

// runFn evaluates fn from st; regs/defers of st are those of the caller and are restored by the caller.
func (e *Eng) runFn(fn *ssa.Function, ctx string, args, bind []*Term, st *State) []exit {
	if len(fn.Blocks) == 0 {
		panic("runFn without body: " + fn.String())
	}
	e.fns[fn] = true
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	fr := &frame{fn: fn, ctx: ctx, ctx0: ctx, bind: bind, args: args, info: e.P.info(fn)}
	st.regs = map[ssa.Value]*Term{}
	st.defers = nil
	for i, p := range fn.Params {
		if i < len(args) {
			st.regs[p] = args[i]
		}
	}
	r := e.runRegion(fr, nil, fn.Blocks[0], []*State{st})
	_ = r
	// dedupe exits after GC
	out := e.gcExits(fr, fr.exits)
	if e.hooks.FuncRet != nil {
		for _, x := range out {
			if x.kind == exitRet {
				e.hooks.FuncRet(e, x.st, fn, args, x.res)
			}
		}
	}
	return out
}

func (e *Eng) gcExits(fr *frame, exits []exit) []exit {
	seen := map[string]int{}
	var out []exit
	for _, x := range exits {
		x.st.regs = map[ssa.Value]*Term{}
		x.st.defers = nil
		e.gc(fr, x.st, nil, x.res)
		k := strconv.Itoa(int(x.kind)) + ";"
		for _, r := range x.res {
			k += strconv.Itoa(r.ID) + ","
		}
		k += x.st.key(nil)
		if x.kind == exitOS {
			k += "code" + strconv.Itoa(x.code.ID)
		}
		if _, ok := seen[k]; ok {
			e.merges++
			continue
		}
		seen[k] = len(out)
		out = append(out, x)
	}
	return out
}

type regionResult struct {
	backs []edgeState
	outs  map[*ssa.BasicBlock][]edgeState
	froms []*ssa.BasicBlock
}

// runRegion runs from header with already phi-resolved states; region==nil means the whole function.
func (e *Eng) runRegion(fr *frame, l *loop, header *ssa.BasicBlock, init []*State) *regionResult {
	res := &regionResult{outs: map[*ssa.BasicBlock][]edgeState{}}
	pending := map[*ssa.BasicBlock][]edgeState{}
	started := false
	resolved := map[*ssa.BasicBlock][]*State{header: init}
	route := func(to *ssa.BasicBlock, es edgeState) {
		if l != nil && to == header {
			res.backs = append(res.backs, es)
		} else if l != nil && !l.body[to] {
			res.outs[to] = append(res.outs[to], es)
		} else {
			pending[to] = append(pending[to], es)
		}
	}
	for {
		var b *ssa.BasicBlock
		if !started {
			b = header
			started = true
		} else {
			best := -1
			for x := range pending {
				// choose the block with smallest rpo such that no other pending block can reach it forward;
				// rpo order suffices for reducible graphs.
				r := e.effRPO(fr, l, x)
				if best < 0 || r < best {
					best = r
					b = x
				}
			}
			if b == nil {
				break
			}
		}
		es := pending[b]
		delete(pending, b)
		var states []*State
		if rs, ok := resolved[b]; ok {
			states = rs
			delete(resolved, b)
		}
		if lp := fr.info.loops[b]; lp != nil && lp != l {
			// inner loop (or top-level loop whose header is the entry of this region)
			var ents []*State
			for _, x := range es {
				e.resolvePhis(fr, x, b)
				ents = append(ents, x.st)
			}
			ents = append(ents, states...)
			ents = e.joinStates(fr, b, ents)
			for _, s := range ents {
				e.evalLoop(fr, lp, s, func(to *ssa.BasicBlock, x edgeState) { route(to, x) })
			}
			continue
		}
		for _, x := range es {
			e.resolvePhis(fr, x, b)
			states = append(states, x.st)
		}
		if b != header || l == nil {
			states = e.joinStates(fr, b, states)
		}
		for _, s := range states {
			e.runBlock(fr, b, s, route)
		}
	}
	return res
}

// effRPO orders pending blocks so that loop bodies complete before blocks after them.
func (e *Eng) effRPO(fr *frame, l *loop, b *ssa.BasicBlock) int { return fr.info.rpo[b] }

func (e *Eng) resolvePhis(fr *frame, x edgeState, b *ssa.BasicBlock) {
	pi := -1
	for i, p := range b.Preds {
		if p == x.pred {
			pi = i
			break
		}
	}
	if pi < 0 {
		return
	}
	var vs []*Term
	var ph []*ssa.Phi
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, phi)
		vs = append(vs, e.val(fr, x.st, phi.Edges[pi]))
	}
	for i, p := range ph {
		x.st.regs[p] = vs[i]
	}
}

func (e *Eng) joinStates(fr *frame, b *ssa.BasicBlock, states []*State) []*State {
	if len(states) == 0 {
		return nil
	}
	live := fr.info.liveIn[b.Index]
	// phis of this block are live too
	lv := map[ssa.Value]bool{}
	for v := range live {
		lv[v] = true
	}
	for _, in := range b.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			lv[phi] = true
		} else {
			break
		}
	}
	for _, s := range states {
		for v := range s.regs {
			if !lv[v] {
				delete(s.regs, v)
			}
		}
	}
	if len(states) == 1 {
		return states
	}
	e.joins++
	seen := map[string]bool{}
	var out []*State
	for _, s := range states {
		e.gc(fr, s, nil, nil)
		k := s.key(nil)
		if seen[k] {
			e.merges++
			continue
		}
		seen[k] = true
		out = append(out, s)
	}
	if e.mergeAt > 0 && len(out) > e.mergeAt {
		out = e.lossyMerge(fr, b, out)
	}
	return out
}

func (e *Eng) lossyMerge(fr *frame, b *ssa.BasicBlock, states []*State) []*State {
	if debugLossy {
		fmt.Fprintf(os.Stderr, "lossy merge in %s block %d: %d states\n", fr.fn, b.Index, len(states))
	}
	groups := map[string][]*State{}
	var order []string
	for _, s := range states {
		var k strings.Builder
		k.WriteString(s.markKey())
		var rs []string
		for v, t := range s.regs {
			rs = append(rs, v.Name()+"="+strconv.Itoa(t.ID))
		}
		sort.Strings(rs)
		k.WriteString(strings.Join(rs, ","))
		for _, d := range s.defers {
			k.WriteString(fmt.Sprint(d.fn.ID, ";"))
		}
		// facts about live registers stay distinguished
		var fs []string
		for _, t := range s.regs {
			if t == nil {
				continue
			}
			for _, at := range []*Term{t, tt.mk("bin", "==", t, tNil)} {
				if v, ok := s.facts[at]; ok {
					fs = append(fs, fmt.Sprint(at.ID, v))
				}
			}
		}
		sort.Strings(fs)
		k.WriteString(strings.Join(fs, ","))
		ks := k.String()
		if _, ok := groups[ks]; !ok {
			order = append(order, ks)
		}
		groups[ks] = append(groups[ks], s)
	}
	var out []*State
	for _, k := range order {
		g := groups[k]
		m := g[0]
		for _, s := range g[1:] {
			e.lossy++
			for f, v := range m.facts {
				if w, ok := s.facts[f]; !ok || w != v {
					delete(m.facts, f)
				}
			}
			for f, v := range m.eq {
				if s.eq[f] != v {
					delete(m.eq, f)
				}
			}
			for f, v := range m.rng {
				if s.rng[f] != v {
					delete(m.rng, f)
				}
			}
			locs := map[*Term]bool{}
			for l := range m.mem {
				locs[l] = true
			}
			for l := range s.mem {
				locs[l] = true
			}
			for l := range locs {
				a, okA := m.mem[l]
				c, okB := s.mem[l]
				if okA && okB && a == c {
					continue
				}
				js := tt.mkT("sym", fmt.Sprintf("join@%s#%d:%d", fr.ctx, b.Index, l.ID), elemType(l.T))
				js.Ctx = fr.ctx
				m.mem[l] = js
			}
			for h, v := range s.havoc {
				m.havoc[h] = v
			}
		}
		out = append(out, m)
	}
	return out
}

var debugLossy = os.Getenv("OCHECK_DEBUG") != ""

// gc drops memory and facts that were created in this activation and are unreachable.
func (e *Eng) gc(fr *frame, s *State, _ interface{}, extra []*Term) {
	if e.initMode {
		return
	}
	reach := map[*Term]bool{}
	var add func(t *Term)
	var work []*Term
	add = func(t *Term) {
		if t == nil || reach[t] {
			return
		}
		reach[t] = true
		work = append(work, t)
	}
	for _, t := range s.regs {
		add(t)
	}
	for _, t := range s.marks {
		add(t)
	}
	for _, d := range s.defers {
		add(d.fn)
		for _, a := range d.args {
			add(a)
		}
	}
	for _, t := range extra {
		add(t)
	}
	for _, t := range fr.bind {
		add(t)
	}
	local := func(t *Term) bool {
		return t.Ctx != "" && strings.HasPrefix(t.Ctx, fr.ctx0)
	}
	localRoot := map[*Term]bool{}
	for k := range s.mem {
		r := rootOf(memBase(k))
		if !hasLocal(r, local) {
			add(k)
			add(s.mem[k])
		} else {
			localRoot[k] = true
		}
	}
	for {
		for len(work) > 0 {
			t := work[len(work)-1]
			work = work[:len(work)-1]
			for _, a := range t.Args {
				add(a)
			}
		}
		again := false
		for k := range localRoot {
			if derivable(memBaseRoot(k), reach) {
				delete(localRoot, k)
				add(k)
				add(s.mem[k])
				again = true
			}
		}
		if !again && len(work) == 0 {
			break
		}
	}
	for k := range localRoot {
		delete(s.mem, k)
	}
	for h := range s.havoc {
		if hasLocal(rootOf(h), local) && !reach[rootOf(h)] {
			delete(s.havoc, h)
		}
	}
	// facts
	deadMemo := map[*Term]bool{}
	var dead func(t *Term) bool
	dead = func(t *Term) bool {
		if t == nil || reach[t] {
			return false
		}
		if v, ok := deadMemo[t]; ok {
			return v
		}
		deadMemo[t] = false
		r := false
		if local(t) {
			r = true
		} else {
			for _, a := range t.Args {
				if dead(a) {
					r = true
					break
				}
			}
		}
		deadMemo[t] = r
		return r
	}
	for f := range s.facts {
		if dead(f) {
			delete(s.facts, f)
		}
	}
	for f := range s.eq {
		if dead(f) {
			delete(s.eq, f)
		}
	}
	for f := range s.rng {
		if dead(f) {
			delete(s.rng, f)
		}
	}
}

// derivable: t is in use, or can be loaded again through something that is.
func derivable(t *Term, reach map[*Term]bool) bool {
	for {
		if reach[t] {
			return true
		}
		switch t.Op {
		case "deref", "fld", "idx", "hload":
		default:
			return false
		}
		if len(t.Args) == 0 {
			return false
		}
		t = rootOf(t.Args[0])
	}
}

func hasLocal(t *Term, local func(*Term) bool) bool {
	if local(t) {
		return true
	}
	for _, a := range t.Args {
		if a != nil && hasLocal(a, local) {
			return true
		}
	}
	return false
}

func memBase(k *Term) *Term {
	for k.Op == "me" || k.Op == "mapstate" {
		k = k.Args[0]
	}
	return k
}
func memBaseRoot(k *Term) *Term { return rootOf(memBase(k)) }

// evalLoop: unroll while the header decides concretely, else widen to a fixpoint.
func (e *Eng) evalLoop(fr *frame, l *loop, s0 *State, route func(*ssa.BasicBlock, edgeState)) {
	saved := fr.ctx
	defer func() { fr.ctx = saved }()
	id := fmt.Sprintf("|L%d.", l.header.Index)
	// attempt unrolling
	if !e.noUnroll && e.headerDecides(fr, l, s0) {
		cur := []*State{s0}
		for k := 0; k < 24 && len(cur) > 0; k++ {
			var next []*State
			for _, s := range cur {
				fr.ctx = saved
				if !e.headerDecides(fr, l, s) {
					e.widenLoop(fr, l, s, saved, id+"g.", route)
					continue
				}
				fr.ctx = saved + id + "u" + strconv.Itoa(k) + "."
				r := e.runRegion(fr, l, l.header, []*State{s})
				for to, xs := range r.outs {
					for _, x := range xs {
						if e.hooks.LoopExit != nil {
							e.hooks.LoopExit(e, x.st, fr, l.header, x.pred, to)
						}
						route(to, x)
					}
				}
				for _, b := range r.backs {
					e.resolvePhis(fr, b, l.header)
					if e.hooks.BackEdge != nil {
						e.hooks.BackEdge(e, b.st, fr, l.header)
					}
					next = append(next, b.st)
				}
			}
			fr.ctx = saved
			cur = e.joinStates(fr, l.header, next)
		}
		for _, s := range cur {
			e.widenLoop(fr, l, s, saved, id+"g.", route)
		}
		return
	}
	e.widenLoop(fr, l, s0, saved, id, route)
}

// headerDecides: the header block's branch has a single feasible successor in s and the header has no calls.
func (e *Eng) headerDecides(fr *frame, l *loop, s *State) bool {
	b := l.header
	ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	t := s.clone()
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			return t.decide(e.val(fr, t, ifi.Cond)) != unknown
		case *ssa.BinOp:
			t.regs[in] = mkBin(in.Op, e.val(fr, t, in.X), e.val(fr, t, in.Y), in.Type())
		case *ssa.UnOp:
			if in.Op == token.MUL {
				t.regs[in] = t.load(e.val(fr, t, in.X), in.Type())
			} else if in.Op == token.NOT {
				t.regs[in] = mkNot(e.val(fr, t, in.X))
			} else {
				return false
			}
		case *ssa.Call:
			if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				t.regs[in] = e.lenOf(t, e.val(fr, t, in.Call.Args[0]))
			} else {
				return false
			}
		default:
			return false
		}
	}
	return false
}

func (e *Eng) widenLoop(fr *frame, l *loop, s0 *State, saved, id string, route func(*ssa.BasicBlock, edgeState)) {
	defer func() { fr.ctx = saved }()
	fr.ctx = saved + id
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	w := s0.clone()
	widened := map[*ssa.Phi]bool{}
	variants := map[string]map[string]*Term{w.markKey(): cp(w.marks)}
	vorder := []string{w.markKey()}
	logLen := len(e.log)
	for round := 0; ; round++ {
		if round > 40 {
			panic(budgetErr{"loop fixpoint did not converge in " + fr.fn.String()})
		}
		e.log = e.log[:logLen]
		exitsLen := len(fr.exits)
		changed := false
		var outs []struct {
			to *ssa.BasicBlock
			x  edgeState
		}
		var backs []edgeState
		var init []*State
		for _, vk := range vorder {
			s := w.clone()
			s.marks = cp(variants[vk])
			init = append(init, s)
		}
		r := e.runRegion(fr, l, l.header, init)
		// deterministic order of outs
		var tos []*ssa.BasicBlock
		for to := range r.outs {
			tos = append(tos, to)
		}
		sort.Slice(tos, func(i, j int) bool { return tos[i].Index < tos[j].Index })
		for _, to := range tos {
			for _, x := range r.outs[to] {
				outs = append(outs, struct {
					to *ssa.BasicBlock
					x  edgeState
				}{to, x})
			}
		}
		backs = r.backs
		for _, b := range backs {
			e.resolvePhis(fr, b, l.header)
			if e.hooks.BackEdge != nil {
				e.hooks.BackEdge(e, b.st, fr, l.header)
			}
			for _, p := range phis {
				cur := w.regs[p]
				bv := b.st.regs[p]
				if widened[p] {
					e.flow(cur, bv)
					continue
				}
				if bv != cur {
					widened[p] = true
					nm := p.Comment
					if nm == "" {
						nm = p.Name()
					}
					ls := e.sym(fr, "loop:"+nm, "phi"+p.Name(), p.Type())
					e.flow(ls, cur)
					e.flow(ls, bv)
					w.regs[p] = ls
					changed = true
				}
			}
			if e.widenMem(fr, w, b.st, fr.ctx, id) {
				changed = true
			}
			if e.addVariant(fr, b.st, variants, &vorder) {
				changed = true
			}
		}
		if !changed {
			for _, o := range outs {
				if e.hooks.LoopExit != nil {
					e.hooks.LoopExit(e, o.x.st, fr, l.header, o.x.pred, o.to)
				}
				route(o.to, o.x)
			}
			return
		}
		fr.exits = fr.exits[:exitsLen]
	}
}

func (e *Eng) addVariant(fr *frame, b *State, variants map[string]map[string]*Term, vorder *[]string) bool {
	m := map[string]*Term{}
	for k, t := range b.marks {
		if hasLocal(t, func(x *Term) bool { return x.Ctx != "" && strings.HasPrefix(x.Ctx, fr.ctx) }) {
			continue
		}
		m[k] = t
	}
	tmp := &State{marks: m}
	k := tmp.markKey()
	if _, ok := variants[k]; ok {
		return false
	}
	if len(variants) > 64 {
		panic(budgetErr{"too many automaton states at loop in " + fr.fn.String()})
	}
	variants[k] = m
	*vorder = append(*vorder, k)
	return true
}

func (e *Eng) flow(sym, v *Term) {
	if e.inflow[sym] == nil {
		e.inflow[sym] = map[*Term]bool{}
	}
	if v != sym {
		e.inflow[sym][v] = true
	}
}

// widenMem: locations existing before the iteration whose value differs at the back edge.
func (e *Eng) widenMem(fr *frame, w, b *State, ctx, id string) bool {
	changed := false
	local := func(t *Term) bool { return t.Ctx != "" && strings.HasPrefix(t.Ctx, ctx) }
	locs := map[*Term]bool{}
	for k := range w.mem {
		locs[k] = true
	}
	for k := range b.mem {
		locs[k] = true
	}
	for _, k := range sortedTerms(locs) {
		if hasLocal(k, local) && w.mem[k] == nil {
			// address involving values born in this iteration: if the root object predates the loop,
			// the containing object must be forgotten (map entries, indexed elements).
			r := memBaseRoot(k)
			if hasLocal(r, local) {
				continue
			}
			base := memBase(k)
			if k.Op == "me" || k.Op == "mapstate" {
				if e.havocOnce(w, base, ctx) {
					changed = true
				}
				continue
			}
			if k.Op == "ia" {
				if e.havocOnce(w, k.Args[0], ctx) {
					changed = true
				}
				continue
			}
			continue
		}
		wv, okw := w.mem[k]
		bv, okb := b.mem[k]
		if okw && okb && wv == bv {
			continue
		}
		if k.Op == "me" || k.Op == "mapstate" {
			if e.havocOnce(w, memBase(k), ctx) {
				changed = true
			}
			continue
		}
		if !okb {
			// purged in the body (whole-object store or havoc)
			bv = b.load(k, elemType(k.T))
			if bv == wv {
				continue
			}
		}
		if !okw {
			wv = w.load(k, elemType(k.T))
			if wv == bv {
				continue
			}
		}
		ls := tt.mkT("sym", fmt.Sprintf("loopmem:%s@%s#m%d", locName(k), ctx, k.ID), elemType(k.T))
		ls.Ctx = ctx
		if wv == ls {
			e.flow(ls, bv)
			continue
		}
		e.flow(ls, wv)
		e.flow(ls, bv)
		w.purge(k)
		w.mem[k] = ls
		changed = true
	}
	for h, v := range b.havoc {
		if w.havoc[h] != v && !hasLocal(h, local) {
			if e.havocOnce(w, h, ctx) {
				changed = true
			}
		}
	}
	return changed
}

func locName(k *Term) string {
	switch k.Op {
	case "fa":
		return k.Aux
	case "alloc":
		n := k.Aux
		if i := strings.Index(n, "@"); i >= 0 {
			n = n[:i]
		}
		return n
	}
	return k.Op
}

func (e *Eng) havocOnce(w *State, base *Term, ctx string) bool {
	h := tt.mk("loophavoc", ctx+fmt.Sprint(base.ID))
	h.Ctx = ctx
	if w.havoc[base] == h {
		return false
	}
	w.purge(base)
	w.havoc[base] = h
	return true
}

// ---------------------------------------------------------------------------
// blocks

func (e *Eng) runBlock(fr *frame, b *ssa.BasicBlock, s *State, route func(*ssa.BasicBlock, edgeState)) {
	type item struct {
		st *State
		i  int
	}
	work := []item{{s, 0}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		st := it.st
	instrs:
		for i := it.i; i < len(b.Instrs); i++ {
			e.step()
			in := b.Instrs[i]
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.If:
				c := e.val(fr, st, in.Cond)
				switch st.decide(c) {
				case yes:
					if e.hooks.Branch != nil {
						e.hooks.Branch(e, st, fr, c, true, in)
					}
					route(b.Succs[0], edgeState{st, b})
				case no:
					if e.hooks.Branch != nil {
						e.hooks.Branch(e, st, fr, c, false, in)
					}
					route(b.Succs[1], edgeState{st, b})
				default:
					s2 := st.clone()
					if st.assume(c, true) {
						st.note(condPos(in), "assume "+c.show(4))
						if e.hooks.Branch != nil {
							e.hooks.Branch(e, st, fr, c, true, in)
						}
						route(b.Succs[0], edgeState{st, b})
					}
					if s2.assume(c, false) {
						s2.note(condPos(in), "assume !("+c.show(4)+")")
						if e.hooks.Branch != nil {
							e.hooks.Branch(e, s2, fr, c, false, in)
						}
						route(b.Succs[1], edgeState{s2, b})
					}
				}
				break instrs
			case *ssa.Jump:
				route(b.Succs[0], edgeState{st, b})
				break instrs
			case *ssa.Return:
				var res []*Term
				for _, r := range in.Results {
					res = append(res, e.val(fr, st, r))
				}
				e.paths++
				fr.exits = append(fr.exits, exit{st: st, res: res, kind: exitRet, pos: in.Pos()})
				break instrs
			case *ssa.Panic:
				st.note(in.Pos(), "panic "+e.val(fr, st, in.X).show(3))
				if e.hooks.Panic != nil {
					e.hooks.Panic(e, st, fr, in)
				}
				for _, s := range e.runDefers(fr, st) {
					fr.exits = append(fr.exits, exit{st: s, kind: exitPanic, pos: in.Pos()})
				}
				break instrs
			case *ssa.RunDefers:
				outs := e.runDefers(fr, st)
				for k := len(outs) - 1; k >= 0; k-- {
					work = append(work, item{outs[k], i + 1})
				}
				break instrs
			case *ssa.Defer:
				d := deferred{call: in, instr: in}
				if in.Call.IsInvoke() {
					d.fn = e.val(fr, st, in.Call.Value)
				} else {
					d.fn = e.val(fr, st, in.Call.Value)
				}
				for _, a := range in.Call.Args {
					d.args = append(d.args, e.val(fr, st, a))
				}
				st.defers = append(st.defers, d)
				continue
			case *ssa.Call:
				outs := e.call(fr, st, in, &in.Call, e.val(fr, st, in.Call.Value), e.vals(fr, st, in.Call.Args), false)
				if len(outs) == 1 {
					st = outs[0].st
					st.regs[in] = outs[0].res
					continue
				}
				for k := len(outs) - 1; k >= 0; k-- {
					outs[k].st.regs[in] = outs[k].res
					work = append(work, item{outs[k].st, i + 1})
				}
				break instrs
			case *ssa.Go:
				if e.hooks.Pre != nil {
					e.hooks.Pre(e, st, &CallEvent{Name: "go", Instr: in, Pos: in.Pos(), Frame: fr})
				}
				continue
			case *ssa.Lookup:
				outs := e.lookup(fr, st, in)
				if len(outs) == 1 {
					st = outs[0].st
					st.regs[in] = outs[0].res
					continue
				}
				for k := len(outs) - 1; k >= 0; k-- {
					outs[k].st.regs[in] = outs[k].res
					work = append(work, item{outs[k].st, i + 1})
				}
				break instrs
			case *ssa.Next:
				outs := e.next(fr, st, in)
				if len(outs) == 1 {
					st = outs[0].st
					st.regs[in] = outs[0].res
					continue
				}
				for k := len(outs) - 1; k >= 0; k-- {
					outs[k].st.regs[in] = outs[k].res
					work = append(work, item{outs[k].st, i + 1})
				}
				break instrs
			case *ssa.TypeAssert:
				outs := e.typeAssert(fr, st, in)
				if len(outs) == 1 {
					st = outs[0].st
					st.regs[in] = outs[0].res
					continue
				}
				for k := len(outs) - 1; k >= 0; k-- {
					outs[k].st.regs[in] = outs[k].res
					work = append(work, item{outs[k].st, i + 1})
				}
				break instrs
			default:
				e.simple(fr, st, in)
			}
		}
	}
}

func condPos(in *ssa.If) token.Pos {
	if p := in.Cond.Pos(); p.IsValid() {
		return p
	}
	b := in.Block()
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if p := b.Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return token.NoPos
}

func (e *Eng) vals(fr *frame, st *State, vs []ssa.Value) []*Term {
	out := make([]*Term, len(vs))
	for i, v := range vs {
		out[i] = e.val(fr, st, v)
	}
	return out
}

func (e *Eng) iid(in ssa.Instruction) string { return strconv.Itoa(e.P.instrID(in)) }

func (e *Eng) simple(fr *frame, st *State, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		nm := in.Comment
		if nm == "" {
			nm = "obj"
		}
		a := tt.mkT("alloc", nm+"@"+fr.ctx+"#"+e.iid(in), in.Type())
		a.Ctx = fr.ctx
		a.Pos = in.Pos()
		st.purge(a)
		delete(st.havoc, a)
		st.regs[in] = a
	case *ssa.BinOp:
		st.regs[in] = mkBin(in.Op, e.val(fr, st, in.X), e.val(fr, st, in.Y), in.Type())
	case *ssa.UnOp:
		x := e.val(fr, st, in.X)
		switch in.Op {
		case token.MUL:
			if e.hooks.Load != nil {
				e.hooks.Load(e, st, fr, x, in)
			}
			st.regs[in] = e.loadT(st, x, in.Type())
		case token.NOT:
			st.regs[in] = mkNot(x)
		case token.SUB:
			if x.isConst() {
				st.regs[in] = mkConst(constant.UnaryOp(token.SUB, x.C, 0), in.Type())
			} else {
				st.regs[in] = tt.mkT("neg", "", in.Type(), x)
			}
		case token.XOR:
			if x.isConst() {
				c := constant.UnaryOp(token.XOR, x.C, 0)
				st.regs[in] = mkConst(truncConst(c, in.Type()), in.Type())
			} else {
				st.regs[in] = tt.mkT("compl", "", in.Type(), x)
			}
		default:
			st.regs[in] = e.sym(fr, "recv", e.iid(in), in.Type())
		}
	case *ssa.ChangeInterface:
		st.regs[in] = e.val(fr, st, in.X)
	case *ssa.ChangeType:
		st.regs[in] = e.val(fr, st, in.X)
	case *ssa.Convert:
		st.regs[in] = e.convert(st, e.val(fr, st, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		st.regs[in] = e.val(fr, st, in.X)
	case *ssa.Extract:
		t := e.val(fr, st, in.Tuple)
		st.regs[in] = mkExt(t, in.Index, in.Type())
	case *ssa.Field:
		x := e.val(fr, st, in.X)
		sty := in.X.Type().Underlying().(*types.Struct)
		st.regs[in] = mkField(x, sty.Field(in.Field).Name(), in.Type())
	case *ssa.FieldAddr:
		x := e.val(fr, st, in.X)
		sty := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		st.regs[in] = mkFA(x, sty, in.Field, in.Type())
	case *ssa.Index:
		x := e.val(fr, st, in.X)
		i := e.val(fr, st, in.Index)
		if s, ok := x.str(); ok {
			if k, ok := i.intv(); ok && k >= 0 && int(k) < len(s) {
				st.regs[in] = mkInt(int64(s[k]))
				return
			}
		}
		if x.Op == "list" {
			if k, ok := i.intv(); ok && k >= 0 && int(k) < len(x.Args) {
				st.regs[in] = x.Args[k]
				return
			}
		}
		st.regs[in] = tt.mkT("idx", "", in.Type(), x, i)
	case *ssa.IndexAddr:
		x := e.val(fr, st, in.X)
		i := e.val(fr, st, in.Index)
		if _, ok := i.intv(); !ok && i.T != nil { // or else this panics
			st.assume(mkBin(token.LSS, i, mkInt(0), types.Typ[types.Bool]), false)
		}
		if x.Op == "slice" {
			if lo, ok := x.Args[1].intv(); ok {
				st.regs[in] = tt.mkT("ia", "", in.Type(), x.Args[0], mkBin(token.ADD, i, mkInt(lo), types.Typ[types.Int]))
				return
			}
		}
		for x.Op == "subslice" && x.Args[1] == tZero { // x[:n][i] is x[i]
			x = x.Args[0]
		}
		st.regs[in] = tt.mkT("ia", "", in.Type(), x, i)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, e.val(fr, st, b))
		}
		f := in.Fn.(*ssa.Function)
		c := tt.mkT("closure", f.String(), in.Type(), bs...)
		c.Fn = f
		st.regs[in] = c
	case *ssa.MakeInterface:
		x := e.val(fr, st, in.X)
		st.regs[in] = mkIface(in.X.Type(), x)
	case *ssa.MakeMap:
		a := tt.mkT("alloc", "map@"+fr.ctx+"#"+e.iid(in), in.Type())
		a.Ctx = fr.ctx
		a.Pos = in.Pos()
		st.purge(a)
		delete(st.havoc, a)
		st.mem[tt.mk("mapstate", "", a)] = tTrue
		st.regs[in] = a
	case *ssa.MakeSlice:
		a := tt.mkT("alloc", "slice@"+fr.ctx+"#"+e.iid(in), in.Type())
		a.Ctx = fr.ctx
		a.Pos = in.Pos()
		st.purge(a)
		delete(st.havoc, a)
		ln := e.val(fr, st, in.Len)
		if ln == tZero {
			st.regs[in] = tt.mkT("list", "", in.Type())
			return
		}
		st.mem[tt.mk("fa", "[len]", a)] = ln
		st.regs[in] = a
	case *ssa.MakeChan:
		st.regs[in] = e.sym(fr, "chan", e.iid(in), in.Type())
	case *ssa.MapUpdate:
		m, k, v := e.val(fr, st, in.Map), e.val(fr, st, in.Key), e.val(fr, st, in.Value)
		if e.hooks.MapUpdate != nil {
			e.hooks.MapUpdate(e, st, fr, m, k, v, in)
		}
		e.mapWrite(st, m, k, v)
	case *ssa.Range:
		if e.hooks.Range != nil {
			e.hooks.Range(e, st, fr, e.val(fr, st, in.X), in)
		}
		r := tt.mkT("range", fr.ctx+"#"+e.iid(in), nil, e.val(fr, st, in.X))
		r.Ctx = fr.ctx
		st.regs[in] = r
	case *ssa.Slice:
		st.regs[in] = e.slice(fr, st, in)
	case *ssa.SliceToArrayPointer:
		st.regs[in] = e.val(fr, st, in.X)
	case *ssa.Store:
		a, v := e.val(fr, st, in.Addr), e.val(fr, st, in.Val)
		if e.hooks.Store != nil {
			e.hooks.Store(e, st, fr, a, v, in)
		}
		st.store(a, v)
	case *ssa.Send, *ssa.Select:
		if v, ok := in.(ssa.Value); ok {
			st.regs[v] = e.sym(fr, "select", e.iid(in), v.Type())
		}
	default:
		if v, ok := in.(ssa.Value); ok {
			st.regs[v] = e.sym(fr, "unknown", e.iid(in), v.Type())
		}
	}
}

func (e *Eng) loadT(st *State, addr *Term, typ types.Type) *Term {
	if addr.Op == "global" {
		if v, ok := st.mem[addr]; ok {
			return v
		}
		if e.P.globals != nil && !st.hasHavoc(addr) {
			if v, ok := e.P.globals.mem[addr]; ok && !e.P.mutableGlobals[addr.Aux] {
				return v
			}
		}
	}
	return st.load(addr, typ)
}

func (s *State) hasHavoc(a *Term) bool { return s.havoc[a] != nil }

func mkIface(t types.Type, x *Term) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return x
	}
	r := tt.mkT("iface", types.TypeString(t, nil), nil, x)
	if r.T == nil {
		r.T = t
	}
	return r
}

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func (e *Eng) convert(st *State, x *Term, from, to types.Type) *Term {
	fb, tb := basicOf(from), basicOf(to)
	if tb != nil && tb.Info()&types.IsString != 0 {
		if fb != nil && fb.Info()&types.IsInteger != 0 {
			if v, ok := x.intv(); ok {
				return mkStr(string(rune(v)))
			}
			return tt.mkT("conv", "rune2string", to, x)
		}
		if fb != nil && fb.Info()&types.IsString != 0 {
			return x
		}
		return mkConv("string", to, x)
	}
	if fb != nil && fb.Info()&types.IsString != 0 {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if b := basicOf(sl.Elem()); b != nil && b.Kind() != types.Uint8 {
				return tt.mkT("conv", "[]rune", to, x)
			}
		}
		return mkConv("[]byte", to, x)
	}
	if fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		if x.isConst() && x.C.Kind() == constant.Int {
			return mkConst(truncConst(x.C, to), to)
		}
		fw, fu := intWidth(fb)
		tw, tu := intWidth(tb)
		if tw >= fw {
			_ = fu
			_ = tu
			return x
		}
		return tt.mkT("conv", tb.Name(), to, x)
	}
	if fb != nil && tb != nil {
		if x.isConst() {
			if tb.Info()&types.IsFloat != 0 {
				return mkConst(constant.ToFloat(x.C), to)
			}
		}
		return tt.mkT("conv", tb.Name(), to, x)
	}
	return x
}

func (e *Eng) slice(fr *frame, st *State, in *ssa.Slice) *Term {
	x := e.val(fr, st, in.X)
	var lo, hi *Term = tZero, nil
	if in.Low != nil {
		lo = e.val(fr, st, in.Low)
	}
	if in.High != nil {
		hi = e.val(fr, st, in.High)
	}
	if s, ok := x.str(); ok {
		l, ok1 := lo.intv()
		h := int64(len(s))
		ok2 := true
		if hi != nil {
			h, ok2 = hi.intv()
		}
		if ok1 && ok2 && l >= 0 && l <= h && h <= int64(len(s)) {
			return mkStr(s[l:h])
		}
	}
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		if at, ok := pt.Elem().Underlying().(*types.Array); ok {
			if hi == nil {
				hi = mkInt(at.Len())
			}
			return tt.mkT("slice", "", in.Type(), x, lo, hi)
		}
	}
	if x.Op == "slice" {
		if l0, ok := x.Args[1].intv(); ok {
			nlo := mkBin(token.ADD, lo, mkInt(l0), types.Typ[types.Int])
			nhi := x.Args[2]
			if hi != nil {
				nhi = mkBin(token.ADD, hi, mkInt(l0), types.Typ[types.Int])
			}
			return tt.mkT("slice", "", in.Type(), x.Args[0], nlo, nhi)
		}
	}
	if x.Op == "list" {
		l, ok1 := lo.intv()
		h := int64(len(x.Args))
		ok2 := true
		if hi != nil {
			h, ok2 = hi.intv()
		}
		if ok1 && ok2 && l >= 0 && l <= h && h <= int64(len(x.Args)) {
			return tt.mkT("list", "", in.Type(), x.Args[l:h]...)
		}
	}
	if lo == tZero && hi == nil {
		return x
	}
	if isStringType(in.X.Type()) {
		// nested substring from the left: x[a:][b:] = x[a+b:]
		if x.Op == "substr" && x.Args[2] == nil && hi == nil {
			return tt.mkT("substr", "", in.Type(), x.Args[0], mkBin(token.ADD, x.Args[1], lo, types.Typ[types.Int]), nil)
		}
		// x[len(p):] with HasPrefix(x,p)
		if hi == nil {
			for f, v := range st.facts {
				if v && f.isCall("strings.HasPrefix") && f.Args[0] == x {
					if mkCall("len", types.Typ[types.Int], f.Args[1]) == lo {
						return mkCall("strings.TrimPrefix", types.Typ[types.String], x, f.Args[1])
					}
				}
			}
		}
		return tt.mkT("substr", "", in.Type(), x, lo, hi)
	}
	return tt.mkT("subslice", "", in.Type(), x, lo, hi)
}

// elems returns the element terms of a slice value if its length is a known constant.
func (e *Eng) elems(st *State, x *Term) ([]*Term, bool) {
	switch x.Op {
	case "nil":
		return nil, true
	case "list":
		if st.havoc[x] != nil && len(x.Args) > 1 {
			return nil, false
		}
		out := make([]*Term, len(x.Args))
		for i, a := range x.Args {
			if v, ok := st.mem[tt.mk("ia", "", x, mkInt(int64(i)))]; ok {
				out[i] = v
			} else {
				out[i] = a
			}
		}
		return out, true
	case "slice":
		lo, ok1 := x.Args[1].intv()
		hi, ok2 := x.Args[2].intv()
		if ok1 && ok2 && hi-lo <= 64 {
			var et types.Type
			if x.T != nil {
				if sl, ok := x.T.Underlying().(*types.Slice); ok {
					et = sl.Elem()
				}
			}
			var out []*Term
			for i := lo; i < hi; i++ {
				out = append(out, st.load(tt.mkT("ia", "", types.NewPointer(orAny(et)), x.Args[0], mkInt(i)), et))
			}
			return out, true
		}
	}
	return nil, false
}

func orAny(t types.Type) types.Type {
	if t == nil {
		return types.NewInterfaceType(nil, nil)
	}
	return t
}

// snap turns array-backed slices of constant length into list values.
func (e *Eng) snap(st *State, x *Term) *Term {
	if x != nil && x.Op == "slice" {
		if es, ok := e.elems(st, x); ok {
			return tt.mkT("list", "", x.T, es...)
		}
	}
	if x != nil && x.Op == "list" {
		if es, ok := e.elems(st, x); ok {
			return tt.mkT("list", "", x.T, es...)
		}
	}
	return x
}

func (e *Eng) lenOf(st *State, x *Term) *Term {
	if x.Op == "alloc" {
		if v, ok := st.mem[tt.mk("fa", "[len]", x)]; ok {
			return v
		}
	}
	if x.Op == "append" {
		base := e.lenOf(st, x.Args[0])
		n := int64(0)
		all := true
		for _, a := range x.Args[1:] {
			if a.Op == "list" {
				n += int64(len(a.Args))
			} else {
				all = false
			}
		}
		if all {
			r := mkBin(token.ADD, base, mkInt(n), types.Typ[types.Int])
			return r
		}
	}
	if x.Op == "subslice" || x.Op == "substr" {
		if x.Args[2] != nil {
			return mkBin(token.SUB, x.Args[2], x.Args[1], types.Typ[types.Int])
		}
		return mkBin(token.SUB, e.lenOf(st, x.Args[0]), x.Args[1], types.Typ[types.Int])
	}
	if x.Op == "alloc" {
		// map: epoch-sensitive
		if st.havoc[x] != nil {
			return tt.mkT("call", "len", types.Typ[types.Int], x, st.havoc[x])
		}
		n, ok := e.mapKnown(st, x)
		if ok {
			return mkInt(int64(n))
		}
		var hs []*Term
		hs = append(hs, x)
		for _, k := range e.mapKeys(st, x) {
			hs = append(hs, k, st.mem[tt.mk("me", "", x, k)])
		}
		return tt.mkT("call", "len", types.Typ[types.Int], hs...)
	}
	return mkCall("len", types.Typ[types.Int], x)
}

func mkAppend(typ types.Type, x *Term, l *Term) *Term {
	if l.isNil() || (l.Op == "list" && len(l.Args) == 0) {
		return x
	}
	if l.Op == "list" {
		if x.isNil() {
			return tt.mkT("list", "", typ, l.Args...)
		}
		if x.Op == "list" {
			return tt.mkT("list", "", typ, append(append([]*Term{}, x.Args...), l.Args...)...)
		}
		if x.Op == "append" {
			last := x.Args[len(x.Args)-1]
			if last.Op == "list" {
				nl := tt.mkT("list", "", typ, append(append([]*Term{}, last.Args...), l.Args...)...)
				as := append(append([]*Term{}, x.Args[:len(x.Args)-1]...), nl)
				return tt.mkT("append", "", typ, as...)
			}
			return tt.mkT("append", "", typ, append(append([]*Term{}, x.Args...), l)...)
		}
		return tt.mkT("append", "", typ, x, l)
	}
	if x.Op == "append" {
		return tt.mkT("append", "", typ, append(append([]*Term{}, x.Args...), l)...)
	}
	if x.isNil() {
		x = tt.mkT("list", "", typ)
	}
	return tt.mkT("append", "", typ, x, l)
}

// ---------------------------------------------------------------------------
// maps

func (e *Eng) mapKeys(st *State, m *Term) []*Term {
	var ks []*Term
	for k := range st.mem {
		if k.Op == "me" && k.Args[0] == m {
			ks = append(ks, k.Args[1])
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	return ks
}

var tAbsent = tt.mk("absent", "")

// mapKnown: map content fully known (constant keys only); returns number of present entries.
func (e *Eng) mapKnown(st *State, m *Term) (int, bool) {
	if st.mem[tt.mk("mapstate", "", m)] != tTrue || st.havoc[m] != nil {
		return 0, false
	}
	n := 0
	for _, k := range e.mapKeys(st, m) {
		if !isTableKey(k) {
			return 0, false
		}
		if st.mem[tt.mk("me", "", m, k)] != tAbsent {
			n++
		}
	}
	return n, true
}

func isTableKey(k *Term) bool { return k.isConst() }

func (st *State) distinct(a, b *Term) bool {
	return st.decide(mkEq(a, b)) == no
}

func (e *Eng) mapWrite(st *State, m, k, v *Term) {
	for _, o := range e.mapKeys(st, m) {
		if o == k {
			continue
		}
		if !st.distinct(o, k) {
			delete(st.mem, tt.mk("me", "", m, o))
			st.mem[tt.mk("mapstate", "", m)] = tFalse
		}
	}
	if !isTableKey(k) && st.mem[tt.mk("mapstate", "", m)] == tTrue {
		// still exactly known only if all keys are constants
	}
	me := tt.mk("me", "", m, k)
	st.purge(me)
	st.mem[me] = v
}

func (e *Eng) mapEpoch(st *State, m *Term) *Term {
	if h := st.havoc[m]; h != nil {
		return h
	}
	return nil
}

func (e *Eng) lookup(fr *frame, st *State, in *ssa.Lookup) []callOut {
	m, k := e.val(fr, st, in.X), e.val(fr, st, in.Index)
	if isStringType(in.X.Type()) {
		if s, ok := m.str(); ok {
			if i, ok := k.intv(); ok && i >= 0 && int(i) < len(s) {
				return []callOut{{st, mkInt(int64(s[i]))}}
			}
		}
		return []callOut{{st, tt.mkT("idx", "", in.Type(), m, k)}}
	}
	mt := in.X.Type().Underlying().(*types.Map)
	if e.hooks.Lookup != nil {
		e.hooks.Lookup(e, st, fr, m, k, in)
	}
	pack := func(s *State, v, ok *Term) callOut {
		if in.CommaOk {
			return callOut{s, tt.mk("tuple", "", v, ok)}
		}
		return callOut{s, v}
	}
	if m.isNil() {
		return []callOut{pack(st, zeroOf(mt.Elem()), tFalse)}
	}
	src := st
	if m.Op == "alloc" {
		if _, ok := st.mem[tt.mk("mapstate", "", m)]; !ok && e.P.globals != nil {
			if _, ok := e.P.globals.mem[tt.mk("mapstate", "", m)]; ok && st.havoc[m] == nil {
				src = e.P.globals
			}
		}
	}
	if v, ok := src.mem[tt.mk("me", "", m, k)]; ok {
		if v == tAbsent {
			return []callOut{pack(st, zeroOf(mt.Elem()), tFalse)}
		}
		return []callOut{pack(st, v, tTrue)}
	}
	// pinned key
	if c := st.eq[k]; c != nil && c.isConst() {
		if v, ok := src.mem[tt.mk("me", "", m, c)]; ok && v != tAbsent {
			return []callOut{pack(st, v, tTrue)}
		}
	}
	if n, known := e.mapKnown(src, m); known && n <= 40 {
		if n == 0 {
			return []callOut{pack(st, zeroOf(mt.Elem()), tFalse)}
		}
		var outs []callOut
		rest := st.clone()
		restOK := true
		for _, kk := range e.mapKeys(src, m) {
			v := src.mem[tt.mk("me", "", m, kk)]
			if v == tAbsent {
				continue
			}
			s := st.clone()
			if s.assume(mkEq(k, kk), true) {
				s.note(in.Pos(), "lookup key "+k.show(3)+" == "+kk.show(2))
				if e.hooks.Branch != nil {
					e.hooks.Branch(e, s, fr, mkEq(k, kk), true, in)
				}
				outs = append(outs, pack(s, v, tTrue))
			}
			if restOK && !rest.assume(mkEq(k, kk), false) {
				restOK = false
			}
		}
		if restOK {
			rest.note(in.Pos(), "lookup key "+k.show(3)+" not in table")
			outs = append(outs, pack(rest, zeroOf(mt.Elem()), tFalse))
		}
		return outs
	}
	ep := e.mapEpoch(st, m)
	args := []*Term{m, k}
	aux := ""
	if ep != nil {
		aux = ep.key
	}
	v := tt.mkT("lookup", aux, mt.Elem(), args...)
	ok := tt.mkT("lookupok", aux, types.Typ[types.Bool], args...)
	if !in.CommaOk {
		return []callOut{{st, v}}
	}
	return []callOut{{st, tt.mk("tuple", "", v, ok)}}
}

func (e *Eng) next(fr *frame, st *State, in *ssa.Next) []callOut {
	it := e.val(fr, st, in.Iter)
	x := it
	if it.Op == "range" {
		x = it.Args[0]
	}
	tup := in.Type().(*types.Tuple)
	if !in.IsString && it.Op == "range" {
		src := st
		if x.Op == "alloc" {
			if _, ok := st.mem[tt.mk("mapstate", "", x)]; !ok && e.P.globals != nil {
				if _, ok := e.P.globals.mem[tt.mk("mapstate", "", x)]; ok && st.havoc[x] == nil {
					src = e.P.globals
				}
			}
		}
		if n, known := e.mapKnown(src, x); known && n > 0 && n <= 12 {
			var outs []callOut
			for _, kk := range e.mapKeys(src, x) {
				v := src.mem[tt.mk("me", "", x, kk)]
				if v == tAbsent {
					continue
				}
				s := st.clone()
				s.note(in.Pos(), "range key "+kk.show(2))
				outs = append(outs, callOut{s, tt.mk("tuple", "", tTrue, kk, v)})
			}
			outs = append(outs, callOut{st, tt.mk("tuple", "", tFalse, zeroOrNil(tup.At(1).Type()), zeroOrNil(tup.At(2).Type()))})
			return outs
		}
	}
	ok := e.sym(fr, "more", "ok"+e.iid(in), types.Typ[types.Bool])
	var kt, vt types.Type = tup.At(1).Type(), tup.At(2).Type()
	k := tt.mkT("rangekey", fr.ctx+"#"+e.iid(in), kt, x)
	k.Ctx = fr.ctx
	v := tt.mkT("rangeval", fr.ctx+"#"+e.iid(in), vt, x, k)
	v.Ctx = fr.ctx
	return []callOut{{st, tt.mk("tuple", "", ok, k, v)}}
}

func zeroOrNil(t types.Type) *Term {
	if t == nil {
		return tNil
	}
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return tNil
	}
	return zeroOf(t)
}

func (e *Eng) typeAssert(fr *frame, st *State, in *ssa.TypeAssert) []callOut {
	x := e.val(fr, st, in.X)
	pack := func(s *State, v, ok *Term) callOut {
		if in.CommaOk {
			return callOut{s, tt.mk("tuple", "", v, ok)}
		}
		return callOut{s, v}
	}
	if x.Op == "iface" {
		dyn := x.T
		if it, ok := in.AssertedType.Underlying().(*types.Interface); ok {
			if types.Implements(dyn, it) {
				return []callOut{pack(st, x, tTrue)}
			}
			if in.CommaOk {
				return []callOut{pack(st, tNil, tFalse)}
			}
		} else if types.Identical(dyn, in.AssertedType) {
			return []callOut{pack(st, x.Args[0], tTrue)}
		} else if in.CommaOk {
			return []callOut{pack(st, zeroOf(in.AssertedType), tFalse)}
		}
	}
	is := tt.mkT("istype", types.TypeString(in.AssertedType, nil), types.Typ[types.Bool], x)
	v := tt.mkT("as", types.TypeString(in.AssertedType, nil), in.AssertedType, x)
	if in.CommaOk {
		switch st.decide(is) {
		case yes:
			return []callOut{pack(st, v, tTrue)}
		case no:
			return []callOut{pack(st, zeroOf(in.AssertedType), tFalse)}
		}
		s2 := st.clone()
		st.assume(is, true)
		st.assume(mkEq(x, tNil), false)
		s2.assume(is, false)
		return []callOut{pack(st, v, tTrue), pack(s2, zeroOf(in.AssertedType), tFalse)}
	}
	st.assume(is, true)
	return []callOut{{st, v}}
}

// ---------------------------------------------------------------------------
// defers

func (e *Eng) runDefers(fr *frame, st *State) []*State {
	if len(st.defers) == 0 {
		return []*State{st}
	}
	d := st.defers[len(st.defers)-1]
	st.defers = st.defers[:len(st.defers)-1]
	outs := e.call(fr, st, d.call, &d.call.Call, d.fn, d.args, true)
	var res []*State
	for _, o := range outs {
		res = append(res, e.runDefers(fr, o.st)...)
	}
	return res
}
