package main

// Abstract states: registers, flow-sensitive memory, path facts, automaton marks.

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type rng struct {
	lo, hi       int64
	hasLo, hasHi bool
}

type deferred struct {
	call  *ssa.Defer
	fn    *Term
	args  []*Term
	instr ssa.Instruction
}

type Event struct {
	Prev *Event
	Desc string
	Pos  token.Pos
	N    int
}

type State struct {
	regs   map[ssa.Value]*Term
	defers []deferred
	mem    map[*Term]*Term
	facts  map[*Term]bool
	eq     map[*Term]*Term
	rng    map[*Term]rng
	havoc  map[*Term]*Term // base pointer -> havoc epoch site
	marks  map[string]*Term
	trace  *Event
}

func newState() *State {
	return &State{
		regs: map[ssa.Value]*Term{}, mem: map[*Term]*Term{}, facts: map[*Term]bool{},
		eq: map[*Term]*Term{}, rng: map[*Term]rng{}, havoc: map[*Term]*Term{}, marks: map[string]*Term{},
	}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m)+4)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (s *State) clone() *State {
	n := &State{
		regs: cp(s.regs), mem: cp(s.mem), facts: cp(s.facts), eq: cp(s.eq), rng: cp(s.rng), havoc: cp(s.havoc), marks: cp(s.marks),
		trace: s.trace,
	}
	n.defers = append([]deferred(nil), s.defers...)
	return n
}

func (s *State) Mark(k string) *Term       { return s.marks[k] }
func (s *State) SetMark(k string, t *Term) { s.marks[k] = t }
func (s *State) ClearMark(k string)        { delete(s.marks, k) }
func (s *State) Marked(k string) bool      { return s.marks[k] != nil }
func (s *State) note(pos token.Pos, d string) {
	n := 0
	if s.trace != nil {
		n = s.trace.N
	}
	s.trace = &Event{Prev: s.trace, Desc: d, Pos: pos, N: n + 1}
}

// key of the whole state, for deduplication.
func (s *State) key(live map[ssa.Value]bool) string {
	var b strings.Builder
	wr := func(t *Term) {
		if t == nil {
			b.WriteString("-,")
			return
		}
		b.WriteString(strconv.Itoa(t.ID))
		b.WriteByte(',')
	}
	type kv struct {
		n string
		v *Term
	}
	var rs []kv
	for v, t := range s.regs {
		if live == nil || live[v] {
			rs = append(rs, kv{v.Name(), t})
		}
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].n < rs[j].n })
	for _, r := range rs {
		b.WriteString(r.n)
		b.WriteByte('=')
		wr(r.v)
	}
	b.WriteByte('#')
	ms := make([]*Term, 0, len(s.mem))
	for k := range s.mem {
		ms = append(ms, k)
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].ID < ms[j].ID })
	for _, k := range ms {
		wr(k)
		wr(s.mem[k])
	}
	b.WriteByte('#')
	fs := make([]*Term, 0, len(s.facts))
	for k := range s.facts {
		fs = append(fs, k)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].ID < fs[j].ID })
	for _, k := range fs {
		wr(k)
		if s.facts[k] {
			b.WriteByte('t')
		} else {
			b.WriteByte('f')
		}
	}
	b.WriteByte('#')
	hs := make([]*Term, 0, len(s.havoc))
	for k := range s.havoc {
		hs = append(hs, k)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].ID < hs[j].ID })
	for _, k := range hs {
		wr(k)
		wr(s.havoc[k])
	}
	b.WriteByte('#')
	b.WriteString(s.markKey())
	b.WriteByte('#')
	for _, d := range s.defers {
		wr(d.fn)
		for _, a := range d.args {
			wr(a)
		}
	}
	return b.String()
}

func (s *State) markKey() string {
	var b strings.Builder
	var mk []string
	for k := range s.marks {
		mk = append(mk, k)
	}
	sort.Strings(mk)
	for _, k := range mk {
		b.WriteString(k)
		b.WriteByte('=')
		b.WriteString(strconv.Itoa(s.marks[k].ID))
		b.WriteByte(',')
	}
	return b.String()
}

// ---------------------------------------------------------------------------
// facts

func (s *State) bounds(t *Term) rng {
	if v, ok := t.intv(); ok {
		return rng{v, v, true, true}
	}
	r := s.rng[t]
	if c := s.eq[t]; c != nil {
		if v, ok := c.intv(); ok {
			return rng{v, v, true, true}
		}
	}
	if t.Op == "call" && t.Aux == "len" && !r.hasLo {
		r.lo, r.hasLo = 0, true
	}
	if t.Op == "bin" && t.Aux == "+" {
		if c, ok := t.Args[1].intv(); ok {
			b := s.bounds(t.Args[0])
			if b.hasLo && !r.hasLo {
				r.lo, r.hasLo = b.lo+c, true
			}
			if b.hasHi && !r.hasHi {
				r.hi, r.hasHi = b.hi+c, true
			}
		}
	}
	return r
}

type tri int

const (
	unknown tri = iota
	yes
	no
)

func triOf(b bool) tri {
	if b {
		return yes
	}
	return no
}
func (t tri) not() tri {
	switch t {
	case yes:
		return no
	case no:
		return yes
	}
	return unknown
}

// isCond: the term is a condition.
func isCond(t *Term) bool {
	return t.Op == "not" || t.Op == "bin" && (t.Aux == "==" || t.Aux == "<" || t.Aux == "<=")
}

func (s *State) decide(t *Term) tri {
	if b, ok := t.boolv(); ok {
		return triOf(b)
	}
	if v, ok := s.facts[t]; ok {
		return triOf(v)
	}
	switch t.Op {
	case "not":
		return s.decide(t.Args[0]).not()
	case "bin":
		a, b := t.Args[0], t.Args[1]
		switch t.Aux {
		case "==":
			if isCond(a) && isCond(b) {
				x, y := s.decide(a), s.decide(b)
				if x == unknown || y == unknown {
					return unknown
				}
				return triOf(x == y)
			}
			if b.isConst() || b.isNil() {
				if c := s.eq[a]; c != nil {
					if c == b {
						return yes
					}
					if (c.isConst() || c.isNil()) && (c.isConst() == b.isConst()) {
						return no
					}
					if neverNil(c) && b.isNil() {
						return no
					}
				}
				if b.isNil() {
					if s.nonNil(a) {
						return no
					}
				}
				if v, ok := b.intv(); ok {
					r := s.bounds(a)
					if r.hasLo && v < r.lo || r.hasHi && v > r.hi {
						return no
					}
					if r.hasLo && r.hasHi && r.lo == r.hi && r.lo == v {
						return yes
					}
				}
				if str, ok := b.str(); ok {
					for f, v := range s.facts {
						if f.isCall("strings.HasPrefix") && f.Args[0] == a {
							if p, ok := f.Args[1].str(); ok && strings.HasPrefix(str, p) != v {
								return no
							}
						}
						if f.isCall("strings.HasSuffix") && f.Args[0] == a {
							if p, ok := f.Args[1].str(); ok && strings.HasSuffix(str, p) != v {
								return no
							}
						}
					}
					if str == "" && a.Op == "concat" {
						for _, x := range a.Args {
							if p, ok := x.str(); ok && p != "" {
								return no
							}
						}
					}
				}
			} else {
				ca, cb := s.eq[a], s.eq[b]
				if ca != nil && cb != nil && ca.isConst() && cb.isConst() {
					return triOf(ca == cb)
				}
				if ca != nil && !b.isConst() {
					return s.decide(mkEqRaw(b, ca))
				}
				if cb != nil && !a.isConst() {
					return s.decide(mkEqRaw(a, cb))
				}
				if v, ok := s.facts[tt.mk("bin", "<", a, b)]; ok && v {
					return no
				}
				if v, ok := s.facts[tt.mk("bin", "<", b, a)]; ok && v {
					return no
				}
			}
		case "<":
			ra, rb := s.bounds(a), s.bounds(b)
			if ra.hasHi && rb.hasLo && ra.hi < rb.lo {
				return yes
			}
			if ra.hasLo && rb.hasHi && ra.lo >= rb.hi {
				return no
			}
			if !b.isConst() && !a.isConst() {
				if v, ok := s.facts[tt.mk("bin", "<", b, a)]; ok && v {
					return no
				}
				if v, ok := s.facts[mkEqRaw(a, b)]; ok && v {
					return no
				}
			}
		}
	case "call":
		switch t.Aux {
		case "(time.Time).Before":
			if v, ok := s.facts[tt.mk("call", t.Aux, t.Args[1], t.Args[0])]; ok && v {
				return no
			}
		case "strings.HasPrefix", "strings.HasSuffix":
			has := strings.HasPrefix
			if t.Aux == "strings.HasSuffix" {
				has = strings.HasSuffix
			}
			x := t.Args[0]
			q, ok := t.Args[1].str()
			if ok {
				if c := s.eq[x]; c != nil {
					if v, ok := c.str(); ok {
						return triOf(has(v, q))
					}
				}
				for f, v := range s.facts {
					if f.isCall(t.Aux) && f.Args[0] == x {
						p, ok := f.Args[1].str()
						if !ok {
							continue
						}
						if v { // has p
							if has(p, q) {
								return yes
							}
							if !has(q, p) {
								return no
							}
						} else { // not p
							if has(q, p) {
								return no
							}
						}
					}
				}
			}
		}
		if t.Aux != "len" {
			// substitute known constants in arguments and fold
			changed := false
			args := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				args[i] = a
				if c := s.eq[a]; c != nil && c.isConst() {
					args[i] = c
					changed = true
				}
			}
			if changed {
				r := mkCall(t.Aux, t.T, args...)
				if b, ok := r.boolv(); ok {
					return triOf(b)
				}
			}
		}
	}
	return unknown
}

func mkEqRaw(a, b *Term) *Term { return mkEq(a, b) }

func (s *State) nonNil(t *Term) bool {
	if neverNil(t) {
		return true
	}
	if v, ok := s.facts[tt.mk("bin", "==", t, tNil)]; ok {
		return !v
	}
	if c := s.eq[t]; c != nil && neverNil(c) {
		return true
	}
	// result of (T, error) call whose error is known nil
	if t.Op == "ext" {
		site := t.Args[0]
		if tup, ok := site.T.(*types.Tuple); ok && tup != nil && tup.Len() > 1 {
			last := tup.At(tup.Len() - 1).Type()
			if isErrorType(last) && t.Aux != strconv.Itoa(tup.Len()-1) {
				errT := mkExt(site, tup.Len()-1, last)
				if v, ok := s.facts[tt.mk("bin", "==", errT, tNil)]; ok && v {
					switch t.T.Underlying().(type) {
					case *types.Pointer, *types.Interface:
						return true
					}
				}
			}
		}
	}
	return false
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// assume adds a literal; false if contradictory.
func (s *State) assume(t *Term, val bool) bool {
	if t.Op == "not" {
		return s.assume(t.Args[0], !val)
	}
	switch s.decide(t) {
	case yes:
		if !val {
			return false
		}
	case no:
		if val {
			return false
		}
	}
	if _, ok := t.boolv(); ok {
		return true
	}
	s.facts[t] = val
	if t.Op == "bin" {
		a, b := t.Args[0], t.Args[1]
		switch t.Aux {
		case "==":
			if isCond(a) && isCond(b) {
				for i := 0; i < 2; i++ {
					if x := s.decide(a); x != unknown && !s.assume(b, (x == yes) == val) {
						return false
					}
					a, b = b, a
				}
				return true
			}
			if val {
				if b.isConst() || b.isNil() {
					s.eq[a] = b
				} else if a.Op == "sym" || b.Op == "sym" {
					// keep as atom only
				}
			} else if v, ok := b.intv(); ok {
				r := s.bounds(a)
				if r.hasLo && r.lo == v {
					r.lo++
					s.rng[a] = r
				}
				if r.hasHi && r.hi == v {
					r.hi--
					s.rng[a] = r
				}
			}
		case "<":
			if v, ok := b.intv(); ok {
				r := s.bounds(a)
				if val {
					if !r.hasHi || v-1 < r.hi {
						r.hi, r.hasHi = v-1, true
					}
				} else {
					if !r.hasLo || v > r.lo {
						r.lo, r.hasLo = v, true
					}
				}
				if r.hasLo && r.hasHi && r.lo > r.hi {
					return false
				}
				s.rng[a] = r
				if r.hasLo && r.hasHi && r.lo == r.hi {
					s.eq[a] = mkInt(r.lo)
				}
			} else if v, ok := a.intv(); ok {
				r := s.bounds(b)
				if val {
					if !r.hasLo || v+1 > r.lo {
						r.lo, r.hasLo = v+1, true
					}
				} else {
					if !r.hasHi || v < r.hi {
						r.hi, r.hasHi = v, true
					}
				}
				if r.hasLo && r.hasHi && r.lo > r.hi {
					return false
				}
				s.rng[b] = r
			}
		}
	}
	// re-check existing prefix facts against a new equality
	if c := s.eq[firstArg(t)]; c != nil && val && t.Op == "bin" && t.Aux == "==" {
		if str, ok := c.str(); ok {
			for f, v := range s.facts {
				if (f.isCall("strings.HasPrefix") || f.isCall("strings.HasSuffix")) && f.Args[0] == t.Args[0] {
					if p, ok := f.Args[1].str(); ok {
						has := strings.HasPrefix(str, p)
						if f.isCall("strings.HasSuffix") {
							has = strings.HasSuffix(str, p)
						}
						if has != v {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

func firstArg(t *Term) *Term {
	if len(t.Args) > 0 {
		return t.Args[0]
	}
	return t
}

// resolve a term to a known constant, if the facts pin it.
func (s *State) resolve(t *Term) *Term {
	if t == nil {
		return nil
	}
	if c := s.eq[t]; c != nil {
		return c
	}
	return t
}

// ---------------------------------------------------------------------------
// memory

func rootOf(a *Term) *Term {
	for a.Op == "fa" || a.Op == "ia" {
		a = a.Args[0]
	}
	return a
}

func isDesc(a, anc *Term) bool {
	for a.Op == "fa" || a.Op == "ia" || a.Op == "me" || a.Op == "mapstate" {
		a = a.Args[0]
		if a == anc {
			return true
		}
	}
	return false
}

func elemType(p types.Type) types.Type {
	if p == nil {
		return nil
	}
	if pt, ok := p.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return nil
}

func mkFA(base *Term, st *types.Struct, i int, typ types.Type) *Term {
	return tt.mkT("fa", st.Field(i).Name(), typ, base)
}

// load the value at addr (of type typ).
func (s *State) load(addr *Term, typ types.Type) *Term {
	if v, ok := s.get(addr); ok {
		return s.withOverrides(addr, v, typ)
	}
	if typ != nil && expandable(typ) && s.hasDesc(addr) {
		st := typ.Underlying().(*types.Struct)
		var fs []*Term
		for i := 0; i < st.NumFields(); i++ {
			fs = append(fs, s.load(mkFA(addr, st, i, types.NewPointer(st.Field(i).Type())), st.Field(i).Type()))
		}
		return mkAgg(typ, fs)
	}
	return s.initial(addr, typ)
}

func (s *State) hasDesc(addr *Term) bool {
	for k := range s.mem {
		if (k.Op == "fa" || k.Op == "ia") && isDesc(k, addr) {
			return true
		}
	}
	if baseMem != nil && baseMem != s && isInitObj(addr) {
		for k := range baseMem.mem {
			if (k.Op == "fa" || k.Op == "ia") && isDesc(k, addr) {
				return true
			}
		}
	}
	return false
}

// baseMem holds the objects built by the package initialisers.
var baseMem *State

func isInitObj(a *Term) bool {
	r := rootOf(a)
	return r.Op == "alloc" && strings.HasPrefix(r.Ctx, "init:")
}

func (s *State) get(addr *Term) (*Term, bool) {
	if v, ok := s.mem[addr]; ok {
		return v, true
	}
	if baseMem != nil && baseMem != s && isInitObj(addr) && s.havoc[rootOf(addr)] == nil {
		if v, ok := baseMem.mem[addr]; ok {
			return v, true
		}
	}
	return nil, false
}

func (s *State) withOverrides(addr, v *Term, typ types.Type) *Term {
	if typ == nil || !expandable(typ) || !s.hasDesc(addr) {
		return v
	}
	st := typ.Underlying().(*types.Struct)
	var fs []*Term
	for i := 0; i < st.NumFields(); i++ {
		fs = append(fs, s.load(mkFA(addr, st, i, types.NewPointer(st.Field(i).Type())), st.Field(i).Type()))
	}
	return mkAgg(typ, fs)
}

// initial: value at addr looking through ancestors (no exact entry).
func (s *State) initial(addr *Term, typ types.Type) *Term {
	switch addr.Op {
	case "fa":
		p := addr.Args[0]
		var pv *Term
		if v, ok := s.get(p); ok {
			pv = v
		} else {
			pv = s.initial(p, elemType(p.T))
		}
		return mkField(pv, addr.Aux, typ)
	case "ia":
		p := addr.Args[0]
		if p.Op == "list" {
			if i, ok := addr.Args[1].intv(); ok && i >= 0 && int(i) < len(p.Args) {
				if h := s.havoc[p]; h != nil {
					return tt.mkT("hload", h.Aux, typ, addr)
				}
				return p.Args[i]
			}
		}
		if h := s.havoc[p]; h != nil {
			return tt.mkT("idx", h.key, typ, p, addr.Args[1])
		}
		if p.Op == "alloc" {
			// array
			if v, ok := s.mem[p]; ok {
				return tt.mkT("idx", "", typ, v, addr.Args[1])
			}
			if h := s.havoc[rootOf(p)]; h == nil && typ != nil {
				if s.mem[tt.mk("fa", "[*]", p)] == nil {
					return zeroOf(typ)
				}
			}
		}
		if p.Op == "fa" || p.Op == "ia" {
			pv := s.initial(p, elemType(p.T))
			if x, ok := s.mem[p]; ok {
				pv = x
			}
			if pv.Op == "zero" && typ != nil {
				return zeroOf(typ)
			}
			return tt.mkT("idx", "", typ, pv, addr.Args[1])
		}
		return tt.mkT("idx", "", typ, p, addr.Args[1])
	}
	if h := s.havoc[addr]; h != nil {
		return tt.mkT("deref", h.key, typ, addr)
	}
	if addr.Op == "alloc" && typ != nil {
		return zeroOf(typ)
	}
	if addr.Op == "global" {
		return tt.mkT("gval", addr.Aux, typ)
	}
	return tt.mkT("deref", "", typ, addr)
}

func (s *State) purge(addr *Term) {
	for k := range s.mem {
		if k == addr || isDesc(k, addr) {
			delete(s.mem, k)
		}
	}
}

func (s *State) store(addr, v *Term) {
	s.purge(addr)
	if addr.Op == "ia" {
		if _, ok := addr.Args[1].intv(); !ok {
			// unknown index: forget the other elements
			base := addr.Args[0]
			for k := range s.mem {
				if k.Op == "ia" && k.Args[0] == base {
					delete(s.mem, k)
				}
			}
			s.havoc[base] = v
		}
	}
	s.mem[addr] = v
}

// havocPtr forgets everything reachable directly through pointer p.
func (s *State) havocPtr(p *Term, site *Term) {
	if p == nil {
		return
	}
	r := p
	if r.Op == "fa" || r.Op == "ia" {
		// part of an object: set that location to unknown
		s.purge(r)
		s.mem[r] = tt.mkT("deref", site.key, elemType(r.T), r)
		return
	}
	switch r.Op {
	case "const", "nil", "fn", "closure":
		return
	}
	lk := tt.mk("fa", "[len]", r)
	ln := s.mem[lk]
	s.purge(r)
	if ln != nil {
		s.mem[lk] = ln // a slice keeps its length whatever is done to its elements
	}
	s.havoc[r] = site
}

func constTrunc(c constant.Value, t types.Type) *Term { return mkConst(truncConst(c, t), t) }
