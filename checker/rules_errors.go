package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Property C27: a failure is never reported as success.  Decided on the SSA form of every shipped function: each call that can
// fail is an obligation, and each path from the branch on which it failed is followed.

// errResult: the error result of the call, its index, and whether there is one.
func errResult(call ssa.CallInstruction) (int, bool) {
	res := call.Common().Signature().Results()
	if res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
		return 0, false
	}
	return res.Len() - 1, true
}

// errValue: the value of the error of the call, nil if it is dropped.
func errValue(call ssa.CallInstruction) ssa.Value {
	i, _ := errResult(call)
	v := call.Value()
	if v == nil || v.Referrers() == nil {
		return nil
	}
	if call.Common().Signature().Results().Len() == 1 {
		return v
	}
	for _, r := range *v.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == i {
			return e
		}
	}
	return nil
}

// cannotFail: calls whose error is always nil, or is kept and reported later by the receiver.
func cannotFail(cc *ssa.CallCommon) bool {
	n := calleeName(cc)
	for _, p := range []string{"(*bytes.Buffer).", "(*strings.Builder).", "(hash.Hash).Write", "(*text/tabwriter.Writer).", "fmt.Print"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	if strings.HasPrefix(n, "fmt.Fprint") || n == "io.WriteString" {
		w := cc.Args[0]
		if mi, ok := w.(*ssa.MakeInterface); ok {
			switch mi.X.Type().String() {
			case "*bytes.Buffer", "*strings.Builder":
				return true
			}
		}
		if isHash(w) {
			return true
		}
		return toStderr(w) || isTerminalText(w)
	}
	if n == "(io.Writer).Write" && isHash(cc.Value) {
		return true
	}
	if n == "io.Copy" && isHash(cc.Args[0]) {
		return false // reading can fail
	}
	return false
}

func toStderr(w ssa.Value) bool {
	switch x := w.(type) {
	case *ssa.MakeInterface:
		return toStderr(x.X)
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			return g.Name() == "Stderr"
		}
	case *ssa.Call:
		n := calleeName(&x.Call)
		return strings.HasSuffix(n, ".ErrOrStderr") || strings.HasSuffix(n, ".OutOrStderr")
	}
	return false
}

// isTerminalText: help and usage texts.
func isTerminalText(w ssa.Value) bool {
	c, ok := w.(*ssa.Call)
	if !ok {
		if ci, ok := w.(*ssa.ChangeInterface); ok {
			return isTerminalText(ci.X)
		}
		return false
	}
	return strings.HasSuffix(calleeName(&c.Call), ".OutOrStdout")
}

// release: calls that only give something back after use; a failure does not affect what was computed unless the thing was
// written to.
func release(cc *ssa.CallCommon) bool {
	n := calleeName(cc)
	i := strings.LastIndex(n, ".")
	switch n[i+1:] {
	case "Close":
		if strings.HasPrefix(n, "(*archive/tar.Writer)") || strings.HasPrefix(n, "(*archive/zip.Writer)") || strings.HasPrefix(n, "(*compress/gzip.Writer)") {
			return false
		}
		var recv ssa.Value
		if cc.IsInvoke() {
			recv = cc.Value
		} else if len(cc.Args) > 0 {
			recv = cc.Args[0]
		}
		return recv == nil || !writable(recv, 0)
	case "Wait", "Unlock":
		return true
	}
	return false
}

// writable: the value is a file that was opened for writing.
func writable(v ssa.Value, depth int) bool {
	if depth > 6 || v == nil {
		return false
	}
	switch x := v.(type) {
	case *ssa.Extract:
		return writable(x.Tuple, depth+1)
	case *ssa.Call:
		switch calleeName(&x.Call) {
		case "os.Create", "os.OpenFile", "os.CreateTemp":
			return true
		}
	case *ssa.UnOp:
		if fv, ok := x.X.(*ssa.FreeVar); ok {
			return writableCell(bindingOf(fv), depth)
		}
		return writableCell(x.X, depth)
	case *ssa.FreeVar:
		return writable(bindingOf(x), depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && writable(e, depth+1) {
				return true
			}
		}
	}
	if t, ok := v.Type().Underlying().(*types.Interface); ok {
		for i := 0; i < t.NumMethods(); i++ {
			if t.Method(i).Name() == "Write" {
				return true
			}
		}
	}
	return false
}

func writableCell(cell ssa.Value, depth int) bool {
	if cell == nil || cell.Referrers() == nil {
		return false
	}
	for _, r := range *cell.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == cell && writable(s.Val, depth+1) {
			return true
		}
	}
	return false
}

// errAliases: the values that hold the error: phis, and loads of the variables that it is stored to.
func errAliases(v ssa.Value) map[ssa.Value]bool {
	m := map[ssa.Value]bool{}
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		if m[v] {
			return
		}
		m[v] = true
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Phi:
				add(x)
			case *ssa.Store:
				if a := x.Addr; isCell(a) && x.Val == v {
					for _, q := range *a.Referrers() {
						if u, ok := q.(*ssa.UnOp); ok && u.Op == token.MUL && (x.Block() == u.Block() && instrBefore(x, u) || x.Block() != u.Block() && blockReachable(x.Block(), u.Block())) && !overwritten(a, x, u) {
							add(u)
						}
					}
				}
			}
		}
	}
	add(v)
	return m
}

// overwritten: between the store and the load, in the block of either, there is another store.
func overwritten(cell ssa.Value, s *ssa.Store, u *ssa.UnOp) bool {
	for _, r := range *cell.Referrers() {
		o, ok := r.(*ssa.Store)
		if !ok || o == s || o.Addr != cell {
			continue
		}
		if o.Block() == s.Block() && instrBefore(s, o) && !(s.Block() == u.Block() && instrBefore(u, o)) {
			return true
		}
		if o.Block() == u.Block() && instrBefore(o, u) && !(s.Block() == u.Block() && instrBefore(o, s)) {
			return true
		}
	}
	return false
}

func isCell(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		return true
	}
	return false
}

type errClass int

const (
	errUnknown errClass = iota
	errNil
	errNonNil
	errOther // the error of something else
)

const loopGoesOn = "the loop goes on"

type errPath struct {
	c       *Ctx
	f       *ssa.Function
	al      map[ssa.Value]bool
	origin  ssa.CallInstruction
	seen    map[string]bool
	found   string
	foundAt ssa.Instruction
	start   *ssa.BasicBlock
}

// tolerated sentinels: their presence says that there is nothing (more), not that something failed
func (p *errPath) sentinelVal(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			switch g.String() {
			case "io.ErrUnexpectedEOF":
				// a short read; anywhere else the input was cut off
				if p.origin == nil {
					return false
				}
				n := calleeName(p.origin.Common())
				return n == "io.ReadFull" || n == "io.ReadAtLeast"
			case "io.EOF", "os.ErrNotExist", "io/fs.ErrNotExist", "io/fs.SkipDir", "path/filepath.SkipDir", "io/fs.SkipAll":
				return true
			}
		}
	case *ssa.MakeInterface:
		return p.sentinelVal(x.X)
	}
	return false
}

// exempt: the condition, when it has the returned value, says that the error is of a tolerated kind.
func (p *errPath) exempt(cond ssa.Value) (bool, bool) {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			v, ok := p.exempt(x.X)
			return !v, ok
		}
	case *ssa.BinOp:
		if (x.Op == token.EQL || x.Op == token.NEQ) && (p.al[x.X] && p.sentinelVal(x.Y) || p.al[x.Y] && p.sentinelVal(x.X)) {
			return x.Op == token.EQL, true
		}
	case *ssa.Call:
		n := calleeName(&x.Call)
		switch n {
		case "errors.Is":
			if p.al[x.Call.Args[0]] && p.sentinelVal(x.Call.Args[1]) {
				return true, true
			}
		case "os.IsNotExist":
			return true, true
		}
	case *ssa.Phi:
		// a || b
		for _, e := range x.Edges {
			if v, ok := p.exempt(e); ok {
				return v, true
			}
		}
	}
	return false, false
}

func (p *errPath) class(v ssa.Value, from *ssa.BasicBlock, cells map[ssa.Value]errClass) errClass {
	if _, isPhi := v.(*ssa.Phi); !isPhi {
		if k, ok := cells[v]; ok {
			return k
		}
	}
	if p.al[v] {
		// a variable may have been set again since
		if u, ok := v.(*ssa.UnOp); ok {
			if k, ok := cells[u.X]; ok {
				return k
			}
		}
		if ph, ok := v.(*ssa.Phi); ok && from != nil {
			for i, q := range ph.Block().Preds {
				if q == from && !p.al[ph.Edges[i]] {
					return p.class(ph.Edges[i], nil, cells)
				}
			}
		}
		return errNonNil
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return errNil
		}
	case *ssa.MakeInterface:
		return errNonNil
	case *ssa.Call:
		n := calleeName(&x.Call)
		if n == "fmt.Errorf" || n == "errors.New" {
			return errNonNil
		}
		return p.unrelated(x)
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return p.unrelated(call)
		}
	case *ssa.ChangeInterface:
		return p.class(x.X, from, cells)
	case *ssa.UnOp:
		if k, ok := cells[x.X]; ok {
			return k
		}
		if g, ok := x.X.(*ssa.Global); ok && isErrorType(x.Type()) {
			_ = g
			return errNonNil
		}
		return p.cellClass(x.X)
	case *ssa.Phi:
		if from != nil {
			for i, q := range x.Block().Preds {
				if q == from {
					return p.class(x.Edges[i], nil, cells)
				}
			}
		}
	}
	return errUnknown
}

// cellClass: what a variable that was not set on the path can hold.
func (p *errPath) cellClass(cell ssa.Value) errClass {
	a, ok := cell.(*ssa.Alloc)
	if !ok {
		return errUnknown
	}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != cell {
				return errUnknown
			}
			if p.start != nil && !blockReachable(x.Block(), p.start) {
				continue // not before the failing call, nor on the path since
			}
			if _, isLoad := x.Val.(*ssa.UnOp); isLoad || p.al[x.Val] {
				return errUnknown
			}
			switch p.class(x.Val, nil, nil) {
			case errOther, errNil:
			default:
				return errUnknown
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return errUnknown
		}
	}
	return errOther
}

// unrelated: the result of a call that was not told of the error.
func (p *errPath) unrelated(call *ssa.Call) errClass {
	for _, a := range call.Call.Args {
		if p.al[a] || isErrorType(a.Type()) {
			return errUnknown
		}
		if t, ok := a.Type().Underlying().(*types.Slice); ok {
			if _, ok := t.Elem().Underlying().(*types.Interface); ok {
				return errUnknown
			}
		}
	}
	if mc, ok := call.Call.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			if pt, ok := b.Type().Underlying().(*types.Pointer); ok && isErrorType(pt.Elem()) {
				return errUnknown
			}
		}
	}
	return errOther
}

func cellKey(b, from *ssa.BasicBlock, cells map[ssa.Value]errClass) string {
	s := b.String() + "<"
	if from != nil {
		s += from.String()
	}
	var ks []string
	for c, k := range cells {
		ks = append(ks, c.Name()+"="+string(rune('0'+int(k))))
	}
	sort.Strings(ks)
	return s + strings.Join(ks, ",")
}

// follow walks the paths on which the error is not nil.
func (p *errPath) follow(b, from *ssa.BasicBlock, cells map[ssa.Value]errClass, home map[*ssa.BasicBlock]bool) {
	if p.found != "" {
		return
	}
	k := cellKey(b, from, cells)
	if p.seen[k] {
		return
	}
	p.seen[k] = true
	// going round a loop that the failing call is in
	if home[b] && from != nil && b.Dominates(from) {
		if p.searchLoop(home, b) {
			return
		}
		p.found = loopGoesOn
		p.foundAt = from.Instrs[len(from.Instrs)-1]
		return
	}
	cs := map[ssa.Value]errClass{}
	for c, k := range cells {
		cs[c] = k
	}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Store:
			if isErrorType(x.Val.Type()) {
				cs[x.Addr] = p.class(x.Val, from, cs)
			}
		case ssa.CallInstruction:
			if ssa.Instruction(p.origin) == in {
				// tried again
				return
			}
			n := calleeName(x.Common())
			if n == "os.Exit" {
				return
			}
			// added to a list of errors
			if n == "builtin append" {
				if t, ok := x.Common().Args[0].Type().Underlying().(*types.Slice); ok && isErrorType(t.Elem()) {
					return
				}
			}
			// handed to a function that keeps it
			for _, a := range x.Common().Args {
				if p.al[a] && keeps(x.Common()) {
					return
				}
			}
			if _, isDefer := in.(*ssa.Defer); isDefer {
				continue
			}
		case *ssa.MapUpdate:
			if p.al[x.Value] {
				return
			}
		case *ssa.Panic:
			return
		case *ssa.Return:
			n := len(x.Results)
			if n == 0 || !isErrorType(x.Results[n-1].Type()) {
				return
			}
			r := x.Results[n-1]
			switch p.class(r, from, cs) {
			case errNil:
				p.found = "success is reported"
				p.foundAt = in
			case errOther:
				p.found = "the function carries on, and may report success,"
				p.foundAt = in
			}
			return
		case *ssa.If:
			succs := b.Succs
			if v, ok := p.exempt(x.Cond); ok {
				// only the branch on which it is not of that kind
				i := 0
				if v {
					i = 1
				}
				p.follow(succs[i], b, cs, home)
				return
			}
			if bin, ok := x.Cond.(*ssa.BinOp); ok && (bin.Op == token.EQL || bin.Op == token.NEQ) {
				var e ssa.Value
				if isNilConst(bin.Y) {
					e = bin.X
				} else if isNilConst(bin.X) {
					e = bin.Y
				}
				if e != nil && isErrorType(e.Type()) {
					switch k := p.class(e, from, cs); k {
					case errNonNil, errNil:
						i := 0
						if (bin.Op == token.EQL) != (k == errNil) {
							i = 1
						}
						p.follow(succs[i], b, cs, home)
						return
					}
					i := 0 // where it is not nil
					if bin.Op == token.EQL {
						i = 1
					}
					p.follow(succs[i], b, with(cs, e, errNonNil), home)
					p.follow(succs[1-i], b, with(cs, e, errNil), home)
					return
				}
			}
			for _, s := range succs {
				p.follow(s, b, cs, home)
			}
			return
		case *ssa.Jump:
			p.follow(b.Succs[0], b, cs, home)
			return
		}
	}
}

func with(cells map[ssa.Value]errClass, v ssa.Value, k errClass) map[ssa.Value]errClass {
	m := map[ssa.Value]errClass{v: k}
	for c, x := range cells {
		if c != v {
			m[c] = x
		}
	}
	return m
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

// keeps: a function of the repository that stores or reports the error that it is given: a closure that sets the result, say.
func keeps(cc *ssa.CallCommon) bool {
	var f *ssa.Function
	switch x := cc.Value.(type) {
	case *ssa.Function:
		f = x
	case *ssa.MakeClosure:
		f, _ = x.Fn.(*ssa.Function)
	case *ssa.UnOp, *ssa.FreeVar, *ssa.Parameter:
		return !cc.IsInvoke()
	}
	if f == nil || !inRepo(f) {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && isErrorType(s.Val.Type()) {
				switch vroot(s.Addr).(type) {
				case *ssa.FreeVar, *ssa.Parameter:
					return true
				}
			}
		}
	}
	return false
}

// toleratedCall: failures that are not failures of what the caller was asked to do.
func toleratedCall(f *ssa.Function, cc *ssa.CallCommon, n string, loop bool) string {
	pkg := strings.TrimPrefix(fnPkgPath(f), modPath+"/")
	switch {
	case fnPkgPath(f) == modPath && loop && (n == "("+modPath+"/pkg/python/pyinspect.FS).Stat" || strings.HasSuffix(n, "exec.LookPath") || n == modPath+"/pkg/python/pyinspect.Dynamic" || strings.HasPrefix(n, "(*encoding/base64.Encoding).Decode")):
		return "python inspect tries several candidates; those that fail are passed over"
	case n == "strconv.ParseInt" && pkg == "pkg/reproducible":
		return "SOURCE_DATE_EPOCH is ignored if it is not a number"
	case n == modPath+"/pkg/python/pep345.HaveRequiredPython" && pkg == "pkg/python/pep503":
		return "a malformed data-requires-python is ignored, as pip does"
	case n == modPath+"/pkg/python/pypa/bdist.ParseFilename" && pkg == "pkg/python/pypa/simple_repo_api":
		return "links that are not wheels are passed over, and those that are left parse"
	case n == "("+modPath+"/pkg/python/pyinspect.FS).LookPath" && pkg == "pkg/python/pyinspect" && len(cc.Args) == 1 && !isParam(cc.Args[0]):
		return "if there is no pythonw (or python) beside python (or pythonw), that one is used for both"
	case n == "net/url.Parse" && pkg == "pkg/python/pep503" && isParam(cc.Args[0]):
		return "net/http has parsed the request URL before"
	}
	return ""
}

func isParam(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Parameter:
		return true
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.FreeVar:
			return isParamCell(bindingOf(a))
		default:
			return isParamCell(a)
		}
	case *ssa.FreeVar:
		if b := bindingOf(x); b != nil {
			return isParam(b)
		}
	}
	return false
}

// isParamCell: a variable that is first set to a parameter.
func isParamCell(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	if !ok || a.Referrers() == nil {
		return false
	}
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == v {
			if _, ok := s.Val.(*ssa.Parameter); ok {
				return true
			}
		}
	}
	return false
}

// searchLoop: a loop over candidates: when they are used up, the function fails.
func (p *errPath) searchLoop(home map[*ssa.BasicBlock]bool, head *ssa.BasicBlock) bool {
	body := naturalLoop(head)
	outer := 0
	for h := range home {
		if h != head && naturalLoop(h)[head] {
			outer++
		}
	}
	if outer > 0 {
		return false
	}
	found := false
	for b := range body {
		for _, s := range b.Succs {
			if body[s] {
				continue
			}
			if b == head {
				// used up
				if !p.allFail(s, b, map[*ssa.BasicBlock]bool{}) {
					return false
				}
				found = true
			}
		}
	}
	return found
}

func (p *errPath) allFail(b, from *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return true
	}
	seen[b] = true
	cells := map[ssa.Value]errClass{}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Store:
			if isErrorType(x.Val.Type()) {
				cells[x.Addr] = p.class(x.Val, from, cells)
			}
		case *ssa.Return:
			n := len(x.Results)
			return n > 0 && isErrorType(x.Results[n-1].Type()) && p.class(x.Results[n-1], from, cells) == errNonNil
		case *ssa.Panic:
			return true
		}
	}
	for _, s := range b.Succs {
		if !p.allFail(s, b, seen) {
			return false
		}
	}
	return len(b.Succs) > 0
}

// callbackErrs: the errors of the function are those of the functions that it is given.
func callbackErrs(f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	var ok func(v ssa.Value, depth int) bool
	ok = func(v ssa.Value, depth int) bool {
		if depth > 8 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Const:
			return x.IsNil()
		case *ssa.Call:
			if x.Call.StaticCallee() == f {
				return true
			}
			_, isP := x.Call.Value.(*ssa.Parameter)
			return isP && !x.Call.IsInvoke()
		case *ssa.Phi:
			for _, e := range x.Edges {
				if e != v && !ok(e, depth+1) {
					return false
				}
			}
			return true
		}
		return false
	}
	for _, b := range f.Blocks {
		if r, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR && !ok(r.Results[len(r.Results)-1], 0) {
			return false
		}
	}
	return true
}

// neverErrs: the function value returns no error.
func neverErrs(v ssa.Value) bool {
	if isNilConst(v) {
		return true
	}
	var f *ssa.Function
	switch x := v.(type) {
	case *ssa.Function:
		f = x
	case *ssa.MakeClosure:
		f, _ = x.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return neverErrs(x.X)
	}
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	for _, b := range f.Blocks {
		if r, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR && (len(r.Results) == 0 || !isNilConst(r.Results[len(r.Results)-1])) {
			return false
		}
	}
	return true
}

// harmless: the call cannot fail because of what it is given.
func harmless(f *ssa.Function, call ssa.CallInstruction) bool {
	cc := call.Common()
	g := cc.StaticCallee()
	if f.Synthetic == "package initializer" || f.Name() == "init" && f.Parent() == nil && f.Signature.Params().Len() == 0 {
		for _, a := range cc.Args {
			if _, ok := a.(*ssa.Const); !ok {
				return false
			}
		}
		return true
	}
	if g != nil && inRepo(g) && callbackErrs(g) {
		for _, a := range cc.Args {
			if _, ok := a.Type().Underlying().(*types.Signature); ok && !neverErrs(a) {
				return false
			}
		}
		return true
	}
	return false
}

func funcVarName(cc *ssa.CallCommon) string {
	if u, ok := cc.Value.(*ssa.UnOp); ok && !cc.IsInvoke() {
		if g, ok := u.X.(*ssa.Global); ok {
			return g.String()
		}
	}
	return ""
}

func (c *Ctx) checkErrCall(f *ssa.Function, call ssa.CallInstruction) {
	const R = "C27.errors"
	cc := call.Common()
	n := calleeName(cc)
	if n == "" {
		n = funcVarName(cc)
	}
	pos := c.P.pos(posOf(call)) + " " + shortName(n)
	if cannotFail(cc) || harmless(f, call) {
		return
	}
	c.sites[call] = true
	if _, isGo := call.(*ssa.Go); isGo {
		return
	}
	ev := errValue(call)
	if ev == nil || len(realRefs(ev)) == 0 {
		if _, isDefer := call.(*ssa.Defer); isDefer || f.Parent() != nil && isDeferred(f) || onErrorPath(call) {
			if release(cc) {
				return
			}
		}
		if release(cc) && !strings.HasSuffix(n, ".Wait") {
			return
		}
		if strings.HasPrefix(n, "(*encoding/csv.Writer).Write") && callsIn(f, "(*encoding/csv.Writer).Error") {
			c.okAt(R, pos)
			return
		}
		if why := toleratedCall(f, cc, n, false); why != "" {
			c.assume(why)
			return
		}
		c.failAt(R, posOf(call), f, "the error of "+shortName(n)+" is not looked at", nil)
		return
	}
	al := errAliases(ev)
	res := f.Signature.Results()
	if res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
		return
	}
	var home map[*ssa.BasicBlock]bool
	for _, b := range f.Blocks {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				if bl := naturalLoop(b); bl[call.Block()] {
					if home == nil {
						home = map[*ssa.BasicBlock]bool{}
					}
					home[b] = true
				}
			}
		}
	}
	tested := false
	var als []ssa.Value
	for a := range al {
		als = append(als, a)
	}
	sort.Slice(als, func(i, j int) bool {
		return als[i].Pos() < als[j].Pos() || als[i].Pos() == als[j].Pos() && als[i].Name() < als[j].Name()
	})
	for _, a := range als {
		if a.Referrers() == nil {
			continue
		}
		for _, r := range *a.Referrers() {
			bin, ok := r.(*ssa.BinOp)
			if !ok || bin.Op != token.EQL && bin.Op != token.NEQ || !isNilConst(bin.X) && !isNilConst(bin.Y) {
				continue
			}
			for _, q := range *bin.Referrers() {
				iff, ok := q.(*ssa.If)
				if !ok {
					tested = true
					continue
				}
				tested = true
				if !blockReachable(call.Block(), iff.Block()) {
					continue
				}
				i := 0
				if bin.Op == token.EQL {
					i = 1
				}
				p := &errPath{c: c, f: f, al: al, origin: call, seen: map[string]bool{}, start: iff.Block()}
				p.follow(iff.Block().Succs[i], iff.Block(), map[ssa.Value]errClass{}, home)
				if p.found != "" {
					if why := toleratedCall(f, cc, n, p.found == loopGoesOn); why != "" {
						c.assume(why)
						continue
					}
					at := p.foundAt
					c.failAt(R, posOf(at), f, p.found+" although "+shortName(n)+" failed", nil)
					return
				}
			}
		}
	}
	if !tested && !c.handedOn(al) {
		c.failAt(R, posOf(call), f, "the error of "+shortName(n)+" is not looked at", nil)
		return
	}
	c.okAt(R, pos)
}

// handedOn: the error is returned, stored or given to a function, untested.
func (c *Ctx) handedOn(al map[ssa.Value]bool) bool {
	for a := range al {
		if a.Referrers() == nil {
			continue
		}
		for _, r := range *a.Referrers() {
			switch x := r.(type) {
			case *ssa.Return, *ssa.MakeClosure, *ssa.MapUpdate, *ssa.Send:
				return true
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.Alloc); !ok {
					return true
				}
				if a, ok := x.Addr.(*ssa.Alloc); ok {
					for _, q := range *a.Referrers() {
						if _, ok := q.(*ssa.MakeClosure); ok {
							return true
						}
					}
				}
			case ssa.CallInstruction:
				n := calleeName(x.Common())
				if strings.Contains(n, "dlog.") || strings.HasPrefix(n, "log.") {
					continue
				}
				return true
			case *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.MakeInterface:
				return true
			}
		}
	}
	return false
}

func realRefs(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	if v.Referrers() != nil {
		for _, r := range *v.Referrers() {
			if _, ok := r.(*ssa.DebugRef); !ok {
				out = append(out, r)
			}
		}
	}
	return out
}

func callsIn(f *ssa.Function, n string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok && calleeName(call.Common()) == n {
				return true
			}
		}
	}
	return false
}

// isDeferred: the function literal is only used in defer statements.
func isDeferred(f *ssa.Function) bool {
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				switch x := d.Call.Value.(type) {
				case *ssa.MakeClosure:
					if x.Fn == f {
						return true
					}
				case *ssa.Function:
					if x == f {
						return true
					}
				}
			}
		}
	}
	return false
}

// onErrorPath: the call is in a block that is reached only after some error was found.
func onErrorPath(call ssa.CallInstruction) bool {
	for b := call.Block(); b != nil; b = b.Idom() {
		p := b.Idom()
		if p == nil {
			return false
		}
		if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
			if bin, ok := iff.Cond.(*ssa.BinOp); ok && (isNilConst(bin.X) || isNilConst(bin.Y)) {
				e := bin.X
				if isNilConst(e) {
					e = bin.Y
				}
				i := 0
				if bin.Op == token.EQL {
					i = 1
				}
				if isErrorType(e.Type()) && p.Succs[i] == b {
					return true
				}
			}
		}
	}
	return false
}

// mainExit: every way out of main after the command failed has a status other than 0.
func (c *Ctx) mainExit() {
	const R = "C27.exit"
	f := c.P.fn("", "main")
	if f == nil {
		c.missing(R, "main.main")
		return
	}
	ran := false
	exits := c.run(R, f, nil, func(e *Eng, st *State) {
		e.hooks.Post = func(e *Eng, st *State, ev *CallEvent) {
			if strings.HasPrefix(ev.Name, "(*github.com/spf13/cobra.Command).Execute") {
				st.SetMark("cmderr", ev.Res)
				ran = true
			}
		}
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			if ev.Name != "os.Exit" || !st.Marked("cmderr") {
				return
			}
			if errState(st, st.Mark("cmderr")) == yes {
				return
			}
			if st.decide(mkEq(ev.Args[0], mkInt(0))) == no {
				c.ok(e, R, ev.Instr, "")
			} else {
				c.fail(e, st, R, ev.Instr, "the program may end with status 0 although the command failed")
			}
		}
	})
	for _, x := range exits {
		if x.kind == exitRet && x.st.Marked("cmderr") && errState(x.st, x.st.Mark("cmderr")) != yes {
			c.addViol(&Violation{Rule: R, Where: c.P.pos(f.Pos()), Fn: "main", Msg: "the program may end with status 0 although the command failed", Trace: c.P.trace(x.st)})
		}
	}
	if !ran {
		c.missing(R, "the execution of the command in main")
	}
}

// capturedErr: a function literal that looks at an error variable of its surroundings which it does not set itself.
func (c *Ctx) capturedErr(f *ssa.Function) {
	res := f.Signature.Results()
	if len(f.Blocks) == 0 || res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
		return
	}
	for _, fv := range f.FreeVars {
		pt, ok := fv.Type().Underlying().(*types.Pointer)
		if !ok && !isErrorType(fv.Type()) || ok && !isErrorType(pt.Elem()) {
			continue
		}
		al := map[ssa.Value]bool{}
		stored := false
		if !ok {
			al[fv] = true
		}
		for _, r := range *fv.Referrers() {
			switch x := r.(type) {
			case *ssa.UnOp:
				al[x] = true
			case *ssa.Store, *ssa.MakeClosure:
				stored = true
			}
		}
		if stored || len(al) == 0 {
			continue
		}
		p := &errPath{c: c, f: f, al: al, seen: map[string]bool{}}
		p.follow(f.Blocks[0], nil, map[ssa.Value]errClass{fv: errNonNil}, nil)
		if p.found != "" {
			c.failAt("C27.captured", posOf(p.foundAt), f, p.found+" although the captured error "+fv.Name()+" is set", nil)
		} else {
			c.okAt("C27.captured", c.P.pos(f.Pos())+" "+fv.Name())
		}
	}
}

func init() {
	propRules["C27"] = func(c *Ctx) {
		c.rule("C27.captured", "a function that keeps an error for later reports it", 1)
		c.rule("C27.errors", "if a call fails, the function that made it does not report success", 60)
		c.rule("C27.exit", "if the command fails, the program exits with a status other than 0", 1)
		c.mainExit()
		for _, f := range c.shipped() {
			c.capturedErr(f)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if _, ok := errResult(call); !ok {
						continue
					}
					if n := calleeName(call.Common()); n == "fmt.Errorf" || strings.HasPrefix(n, "errors.") {
						continue
					}
					c.checkErrCall(f, call)
				}
			}
		}
	}
}
