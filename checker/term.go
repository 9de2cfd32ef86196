package main

// Hash-consed value terms: the abstract values of the dataflow engine (global value numbering).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Term struct {
	ID   int
	Op   string // const nil sym site bin not call ext fld deref alloc global fa ia agg closure fn iface as list append concat slice lookup mapval ...
	Aux  string
	Args []*Term
	C    constant.Value
	T    types.Type
	Fn   *ssa.Function
	Ctx  string // creation context, for sym/site/alloc
	Pos  token.Pos
	key  string
}

type termTable struct {
	m    map[string]*Term
	next int
}

var tt = &termTable{m: map[string]*Term{}}

func (t *termTable) mk(op, aux string, args ...*Term) *Term {
	return t.mkT(op, aux, nil, args...)
}

func (t *termTable) mkT(op, aux string, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(aux)
	for _, a := range args {
		b.WriteByte('|')
		if a == nil {
			b.WriteString("-")
		} else {
			b.WriteString(strconv.Itoa(a.ID))
		}
	}
	k := b.String()
	if x, ok := t.m[k]; ok {
		if x.T == nil {
			x.T = typ
		}
		return x
	}
	t.next++
	x := &Term{ID: t.next, Op: op, Aux: aux, Args: args, T: typ, key: k}
	t.m[k] = x
	return x
}

func mkConst(c constant.Value, typ types.Type) *Term {
	k := c.ExactString()
	if c.Kind() == constant.Float && constant.ToInt(c).Kind() == constant.Int {
		c = constant.ToInt(c)
		k = c.ExactString()
	}
	x := tt.mkT("const", c.Kind().String()+":"+k, typ)
	x.C = c
	return x
}

var (
	tNil   *Term
	tTrue  *Term
	tFalse *Term
	tZero  *Term
	tEmpty *Term
)

func init() {
	tNil = tt.mk("nil", "")
	tTrue = mkConst(constant.MakeBool(true), nil)
	tFalse = mkConst(constant.MakeBool(false), nil)
	tZero = mkConst(constant.MakeInt64(0), nil)
	tEmpty = mkConst(constant.MakeString(""), nil)
}

func mkInt(i int64) *Term  { return mkConst(constant.MakeInt64(i), nil) }
func mkStr(s string) *Term { return mkConst(constant.MakeString(s), nil) }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) isConst() bool { return t.Op == "const" }
func (t *Term) isNil() bool   { return t.Op == "nil" }
func (t *Term) str() (string, bool) {
	if t != nil && t.Op == "const" && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}
func (t *Term) boolv() (bool, bool) {
	if t == tTrue {
		return true, true
	}
	if t == tFalse {
		return false, true
	}
	return false, false
}
func (t *Term) intv() (int64, bool) {
	if t != nil && t.Op == "const" && t.C.Kind() == constant.Int {
		return constant.Int64Val(t.C)
	}
	return 0, false
}

func (t *Term) isCall(name string) bool { return t != nil && t.Op == "call" && t.Aux == name }

// isSite reports whether t is (result i of) an impure external call of that name.
func (t *Term) siteName() string {
	if t == nil {
		return ""
	}
	if t.Op == "ext" {
		return t.Args[0].siteName()
	}
	if t.Op == "site" || t.Op == "call" {
		n := t.Aux
		if i := strings.Index(n, "@"); i >= 0 {
			n = n[:i]
		}
		return n
	}
	return ""
}

// siteOf returns the underlying site/call term and the result index.
func (t *Term) siteOf() (*Term, int) {
	if t == nil {
		return nil, 0
	}
	if t.Op == "ext" {
		s, _ := t.Args[0].siteOf()
		i, _ := strconv.Atoi(t.Aux)
		return s, i
	}
	if t.Op == "site" || t.Op == "call" {
		return t, 0
	}
	return nil, 0
}

func (t *Term) contains(s *Term) bool {
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == s {
			return true
		}
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (t *Term) any(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func shortName(n string) string {
	// strip package directories: "(*github.com/a/b.T).M" -> "(*b.T).M"
	var out strings.Builder
	tok := ""
	flush := func() {
		if i := strings.LastIndex(tok, "/"); i >= 0 {
			tok = tok[i+1:]
		}
		out.WriteString(tok)
		tok = ""
	}
	for _, r := range n {
		switch r {
		case '(', ')', '*', '[', ']', ' ', ',', '{', '}':
			flush()
			out.WriteRune(r)
		default:
			tok += string(r)
		}
	}
	flush()
	return out.String()
}

func (t *Term) String() string { return t.show(6) }

func (t *Term) show(d int) string {
	if t == nil {
		return "<none>"
	}
	if d <= 0 {
		return "…"
	}
	args := func(as []*Term) string {
		var s []string
		for _, a := range as {
			s = append(s, a.show(d-1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "const":
		s := t.C.ExactString()
		if len(s) > 60 {
			s = s[:57] + "..."
		}
		return s
	case "nil":
		return "nil"
	case "sym":
		n := t.Aux
		if i := strings.Index(n, "@"); i >= 0 {
			n = n[:i]
		}
		return n
	case "site", "call":
		n := t.Aux
		if i := strings.Index(n, "@"); i >= 0 {
			n = n[:i]
		}
		return shortName(n) + "(" + args(t.Args) + ")"
	case "ext":
		return t.Args[0].show(d) + "#" + t.Aux
	case "bin":
		return "(" + t.Args[0].show(d-1) + " " + t.Aux + " " + t.Args[1].show(d-1) + ")"
	case "not":
		return "!" + t.Args[0].show(d)
	case "fld":
		return t.Args[0].show(d) + "." + t.Aux
	case "deref":
		return "*" + t.Args[0].show(d)
	case "fa":
		return "&" + t.Args[0].show(d) + "." + t.Aux
	case "ia":
		return "&" + t.Args[0].show(d) + "[" + t.Args[1].show(d-1) + "]"
	case "alloc":
		n := t.Aux
		if i := strings.Index(n, "@"); i >= 0 {
			n = n[:i]
		}
		return "new(" + n + ")"
	case "global", "gval":
		return shortName(t.Aux)
	case "fn", "closure":
		return "func:" + shortName(t.Fn.String())
	case "concat":
		var s []string
		for _, a := range t.Args {
			s = append(s, a.show(d-1))
		}
		return strings.Join(s, "+")
	}
	return t.Op + ":" + shortName(t.Aux) + "(" + args(t.Args) + ")"
}

// ---------------------------------------------------------------------------
// constructors with canonicalisation

func mkNot(x *Term) *Term {
	if b, ok := x.boolv(); ok {
		return mkBool(!b)
	}
	if x.Op == "not" {
		return x.Args[0]
	}
	return tt.mk("not", "", x)
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func neverNil(t *Term) bool {
	switch t.Op {
	case "alloc", "iface", "closure", "fn", "global", "fa", "ia", "list", "agg":
		return true
	case "append":
		for _, a := range t.Args[1:] {
			if a.Op == "list" && len(a.Args) > 0 {
				return true
			}
		}
		return false
	case "gval":
		return true
	case "call":
		switch t.Aux {
		case "fmt.Errorf", "errors.New", "(*archive/tar.Header).FileInfo", "archive/tar.NewWriter", "archive/tar.NewReader",
			"bytes.NewReader", "strings.NewReader", "io.NopCloser", "io.MultiReader", "io.LimitReader", "regexp.MustCompile",
			"encoding/csv.NewReader", "encoding/csv.NewWriter", "bufio.NewReader", "strings.Split", "strings.SplitN":
			return true
		}
	}
	return false
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.isConst() || a.isNil() {
		a, b = b, a
	}
	if a.isConst() && b.isConst() {
		if a.C.Kind() == b.C.Kind() || (a.C.Kind() != constant.String && b.C.Kind() != constant.String && a.C.Kind() != constant.Bool && b.C.Kind() != constant.Bool) {
			return mkBool(constant.Compare(a.C, token.EQL, b.C))
		}
		return tFalse
	}
	if b.isNil() {
		if neverNil(a) {
			return tFalse
		}
		if a.isNil() {
			return tTrue
		}
	}
	if b == tTrue {
		return a
	}
	if b == tFalse {
		return mkNot(a)
	}
	// len(s)==0 for a string s  <=>  s == ""
	if b == tZero && a.Op == "call" && a.Aux == "len" && isStringType(a.Args[0].T) {
		return mkEq(a.Args[0], tEmpty)
	}
	// x - y == 0
	if b == tZero && a.Op == "bin" && a.Aux == "-" {
		return mkEq(a.Args[0], a.Args[1])
	}
	// strings.TrimSuffix(x, s) == x
	for i := 0; i < 2; i++ {
		x, y := [2]*Term{a, b}[i], [2]*Term{a, b}[1-i]
		for trim, has := range map[string]string{"strings.TrimSuffix": "strings.HasSuffix", "strings.TrimPrefix": "strings.HasPrefix"} {
			if x.isCall(trim) && x.Args[0] == y {
				if s, ok := x.Args[1].str(); ok && s != "" {
					return mkNot(mkCall(has, types.Typ[types.Bool], y, x.Args[1]))
				}
			}
		}
	}
	// comparison calls
	if b == tZero && a.isCall("strings.Compare") {
		return mkEq(a.Args[0], a.Args[1])
	}
	if i, ok := b.intv(); ok && (a.isCall("(time.Time).Compare") || a.isCall("strings.Compare")) {
		if i == -1 {
			return mkLt(a, tZero)
		}
		if i == 1 {
			return mkLt(tZero, a)
		}
	}
	// strings.Index(x,y) == -1
	if i, ok := b.intv(); ok && i == -1 && (a.isCall("strings.Index") || a.isCall("strings.IndexByte")) {
		return mkNot(mkCall("strings.Contains", nil, a.Args...))
	}
	// distinct allocations
	if a.Op == "alloc" && b.Op == "alloc" {
		return tFalse
	}
	if a.Op == "iface" && b.Op == "iface" && a.Aux == b.Aux {
		return mkEq(a.Args[0], b.Args[0])
	}
	// x + c1 == c2
	if c2, ok := b.intv(); ok && a.Op == "bin" && a.Aux == "+" {
		if c1, ok := a.Args[1].intv(); ok {
			return mkEq(a.Args[0], mkInt(c2-c1))
		}
	}
	// x == x + y
	for i := 0; i < 2; i++ {
		if y := [2]*Term{a, b}[i]; y.Op == "bin" && y.Aux == "+" && y.T != nil && basicOf(y.T) != nil && basicOf(y.T).Info()&types.IsInteger != 0 {
			x := [2]*Term{a, b}[1-i]
			if y.Args[0] == x {
				return mkEq(y.Args[1], tZero)
			}
			if y.Args[1] == x {
				return mkEq(y.Args[0], tZero)
			}
		}
	}
	if !b.isConst() && !b.isNil() && a.ID > b.ID {
		a, b = b, a
	}
	return tt.mk("bin", "==", a, b)
}

func mkLt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.isConst() && b.isConst() && a.C.Kind() == b.C.Kind() {
		return mkBool(constant.Compare(a.C, token.LSS, b.C))
	}
	// three-way time comparison: Compare(x,y) < 0 is x.Before(y); Sub(x,y) < 0 likewise
	before := func(x, y *Term) *Term { return mkCall("(time.Time).Before", types.Typ[types.Bool], x, y) }
	is3 := func(t *Term) bool { return t.isCall("(time.Time).Compare") }
	if b == tZero && a.isCall("strings.Compare") {
		return mkLt(a.Args[0], a.Args[1])
	}
	if a == tZero && b.isCall("strings.Compare") {
		return mkLt(b.Args[1], b.Args[0])
	}
	is3s := func(t *Term) bool { return is3(t) || t.isCall("(time.Time).Sub") }
	if v, ok := b.intv(); ok {
		if is3s(a) && v == 0 {
			return before(a.Args[0], a.Args[1])
		}
		if is3s(a) && v == 1 {
			return mkNot(before(a.Args[1], a.Args[0]))
		}
	}
	if v, ok := a.intv(); ok {
		if is3s(b) && v == 0 {
			return before(b.Args[1], b.Args[0])
		}
		if is3s(b) && v == -1 {
			return mkNot(before(b.Args[0], b.Args[1]))
		}
	}
	isLen := func(t *Term) bool { return t.Op == "call" && (t.Aux == "len") }
	if a == tZero && isLen(b) {
		return mkNot(mkEq(b, tZero))
	}
	if v, ok := b.intv(); ok && isLen(a) {
		if v == 1 {
			return mkEq(a, tZero)
		}
		if v <= 0 {
			return tFalse
		}
	}
	if v, ok := a.intv(); ok && isLen(b) && v < 0 {
		return tTrue
	}
	// Index(x,y) < 0 ; -1 < Index(x,y)
	isIdx := func(t *Term) bool { return t.isCall("strings.Index") || t.isCall("strings.IndexByte") }
	if b == tZero && isIdx(a) {
		return mkNot(mkCall("strings.Contains", nil, a.Args...))
	}
	if v, ok := a.intv(); ok && v == -1 && isIdx(b) {
		return mkCall("strings.Contains", nil, b.Args...)
	}
	// (x + c) < k  with consts
	if k, ok := b.intv(); ok && a.Op == "bin" && a.Aux == "+" {
		if c, ok := a.Args[1].intv(); ok {
			return mkLt(a.Args[0], mkInt(k-c))
		}
	}
	if k, ok := a.intv(); ok && b.Op == "bin" && b.Aux == "+" {
		if c, ok := b.Args[1].intv(); ok {
			return mkLt(mkInt(k-c), b.Args[0])
		}
	}
	// canonicalise integer comparisons with constants: k < x  <=>  !(x < k+1)
	if k, ok := a.intv(); ok {
		return mkNot(tt.mk("bin", "<", b, mkInt(k+1)))
	}
	return tt.mk("bin", "<", a, b)
}

func mkBin(op token.Token, a, b *Term, typ types.Type) *Term {
	switch op {
	case token.EQL:
		return mkEq(a, b)
	case token.NEQ:
		return mkNot(mkEq(a, b))
	case token.LSS:
		return mkLt(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.LEQ:
		return mkNot(mkLt(b, a))
	case token.GEQ:
		return mkNot(mkLt(a, b))
	}
	if op == token.ADD && (isStringType(typ) || isStrConst(a) || isStrConst(b)) {
		return mkConcat(typ, a, b)
	}
	if a.isConst() && b.isConst() {
		if r, ok := foldBin(op, a.C, b.C, typ); ok {
			return mkConst(r, typ)
		}
	}
	switch op {
	case token.SUB:
		if v, ok := b.intv(); ok {
			return mkBin(token.ADD, a, mkInt(-v), typ)
		}
		if a == b {
			return tZero
		}
		// (x+c) - x
		if a.Op == "bin" && a.Aux == "+" && a.Args[0] == b {
			return a.Args[1]
		}
	case token.ADD:
		if a.isConst() {
			a, b = b, a
		}
		if b == tZero {
			return a
		}
		if c2, ok := b.intv(); ok && a.Op == "bin" && a.Aux == "+" {
			if c1, ok := a.Args[1].intv(); ok {
				return mkBin(token.ADD, a.Args[0], mkInt(c1+c2), typ)
			}
		}
		if !b.isConst() && a.ID > b.ID {
			a, b = b, a
		}
	case token.MUL, token.AND, token.OR, token.XOR:
		if a.isConst() {
			a, b = b, a
		}
		if op == token.OR && b == tZero {
			return a
		}
		if op == token.OR && a == b {
			return a
		}
		if op == token.AND && b == tZero {
			return tZero
		}
		if op == token.AND && a == b {
			return a
		}
		// (x & c1) & c2
		if c2, ok := b.intv(); ok && a.Op == "bin" && a.Aux == op.String() && (op == token.AND || op == token.OR) {
			if _, ok := a.Args[1].intv(); ok {
				r, _ := foldBin(op, a.Args[1].C, constant.MakeInt64(c2), typ)
				return mkBin(op, a.Args[0], mkConst(r, typ), typ)
			}
		}
		if !b.isConst() && a.ID > b.ID {
			a, b = b, a
		}
	case token.SHL, token.SHR:
		if b == tZero {
			return a
		}
		if a == tZero {
			return tZero
		}
	}
	return tt.mkT("bin", op.String(), typ, a, b)
}

func isStrConst(t *Term) bool { _, ok := t.str(); return ok }

func foldBin(op token.Token, a, b constant.Value, typ types.Type) (r constant.Value, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	switch op {
	case token.SHL, token.SHR:
		n, exact := constant.Uint64Val(b)
		if !exact || n > 200 {
			return nil, false
		}
		r = constant.Shift(a, op, uint(n))
	case token.QUO:
		if constant.Sign(b) == 0 {
			return nil, false
		}
		if a.Kind() == constant.Int && b.Kind() == constant.Int {
			op = token.QUO_ASSIGN
		}
		r = constant.BinaryOp(a, op, b)
	case token.REM:
		if constant.Sign(b) == 0 {
			return nil, false
		}
		r = constant.BinaryOp(a, op, b)
	case token.AND_NOT, token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
		r = constant.BinaryOp(a, op, b)
	default:
		return nil, false
	}
	return truncConst(r, typ), true
}

// truncConst wraps an integer constant to the width of typ.
func truncConst(c constant.Value, typ types.Type) constant.Value {
	if typ == nil || c.Kind() != constant.Int {
		return c
	}
	b, ok := typ.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return c
	}
	bits, uns := intWidth(b)
	if bits == 0 {
		return c
	}
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits))
	m := constant.BinaryOp(c, token.REM, mod)
	if constant.Sign(m) < 0 {
		m = constant.BinaryOp(m, token.ADD, mod)
	}
	if !uns {
		half := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits-1))
		if constant.Compare(m, token.GEQ, half) {
			m = constant.BinaryOp(m, token.SUB, mod)
		}
	}
	return m
}

func intWidth(b *types.Basic) (bits int, unsigned bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32:
		return 32, false
	case types.Int64, types.Int:
		return 64, false
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, true
	}
	return 0, false
}

func mkConcat(typ types.Type, parts ...*Term) *Term {
	var flat []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.Op == "concat" {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		if s, ok := t.str(); ok {
			if s == "" {
				return
			}
			if n := len(flat); n > 0 {
				if p, ok := flat[n-1].str(); ok {
					flat[n-1] = mkStr(p + s)
					return
				}
			}
		}
		flat = append(flat, t)
	}
	for _, p := range parts {
		add(p)
	}
	switch len(flat) {
	case 0:
		return tEmpty
	case 1:
		return flat[0]
	}
	if typ == nil {
		typ = types.Typ[types.String]
	}
	return tt.mkT("concat", "", typ, flat...)
}

func constStrs(args []*Term) ([]string, bool) {
	var out []string
	for _, a := range args {
		s, ok := a.str()
		if !ok {
			return nil, false
		}
		out = append(out, s)
	}
	return out, true
}

// mkCall builds a pure call term, canonicalising and folding.
func mkCall(name string, typ types.Type, args ...*Term) *Term {
	switch name {
	case "errors.Is":
		if args[0] == args[1] && args[0].Op == "gval" {
			return tTrue
		}
	case "(time.Time).After":
		return mkCall("(time.Time).Before", types.Typ[types.Bool], args[1], args[0])
	case "path/filepath.ToSlash", "path/filepath.FromSlash":
		return args[0]
	case "path.IsAbs", "path/filepath.IsAbs":
		return mkCall("strings.HasPrefix", types.Typ[types.Bool], args[0], mkStr("/"))
	case "path/filepath.Join":
		name = "path.Join"
	case "path/filepath.Clean":
		name = "path.Clean"
	case "path/filepath.Base":
		name = "path.Base"
	case "path/filepath.Dir":
		name = "path.Dir"
	case "path/filepath.Ext":
		name = "path.Ext"
	case "path/filepath.Split":
		name = "path.Split"
	case "errors.New", "fmt.Errorf":
		typ = nil
	}
	switch name {
	case "len":
		a := args[0]
		switch a.Op {
		case "const":
			if s, ok := a.str(); ok {
				return mkInt(int64(len(s)))
			}
		case "nil":
			return tZero
		case "concat":
			n := tZero
			for _, p := range a.Args {
				n = mkBin(token.ADD, n, mkCall("len", types.Typ[types.Int], p), types.Typ[types.Int])
			}
			return n
		case "list":
			return mkInt(int64(len(a.Args)))
		case "slice":
			if lo, ok := a.Args[1].intv(); ok {
				if hi, ok := a.Args[2].intv(); ok {
					return mkInt(hi - lo)
				}
			}
		}
		if a.Op == "conv" && (a.Aux == "[]byte" || a.Aux == "string") && (isStrConst(a.Args[0]) || isStringType(a.Args[0].T)) {
			return mkCall("len", types.Typ[types.Int], a.Args[0])
		}
	case "path.Clean":
		if a := args[0]; a.isCall("path.Clean") || a.isCall("path.Join") || a.isCall("path.Dir") || a.isCall("path.Base") {
			return a
		}
	case "(time.Time).IsZero":
		if args[0].Op == "zero" {
			return tTrue
		}
		if args[0].siteName() == "time.Now" {
			return tFalse
		}
	case "(time.Time).Before":
		if args[0] == args[1] {
			return tFalse
		}
	case "strings.HasPrefix":
		// HasPrefix(p + rest, q)
		if q, ok := args[1].str(); ok {
			if q == "" {
				return tTrue
			}
			if args[0].Op == "concat" {
				if p, ok := args[0].Args[0].str(); ok {
					if strings.HasPrefix(p, q) {
						return tTrue
					}
					if !strings.HasPrefix(q, p) {
						return tFalse
					}
				}
			}
		}
		if args[0] == args[1] {
			return tTrue
		}
	case "strings.HasSuffix":
		if q, ok := args[1].str(); ok && q == "" {
			return tTrue
		}
	case "strings.TrimPrefix":
		if args[0].Op == "concat" && args[0].Args[0] == args[1] {
			return mkConcat(nil, args[0].Args[1:]...)
		}
		if p, ok := args[1].str(); ok && args[0].Op == "concat" {
			if q, ok := args[0].Args[0].str(); ok && strings.HasPrefix(q, p) {
				return mkConcat(nil, append([]*Term{mkStr(q[len(p):])}, args[0].Args[1:]...)...)
			}
		}
	case "bytes.Equal":
		return mkEq(mkConv("string", types.Typ[types.String], args[0]), mkConv("string", types.Typ[types.String], args[1]))
	case "bytes.HasPrefix":
		return mkCall("strings.HasPrefix", types.Typ[types.Bool], mkConv("string", types.Typ[types.String], args[0]), mkConv("string", types.Typ[types.String], args[1]))
	case "path.Join":
		// flatten variadic list
		if len(args) == 1 && args[0].Op == "list" {
			return mkCall("path.Join", typ, args[0].Args...)
		}
		if len(args) == 1 && args[0].Op == "nil" {
			return tEmpty
		}
		var flat []*Term
		for _, a := range args {
			if a.isCall("path.Join") {
				flat = append(flat, a.Args...)
			} else if a != tEmpty {
				flat = append(flat, a)
			}
		}
		args = flat
	}
	if ss, ok := constStrs(args); ok {
		if r := foldStr(name, ss); r != nil {
			return r
		}
	}
	return tt.mkT("call", name, typ, args...)
}

func foldStr(name string, s []string) *Term {
	switch name {
	case "strings.HasPrefix":
		return mkBool(strings.HasPrefix(s[0], s[1]))
	case "strings.HasSuffix":
		return mkBool(strings.HasSuffix(s[0], s[1]))
	case "strings.Contains":
		return mkBool(strings.Contains(s[0], s[1]))
	case "strings.ContainsAny":
		return mkBool(strings.ContainsAny(s[0], s[1]))
	case "strings.TrimPrefix":
		return mkStr(strings.TrimPrefix(s[0], s[1]))
	case "strings.TrimSuffix":
		return mkStr(strings.TrimSuffix(s[0], s[1]))
	case "strings.Trim":
		return mkStr(strings.Trim(s[0], s[1]))
	case "strings.TrimLeft":
		return mkStr(strings.TrimLeft(s[0], s[1]))
	case "strings.TrimRight":
		return mkStr(strings.TrimRight(s[0], s[1]))
	case "strings.TrimSpace":
		return mkStr(strings.TrimSpace(s[0]))
	case "strings.ToLower":
		return mkStr(strings.ToLower(s[0]))
	case "strings.EqualFold":
		return mkBool(strings.EqualFold(s[0], s[1]))
	case "strings.Index":
		return mkInt(int64(strings.Index(s[0], s[1])))
	case "strings.Count":
		return mkInt(int64(strings.Count(s[0], s[1])))
	case "path.Clean":
		return mkStr(path.Clean(s[0]))
	case "path.Base":
		return mkStr(path.Base(s[0]))
	case "path.Dir":
		return mkStr(path.Dir(s[0]))
	case "path.Join":
		return mkStr(path.Join(s...))
	case "io/fs.ValidPath":
		return mkBool(validPath(s[0]))
	case "path/filepath.IsLocal":
		return mkBool(isLocal(s[0]))
	}
	return nil
}

func validPath(name string) bool {
	if name == "." {
		return true
	}
	for {
		i := strings.Index(name, "/")
		elem := name
		if i >= 0 {
			elem = name[:i]
		}
		if elem == "" || elem == "." || elem == ".." {
			return false
		}
		if i < 0 {
			return true
		}
		name = name[i+1:]
	}
}

func isLocal(p string) bool {
	if strings.HasPrefix(p, "/") || p == "" {
		return false
	}
	c := path.Clean(p)
	return c != ".." && !strings.HasPrefix(c, "../")
}

func mkConv(to string, typ types.Type, x *Term) *Term {
	if to == "string" {
		if x.isConst() && x.C.Kind() == constant.String {
			return x
		}
		if x.Op == "conv" && (x.Aux == "[]byte") {
			return x.Args[0]
		}
		if isStringType(x.T) && x.Op != "conv" {
			return x
		}
		if x.isNil() {
			return tEmpty
		}
	}
	if to == "[]byte" && x.Op == "conv" && x.Aux == "string" {
		return x.Args[0]
	}
	return tt.mkT("conv", to, typ, x)
}

func mkExt(x *Term, i int, typ types.Type) *Term {
	if x.Op == "tuple" {
		return x.Args[i]
	}
	return tt.mkT("ext", strconv.Itoa(i), typ, x)
}

// field of a struct value
func mkField(v *Term, name string, typ types.Type) *Term {
	if v.Op == "agg" {
		st, ok := v.T.Underlying().(*types.Struct)
		if ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					return v.Args[i]
				}
			}
		}
	}
	if v.Op == "zero" && typ != nil {
		return zeroOf(typ)
	}
	return tt.mkT("fld", name, typ, v)
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return tEmpty
		case u.Info()&types.IsNumeric != 0:
			return tZero
		}
		return tNil
	case *types.Struct:
		if expandable(t) {
			var fs []*Term
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, zeroOf(u.Field(i).Type()))
			}
			return mkAgg(t, fs)
		}
		return tt.mkT("zero", t.String(), t)
	case *types.Array:
		return tt.mkT("zero", t.String(), t)
	case *types.Tuple:
		return tNil
	}
	return tNil
}

func mkAgg(t types.Type, fs []*Term) *Term {
	st := t.Underlying().(*types.Struct)
	// collapse copies
	if len(fs) > 0 && fs[0].Op == "fld" {
		base := fs[0].Args[0]
		ok := true
		for i, f := range fs {
			if f.Op != "fld" || f.Args[0] != base || f.Aux != st.Field(i).Name() {
				ok = false
				break
			}
		}
		if ok && base.T != nil && types.Identical(base.T, t) {
			return base
		}
	}
	return tt.mkT("agg", types.TypeString(t, nil), t, fs...)
}

// expandable: struct types tracked field by field.
func expandable(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if p := n.Obj().Pkg(); p != nil && !strings.HasPrefix(p.Path(), modPath) {
			// external named type: only if every field is exported
			for i := 0; i < st.NumFields(); i++ {
				if !st.Field(i).Exported() {
					return false
				}
			}
			return st.NumFields() > 0
		}
	}
	return st.NumFields() > 0
}

func sortedTerms(m map[*Term]bool) []*Term {
	out := make([]*Term, 0, len(m))
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

var _ = fmt.Sprint
