package main

// File modes and the attributes of the members of a ZIP file: every bit is what the format says it is.

import (
	"fmt"
	"go/constant"
	"go/types"
	"io/fs"
	"math/bits"

	"golang.org/x/tools/go/ssa"
)

func init() { propRules["C41"] = ruleC41 }

// bit: what is known of one bit of a number: that it is 0 or 1, that it is a certain bit of a term, or nothing.
type bit struct {
	of  *Term
	n   int
	one bool
	bad bool
}

type bitvec [64]bit

// known: the bits of a term that are given.
type known struct {
	of        *Term
	mask, val uint64
}

func intBits(t types.Type) (int, bool) {
	if b := basicOf(t); b != nil && b.Info()&types.IsInteger != 0 {
		w, u := intWidth(b)
		return w, u
	}
	return 0, false
}

func constBits(v uint64) (r bitvec) {
	for i := range r {
		r[i].one = v>>i&1 == 1
	}
	return r
}

func unknownBits() (r bitvec) {
	for i := range r {
		r[i].bad = true
	}
	return r
}

func (b bit) isConst() bool { return b.of == nil && !b.bad }

func (b bit) not() (r bit) {
	if b.isConst() {
		return bit{one: !b.one}
	}
	return bit{bad: true}
}

func andBit(a, b bit) bit {
	switch {
	case a.isConst() && !a.one || b.isConst() && !b.one:
		return bit{}
	case a.isConst():
		return b
	case b.isConst(), a == b:
		return a
	}
	return bit{bad: true}
}

func orBit(a, b bit) bit {
	switch {
	case a.isConst() && a.one || b.isConst() && b.one:
		return bit{one: true}
	case a.isConst():
		return b
	case b.isConst(), a == b:
		return a
	}
	return bit{bad: true}
}

func xorBit(a, b bit) bit {
	switch {
	case a == b && !a.bad:
		return bit{}
	case a.isConst() && !a.one:
		return b
	case b.isConst() && !b.one:
		return a
	case a.isConst() && a.one:
		return b.not()
	case b.isConst() && b.one:
		return a.not()
	}
	return bit{bad: true}
}

// width: a number of the type t has no other bits.
func (v bitvec) width(t types.Type) bitvec {
	w, unsigned := intBits(t)
	if w == 0 || w >= 64 {
		return v
	}
	for i := w; i < 64; i++ {
		if unsigned {
			v[i] = bit{}
		} else {
			v[i] = v[w-1]
		}
	}
	return v
}

func (v bitvec) constant() (uint64, bool) {
	r := uint64(0)
	for i, b := range v {
		if !b.isConst() {
			return 0, false
		}
		if b.one {
			r |= 1 << i
		}
	}
	return r, true
}

// bitsOf: what is known of the bits of t.
func bitsOf(t *Term, k []known) bitvec {
	if t == nil {
		return unknownBits()
	}
	if t == tZero {
		return bitvec{}
	}
	if t.isConst() && t.C != nil && t.C.Kind() == constant.Int {
		if v, ok := constant.Uint64Val(t.C); ok {
			return constBits(v)
		}
		if v, ok := constant.Int64Val(t.C); ok {
			return constBits(uint64(v))
		}
		return unknownBits()
	}
	switch {
	case t.Op == "conv" && len(t.Args) == 1:
		if w, _ := intBits(t.T); w == 0 {
			return unknownBits()
		}
		return bitsOf(t.Args[0], k).width(t.T)
	case t.Op == "idx" && len(t.Args) == 2:
		// The entry of a table.
		if i, ok := bitsOf(t.Args[1], k).constant(); ok {
			if a := t.Args[0]; (a.Op == "list" || a.Op == "agg") && i < uint64(len(a.Args)) {
				return bitsOf(a.Args[i], k).width(t.T)
			}
		}
		return unknownBits()
	case t.Op == "bin" && len(t.Args) == 2:
		a, b := bitsOf(t.Args[0], k), bitsOf(t.Args[1], k)
		var r bitvec
		switch t.Aux {
		case "&", "|", "^", "&^":
			for i := range r {
				switch t.Aux {
				case "&":
					r[i] = andBit(a[i], b[i])
				case "|":
					r[i] = orBit(a[i], b[i])
				case "^":
					r[i] = xorBit(a[i], b[i])
				default:
					r[i] = andBit(a[i], b[i].not())
				}
			}
		case "+":
			// Numbers that have no bit in common.
			for i := range r {
				if !(a[i].isConst() && !a[i].one || b[i].isConst() && !b[i].one) {
					return unknownBits()
				}
				r[i] = orBit(a[i], b[i])
			}
		case "*", "/", "%":
			m, ok := b.constant()
			if !ok || m == 0 || m&(m-1) != 0 {
				return unknownBits()
			}
			if _, unsigned := intBits(t.T); !unsigned && t.Aux != "*" {
				if s := a[63]; !s.isConst() || s.one {
					return unknownBits()
				}
			}
			n := bits.TrailingZeros64(m)
			for i := range r {
				switch {
				case t.Aux == "*" && i >= n:
					r[i] = a[i-n]
				case t.Aux == "/" && i+n < 64:
					r[i] = a[i+n]
				case t.Aux == "%" && i < n:
					r[i] = a[i]
				}
			}
		case "<<", ">>":
			s, ok := b.constant()
			if !ok {
				return unknownBits()
			}
			for i := range r {
				switch j := uint64(i); {
				case t.Aux == "<<" && j >= s:
					r[i] = a[j-s]
				case t.Aux == ">>" && j+s < 64:
					r[i] = a[j+s]
				case t.Aux == ">>":
					r[i] = a[63]
				}
			}
		default:
			return unknownBits()
		}
		return r.width(t.T)
	}
	if m, of := goModeBits(t); m != 0 {
		r, mask := bitsOf(of, k), constBits(m)
		for i := range r {
			r[i] = andBit(r[i], mask[i])
		}
		return r
	}
	w, unsigned := intBits(t.T)
	if w == 0 || w < 64 && !unsigned {
		return unknownBits()
	}
	var r bitvec
	for i := 0; i < w; i++ {
		r[i] = bit{of: t, n: i}
	}
	for _, x := range k {
		if x.of == t {
			for i := 0; i < w; i++ {
				if x.mask>>i&1 == 1 {
					r[i] = bit{one: x.val>>i&1 == 1}
				}
			}
		}
	}
	return r
}

// goModeBits: the bits of a mode that are kept by the methods of fs.FileMode.
func goModeBits(t *Term) (uint64, *Term) {
	switch n, a := calleeOf(t); n {
	case "(io/fs.FileMode).Perm":
		return uint64(fs.ModePerm), a[0]
	case "(io/fs.FileMode).Type":
		return uint64(fs.ModeType), a[0]
	}
	return 0, nil
}

// truth: whether the condition t holds.
func truth(t *Term, k []known) tri {
	switch {
	case t.isCall("(io/fs.FileMode).IsDir"):
		b := bitsOf(t.Args[0], k)[bits.TrailingZeros64(uint64(fs.ModeDir))]
		switch {
		case !b.isConst():
			return unknown
		case b.one:
			return yes
		}
		return no
	case t.isCall("(io/fs.FileMode).IsRegular"):
		r := yes
		for i, b := range bitsOf(t.Args[0], k) {
			if uint64(fs.ModeType)>>i&1 == 0 || b.isConst() && !b.one {
				continue
			}
			if b.isConst() {
				return no
			}
			r = unknown
		}
		return r
	case t == tTrue:
		return yes
	case t == tFalse:
		return no
	case t.Op == "not":
		return truth(t.Args[0], k).not()
	case t.Op == "bin" && t.Aux == "==":
		if p := t.Args[0]; p.T != nil && basicOf(p.T) != nil && basicOf(p.T).Info()&types.IsBoolean != 0 {
			return unknown
		}
		a, b := bitsOf(t.Args[0], k), bitsOf(t.Args[1], k)
		r := yes
		for i := range a {
			switch {
			case a[i].isConst() && b[i].isConst():
				if a[i] != b[i] {
					return no
				}
			case a[i].bad || a[i] != b[i]:
				r = unknown
			}
		}
		return r
	case t.Op == "bin" && t.Aux == "<":
		a, ok1 := bitsOf(t.Args[0], k).constant()
		b, ok2 := bitsOf(t.Args[1], k).constant()
		if ok1 && ok2 {
			if a < b {
				return yes
			}
			return no
		}
	}
	return unknown
}

// possible: whether the path can be taken if the bits are those.
func (x exit) possible(k []known) bool {
	for t, v := range x.st.facts {
		if r := truth(t, k); r != unknown && (r == yes) != v {
			return false
		}
	}
	return true
}

// bitCase: for an input of which some bits are known, the bits of the result.
type bitCase struct {
	what string
	in   []known
	want bitvec
	only uint64 // the bits that matter
}

func (c *Ctx) bitFunction(R string, fn *ssa.Function, name string, result func(x exit) *Term, cases func(p *Term, t types.Type) []bitCase) {
	if fn == nil {
		c.missing(R, name)
		return
	}
	p, pt := symParam(fn.Params[0]), fn.Params[0].Type()
	exits := c.run(R, fn, nil, func(e *Eng, st *State) { e.mergeAt = 3000 })
	for _, cs := range cases(p, pt) {
		n := 0
		for _, x := range exits {
			if x.kind != exitRet && x.kind != exitPanic || !x.possible(cs.in) {
				continue
			}
			if x.kind == exitPanic {
				c.failAt(R, x.pos, fn, name+" may panic for "+cs.what, x.st)
				continue
			}
			r := result(x)
			got := bitsOf(r, cs.in)
			bad := -1
			for i := range got {
				if cs.only>>i&1 == 1 && (got[i].bad || got[i] != cs.want[i]) {
					bad = i
					break
				}
			}
			if bad < 0 {
				n++
				continue
			}
			w := "the bit that stands for it"
			if cs.want[bad].isConst() {
				w = "0"
				if cs.want[bad].one {
					w = "1"
				}
			}
			c.failAt(R, x.pos, fn, fmt.Sprintf("%s: for %s, bit %#o of the result must be %s (the result is %s)", name, cs.what, uint64(1)<<bad, w, r), x.st)
		}
		if n > 0 {
			c.okAt(R, name+": "+cs.what)
		}
	}
}

// fieldBits: the bits lo.. of a result are the bits of the field f.
func sameBits(v *bitvec, of *Term, from, lo, n int) {
	for i := 0; i < n; i++ {
		v[lo+i] = bit{of: of, n: from + i}
	}
}

var modeSpecials = []struct {
	py  uint64
	go_ fs.FileMode
	s   string
}{{0o4000, fs.ModeSetuid, "set user ID"}, {0o2000, fs.ModeSetgid, "set group ID"}, {0o1000, fs.ModeSticky, "sticky"}}

var modeTypes = []struct {
	py  uint64
	go_ fs.FileMode
	s   string
}{
	{0o010000, fs.ModeNamedPipe, "a named pipe"},
	{0o020000, fs.ModeDevice | fs.ModeCharDevice, "a character device"},
	{0o040000, fs.ModeDir, "a directory"},
	{0o060000, fs.ModeDevice, "a block device"},
	{0o100000, 0, "a regular file"},
	{0o120000, fs.ModeSymlink, "a symbolic link"},
	{0o140000, fs.ModeSocket, "a socket"},
}

func ruleC41(c *Ctx) {
	c.rule("C41.togo", "the mode of a file becomes the same mode of Go, bit by bit", 16*8)
	c.rule("C41.fromgo", "a mode of Go becomes the same mode of a file, bit by bit", 7*8)
	c.rule("C41.type", "a mode is that of a directory (a regular file) exactly if its type is that", 2*16)
	c.rule("C41.raw", "the attributes of a member of a ZIP file are put into, and taken from, their places in the 32 bits", 2)
	const dir = "pkg/python"
	ret := func(x exit) *Term {
		if len(x.res) != 1 {
			return nil
		}
		return x.res[0]
	}
	all := ^uint64(0)
	specials := func(s int) (py uint64, g fs.FileMode, what string) {
		for i, m := range modeSpecials {
			if s>>i&1 == 1 {
				py, g, what = py|m.py, g|m.go_, what+", "+m.s
			}
		}
		return
	}
	c.bitFunction("C41.togo", c.P.fn(dir, "StatMode.ToGo"), "python.StatMode.ToGo", ret, func(p *Term, t types.Type) (r []bitCase) {
		for f := uint64(0); f < 16; f++ {
			g, what := fs.ModeIrregular, fmt.Sprintf("the type %#o", f<<12)
			for _, m := range modeTypes {
				if m.py == f<<12 {
					g, what = m.go_, m.s
				}
			}
			for s := 0; s < 8; s++ {
				py, gs, w := specials(s)
				want := constBits(uint64(g | gs))
				sameBits(&want, p, 0, 0, 9)
				r = append(r, bitCase{what + w, []known{{p, 0o177000, f<<12 | py}}, want, all})
			}
		}
		return
	})
	c.bitFunction("C41.fromgo", c.P.fn(dir, "ModeFromGo"), "python.ModeFromGo", ret, func(p *Term, t types.Type) (r []bitCase) {
		for _, m := range modeTypes {
			for s := 0; s < 8; s++ {
				py, gs, w := specials(s)
				want := constBits(m.py | py)
				sameBits(&want, p, 0, 0, 9)
				mask := uint64(fs.ModeType | fs.ModeSetuid | fs.ModeSetgid | fs.ModeSticky)
				r = append(r, bitCase{m.s + w, []known{{p, mask, uint64(m.go_ | gs)}}, want, all})
			}
		}
		return
	})
	for name, is := range map[string]uint64{"IsDir": 0o040000, "IsRegular": 0o100000} {
		fn := c.P.fn(dir, "StatMode."+name)
		if fn == nil {
			c.missing("C41.type", "python.StatMode."+name)
			continue
		}
		p := symParam(fn.Params[0])
		exits := c.run("C41.type", fn, nil, func(e *Eng, st *State) { e.mergeAt = 3000 })
		for f := uint64(0); f < 16; f++ {
			k := []known{{p, 0o170000, f << 12}}
			for _, x := range exits {
				if x.kind != exitRet || len(x.res) != 1 || !x.possible(k) {
					continue
				}
				if r := truth(x.res[0], k); r == unknown || (r == yes) != (f<<12 == is) {
					c.failAt("C41.type", x.pos, fn, fmt.Sprintf("python.StatMode.%s: wrong for the type %#o", name, f<<12), x.st)
				} else {
					c.okAt("C41.type", fmt.Sprint(name, f))
				}
			}
		}
	}
	c.bitFunction("C41.raw", c.P.fn(dir, "ZIPExternalAttributes.Raw"), "python.ZIPExternalAttributes.Raw", ret, func(p *Term, t types.Type) (r []bitCase) {
		if u := pointee(t); u != nil {
			p, t = newState().load(p, u), u
		}
		var want bitvec
		sameBits(&want, fieldDeepT(p, t, "UNIX"), 0, 16, 16)
		sameBits(&want, fieldDeepT(p, t, "Unused"), 0, 8, 8)
		sameBits(&want, fieldDeepT(p, t, "MSDOS"), 0, 0, 8)
		return []bitCase{{"any attributes", nil, want, all}}
	})
	for i, f := range []struct {
		name  string
		lo, n int
	}{{"UNIX", 16, 16}, {"Unused", 8, 8}, {"MSDOS", 0, 8}} {
		fn := c.P.fn(dir, "ParseZIPExternalAttributes")
		if fn == nil {
			c.missing("C41.raw", "python.ParseZIPExternalAttributes")
			break
		}
		_ = i
		t := fn.Signature.Results().At(0).Type()
		c.bitFunction("C41.raw", fn, "python.ParseZIPExternalAttributes, "+f.name, func(x exit) *Term {
			if len(x.res) != 1 {
				return nil
			}
			v, t := x.res[0], t
			if u := pointee(t); u != nil {
				v, t = x.st.load(v, u), u
			}
			return fieldDeepT(v, t, f.name)
		}, func(p *Term, t types.Type) []bitCase {
			var want bitvec
			sameBits(&want, p, f.lo, 0, f.n)
			return []bitCase{{"any number", nil, want, all}}
		})
	}
	c.bitFunction("C41.raw", c.P.fn(dir, "StatFileAttribute.ToDOS"), "python.StatFileAttribute.ToDOS", ret, func(p *Term, t types.Type) []bitCase {
		var want bitvec
		for _, i := range []int{0, 1, 2, 4, 5} {
			want[i] = bit{of: p, n: i}
		}
		return []bitCase{{"any attributes", nil, want, all}}
	})
}
