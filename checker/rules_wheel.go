package main

// Installing wheels.

import (
	"go/types"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const nFileInfo = "(*archive/tar.Header).FileInfo"

// inMem: v is a pointer to an in-memory file; returns its fields and its header.
func inMem(st *State, v *Term) (full, content, header *Term, ok bool) {
	p := unbox(v)
	if p == nil || p.T == nil || !isNamed(pointee(p.T), modPath+"/pkg/fsutil", "InMemFileReference") {
		return nil, nil, nil, false
	}
	t := pointee(p.T)
	full, content = fieldOf(st, p, t, "MFullName"), fieldOf(st, p, t, "MContent")
	fi := unbox(fieldOf(st, p, t, "FileInfo"))
	if fi.isCall(nFileInfo) {
		header = fi.Args[0]
	}
	return full, content, header, true
}

// sameLen: size is the length of content.
func sameLen(e *Eng, st *State, size, content *Term) bool {
	size = stripConv(size)
	if size == stripConv(e.lenOf(st, content)) {
		return true
	}
	if content.siteName() == "(*bytes.Buffer).Bytes" || content.isCall("(*bytes.Buffer).Bytes") {
		if n := size.siteName(); n == "(*bytes.Buffer).Len" {
			a, _ := size.siteOf()
			b, _ := content.siteOf()
			return a != nil && b != nil && firstArg(a) == firstArg(b)
		}
	}
	return false
}

// genFiles checks every in-memory file put into a tree of files: see C36.
func genFiles(c *Ctx, rule string, clampOnly bool) {
	clampRule := rule
	check := func(e *Eng, st *State, in ssa.Instruction, m, k, v, clamp *Term) {
		full, content, h, ok := inMem(st, v)
		if !ok {
			return
		}
		if h == nil {
			c.fail(e, st, rule, in, "the attributes of a generated file do not come from a tar header")
			return
		}
		if mt := hdr(st, h, "ModTime"); mt != clamp {
			c.fail(e, st, clampRule, in, "a generated file carries the time %v instead of the clamp time", mt)
		} else {
			c.ok(e, clampRule, in, "time")
		}
		for _, f := range []string{"AccessTime", "ChangeTime"} {
			if t := hdr(st, h, f); t != nil && t.Op != "zero" && t != clamp {
				c.fail(e, st, clampRule, in, "a generated file carries a %s that is not the clamp time", f)
			}
		}
		if clampOnly {
			return
		}
		name := hdr(st, h, "Name")
		if full != k {
			c.fail(e, st, rule, in, "a generated file is stored under %v but names itself %v", k, full)
		}
		if name != full && strings.TrimSuffix(name.String(), "/") != full.String() {
			c.fail(e, st, rule, in, "a generated file is named %v in its header but %v otherwise", name, full)
		}
		tf, _ := hdr(st, h, "Typeflag").intv()
		mode, _ := hdr(st, h, "Mode").intv()
		size := hdr(st, h, "Size")
		switch tf {
		case '5':
			if mode != 0o755 || !content.isNil() && content.Op != "zero" || stripConv(size) != tZero && size.Op != "zero" {
				c.fail(e, st, rule, in, "a generated directory has mode %#o, size %v and content %v", mode, size, content)
				return
			}
			c.ok(e, rule, in, "directory")
		case '0':
			if !sameLen(e, st, size, content) {
				c.fail(e, st, rule, in, "the size of a generated file is %v but its content is %v", size, content)
				return
			}
			want := int64(0o644)
			base := ""
			if k.isCall("path.Join") {
				base, _ = k.Args[len(k.Args)-1].str()
			}
			if base == "" { // a script: the name comes from the wheel
				want = 0o755
			}
			if mode != want {
				c.fail(e, st, rule, in, "a generated file has mode %#o instead of %#o", mode, want)
				return
			}
			c.ok(e, rule, in, "file")
		default:
			c.fail(e, st, rule, in, "a generated file is neither a regular file nor a directory (type %d)", tf)
		}
	}
	names := map[string]bool{}
	for _, f := range c.P.hookFactories() {
		c.runHook(rule, f, func(e *Eng, st *State, a hookArgs) {
			e.opaqueFn = nil
			if pkgDir(f) == "pkg/python/pypa/entry_points" {
				e.opaqueFn = exportedElsewhere(f)
			}
			e.hooks.MapUpdate = func(e *Eng, st *State, fr *frame, m, k, v *Term, in ssa.Instruction) {
				if m != a.vfs {
					return
				}
				check(e, st, in, m, k, v, a.clamp)
				if !clampOnly {
					genContent(c, e, st, rule, in, f, k, v, a)
				}
				if k.isCall("path.Join") && len(k.Args) == 2 && k.Args[0] == a.dir {
					if s, ok := k.Args[1].str(); ok {
						names[s] = true
					}
				}
			}
		})
	}
	if fn := c.P.fn("pkg/python/pypa/bdist", "InstallWheel"); fn != nil {
		c.run(rule, fn, nil, func(e *Eng, st *State) {
			var clamp *Term
			for _, p := range fn.Params {
				if isTime(p.Type()) {
					clamp = symParam(p)
				}
			}
			e.hooks.MapUpdate = func(e *Eng, st *State, fr *frame, m, k, v *Term, in ssa.Instruction) {
				cl := clamp
				if st.decide(mkCall("(time.Time).IsZero", types.Typ[types.Bool], clamp)) != no {
					if cl = st.Mark("clamp"); cl == nil {
						return
					}
				}
				check(e, st, in, m, k, v, cl)
			}
			e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
				if ev.Name == "dyncall" {
					for _, a := range ev.Args {
						if a != nil && isTime(a.T) {
							st.SetMark("clamp", a)
						}
					}
				}
			}
		})
	} else {
		c.missing(rule, "bdist.InstallWheel")
	}
	if !clampOnly {
		for _, n := range []string{"INSTALLER", "RECORD", "REQUESTED", "direct_url.json"} {
			if names[n] {
				c.okAt(rule, "dist-info file "+n)
			} else {
				c.addViol(&Violation{Rule: rule, Where: "?", Msg: "no hook stores " + n + " in the dist-info directory under that name"})
			}
		}
	}
	_ = path.Join
}

func ruleC36(c *Ctx) {
	c.rule("C36.gen", "every in-memory file stored by a post-install hook or by InstallWheel is stored under its own name, with type and mode as specified, a size equal to the length of its content and the clamp time as its time", 9)
	genFiles(c, "C36.gen", false)
}

func init() {
	propRules["C36"] = ruleC36
}

// genContent: INSTALLER holds the name of the installer and a newline, REQUESTED the marker and a newline, or nothing.
func genContent(c *Ctx, e *Eng, st *State, rule string, in ssa.Instruction, f *ssa.Function, k, v *Term, a hookArgs) {
	if !k.isCall("path.Join") || len(k.Args) != 2 || k.Args[0] != a.dir {
		return
	}
	name, _ := k.Args[1].str()
	if name != "INSTALLER" && name != "REQUESTED" {
		return
	}
	var last *Term
	for _, p := range f.Params {
		if isStringType(p.Type()) {
			last = symParam(p)
		}
	}
	_, content, _, _ := inMem(st, v)
	if last == nil || content == nil {
		return
	}
	text := content
	if text.Op == "conv" {
		text = text.Args[0]
	}
	want := mkConcat(types.Typ[types.String], last, mkStr("\n"))
	empty := st.decide(mkEq(last, tEmpty))
	switch {
	case name == "REQUESTED" && empty == yes:
		if n, ok := stripConv(e.lenOf(st, content)).intv(); !ok || n != 0 {
			c.fail(e, st, rule, in, "REQUESTED is not empty although there is no marker: %v", content)
			return
		}
	case name == "REQUESTED" && empty == unknown, text != want:
		c.fail(e, st, rule, in, "the content of %s is %v", name, content)
		return
	}
	c.ok(e, rule, in, name+" content")
}

// reach visits t, everything it is built from, and everything that flows into the loop-carried values in it.
func (e *Eng) reach(t *Term, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		for in := range e.inflow[t] {
			if rec(in) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// fromMap: t is an element of map m (range value or lookup).
func fromMap(t, m *Term) bool {
	t = unbox(t)
	return t != nil && (t.Op == "rangeval" || t.Op == "lookup") && len(t.Args) > 0 && t.Args[0] == m
}

func boolCall(name string, args ...*Term) *Term { return mkCall(name, types.Typ[types.Bool], args...) }

func ruleC17(c *Ctx) {
	const R = "C17.row"
	c.rule(R, "in the loop over the installed files every iteration ends in one RECORD row for that file (name relative to the parent of the dist-info directory; recorded or computed hash and size; no hash for .pyc), or skips a directory, or in an error", 4)
	c.rule("C17.self", "RECORD has a row for itself, without hash and size, and the rows are sorted and written in full before the file is stored", 1)
	c.rule("C17.last", "nothing is added to the tree after the rows were collected except RECORD itself, and every successful return has stored RECORD", 1)
	c.rule("C17.order", "where wheels are installed, the hook that writes RECORD runs after every other hook", 1)
	f := c.P.fn("pkg/python/pypa/recording_installs", "Record")
	if f == nil {
		c.missing(R, "recording_installs.Record")
		return
	}
	isFI := func(n, m string) bool {
		return strings.HasSuffix(n, ".FileInfo)."+m) || strings.HasSuffix(n, ".FileReference)."+m) || strings.HasSuffix(n, ".Recordable)."+m)
	}
	var hashNameP *Term
	for _, p := range f.Params {
		if isStringType(p.Type()) {
			hashNameP = symParam(p)
			break
		}
	}
	exits := c.runHook(R, f, func(e *Eng, st *State, a hookArgs) {
		e.hooks.MapUpdate = func(e *Eng, st *State, fr *frame, m, k, v *Term, in ssa.Instruction) {
			if m != a.vfs {
				return
			}
			isRec := k.isCall("path.Join") && len(k.Args) == 2 && k.Args[0] == a.dir && k.Args[1] == mkStr("RECORD")
			if st.Marked("listed") && !isRec {
				c.fail(e, st, "C17.last", in, "a file is added to the tree after the rows of RECORD were collected")
			}
			if isRec {
				if !st.Marked("written") {
					c.fail(e, st, "C17.self", in, "RECORD is stored before its rows were written")
				}
				_, content, _, ok := inMem(st, v)
				if b := st.Mark("buf"); ok && b != nil && content.siteName() == "(*bytes.Buffer).Bytes" {
					if s, _ := content.siteOf(); s != nil && firstArg(s) != b {
						c.fail(e, st, "C17.self", in, "RECORD does not hold the rows written")
					}
				}
				st.SetMark("stored", tTrue)
			}
		}
		rowOf := func(e *Eng, st *State, fr *frame, in ssa.Instruction, row []*Term) {
			// which file is it about?
			var file *Term
			row[0].any(func(x *Term) bool {
				if fromMap(x, a.vfs) {
					file = x
					return true
				}
				return false
			})
			if file == nil {
				return
			}
			markIn(st, fr, "it.row", file)
			st.SetMark("listed", tTrue)
			full := mkCall("("+modPath+"/pkg/fsutil.FileReference).FullName", types.Typ[types.String], file)
			sl := func(t *Term) *Term { return mkConcat(types.Typ[types.String], mkStr("/"), t) }
			base := mkCall("path.Dir", types.Typ[types.String], a.dir)
			rel := func(t *Term) *Term {
				return mkExt(mkCall("path/filepath.Rel", nil, sl(base), sl(t)), 0, types.Typ[types.String])
			}
			okName := row[0] == rel(full)
			if !okName && file.Op == "rangeval" && len(file.Args) > 1 {
				okName = row[0] == rel(file.Args[1])
			}
			if !okName {
				if s, i := row[0].siteOf(); s != nil && i == 0 && row[0].siteName() == "path/filepath.Rel" && len(s.Args) == 2 && s.Args[0] == sl(base) && s.Args[1].contains(full) {
					okName = true
				}
			}
			if !okName {
				c.fail(e, st, R, in, "the name in RECORD is not the path relative to the directory of the dist-info directory: %v", row[0])
				return
			}
			recable := tri(unknown)
			for ft, v := range st.facts {
				if ft.Op == "bin" || !ft.contains(file) {
					continue
				}
				if strings.Contains(ft.Op+ft.Aux, "Recordable") {
					recable = triOf(v)
				}
			}
			h, sz := row[1], row[2]
			pyc := unknown
			for ft, v := range st.facts {
				if ft.isCall("strings.HasSuffix") && ft.Args[1] == mkStr(".pyc") && ft.Args[0].contains(file) {
					pyc = triOf(v)
				}
			}
			size := func(t *Term) *Term { return mkCall("strconv.FormatInt", types.Typ[types.String], t, mkInt(10)) }
			hs, hi := h.siteOf()
			switch {
			case hs != nil && strings.HasSuffix(h.siteName(), "Recordable).Record") && hi == 0:
				if s2, i2 := numOf(sz).siteOf(); s2 != hs || i2 != 1 {
					c.fail(e, st, R, in, "the size in RECORD is not the one recorded with the hash: %v", sz)
					return
				}
				if !hs.Args[0].contains(file) {
					c.fail(e, st, R, in, "the hash in RECORD is that of another file")
					return
				}
				c.ok(e, R, in, "recorded hash")
				return
			case h == tEmpty && sz == tEmpty:
				if pyc != yes {
					c.fail(e, st, R, in, "a file that is not a .pyc file gets a row without hash and size")
					return
				}
				c.ok(e, R, in, "pyc")
				return
			}
			if recable != no {
				c.fail(e, st, R, in, "the hash and size recorded before the file was rewritten are not used: %v", h)
				return
			}
			if pyc == yes {
				c.fail(e, st, R, in, "a .pyc file gets a hash")
				return
			}
			// computed: name=base64(sum)
			ok := false
			if h.Op == "concat" && len(h.Args) >= 2 {
				last := h.Args[len(h.Args)-1]
				pre := mkConcat(types.Typ[types.String], h.Args[:len(h.Args)-1]...)
				if last.siteName() == "(*encoding/base64.Encoding).EncodeToString" && strings.Contains(last.String(), "base64.RawURLEncoding") &&
					last.any(func(x *Term) bool { return x.siteName() == "(hash.Hash).Sum" }) {
					for _, want := range []*Term{hashNameP, mkStr("sha256")} {
						if pre == mkConcat(types.Typ[types.String], want, mkStr("=")) {
							if want == hashNameP && st.decide(mkEq(hashNameP, tEmpty)) != yes || want != hashNameP && st.decide(mkEq(hashNameP, tEmpty)) == yes {
								ok = true
							}
						}
					}
					if p, isc := pre.str(); isc && !ok && strings.HasSuffix(p, "=") && st.decide(mkEq(hashNameP, mkStr(strings.TrimSuffix(p, "=")))) == yes {
						ok = true
					}
					if ok {
						hasher := last
						last.any(func(x *Term) bool {
							if x.siteName() == "(hash.Hash).Sum" {
								hasher = x
								return true
							}
							return false
						})
						hh := firstArg(mustSite(hasher))
						cp := st.Mark("copy")
						if cp == nil || !cp.Args[1].contains(file) || unbox(cp.Args[0]) != unbox(hh) {
							c.fail(e, st, R, in, "the hash in RECORD is not computed over the content of the file it is about")
							return
						}
						if st.Marked("mixed") {
							c.fail(e, st, R, in, "the hash in RECORD also covers data of earlier files: the hasher is not reset")
							return
						}
						if errState(st, mkExt(cp, 1, nil)) != yes && errOf(st, cp) != yes {
							c.fail(e, st, R, in, "a row is made although reading the file may have failed")
							return
						}
					}
				}
			}
			if !ok {
				c.fail(e, st, R, in, "the hash in RECORD is not algorithm=digest: %v", h)
				return
			}
			n := numOf(sz)
			if sz != size(n) || !(isFI(n.siteName(), "Size") && n.contains(file) || n.siteName() == "io.Copy" && n.contains(file)) {
				c.fail(e, st, R, in, "the size in RECORD is not the size of the file: %v", sz)
				return
			}
			c.ok(e, R, in, "computed hash")
		}
		selfRow := func(e *Eng, st *State, t *Term) {
			if e.reach(t, func(x *Term) bool {
				if x.T == nil || x.T.String() != "[]string" && x.Op != "list" && x.Op != "slice" {
					return false
				}
				row, ok := e.elems(st, x)
				if !ok || len(row) != 3 || row[1] != tEmpty || row[2] != tEmpty {
					return false
				}
				return row[0].isCall("path.Join") && row[0].Args[len(row[0].Args)-1] == mkStr("RECORD") && row[0].any(func(y *Term) bool { return y.isCall("path.Base") && y.Args[0] == a.dir })
			}) {
				st.SetMark("self", tTrue)
			}
		}
		e.hooks.Store = func(e *Eng, st *State, fr *frame, addr, v *Term, in ssa.Instruction) {
			// a row literal under construction
			if addr.Op != "ia" || !isStringType(v.T) && v.Op != "const" {
				return
			}
			get := func(i int64) *Term {
				if addr.Args[1] == mkInt(i) {
					return v
				}
				return st.mem[tt.mk("ia", "", addr.Args[0], mkInt(i))]
			}
			n, h, z := get(0), get(1), get(2)
			if n != nil && h == tEmpty && z == tEmpty && n.isCall("path.Join") && n.Args[len(n.Args)-1] == mkStr("RECORD") && n.any(func(y *Term) bool { return y.isCall("path.Base") && y.Args[0] == a.dir }) {
				st.SetMark("self", tTrue)
			}
		}
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			switch {
			case ev.Name == "append":
				l := ev.Args[1]
				selfRow(e, st, ev.Args[0])
				selfRow(e, st, l)
				if l.Op != "list" {
					return
				}
				for _, r := range l.Args {
					if r.T == nil {
						continue
					}
					if row, ok := e.elems(st, r); ok && len(row) == 3 && isStringType(row[0].T) {
						if st.Marked("it.row") {
							c.fail(e, st, R, ev.Instr, "a second row is made for the same file")
						}
						rowOf(e, st, ev.Frame, ev.Instr, row)
					}
				}
			case ev.Name == "(hash.Hash).Reset":
				st.ClearMark("dirty")
				st.ClearMark("mixed")
			case strings.HasPrefix(ev.Name, "crypto/") && strings.Contains(ev.Name, ".New"), strings.HasPrefix(ev.Name, "golang.org/x/crypto") && strings.Contains(ev.Name, ".New"):
				st.ClearMark("dirty")
				st.ClearMark("mixed")
			case ev.Name == "dyncall" || ev.Fn != nil && inRepo(ev.Fn):
				for _, x := range ev.Args {
					if x == a.vfs && st.Marked("listed") && ev.Name == "dyncall" {
						c.fail(e, st, "C17.last", ev.Instr, "a hook runs after the rows of RECORD were collected")
					}
				}
			case strings.HasPrefix(ev.Name, "sort.") && len(ev.Args) > 0:
				x := unbox(ev.Args[0])
				if x.T != nil && x.T.String() == "[][]string" {
					if ev.Name == "sort.Slice" || ev.Name == "sort.SliceStable" {
						i, j := tt.mkT("sym", "sort:i", types.Typ[types.Int]), tt.mkT("sym", "sort:j", types.Typ[types.Int])
						for _, r := range e.apply(st, ev.Args[1], i, j) {
							a, b := false, false
							r.any(func(t *Term) bool {
								if t.Op == "bin" && t.Aux == "<" && len(t.Args) == 2 {
									a = a || t.Args[0].Op == "idx" && t.Args[0].Args[1] == tZero && t.Args[0].contains(i)
									b = b || t.Args[1].Op == "idx" && t.Args[1].Args[1] == tZero && t.Args[1].contains(j)
								}
								return false
							})
							if r.Op == "const" || r.Op == "bin" && !(a && b) {
								c.fail(e, st, "C17.self", ev.Instr, "the rows of RECORD are not sorted by name: %v", r)
							}
						}
					}
					selfRow(e, st, x)
					st.SetMark("sorted", tTrue)
				}
			case ev.Name == "(*encoding/csv.Writer).WriteAll" || ev.Name == "(*encoding/csv.Writer).Write":
				if !st.Marked("sorted") {
					c.fail(e, st, "C17.self", ev.Instr, "the rows of RECORD are written without being sorted first")
				}
				selfRow(e, st, ev.Args[1])
				if !st.Marked("self") {
					c.fail(e, st, "C17.self", ev.Instr, "RECORD has no row for itself")
				} else {
					c.ok(e, "C17.self", ev.Instr, "own row")
				}
				st.SetMark("written", tTrue)
				if w := ev.Args[0]; w.isCall("encoding/csv.NewWriter") {
					st.SetMark("buf", unbox(w.Args[0]))
					if crlf := fieldOf(st, w, pointee(w.T), "UseCRLF"); crlf != tTrue {
						c.fail(e, st, "C17.self", ev.Instr, "RECORD is written with the wrong line endings")
					}
				}
			}
		}
		e.hooks.Post = func(e *Eng, st *State, ev *CallEvent) {
			if ev.Name == "io.Copy" {
				dst := unbox(ev.Args[0])
				if dst.T != nil && isNamed(dst.T, "hash", "Hash") {
					if st.Marked("dirty") {
						st.SetMark("mixed", tTrue)
					}
					st.SetMark("dirty", tTrue)
					st.SetMark("copy", ev.Res)
				}
			}
		}
		e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
			row := inLoop(st, fr, "it.row")
			if row {
				clearIn(st, "it.row")
				c.iterOK(e, R, fr, header)
				return
			}
			for ft, v := range st.facts {
				if v && ft.Op == "call" && isFI(ft.Aux, "IsDir") {
					return
				}
			}
			c.iterBad(e, st, R, fr, header, "an installed file that is not a directory may be left out of RECORD")
		}
	})
	for _, x := range exits {
		if x.kind != exitRet || errState(x.st, lastRes(x)) == no {
			continue
		}
		if !x.st.Marked("stored") {
			c.failAt("C17.last", x.pos, f, "the hook may succeed without storing RECORD", x.st)
			continue
		}
		c.okAt("C17.last", "success exit "+c.P.pos(x.pos))
		c.swallowedAt("C17.last", f, x)
	}
	ruleHookOrder(c, "C17.order")
}

// numOf: the number that was formatted.
func numOf(t *Term) *Term {
	if t.isCall("strconv.FormatInt") || t.isCall("strconv.Itoa") {
		return stripConv(t.Args[0])
	}
	return t
}

// errOf: is the error result of the call behind t known to be nil?
func errOf(st *State, t *Term) tri {
	s := mustSite(t)
	for f, v := range st.facts {
		if f.Op == "bin" && f.Aux == "==" && f.Args[1].isNil() && isErrorType(f.Args[0].T) {
			if x, _ := f.Args[0].siteOf(); x == s {
				return triOf(v)
			}
		}
	}
	return unknown
}

// swallowedAt: no call is known to have failed on a success exit.
func (c *Ctx) swallowedAt(rule string, fn *ssa.Function, x exit) {
	for f, v := range x.st.facts {
		if v || f.Op != "bin" || f.Aux != "==" || !f.Args[1].isNil() {
			continue
		}
		t := f.Args[0]
		if t.T == nil || !isErrorType(t.T) || t.siteName() == "" {
			continue
		}
		c.failAt(rule, x.pos, fn, "success is reported although "+shortName(t.siteName())+" failed", x.st)
		return
	}
}

// ruleHookOrder: in every list of hooks that is composed, the RECORD hook is the last one.
func ruleHookOrder(c *Ctx, rule string) {
	rec := modPath + "/pkg/python/pypa/recording_installs.Record"
	for _, fn := range c.P.cmdFns() {
		c.run(rule, fn, nil, func(e *Eng, st *State) {
			e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
				if !strings.HasSuffix(ev.Name, "/bdist.PostInstallHooks") {
					return
				}
				l := ev.Args[len(ev.Args)-1]
				hooks, ok := e.elems(st, l)
				if !ok {
					if l.Op == "list" {
						hooks = l.Args
					} else {
						c.fail(e, st, rule, ev.Instr, "the list of hooks cannot be determined: %v", l)
						return
					}
				}
				for i, h := range hooks {
					if h.siteName() == rec && i != len(hooks)-1 {
						c.fail(e, st, rule, ev.Instr, "hooks run after the one that writes RECORD: what they add is not recorded")
						return
					}
				}
				if len(hooks) == 0 || hooks[len(hooks)-1].siteName() != rec {
					c.fail(e, st, rule, ev.Instr, "the last hook is not the one that writes RECORD")
					return
				}
				c.ok(e, rule, ev.Instr, "")
			}
		})
	}
}

// cmdFns: the functions that run a command.
func (p *Program) cmdFns() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.fns {
		if pkgDir(f) != "" || f.Signature.Recv() != nil || f.Signature.Params().Len() != 2 || !hasErrResult(f) {
			continue
		}
		if isNamed(f.Signature.Params().At(0).Type(), "github.com/spf13/cobra", "Command") && f.Signature.Params().At(1).Type().String() == "[]string" {
			out = append(out, f)
		}
	}
	return out
}

func init() { propRules["C17"] = ruleC17 }

// before / after: t is the part of a string before (after) the first sep; returns that string.
func splitPart(st *State, t *Term, sep string, part int64) *Term {
	if t == nil {
		return nil
	}
	if t.Op == "idx" && t.Args[1] == mkInt(part) {
		x := t.Args[0]
		if x.isCall("strings.Split") && x.Args[1] == mkStr(sep) {
			if part == 0 {
				return x.Args[0]
			}
			if st.decide(mkEq(mkCall("len", types.Typ[types.Int], x), mkInt(2))) == yes || lenIs(st, x, 2) {
				return x.Args[0]
			}
		}
		if x.isCall("strings.SplitN") && x.Args[1] == mkStr(sep) && x.Args[2] == mkInt(2) {
			return x.Args[0]
		}
	}
	if s, i := t.siteOf(); s != nil && s.isCall("strings.Cut") && int64(i) == part && s.Args[1] == mkStr(sep) {
		return s.Args[0]
	}
	if t.Op == "ext" && t.Args[0].isCall("strings.Cut") && t.Aux == itoa(int(part)) && t.Args[0].Args[1] == mkStr(sep) {
		return t.Args[0].Args[0]
	}
	return nil
}

func lenIs(st *State, x *Term, n int64) bool {
	for f, v := range st.facts {
		if v && f.Op == "bin" && f.Aux == "==" && f.Args[1] == mkInt(n) && f.Args[0].Aux == "len" && len(f.Args[0].Args) == 1 && f.Args[0].Args[0] == x {
			return true
		}
	}
	for l, c := range st.eq {
		if c == mkInt(n) && l.Aux == "len" && len(l.Args) == 1 && l.Args[0] == x {
			return true
		}
	}
	return false
}

// tmplText: the constant text of a parsed template.
func tmplText(t *Term) (string, bool) {
	var txt string
	ok := false
	t.any(func(x *Term) bool {
		if strings.HasSuffix(x.siteName(), "template.Template).Parse") {
			if s := mustSite(x); len(s.Args) == 2 {
				txt, ok = s.Args[1].str()
			}
			return true
		}
		return false
	})
	return txt, ok
}

// tmplData: the named values handed to a template.
func tmplData(st *State, d *Term) map[string]*Term {
	d = unbox(d)
	out := map[string]*Term{}
	if d.T == nil {
		return nil
	}
	switch t := d.T.Underlying().(type) {
	case *types.Map:
		for k, v := range st.mem {
			if k.Op == "me" && k.Args[0] == d {
				if s, ok := k.Args[1].str(); ok {
					out[s] = v
				}
			}
		}
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			out[t.Field(i).Name()] = valField(d, t.Field(i).Name())
		}
	case *types.Pointer:
		if s, ok := t.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				out[s.Field(i).Name()] = fieldOf(st, d, t.Elem(), s.Field(i).Name())
			}
		}
	}
	return out
}

const scriptText = `#!{{S}}
# -*- coding: utf-8 -*-
import re
import sys
from {{M}} import {{I}}
if __name__ == '__main__':
    sys.argv[0] = re.sub(r'(-script\.pyw|\.exe)?$', '', sys.argv[0])
    sys.exit({{F}}())
`

func ruleC19(c *Ctx) {
	const R = "C19.script"
	c.rule(R, "the script made for an entry starts with the interpreter of its section, imports the first attribute from the module and calls the whole reference; it is stored as an executable under the entry's name in the scripts directory", 2)
	c.rule("C19.each", "every entry of both sections ends in a stored script or in an error", 2)
	c.rule("C19.ref", "the reference comes from an anchored match that admits only dotted names and colons", 1)
	f := c.P.fn("pkg/python/pypa/entry_points", "CreateScripts")
	if f == nil {
		c.missing(R, "entry_points.CreateScripts")
		return
	}
	sections := map[string]string{"console_scripts": "ConsoleShebang", "gui_scripts": "GraphicalShebang"}
	seen := map[string]bool{}
	isEntry := func(t *Term, op string) (string, *Term) { // element of section <name>
		if t.Op != op || len(t.Args) == 0 {
			return "", nil
		}
		m := t.Args[0]
		if m.Op == "ext" {
			m = m.Args[0]
		}
		if m.Op != "lookup" || len(m.Args) < 2 {
			return "", nil
		}
		s, _ := m.Args[1].str()
		return s, t
	}
	find := func(t *Term, op string) (string, *Term) {
		var sec string
		var el *Term
		t.any(func(x *Term) bool {
			if s, y := isEntry(x, op); y != nil && sections[s] != "" {
				sec, el = s, y
				return true
			}
			return false
		})
		return sec, el
	}
	exits := c.runHook(R, f, func(e *Eng, st *State, a hookArgs) {
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			if !strings.HasSuffix(ev.Name, "template.Template).Execute") {
				return
			}
			txt, ok := tmplText(ev.Args[0])
			if !ok {
				c.fail(e, st, R, ev.Instr, "the text of the script template is not a constant")
				return
			}
			data := tmplData(st, ev.Args[2])
			vals := map[string]string{}
			byMark := map[string]*Term{}
			for k, v := range data {
				vals[k] = "\x01" + k + "\x02"
				byMark[vals[k]] = v
			}
			got, err := renderTemplate(txt, vals)
			if err != nil {
				c.fail(e, st, R, ev.Instr, "the script template does not fit its data: %v", err)
				return
			}
			bind := matchMarks(scriptText, got)
			if bind == nil {
				c.fail(e, st, R, ev.Instr, "the script differs from the one an entry point needs: %q", got)
				return
			}
			S, M, I, F := byMark[bind["S"]], byMark[bind["M"]], byMark[bind["I"]], byMark[bind["F"]]
			if S == nil || M == nil || I == nil || F == nil {
				c.fail(e, st, R, ev.Instr, "the script has values that cannot be resolved: %v", bind)
				return
			}
			callable := splitPart(st, M, ":", 0)
			fun := splitPart(st, F, ":", 1)
			sec, entry := find(F, "rangeval")
			switch {
			case callable == nil || fun == nil || callable != fun:
				c.fail(e, st, R, ev.Instr, "the script imports from %v and calls %v: these are not the parts before and after the colon of one reference", M, F)
				return
			case splitPart(st, I, ".", 0) != F:
				c.fail(e, st, R, ev.Instr, "the script imports %v, which is not the first part of what it calls", I)
				return
			case entry == nil:
				c.fail(e, st, R, ev.Instr, "the reference does not come from an entry of console_scripts or gui_scripts")
				return
			case !(S.Op == "fld" && S.Aux == sections[sec]):
				c.fail(e, st, R, ev.Instr, "a script of %s starts with %v", sec, S)
				return
			}
			// the reference
			ok = false
			if callable.Op == "idx" && callable.Args[0].isCall("(*regexp.Regexp).FindStringSubmatch") && callable.Args[0].Args[1] == entry {
				m := callable.Args[0]
				g := -1
				if n, isn := callable.Args[1].intv(); isn {
					g = int(n)
				} else if x := callable.Args[1]; x.isCall("(*regexp.Regexp).SubexpIndex") && x.Args[0] == m.Args[0] {
					if pat, isp := regexText(m.Args[0]); isp {
						if nm, isn := x.Args[1].str(); isn {
							g = subexpIndex(pat, nm)
						}
					}
				}
				if pat, isp := regexText(m.Args[0]); isp && g >= 0 {
					if why := anchoredGroup(pat, g, ":._"); why != "" {
						c.fail(e, st, "C19.ref", ev.Instr, "the pattern for references %q %s", pat, why)
						return
					}
					ok = true
				}
				if st.decide(mkEq(m, tNil)) != no {
					c.fail(e, st, "C19.ref", ev.Instr, "a reference is used although it may not have matched")
					return
				}
			}
			if !ok {
				c.fail(e, st, "C19.ref", ev.Instr, "the reference is not the result of matching the entry's value: %v", callable)
				return
			}
			c.ok(e, "C19.ref", ev.Instr, sec)
			seen[sec] = true
			st.SetMark("buf", unbox(ev.Args[1]))
			st.SetMark("entry", entry)
			c.ok(e, R, ev.Instr, sec)
		}
		e.hooks.Lookup = func(e *Eng, st *State, fr *frame, m, k *Term, in ssa.Instruction) {
			if s, ok := k.str(); ok && sections[s] != "" {
				st.SetMark("sec:"+s, tTrue)
			}
		}
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			for s := range sections {
				switch {
				case cond.Op == "lookupok" && !val && cond.Args[1] == mkStr(s):
					st.SetMark("absent:"+s, tTrue)
				case cond.Op == "bin" && cond.Aux == "==" && val && (cond.Args[1].isNil() || cond.Args[1] == tZero) &&
					cond.Args[0].any(func(t *Term) bool { return t.Op == "lookup" && t.Args[1] == mkStr(s) }):
					st.SetMark("absent:"+s, tTrue)
				}
			}
		}
		e.hooks.Range = func(e *Eng, st *State, fr *frame, x *Term, in ssa.Instruction) {
			for s := range sections {
				if x.any(func(t *Term) bool { return t.Op == "lookup" && t.Args[1] == mkStr(s) }) {
					st.SetMark("ranged:"+s, tTrue)
				}
			}
		}
		e.hooks.Post = func(e *Eng, st *State, ev *CallEvent) {
			if strings.HasSuffix(ev.Name, "python.ConfigParser).Parse") {
				st.SetMark("parsed", tTrue)
			}
		}
		e.hooks.MapUpdate = func(e *Eng, st *State, fr *frame, m, k, v *Term, in ssa.Instruction) {
			if m != a.vfs {
				return
			}
			_, content, _, ok := inMem(st, v)
			if !ok {
				c.fail(e, st, R, in, "something other than a generated script is stored")
				return
			}
			s, _ := content.siteOf()
			if content.siteName() != "(*bytes.Buffer).Bytes" || firstArg(s) != st.Mark("buf") {
				c.fail(e, st, R, in, "the file stored is not the script made for this entry")
				return
			}
			entry := st.Mark("entry")
			sec, key := find(k, "rangekey")
			if entry == nil || key == nil || len(entry.Args) < 2 || entry.Args[1] != key || !k.isCall("path.Join") || k.Args[len(k.Args)-1] != key {
				c.fail(e, st, R, in, "the script is not stored under the name of its entry: %v", k)
				return
			}
			d := mkCall("path.Join", types.Typ[types.String], k.Args[:len(k.Args)-1]...)
			if len(k.Args) == 2 {
				d = k.Args[0]
			}
			if !d.any(func(x *Term) bool { return x.Op == "fld" && x.Aux == "Scripts" }) {
				c.fail(e, st, R, in, "the script is not stored in the scripts directory: %v", k)
				return
			}
			markIn(st, fr, "it.done", tTrue)
			c.ok(e, R, in, "stored "+sec)
		}
		e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
			if inLoop(st, fr, "it.done") {
				clearIn(st, "it.done", "buf", "entry")
				c.iterOK(e, "C19.each", fr, header)
				return
			}
			c.iterBad(e, st, "C19.each", fr, header, "an entry may be passed over without a script and without an error")
		}
	})
	for s := range sections {
		if seen[s] {
			c.okAt("C19.each", "section "+s)
		} else {
			c.addViol(&Violation{Rule: "C19.each", Where: c.P.pos(f.Pos()), Fn: "entry_points.CreateScripts", Msg: "no scripts are made for " + s})
		}
	}
	for _, x := range exits {
		if x.kind != exitRet || errState(x.st, lastRes(x)) == no {
			continue
		}
		if x.st.Marked("parsed") {
			for s := range sections {
				if x.st.Marked("sec:"+s) && !x.st.Marked("ranged:"+s) && !x.st.Marked("absent:"+s) {
					c.failAt("C19.each", x.pos, f, "the hook may succeed without going over the entries of "+s, x.st)
				}
				if !x.st.Marked("sec:" + s) {
					c.failAt("C19.each", x.pos, f, "the hook may succeed without looking at "+s, x.st)
				}
			}
		}
		c.swallowedAt("C19.each", f, x)
	}
}

func init() { propRules["C19"] = ruleC19 }
