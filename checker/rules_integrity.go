package main

// Wheel integrity: every file of the wheel is checked against RECORD before any of it is used.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var strongHash = map[string]string{"sha256": "crypto/sha256.New", "sha384": "crypto/sha512.New384", "sha512": "crypto/sha512.New"}

// zipName: t is (after cleaning) the name of an entry of the zip; returns the entry.
func zipName(t *Term) *Term {
	for t.isCall("path.Clean") {
		t = t.Args[0]
	}
	if t.Op == "fld" && t.Aux == "Name" {
		var el *Term
		t.any(func(x *Term) bool {
			if x.Op == "idx" && strings.HasSuffix(x.Args[0].String(), ".File") {
				el = x
				return true
			}
			return false
		})
		return el
	}
	return nil
}

func hasFact(st *State, val bool, pred func(f *Term) bool) bool {
	for f, v := range st.facts {
		if v == val && pred(f) {
			return true
		}
	}
	return false
}

func eqFact(st *State, pred func(a, b *Term) bool) bool {
	return hasFact(st, true, func(f *Term) bool {
		return f.Op == "bin" && f.Aux == "==" && (pred(f.Args[0], f.Args[1]) || pred(f.Args[1], f.Args[0]))
	})
}

func isJoinOf(t *Term, base string) bool {
	return t.isCall("path.Join") && len(t.Args) >= 2 && t.Args[len(t.Args)-1] == mkStr(base)
}

func isErrSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && isErrorType(s.Elem())
}

func ruleC12(c *Ctx) {
	c.rule("C12.files", "every entry of the zip that is not a directory by name (and not RECORD.jws or RECORD.p7s of the dist-info directory) is put on the list of files to be checked, under its cleaned name, once; a second entry with the same name is an error", 2)
	c.rule("C12.rows", "a RECORD row takes its file off the list only in an iteration that either reports an error or has compared digest (sha256, sha384 or sha512 of the whole file, as the row says) and size with the row; only RECORD's own row may lack them", 1)
	c.rule("C12.gate", "nothing is compiled, hooked or packed unless the list is empty and no error was reported", 1)
	fn := c.P.fn("pkg/python/pypa/bdist", "InstallWheel")
	if fn == nil {
		c.missing("C12.gate", "bdist.InstallWheel")
		return
	}
	var todo *Term
	done := func(st *State) bool {
		return (st.Marked("todoEmpty") || !st.Marked("listed")) && (!st.Marked("errs") || st.Marked("noErrs"))
	}
	pass := func(final bool) {
		c.run("C12.gate", fn, nil, func(e *Eng, st *State) {
			e.mergeAt = 3000
			e.hooks.MapUpdate = func(e *Eng, st *State, fr *frame, m, k, v *Term, in ssa.Instruction) {
				if zipName(k) == nil {
					return
				}
				if m == todo {
					markIn(st, fr, "f.todo", k)
					st.SetMark("listed", tTrue)
					st.ClearMark("todoEmpty")
				} else {
					st.SetMark("f.seen", m)
				}
			}
			e.hooks.MapDelete = func(e *Eng, st *State, fr *frame, m, k *Term, in ssa.Instruction) {
				if final && m == todo && !k.contains0("(*encoding/csv.Reader)") {
					c.fail(e, st, "C12.rows", in, "a file is taken off the list of files to be checked for a reason other than a row of RECORD")
				}
				if k.isCall("path.Clean") && k.Args[0].Op == "idx" && k.Args[0].Args[1] == tZero && k.contains0("ReadAll") || k.contains0("(*encoding/csv.Reader)") {
					if !final {
						todo = m
					}
					if m == todo {
						markIn(st, fr, "r.del", k)
					}
				}
			}
			e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
				switch {
				case ev.Name == "append" && (isErrSlice(ev.Args[0].T) || isErrSlice(ev.Args[1].T) || ev.Args[1].Op == "list" && len(ev.Args[1].Args) == 1 && isErrorType(ev.Args[1].Args[0].T)):
					markIn(st, ev.Frame, "r.err", tTrue)
					st.SetMark("errs", tTrue)
					st.ClearMark("noErrs")
				case ev.Name == "io.Copy":
					st.ClearMark("r.cpok")
					src := unbox(ev.Args[1])
					s, i := src.siteOf()
					if s == nil || i != 0 {
						return
					}
					if src.siteName() == "(*archive/zip.File).Open" {
						el := s.Args[0]
						if eqFact(st, func(a, b *Term) bool {
							return zipName(a) == el && b.isCall("path.Clean") && b.Args[0].Op == "idx"
						}) {
							st.SetMark("r.cpok", tTrue)
						}
					} else if src.siteName() == "(*archive/zip.Reader).Open" && len(s.Args) == 2 && s.Args[1].isCall("path.Clean") {
						st.SetMark("r.cpok", tTrue)
					}
				case ev.Name == "dyncall" || strings.HasSuffix(ev.Name, "/fsutil.LayerFromFileReferences"):
					if ev.Name == "dyncall" && (ev.Callee == nil || ev.Callee.T == nil || len(ev.Args) == 0) {
						return
					}
					if done(st) {
						c.ok(e, "C12.gate", ev.Instr, "")
					} else if final {
						c.fail(e, st, "C12.gate", ev.Instr, "the wheel is used although %s", triText(triOf(st.Marked("todoEmpty") || !st.Marked("listed")), "errors found in it may have been reported", "files may not have been checked against RECORD", ""))
					}
				}
			}
			e.hooks.Model = func(e *Eng, st *State, ev *CallEvent) ([]callOut, bool) {
				if ev.Frame != nil && ev.Frame.fn == fn && st.Marked("read") && done(st) {
					// nothing that follows can undo what was established
					c.ok(e, "C12.gate", ev.Instr, "")
					return nil, true
				}
				return nil, false
			}
			e.hooks.Post = func(e *Eng, st *State, ev *CallEvent) {
				if ev.Name == "io.Copy" && st.Marked("r.cpok") {
					st.SetMark("r.copy", ev.Res)
				} else if ev.Name == "io.Copy" {
					st.ClearMark("r.copy")
				}
				if ev.Name == "(*encoding/csv.Reader).ReadAll" {
					st.SetMark("read", tTrue)
				}
			}
			e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
				for cond.Op == "not" {
					cond, val = cond.Args[0], !val
				}
				if cond.Op == "bin" && cond.Aux == "==" && val {
					for _, ab := range [][2]*Term{{cond.Args[0], cond.Args[1]}, {cond.Args[1], cond.Args[0]}} {
						a, b := ab[0], ab[1]
						cp := st.Mark("r.copy")
						if a.Op != "idx" || cp == nil {
							continue
						}
						if a.Args[1] == mkInt(1) && c.digestOK(st, b, cp, a) {
							st.SetMark("r.hash", a.Args[0])
						}
						if a.Args[1] == mkInt(2) && b.isCall("strconv.FormatInt") && b.Args[1] == mkInt(10) && sameSite(b.Args[0], cp, 0) {
							st.SetMark("r.size", a.Args[0])
						}
					}
				}
				// len(x) == 0 became known
				var l *Term
				cond.any(func(x *Term) bool {
					if x.Op == "call" && x.Aux == "len" {
						l = x
						return true
					}
					return false
				})
				if l == nil {
					return
				}
				x := l.Args[0]
				b := st.bounds(l)
				zero := st.decide(mkEq(l, tZero)) == yes || b.hasHi && b.hi <= 0
				if !zero {
					return
				}
				if x == todo || x.contains(todo) && x.Op != "idx" {
					st.SetMark("todoEmpty", tTrue)
				}
				if isErrSlice(x.T) {
					grows := true
					for in := range e.inflow[x] {
						ok := in == x || in.isNil() || in.Op == "zero" || in.Op == "append" || in.Op == "list"
						if !ok && in.Op == "sym" && isErrSlice(in.T) {
							ok = true
						}
						if !ok {
							grows = false
						}
					}
					if grows {
						st.SetMark("noErrs", tTrue)
					}
				}
			}
			e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
				if !final {
					return
				}
				// the loop over the zip entries
				if inLoop(st, fr, "f.todo") {
					k := st.Mark("f.todo")
					if !k.isCall("path.Clean") {
						c.iterBad(e, st, "C12.files", fr, header, "a file is put on the list under a name that is not clean")
					}
					dup := hasFact(st, false, func(f *Term) bool { return f.Op == "lookupok" && f.Args[1] == k })
					if !dup {
						c.iterBad(e, st, "C12.files", fr, header, "several entries with the same name may be accepted, although only one of them is checked")
					}
					clearIn(st, "f.todo", "f.seen")
					c.iterOK(e, "C12.files", fr, header)
					c.okf(e, "C12.files", "entry listed at "+c.P.pos(posOf(header.Instrs[0])))
				} else {
					skip := hasFact(st, true, func(f *Term) bool {
						return f.isCall("strings.HasSuffix") && f.Args[1] == mkStr("/") && f.Args[0].Op == "fld" && zipName(f.Args[0]) != nil
					}) || eqFact(st, func(a, b *Term) bool {
						return zipName(a) != nil && a.isCall("path.Clean") && (isJoinOf(b, "RECORD.jws") || isJoinOf(b, "RECORD.p7s"))
					})
					if !skip {
						c.iterBad(e, st, "C12.files", fr, header, "an entry of the zip may be left off the list of files to be checked although its name is not that of a directory or signature")
					}
				}
				// the loop over the rows of RECORD
				del, er := inLoop(st, fr, "r.del"), inLoop(st, fr, "r.err")
				if !del && !er {
					c.iterBad(e, st, "C12.rows", fr, header, "a row of RECORD may be passed over")
					return
				}
				if !del {
					clearIn(st, "r.err")
					return
				}
				if er {
					clearIn(st, "r.del", "r.err", "r.copy", "r.cpok", "r.hash", "r.size")
					c.iterOK(e, "C12.rows", fr, header)
					return
				}
				name := st.Mark("r.del")
				row := name.Args[0].Args[0]
				cell := func(i int64) *Term { return tt.mkT("idx", "", name.Args[0].T, row, mkInt(i)) }
				H, Z := cell(1), cell(2)
				isRecord := eqFact(st, func(a, b *Term) bool { return a == name && isJoinOf(b, "RECORD") })
				cp := st.Mark("r.copy")
				hash, size := st.Mark("r.hash") == row, st.Mark("r.size") == row
				switch {
				case hash && size:
					if cp == nil || errOf(st, cp) != yes {
						c.iterBad(e, st, "C12.rows", fr, header, "digest and size are compared although reading the file may have failed")
					}
				case isRecord && (st.decide(mkEq(H, tEmpty)) == yes || hash) && (st.decide(mkEq(Z, tEmpty)) == yes || size):
				case !hash:
					c.iterBad(e, st, "C12.rows", fr, header, "a file is accepted without its digest having been found equal to a strong one in RECORD")
				default:
					c.iterBad(e, st, "C12.rows", fr, header, "a file is accepted without its size having been found equal to the one in RECORD")
				}
				clearIn(st, "r.del", "r.err", "r.copy", "r.cpok", "r.hash", "r.size")
				c.iterOK(e, "C12.rows", fr, header)
			}
		})
	}
	pass(false)
	if todo == nil {
		c.addViol(&Violation{Rule: "C12.rows", Where: c.P.pos(fn.Pos()), Msg: "no list of files still to be checked is kept while RECORD is read"})
		return
	}
	pass(true)
}

// contains0: some subterm is a call of a function whose name contains s.
func (t *Term) contains0(s string) bool {
	return t.any(func(x *Term) bool { return strings.Contains(x.siteName(), s) })
}

func sameSite(a, b *Term, i int) bool {
	x, j := stripConv(a).siteOf()
	y, _ := b.siteOf()
	if y == nil {
		y = b
	}
	return x != nil && x == y && j == i
}

// digestOK: d is algorithm=base64url(sum) for the algorithm named in the row, one of the strong ones, summed over the copy cp.
func (c *Ctx) digestOK(st *State, d, cp, H *Term) bool {
	if d.Op != "concat" || cp == nil {
		return false
	}
	last := d.Args[len(d.Args)-1]
	if last.siteName() != "(*encoding/base64.Encoding).EncodeToString" && !last.isCall("(*encoding/base64.Encoding).EncodeToString") || !strings.Contains(last.String(), "base64.RawURLEncoding") {
		return false
	}
	var sum *Term
	last.any(func(x *Term) bool {
		if x.siteName() == "(hash.Hash).Sum" {
			sum = mustSite(x)
			return true
		}
		return false
	})
	if sum == nil {
		return false
	}
	hasher := unbox(sum.Args[0])
	cps := mustSite(cp)
	if unbox(cps.Args[0]) != hasher {
		return false
	}
	pre := mkConcat(types.Typ[types.String], d.Args[:len(d.Args)-1]...)
	for algo, ctor := range strongHash {
		if hasher.siteName() != ctor {
			continue
		}
		if s, ok := pre.str(); ok {
			return s == algo+"="
		}
		// prefix is the algorithm named in the row, known to be this one
		if pre.Op == "concat" && len(pre.Args) == 2 && pre.Args[1] == mkStr("=") && pre.Args[0].contains(H) {
			if st.decide(mkEq(pre.Args[0], mkStr(algo))) == yes {
				return true
			}
			return hasFact(st, true, func(f *Term) bool {
				return f.Op == "bin" && f.Aux == "==" && f.Args[0] == pre.Args[0] && f.Args[1] == mkStr(algo)
			})
		}
	}
	return false
}

func init() { propRules["C12"] = ruleC12 }
