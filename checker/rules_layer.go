package main

// Layer producers: timestamps, fidelity, ownership, ordering (dir, fsutil, wheels).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	nWriteHeader = "(*archive/tar.Writer).WriteHeader"
	nFIH         = "archive/tar.FileInfoHeader"
)

func isTarHeader(t types.Type) bool { return isNamed(t, "archive/tar", "Header") }

func hdr(st *State, p *Term, field string) *Term {
	t := pointee(p.T)
	if t == nil || !isTarHeader(t) {
		return nil
	}
	return fieldOf(st, p, t, field)
}

// origHdr: the value a header field had when FileInfoHeader returned it.
func origHdr(p *Term, field string) *Term { return hdr(newState(), p, field) }

// layerEntries: exported functions with a time.Time parameter from which a tar header is written.
func (p *Program) layerEntries() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.fns {
		if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil {
			continue
		}
		if paramOfType(f, isTime) == nil {
			continue
		}
		if p.reaches(f, nWriteHeader, true) {
			out = append(out, f)
		}
	}
	return out
}

// reaches: a static call path inside the package (including closures) from f to the named function.
func (p *Program) reaches(f *ssa.Function, name string, samePkg bool) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if cc.IsInvoke() {
						if cc.Method.FullName() == name {
							return true
						}
					} else if g := cc.StaticCallee(); g != nil {
						if fnName(g) == name {
							return true
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok && len(g.Blocks) > 0 && inRepo(g) {
						if samePkg && pkgDir(g) != pkgDir(f) {
							continue
						}
						if rec(g) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return rec(f)
}

// callSites lists the static and interface call sites of the named function in the repository.
func (p *Program) callSites(name string) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, f := range p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && calleeName(ci.Common()) == name {
					out = append(out, ci)
				}
			}
		}
	}
	return out
}

func calleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return cc.Method.FullName()
	}
	if g := cc.StaticCallee(); g != nil {
		return fnName(g)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return "builtin " + b.Name()
	}
	return ""
}

func notTestutil(f *ssa.Function) bool { return !strings.HasPrefix(pkgDir(f), "pkg/testutil") }

// clampOK decides whether time m, written where the source file has time orig (nil if the entry is synthetic),
// is the clamped original.
func clampOK(st *State, m, orig, clamp *Term, exact bool) (bool, string) {
	if m == nil {
		return false, "unknown value"
	}
	before := func(a, b *Term) tri {
		return st.decide(mkCall("(time.Time).Before", types.Typ[types.Bool], a, b))
	}
	switch {
	case m == clamp:
		if orig == nil || !exact {
			return true, ""
		}
		if before(clamp, orig) == yes || before(orig, clamp) == no {
			return true, ""
		}
		return false, "the clamp time replaces an original time that is not known to be later than it"
	case orig != nil && m == orig:
		if before(clamp, orig) == no || before(orig, clamp) == yes {
			return true, ""
		}
		return false, "the original time is written although it may be later than the clamp time"
	case m.Op == "zero":
		if !exact {
			return true, ""
		}
		return false, "a zero time is written"
	}
	return false, "the time written is neither the original nor the clamp time: " + m.String()
}

func ruleC01(c *Ctx) {
	c.rule("C01.clamp", "at every tar WriteHeader reachable from a layer builder with a clamp time: ModTime is the source time if that is not later than the clamp and the clamp itself otherwise; AccessTime and ChangeTime are never later than the clamp", 6)
	c.rule("C01.sites", "every tar WriteHeader call site of the repository is covered by an analysed layer builder", 2)
	entries := c.P.layerEntries()
	visited := map[ssa.Instruction]bool{}
	for _, fn := range entries {
		clamp := symParam(paramOfType(fn, isTime))
		c.run("C01.clamp", fn, nil, func(e *Eng, st *State) {
			e.mergeAt = 3000
			e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
				if ev.Name != nWriteHeader {
					return
				}
				visited[ev.Instr] = true
				h := ev.Args[1]
				src := headerSource(st, h)
				for _, f := range []string{"ModTime", "AccessTime", "ChangeTime"} {
					m := hdr(st, h, f)
					var orig *Term
					if src != nil {
						orig = origHdr(src, f)
					} else if f != "ModTime" && m != nil && m.Op == "zero" {
						c.ok(e, "C01.clamp", ev.Instr, f)
						continue
					}
					if ok, why := clampOK(st, m, orig, clamp, f == "ModTime"); !ok {
						c.fail(e, st, "C01.clamp", ev.Instr, "tar entry is written with a wrong %s: %s", f, why)
					} else {
						c.ok(e, "C01.clamp", ev.Instr, f)
					}
				}
			}
		})
	}
	for _, s := range c.P.callSites(nWriteHeader) {
		if !notTestutil(s.Parent()) {
			continue
		}
		if visited[s] {
			c.okAt("C01.sites", c.P.pos(s.Pos()))
		} else if pkgDir(s.Parent()) == "pkg/squash" {
			c.okAt("C01.sites", c.P.pos(s.Pos())+" (squash: times come from the input layers, see C08)")
		} else {
			c.failAt("C01.sites", s.Pos(), s.Parent(), "this tar header is not written by a layer builder that takes a clamp time", nil)
		}
	}
	ruleClampFlow(c)
	c.rule("C01.gen", "every in-memory file stored by a post-install hook or by InstallWheel carries the clamp time", 5)
	genFiles(c, "C01.gen", true)
}

// headerSource: the FileInfoHeader result that the header stems from, if any.
func headerSource(st *State, h *Term) *Term {
	var src *Term
	find := func(t *Term) {
		if t == nil || src != nil {
			return
		}
		t.any(func(x *Term) bool {
			if x.Op == "ext" && x.Aux == "0" && x.Args[0].siteName() == nFIH {
				src = x
				return true
			}
			return false
		})
	}
	find(h)
	for _, f := range []string{"Size", "Mode", "Typeflag", "ModTime"} {
		find(hdr(st, h, f))
	}
	return src
}

// ---------------------------------------------------------------------------
// C04 / C05: directory layers

func walkInfo(t *Term) bool {
	return t != nil && t.any(func(x *Term) bool { return x.siteName() == "walk.info" })
}

func ruleC04(c *Ctx) {
	fn := c.P.fn("pkg/dir", "LayerFromDir")
	if fn == nil {
		c.missing("C04.entry", "dir.LayerFromDir")
		return
	}
	c.rule("C04.entry", "every path visited by the walk other than the root ends in exactly one tar header made from that path's own file info, or in an error", 1)
	c.rule("C04.name", "the entry name is the path relative to the directory, below the prefix if one is given", 1)
	c.rule("C04.keep", "mode, size, device numbers and extended attributes of the header are those of the file", 1)
	c.rule("C04.link", "a hard-link entry is only written for a file already written under the name the link points to; a symlink entry carries the target read from that path", 2)
	c.rule("C04.body", "the body of a regular file is copied once, from that same path, and nothing is copied for other entries", 1)
	c.rule("C04.err", "an error of the walk, of reading, writing or closing ends in an error return", 1)
	c.rule("C04.finish", "the archive is closed without error before its bytes are taken, and every open of the layer starts from the first byte", 1)
	dirP := fn.Params[0]
	var prefixP *ssa.Parameter
	for _, p := range fn.Params {
		if pt := pointee(p.Type()); pt != nil && isNamed(pt, modPath+"/pkg/dir", "Prefix") {
			prefixP = p
		}
	}
	if prefixP == nil {
		c.missing("C04.name", "the prefix parameter of LayerFromDir")
		return
	}
	dirname, prefix := symParam(dirP), symParam(prefixP)
	prefT := pointee(prefixP.Type())
	prefixDir := fieldOf(newState(), prefix, prefT, "DirName")
	rel := func(p *Term) *Term { return mkExt(mkCall("path/filepath.Rel", nil, dirname, p), 0, nil) }
	var bufArg *Term
	exits := c.run("C04.entry", fn, nil, func(e *Eng, st *State) {
		e.mergeAt = 3000
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			if ev.Fn != nil && len(ev.Args) == 3 && ev.Args[0].siteName() == "walk.path" {
				for k := range st.marks {
					if strings.HasPrefix(k, "it.") {
						delete(st.marks, k)
					}
				}
				st.SetMark("it.on", tTrue)
				return
			}
			switch ev.Name {
			case nWriteHeader:
				h := ev.Args[1]
				src := headerSource(st, h)
				if !st.Marked("it.on") {
					return
				}
				if st.Marked("it.hdr") {
					c.fail(e, st, "C04.entry", ev.Instr, "a second tar header is written for the same path")
				}
				st.SetMark("it.hdr", h)
				if src == nil || !walkInfo(src.Args[0].Args[0]) {
					c.fail(e, st, "C04.entry", ev.Instr, "the tar header written in the walk is not made from the visited file's info")
					return
				}
				ff := map[string]*Term{}
				for _, f := range []string{"Name", "Mode", "Size", "Devmajor", "Devminor", "Typeflag", "Linkname", "PAXRecords", "Xattrs", "Format"} {
					ff[f] = hdr(st, h, f)
				}
				c.checkDirName(e, st, ev, ff["Name"], prefix, prefixDir, rel)
				isLink := false
				if v, ok := ff["Typeflag"].intv(); ok && ff["Typeflag"] != origHdr(src, "Typeflag") {
					switch v {
					case '1':
						isLink = true
						c.checkHardLink(e, st, ev, ff["Linkname"], ff["Name"], src)
					default:
						if st.decide(mkEq(origHdr(src, "Typeflag"), mkInt(v))) != yes {
							c.fail(e, st, "C04.keep", ev.Instr, "the type of the entry is overridden")
						}
					}
				} else if ff["Typeflag"] != origHdr(src, "Typeflag") {
					c.fail(e, st, "C04.keep", ev.Instr, "the type of the entry is not the file's")
				}
				for _, f := range []string{"Mode", "Size", "Devmajor", "Devminor", "PAXRecords", "Xattrs"} {
					if ff[f] == origHdr(src, f) {
						c.ok(e, "C04.keep", ev.Instr, f)
					} else if isLink && f == "Size" && ff[f] == tZero {
						c.ok(e, "C04.keep", ev.Instr, f)
					} else {
						c.fail(e, st, "C04.keep", ev.Instr, "header field %s is not the one of the file: %v", f, ff[f])
					}
				}
				if !isLink {
					switch st.decide(mkEq(origHdr(src, "Typeflag"), mkInt('2'))) {
					case yes:
						ln := ff["Linkname"]
						if s, i := ln.siteOf(); s != nil && i == 0 && ln.siteName() == "os.Readlink" && s.Args[0].siteName() == "walk.path" {
							c.ok(e, "C04.link", ev.Instr, "symlink")
						} else {
							c.fail(e, st, "C04.link", ev.Instr, "a symlink entry does not carry the target of the visited path: %v", ln)
						}
					case unknown:
						// the type was never compared with a symlink: the linkname must have been set anyway
						if ff["Linkname"].siteName() != "os.Readlink" {
							c.fail(e, st, "C04.link", ev.Instr, "the target of a symlink is not read")
						}
					}
				}
			case "io.Copy", "io.CopyN", "io.CopyBuffer", "(*archive/tar.Writer).Write", "io.WriteString":
				if !st.Marked("it.on") {
					return
				}
				dst := unbox(ev.Args[0])
				if dst.siteName() != "archive/tar.NewWriter" && ev.Name != "io.Copy" {
					return
				}
				if dst.siteName() != "archive/tar.NewWriter" {
					return
				}
				if ev.Name != "io.Copy" && ev.Name != "io.CopyBuffer" {
					if ev.Name == "(*archive/tar.Writer).Write" && contentOf(ev.Args[1], func(x *Term) bool { return x.siteName() == "walk.path" }) {
						// whole-file read then written
					} else {
						c.fail(e, st, "C04.body", ev.Instr, "file content is written by a call that may truncate it (%s)", shortName(ev.Name))
						return
					}
				} else {
					src := unbox(ev.Args[1])
					s, i := src.siteOf()
					if s == nil || i != 0 || src.siteName() != "os.Open" || s.Args[0].siteName() != "walk.path" {
						c.fail(e, st, "C04.body", ev.Instr, "the body copied is not the whole content of the visited path: %v", src)
						return
					}
				}
				h := st.Mark("it.hdr")
				if h == nil {
					c.fail(e, st, "C04.body", ev.Instr, "file content is written before its header")
					return
				}
				if st.Marked("it.body") {
					c.fail(e, st, "C04.body", ev.Instr, "file content is written twice")
					return
				}
				tf := hdr(st, h, "Typeflag")
				if st.decide(mkEq(tf, mkInt('0'))) != yes && !(tf.Op == "const" && tf == mkInt('0')) {
					c.fail(e, st, "C04.body", ev.Instr, "file content is written for an entry not known to be a regular file")
					return
				}
				st.SetMark("it.body", tTrue)
				c.ok(e, "C04.body", ev.Instr, "")
			case "(*bytes.Buffer).Bytes":
				if !st.Marked("closed") {
					c.fail(e, st, "C04.finish", ev.Instr, "the archive's bytes are taken before it is closed")
				}
			case "archive/tar.NewWriter":
				bufArg = unbox(ev.Args[0])
			case "append":
				// a record pairing this file's info with a name, used to find hard links
				if l := ev.Args[len(ev.Args)-1]; st.Marked("it.on") && l.Op == "list" && len(l.Args) == 1 {
					rec := st.resolve(l.Args[0])
					if rec.T == nil {
						return
					}
					sT, ok := rec.T.Underlying().(*types.Struct)
					if !ok {
						return
					}
					var nm, inf *Term
					for i := 0; i < sT.NumFields(); i++ {
						v := valField(rec, sT.Field(i).Name())
						if v == nil {
							continue
						}
						if v.siteName() == "walk.info" {
							inf = v
						} else if b, ok := v.T.(*types.Basic); ok && b.Kind() == types.String {
							nm = v
						}
					}
					if nm != nil && inf != nil {
						st.SetMark("it.log", nm)
					}
				}
			}
		}
		e.hooks.Post = func(e *Eng, st *State, ev *CallEvent) {
			if ev.Name == "(*archive/tar.Writer).Close" {
				st.SetMark("closed", ev.Res)
			}
		}
		e.hooks.CallbackRet = func(e *Eng, st *State, ev *CallEvent, f *ssa.Function, res []*Term) {
			if !strings.Contains(ev.Name, "filepath.Walk") || len(res) == 0 {
				return
			}
			r := res[len(res)-1]
			if isSkipDir(r) {
				c.fail(e, st, "C04.entry", ev.Instr, "part of the directory tree is skipped")
				return
			}
			if errState(st, r) == no {
				return
			}
			// the callback may report success
			root := false
			for f, v := range st.facts {
				if v && f.Op == "bin" && f.Aux == "==" && f.Args[1] == mkStr(".") && f.Args[0].any(func(x *Term) bool { return x.siteName() == "path/filepath.Rel" }) {
					root = true
				}
				if v && f.Op == "bin" && f.Aux == "==" && (f.Args[0] == dirname && f.Args[1].siteName() == "walk.path" || f.Args[1] == dirname && f.Args[0].siteName() == "walk.path") {
					root = true
				}
			}
			if root {
				if st.Marked("it.hdr") {
					c.fail(e, st, "C04.entry", ev.Instr, "an entry is written for the directory itself")
				}
				c.ok(e, "C04.entry", ev.Instr, "root")
				return
			}
			if !st.Marked("it.hdr") {
				c.fail(e, st, "C04.entry", ev.Instr, "a visited path may be left out of the layer without an error")
				return
			}
			if !st.Marked("it.body") {
				h := st.Mark("it.hdr")
				if st.decide(mkEq(hdr(st, h, "Typeflag"), mkInt('0'))) != no {
					c.fail(e, st, "C04.body", ev.Instr, "a regular file may be written without its content")
					return
				}
			}
			if nm := st.Mark("it.log"); nm != nil {
				if w := hdr(st, st.Mark("it.hdr"), "Name"); w != nm {
					c.fail(e, st, "C04.link", ev.Instr, "files are remembered under the name %v but written under %v: a later hard link would name an entry that is not in the layer", nm, w)
					return
				}
			}
			c.ok(e, "C04.entry", ev.Instr, "")
			c.swallowed(e, st, "C04.err", ev.Instr)
		}
	})
	for _, x := range exits {
		if x.kind != exitRet {
			continue
		}
		if errState(x.st, lastRes(x)) == no {
			continue
		}
		c.finishOK("C04.finish", fn, x, bufArg)
	}
}

// contentOf: the value is os.ReadFile/io.ReadAll of something matching.
func contentOf(t *Term, pred func(*Term) bool) bool {
	n := t.siteName()
	return (n == "os.ReadFile" || n == "io.ReadAll") && t.any(pred)
}

// swallowed: on a path that may return success no call in this activation is known to have failed.
func (c *Ctx) swallowed(e *Eng, st *State, rule string, in ssa.Instruction) {
	for f, v := range st.facts {
		if v || f.Op != "bin" || f.Aux != "==" || !f.Args[1].isNil() {
			continue
		}
		t := f.Args[0]
		if t.T == nil || !isErrorType(t.T) {
			continue
		}
		n := t.siteName()
		if n == "" || n == "walk.err" && false {
			continue
		}
		c.fail(e, st, rule, in, "success is reported although %s failed", shortName(n))
		return
	}
	c.ok(e, rule, in, "")
}

func (c *Ctx) checkDirName(e *Eng, st *State, ev *CallEvent, name, prefix, prefixDir *Term, rel func(*Term) *Term) {
	isRel := func(t *Term) bool {
		s, i := t.siteOf()
		return s != nil && i == 0 && t.siteName() == "path/filepath.Rel" && s.Args[0].Op == "sym" && s.Args[1].siteName() == "walk.path"
	}
	switch st.decide(mkEq(prefix, tNil)) {
	case yes:
		if isRel(name) {
			c.ok(e, "C04.name", ev.Instr, "no prefix")
			return
		}
	case no:
		if name.isCall("path.Join") && len(name.Args) == 2 && name.Args[0] == prefixDir && isRel(name.Args[1]) {
			c.ok(e, "C04.name", ev.Instr, "prefix")
			return
		}
		if name.isCall("path.Join") && len(name.Args) == 2 && isRel(name.Args[1]) && name.Args[0].Op == "fld" && name.Args[0].Aux == "DirName" && name.Args[0].any(func(x *Term) bool { return x == prefix }) {
			c.ok(e, "C04.name", ev.Instr, "prefix")
			return
		}
	}
	c.fail(e, st, "C04.name", ev.Instr, "the entry is not named by its path below the directory (and the prefix): %v", name)
}

// checkHardLink: Linkname is the recorded name of the very record whose info is the same file.
func (c *Ctx) checkHardLink(e *Eng, st *State, ev *CallEvent, ln, name, src *Term) {
	for f, v := range st.facts {
		if !v || f.siteName() != "os.SameFile" {
			continue
		}
		for k := 0; k < 2; k++ {
			a, b := f.Args[k], f.Args[1-k]
			if !(b.siteName() == "walk.info" && a.siteName() != "walk.info") {
				continue
			}
			if a.Op == "fld" && ln.Op == "fld" && a.Args[0] == ln.Args[0] {
				// what is recorded: every value appended pairs this file's info with this entry's name
				log := a.Args[0]
				var coll *Term
				log.any(func(x *Term) bool {
					if x.Op == "sym" && strings.HasPrefix(x.Aux, "loopmem") || x.Op == "sym" && strings.HasPrefix(x.Aux, "loop:") {
						coll = x
						return true
					}
					return false
				})
				if coll != nil {
					for in := range e.inflow[coll] {
						ok := in.isNil() || in.Op == "zero"
						if in.Op == "append" {
							l := in.Args[len(in.Args)-1]
							if l.Op == "list" && len(l.Args) == 1 {
								rec := l.Args[0]
								nm, inf := valField(rec, ln.Aux), valField(rec, a.Aux)
								if nm != nil && inf != nil && inf.siteName() == "walk.info" && nm.any(func(x *Term) bool { return x.siteName() == "path/filepath.Rel" }) == name.any(func(x *Term) bool { return x.siteName() == "path/filepath.Rel" }) {
									if sameShapeName(nm, name) {
										ok = true
									}
								}
							}
						}
						if !ok && in.Op == "append" {
							c.fail(e, st, "C04.link", ev.Instr, "the record used to find hard links does not pair a file with the name its entry was written under: %v", in)
							return
						}
					}
				}
				c.ok(e, "C04.link", ev.Instr, "hard link")
				return
			}
		}
	}
	c.fail(e, st, "C04.link", ev.Instr, "a hard-link entry points to %v, which is not shown to be the entry of the same file", ln)
}

// sameShapeName: recorded name is built like the entry name (prefix join or plain relative path).
func sameShapeName(a, b *Term) bool {
	if a == b {
		return true
	}
	return a.siteName() == b.siteName() || a.siteName() == "path.Join" && b.siteName() == "path/filepath.Rel" || b.siteName() == "path.Join" && a.siteName() == "path/filepath.Rel"
}

// finishOK: on a success exit the result is a layer over the closed archive and re-openable.
func (c *Ctx) finishOK(rule string, fn *ssa.Function, x exit, buf *Term) {
	cl := x.st.Mark("closed")
	if cl == nil || errState(x.st, cl) != yes {
		c.failAt(rule, x.pos, fn, "a layer is returned although the archive was not closed successfully", x.st)
		return
	}
	s, i := x.res[0].siteOf()
	if s == nil || i != 0 || !strings.HasSuffix(x.res[0].siteName(), "/tarball.LayerFromOpener") {
		c.failAt(rule, x.pos, fn, "the result is not a layer over the archive written: "+x.res[0].String(), x.st)
		return
	}
	op := x.st.resolve(s.Args[0])
	if op.Op != "closure" && op.Op != "fn" {
		c.failAt(rule, x.pos, fn, "the opener of the layer cannot be resolved", x.st)
		return
	}
	e := c.P.engine()
	st := x.st.clone()
	var bad string
	func() {
		defer func() {
			if r := recover(); r != nil {
				bad = "undecided"
			}
		}()
		for _, y := range e.runFn(op.Fn, "O;", nil, op.Args, st) {
			if y.kind != exitRet || len(y.res) != 2 {
				continue
			}
			r := unbox(y.res[0])
			if errState(y.st, y.res[1]) == no {
				continue
			}
			if !r.isCall("io.NopCloser") || !unbox(r.Args[0]).isCall("bytes.NewReader") {
				bad = "opening the layer does not start a fresh reader over the whole archive: " + r.String()
				continue
			}
			bs := unbox(r.Args[0]).Args[0]
			if bs.siteName() != "(*bytes.Buffer).Bytes" || (buf != nil && firstArg(mustSite(bs)) != buf) {
				bad = "the layer does not serve the archive that was written: " + bs.String()
			}
		}
	}()
	c.absorb(e)
	if bad != "" {
		c.failAt(rule, x.pos, fn, bad, x.st)
		return
	}
	c.okAt(rule, shortName(fnName(fn))+" success exit "+c.P.pos(x.pos))
}

func mustSite(t *Term) *Term {
	s, _ := t.siteOf()
	if s == nil {
		return t
	}
	return s
}

func ruleC05(c *Ctx) {
	fn := c.P.fn("pkg/dir", "LayerFromDir")
	if fn == nil {
		c.missing("C05.own", "dir.LayerFromDir")
		return
	}
	c.rule("C05.own", "an ownership override given replaces exactly the parts given (ids that are not negative, names that are not empty) in every file entry, before the header is written; without one the file's ownership is kept", 4)
	c.rule("C05.prefix", "prefix directory entries carry the requested ownership and mode (0755 if none was given)", 4)
	c.rule("C05.order", "prefix directories are created from the outermost to the innermost", 1)
	c.rule("C05.term", "the walk up the prefix ends for every prefix: it stops at both fixed points of the parent operation", 1)
	var chown, prefix *ssa.Parameter
	for _, p := range fn.Params {
		if pt := pointee(p.Type()); pt != nil {
			if isNamed(pt, modPath+"/pkg/dir", "Ownership") {
				chown = p
			}
			if isNamed(pt, modPath+"/pkg/dir", "Prefix") {
				prefix = p
			}
		}
	}
	if chown == nil || prefix == nil {
		c.missing("C05.own", "ownership and prefix parameters")
		return
	}
	ch, pf := symParam(chown), symParam(prefix)
	chF := func(n string) *Term { return fieldOf(newState(), ch, pointee(chown.Type()), n) }
	pfOwn := fieldOf(newState(), pf, pointee(prefix.Type()), "Ownership")
	pairs := []struct{ h, o string }{{"Uid", "UID"}, {"Gid", "GID"}, {"Uname", "UName"}, {"Gname", "GName"}}
	c.run("C05.own", fn, nil, func(e *Eng, st *State) {
		e.mergeAt = 3000
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			if ev.Name != nWriteHeader {
				return
			}
			h := ev.Args[1]
			src := headerSource(st, h)
			if src == nil {
				// synthetic prefix directory
				for _, pr := range pairs {
					v := hdr(st, h, pr.h)
					want := valField(pfOwn, pr.o)
					if v != want {
						c.fail(e, st, "C05.prefix", ev.Instr, "prefix directory: %s is %v, not the requested %s", pr.h, v, pr.o)
					} else {
						c.ok(e, "C05.prefix", ev.Instr, pr.h)
					}
				}
				m := stripConv(hdr(st, h, "Mode"))
				pm := fieldOf(newState(), pf, pointee(prefix.Type()), "Mode")
				zero := st.decide(mkEq(pm, tZero))
				mv, mc := m.intv()
				switch {
				case m == pm && zero == no, mc && mv == 0o755 && zero == yes:
					c.ok(e, "C05.prefix", ev.Instr, "Mode")
				default:
					c.fail(e, st, "C05.prefix", ev.Instr, "prefix directory: mode is %v, not the requested mode or the 0755 default", m)
				}
				if tf := hdr(st, h, "Typeflag"); tf != mkInt('5') {
					c.fail(e, st, "C05.prefix", ev.Instr, "prefix entry is not a directory")
				}
				c.checkPrefixOrder(e, st, ev, hdr(st, h, "Name"), pf)
				return
			}
			given := st.decide(mkEq(ch, tNil))
			for _, pr := range pairs {
				v := hdr(st, h, pr.h)
				orig := origHdr(src, pr.h)
				own := chF(pr.o)
				set := tri(unknown)
				if pr.h == "Uid" || pr.h == "Gid" {
					set = st.decide(mkLt(own, tZero)).not()
				} else {
					set = st.decide(mkEq(own, tEmpty)).not()
				}
				switch {
				case given == yes && v == orig:
				case given == no && set == yes && v == own:
				case given == no && set == no && v == orig:
				default:
					c.fail(e, st, "C05.own", ev.Instr, "%s is %v where the override is %s and its %s is %s", pr.h, v, presence(given), pr.o, triText(set, "given", "not given", "not examined"))
					continue
				}
				c.ok(e, "C05.own", ev.Instr, pr.h)
			}
		}
		e.hooks.BackEdge = c.dirLoopHook("C05.term")
	})
}

func presence(isNil tri) string { return triText(isNil, "absent", "present", "not examined") }
func triText(t tri, y, n, u string) string {
	switch t {
	case yes:
		return y
	case no:
		return n
	}
	return u
}

func stripConv(t *Term) *Term {
	for t != nil && t.Op == "conv" {
		t = t.Args[0]
	}
	return t
}

// dirLoopHook: a loop that climbs with path.Dir must have excluded both fixed points of path.Dir.
func (c *Ctx) dirLoopHook(rule string) func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
	return func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
		for _, in := range header.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			v := st.regs[p]
			if v == nil || !v.isCall("path.Dir") {
				continue
			}
			x := v.Args[0]
			for _, fp := range []string{".", "/"} {
				if st.decide(mkEq(x, mkStr(fp))) != no {
					c.fail(e, st, rule, in, "the loop climbs with the parent operation and may repeat forever at %q", fp)
				} else {
					c.ok(e, rule, in, fp)
				}
			}
		}
	}
}

func (c *Ctx) checkPrefixOrder(e *Eng, st *State, ev *CallEvent, name, pf *Term) {
	climbing := func(t *Term) bool { // loop variable fed by path.Dir of itself
		if t.Op != "sym" {
			return false
		}
		for in := range e.inflow[t] {
			if in.isCall("path.Dir") {
				return true
			}
		}
		return false
	}
	if climbing(name) || name.isCall("path.Dir") {
		c.fail(e, st, "C05.order", ev.Instr, "a prefix directory is written before its parent")
		return
	}
	if name.Op == "idx" {
		coll, ix := name.Args[0], name.Args[1]
		appended, prepended := false, false
		for in := range e.inflow[coll] {
			if in.Op == "append" {
				if in.Args[0] == coll {
					appended = true
				} else {
					prepended = true
				}
			}
		}
		down, up := false, false
		base := ix
		if ix.Op == "bin" && ix.Aux == "+" {
			base = ix.Args[0]
		}
		for in := range e.inflow[base] {
			if in.Op == "bin" && in.Aux == "+" && in.Args[0] == base {
				if k, ok := in.Args[1].intv(); ok {
					if k > 0 {
						up = true
					} else {
						down = true
					}
				}
			}
		}
		if appended && !prepended && up && !down || prepended && !appended && down && !up {
			c.fail(e, st, "C05.order", ev.Instr, "prefix directories are written from the innermost to the outermost")
			return
		}
	}
	c.ok(e, "C05.order", ev.Instr, "")
}

func init() {
	propRules["C01"] = ruleC01
	propRules["C04"] = ruleC04
	propRules["C05"] = ruleC05
}

// ruleClampFlow: one clamp time for hook, compiler and layer of a wheel; a maximum time that is given is that time.
func ruleClampFlow(c *Ctx) {
	const rule = "C01.wheel"
	c.rule(rule, "installing a wheel hands the same clamp time to the bytecode compiler, the post-install hook and the layer; it is the caller's maximum time whenever that is not zero", 3)
	fn := c.P.fn("pkg/python/pypa/bdist", "InstallWheel")
	if fn == nil {
		c.missing(rule, "bdist.InstallWheel")
		return
	}
	var times []*Term
	for _, p := range fn.Params {
		if isTime(p.Type()) {
			times = append(times, symParam(p))
		}
	}
	if len(times) == 0 {
		c.missing(rule, "the time parameters of InstallWheel")
		return
	}
	max := times[len(times)-1]
	c.run(rule, fn, nil, func(e *Eng, st *State) {
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			what := ""
			if ev.Name == "dyncall" {
				what = "function value"
			} else if strings.HasSuffix(ev.Name, "/fsutil.LayerFromFileReferences") {
				what = "layer"
			}
			if what == "" {
				return
			}
			for _, a := range ev.Args {
				if a == nil || !isTime(a.T) {
					continue
				}
				switch st.decide(mkCall("(time.Time).IsZero", types.Typ[types.Bool], max)) {
				case no:
					if a != max {
						c.fail(e, st, rule, ev.Instr, "the clamp time passed on is %v although the caller gave a maximum time", a)
						return
					}
				case yes:
					if a == max || a.Op == "zero" {
						c.fail(e, st, rule, ev.Instr, "a zero clamp time is passed on")
						return
					}
				case unknown:
					if prev := st.Mark("clamp"); prev == nil {
						c.fail(e, st, rule, ev.Instr, "a clamp time is passed on before it is known whether the caller gave a maximum time")
						return
					}
				}
				if prev := st.Mark("clamp"); prev != nil && prev != a {
					c.fail(e, st, rule, ev.Instr, "two different clamp times are used for one wheel: %v and %v", prev, a)
					return
				}
				st.SetMark("clamp", a)
				c.ok(e, rule, ev.Instr, what)
			}
		}
	})
}
