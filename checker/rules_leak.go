package main

// Resources that have to be released: open files and readers, temporary directories, processes, images in Docker.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hasClose: values of that type are to be closed.
func hasClose(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		f, ok := ms.At(i).Obj().(*types.Func)
		if !ok || f.Name() != "Close" {
			continue
		}
		s := f.Type().(*types.Signature)
		return s.Params().Len() == 0 && s.Results().Len() == 1 && isErrorType(s.Results().At(0).Type())
	}
	return false
}

// notHeld: what the call returns need not be closed, although it could be.
func notHeld(n string) bool {
	switch n {
	case "archive/tar.NewWriter", "archive/zip.NewWriter", "io.NopCloser", "compress/gzip.NewWriter", "compress/gzip.NewReader",
		"compress/gzip.NewWriterLevel", "io.Pipe":
		return true
	}
	return strings.HasSuffix(n, "exec.Cmd).StdinPipe") || strings.HasSuffix(n, "exec.Cmd).StdoutPipe") || strings.HasSuffix(n, "exec.Cmd).StderrPipe")
}

func firstResult(cc *ssa.CallCommon) types.Type {
	if r := cc.Signature().Results(); r.Len() > 0 {
		return r.At(0).Type()
	}
	return nil
}

// acquires: the call returns something that is to be released; kind tells what.
func acquires(cc *ssa.CallCommon) (kind string) {
	n := calleeName(cc)
	t := firstResult(cc)
	switch {
	case n == "os.MkdirTemp" || n == "io/ioutil.TempDir":
		return "dir"
	case strings.HasSuffix(n, "exec.Cmd).Start"):
		return "process"
	case runsCommand(n):
		return "command"
	case t == nil || notHeld(n):
		return ""
	case isNamed(t, "net/http", "Response"):
		return "body"
	case hasClose(t):
		return "file"
	}
	return ""
}

func ruleC28(c *Ctx) {
	c.rule("C28.file", "what was opened is closed, or left to the caller, on each path", 12)
	c.rule("C28.dir", "a temporary directory is removed on each path", 2)
	c.rule("C28.process", "a process that was started is waited for on each path", 1)
	c.rule("C28.stdin", "a process is waited for only after the end of its input", 1)
	c.rule("C28.image", "an image that may have been loaded into Docker is removed on each path", 1)
	for _, f := range c.shipped() {
		if f.Synthetic != "" {
			continue
		}
		kinds := map[string]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cc, ok := in.(ssa.CallInstruction); ok {
					if k := acquires(cc.Common()); k != "" {
						kinds[k] = true
					}
				}
			}
		}
		if len(kinds) > 0 {
			c.releases(f)
		}
	}
}

func init() { propRules["C28"] = ruleC28 }

var leakRule = map[string]string{"file": "C28.file", "body": "C28.file", "dir": "C28.dir", "process": "C28.process", "image": "C28.image"}

func (c *Ctx) releases(root *ssa.Function) {
	const pre = "held:"
	drop := func(st *State, k string) { clearIn(st, k) }
	held := func(st *State) (r []string) {
		for k := range st.marks {
			if strings.HasPrefix(k, pre) && !strings.HasSuffix(k, "@") {
				r = append(r, k)
			}
		}
		sort.Strings(r)
		return r
	}
	kindOf := func(k string) string { return strings.SplitN(strings.TrimPrefix(k, pre), ":", 2)[0] }
	// value: what is to be released
	value := func(k string, s *Term) func(*Term) bool {
		kind := kindOf(k)
		return func(t *Term) bool {
			t = unbox(t)
			switch kind {
			case "body":
				for t.Op == "fld" || t.Op == "deref" {
					t = t.Args[0]
				}
			case "process":
				return t == s.Args[0]
			}
			x, i := t.siteOf()
			return x == s && i == 0
		}
	}
	// freed: the operation failed, so that there is nothing to release
	freed := func(st *State) {
		for _, k := range held(st) {
			s := st.Mark(k)
			kind := kindOf(k)
			if kind != "image" && errOf(st, s) == no {
				drop(st, k)
			} else if kind == "file" && s.T != nil && hasClose(s.T) && st.decide(mkEq(s, tNil)) == yes {
				drop(st, k)
			} else if kind == "file" {
				for f, v := range st.facts {
					if v && f.Op == "bin" && f.Aux == "==" && f.Args[1].isNil() && value(k, s)(f.Args[0]) {
						drop(st, k)
						break
					}
				}
			}
		}
	}
	leak := func(kind string) string {
		switch kind {
		case "dir":
			return "a temporary directory may be left behind"
		case "process":
			return "a process may be left running"
		case "image":
			return "an image may be left in Docker"
		}
		return "what was opened may be left open"
	}
	where := func(s *Term) string {
		n := s.siteName()
		return n[strings.LastIndex(n, "/")+1:]
	}
	exits := c.run("C28.file", root, nil, func(e *Eng, st *State) {
		e.mergeAt = 3000
		e.hooks.Post = func(e *Eng, st *State, ev *CallEvent) {
			cc, ok := ev.Instr.(ssa.CallInstruction)
			if !ok || ev.Res == nil {
				return
			}
			kind := acquires(cc.Common())
			if kind == "" || kind == "command" {
				return
			}
			res := ev.Res
			if res.Op == "tuple" {
				res = res.Args[0]
			}
			s, _ := unbox(res).siteOf()
			if s == nil || s.siteName() != ev.Name && !(ev.Name == "" || s.siteName() == "") {
				return // seen where it is opened
			}
			k := pre + kind + ":" + itoa(s.ID)
			markIn(st, ev.Frame, k, s)
		}
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			for _, k := range held(st) {
				s := st.Mark(k)
				is := value(k, s)
				switch kind := kindOf(k); kind {
				case "file", "body":
					if strings.HasSuffix(ev.Name, ".Close") && len(ev.Args) > 0 && is(ev.Args[0]) {
						drop(st, k)
					} else if cc, ok := ev.Instr.(ssa.CallInstruction); ok && (ev.Fn == nil || len(ev.Fn.Blocks) == 0) {
						// given to something that can close it
						ps := cc.Common().Signature().Params()
						off := len(ev.Args) - ps.Len()
						for i := 0; i < ps.Len() && off >= 0 && off+i < len(ev.Args); i++ {
							if hasClose(ps.At(i).Type()) && is(ev.Args[off+i]) {
								drop(st, k)
							}
						}
					}
				case "dir":
					if ev.Name == "os.RemoveAll" && is(ev.Args[0]) {
						drop(st, k)
					}
				case "process":
					if strings.HasSuffix(ev.Name, "exec.Cmd).Wait") && is(ev.Args[0]) {
						drop(st, k)
					}
				}
			}
			if strings.HasSuffix(ev.Name, "exec.Cmd).StdinPipe") {
				st.SetMark("pipe", ev.Args[0])
			}
			if strings.HasSuffix(ev.Name, ".Close") && len(ev.Args) > 0 {
				if s, i := unbox(ev.Args[0]).siteOf(); s != nil && i == 0 && strings.HasSuffix(s.siteName(), "exec.Cmd).StdinPipe") && s.Args[0] == st.Mark("pipe") {
					st.ClearMark("pipe")
				}
			}
			if strings.HasSuffix(ev.Name, "exec.Cmd).Wait") && len(ev.Args) > 0 {
				if st.Mark("pipe") == ev.Args[0] {
					c.fail(e, st, "C28.stdin", ev.Instr, "a process may be waited for that is still waiting for input")
				} else {
					c.ok(e, "C28.stdin", ev.Instr, "")
				}
			}
			if strings.HasSuffix(ev.Name, "tarball.Write") && len(ev.Args) > 0 {
				st.SetMark("tag", unbox(ev.Args[0]))
			}
			if runsCommand(ev.Name) && len(ev.Args) > 0 {
				name, args := commandOf(e, st, ev.Args[0])
				if n, _ := name.strOr(); n != "docker" {
					return
				}
				what := ""
				for i := 0; i < len(args) && i < 2; i++ {
					if a, _ := args[i].str(); a != "image" && !strings.HasPrefix(a, "-") && what == "" {
						what = a
					}
				}
				switch what {
				case "load":
					markIn(st, ev.Frame, pre+"image:", ev.Args[0])
				case "rm", "rmi":
					last := args[len(args)-1]
					n, a := calleeOf(last)
					if n == "" {
						n = last.siteName()
						if s, _ := last.siteOf(); s != nil {
							a = s.Args
						}
					}
					for _, k := range held(st) {
						switch {
						case kindOf(k) == "process":
							c.fail(e, st, "C28.image", ev.Instr, "an image may be removed while it is still being loaded")
						case kindOf(k) != "image":
						case st.Mark("tag") != nil && !(strings.HasSuffix(n, ".String") && len(a) == 1 && unbox(a[0]) == st.Mark("tag")):
							c.fail(e, st, "C28.image", ev.Instr, "what is removed may not be the image that was loaded")
						default:
							drop(st, k)
							c.ok(e, "C28.image", ev.Instr, "")
						}
					}
				}
			}
		}
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) { freed(st) }
		// what is put where others find it is for them to release
		e.hooks.Store = func(e *Eng, st *State, fr *frame, addr, v *Term, in ssa.Instruction) {
			if r := rootOf(addr); r.Op == "new" || r.Op == "alloc" {
				return
			}
			for _, k := range held(st) {
				if is := value(k, st.Mark(k)); v.any(func(t *Term) bool { return is(t) }) {
					drop(st, k)
				}
			}
		}
		e.hooks.MapUpdate = func(e *Eng, st *State, fr *frame, m, key, v *Term, in ssa.Instruction) {
			for _, k := range held(st) {
				if is := value(k, st.Mark(k)); v.any(func(t *Term) bool { return is(t) }) {
					drop(st, k)
				}
			}
		}
		e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
			for _, k := range held(st) {
				if inLoop(st, fr, k) {
					kind := kindOf(k)
					c.fail(e, st, leakRule[kind], header.Instrs[0], "%s when the loop goes on: %s", leak(kind), where(st.Mark(k)))
					drop(st, k)
				}
			}
		}
	})
	bad := map[string]bool{}
	for _, x := range exits {
		if x.kind != 0 {
			continue
		}
		freed(x.st)
		for _, k := range held(x.st) {
			s := x.st.Mark(k)
			kind := kindOf(k)
			if kind != "image" && kind != "process" && handedOver(x, value(k, s)) {
				continue
			}
			bad[kind] = true
			c.failAt(leakRule[kind], x.pos, root, leak(kind)+": "+where(s), x.st)
		}
	}
	for _, b := range root.Blocks {
		for _, in := range b.Instrs {
			if cc, ok := in.(ssa.CallInstruction); ok {
				kind := acquires(cc.Common())
				if kind == "command" {
					continue
				}
				if kind != "" && !bad[kind] {
					c.okAt(leakRule[kind], c.P.pos(in.Pos()))
				}
			}
		}
	}
}

// handedOver: what is returned leads to it.
func handedOver(x exit, is func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if is(t) {
			return true
		}
		switch t.Op {
		case "call", "site", "ext", "bin", "not":
			return false // made from it, but not it
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		if t.Op == "new" || t.Op == "alloc" {
			for addr, v := range x.st.mem {
				if rootOf(addr) == t && rec(v) {
					return true
				}
			}
		}
		return false
	}
	for _, r := range x.res {
		if rec(r) {
			return true
		}
	}
	return false
}
