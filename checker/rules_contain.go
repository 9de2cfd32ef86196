package main

// C13: what a wheel names stays below the directories of the install scheme.

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// markLocal notes what a branch establishes about the names that files get.
func markLocal(st *State, cond *Term, val bool) {
	for cond.Op == "not" {
		cond, val = cond.Args[0], !val
	}
	if n := localCond(st, cond, val); n != nil {
		for n.isCall("path.Clean") {
			n = n.Args[0]
		}
		st.SetMark("local:"+n.key, n)
	}
	if cond.Op == "bin" && cond.Aux == "==" && !val {
		for i := 0; i < 2; i++ {
			if cond.Args[i] == mkStr(".") {
				st.SetMark("nodot:"+cond.Args[1-i].key, tTrue)
			}
		}
	}
	if val && cond.isCall("strings.HasPrefix") && cond.Args[1] == mkStr("/") || val && (cond.isCall("path.IsAbs") || cond.isCall("path/filepath.IsAbs")) {
		if d := schemeDir(cond.Args[0]); d != "" {
			st.SetMark("abs:"+d, tTrue)
		}
	}
}

// rooted: the directory t of the scheme is absolute and clean, so that nothing in it leads out of the layer.
func rooted(st *State, t *Term) string {
	d := schemeDir(t)
	if d == "" {
		return "is not a directory of the install scheme"
	}
	clean, abs := false, st.Marked("abs:"+d)
	t.any(func(x *Term) bool {
		if x.isCall("path.Clean") || x.isCall("path/filepath.Clean") || x.isCall("path.Join") || x.isCall("path/filepath.Join") {
			clean = true
			if x.Args[0] == mkStr("/") || x.Args[0].Op == "concat" && x.Args[0].Args[0] == mkStr("/") {
				abs = true
			}
		}
		return false
	})
	switch {
	case !abs:
		return "may be relative"
	case !clean:
		return "may contain .."
	}
	return ""
}

// validatesNames: fn (which returns an error and nothing else) returns nil only if the name of every entry of the zip stays
// below the directory it is joined to.
func (c *Ctx) validatesNames(fn *ssa.Function) bool {
	n, bad := 0, 0
	c2 := newCtx(c.P, c.Prop, c.Tier)
	c2.run("C13.names", fn, nil, func(e *Eng, st *State) {
		e.mergeAt = 3000
		e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
			for cond.Op == "not" {
				cond, val = cond.Args[0], !val
			}
			if n := localCond(st, cond, val); n != nil && zipName(n) != nil {
				markIn(st, fr, "valid", n)
			}
		}
		e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
			if inLoop(st, fr, "valid") {
				clearIn(st, "valid")
				c2.iterOK(e, "C13.names", fr, header)
			} else {
				c2.iterBad(e, st, "C13.names", fr, header, "the name of an entry may not be looked at")
			}
		}
		e.hooks.LoopExit = func(e *Eng, st *State, fr *frame, header, from, to *ssa.BasicBlock) {
			if from == header {
				st.SetMark("loop:"+c2.loopKey(fr, header), tTrue)
			}
		}
		e.hooks.FuncRet = func(e *Eng, st *State, f *ssa.Function, args, res []*Term) {
			if f == fn && len(res) == 1 && errState(st, res[0]) != no {
				e.report(Rec{Kind: "ok", Key: "ret", Det: strings.Join(loopMarks(st), ";")})
			}
		}
	})
	for k := range c2.iterOKs {
		key := strings.TrimPrefix(k, "C13.names|")
		if len(c2.iterBads[k]) > 0 {
			continue
		}
		n++
		for ret := range c2.obl["ret"] {
			if !strings.Contains(ret, key) {
				bad++
			}
		}
	}
	for f := range c2.fns {
		c.fns[f] = true
	}
	return n == 1 && bad == 0 && len(c2.obl["ret"]) > 0
}

func loopMarks(st *State) []string {
	var out []string
	for k := range st.marks {
		if strings.HasPrefix(k, "loop:") {
			out = append(out, k)
		}
	}
	return out
}

func ruleC13(c *Ctx) {
	c.only = true
	c.rule("C13.names", "every entry of a wheel is unpacked only after its name was found to stay below the directory it is unpacked in", 1)
	c.rule("C13.scheme", "the directories of the install scheme are absolute and free of .. where names are joined to them", 2)
	c.rule("C13.hooks", "post-install hooks put files under constant names, or under names from the wheel that were found to stay below the directory and not to be the directory itself", 4)
	// is there an integrity check that looks at the names?
	for _, f := range c.P.pkgFns("pkg/python/pypa/bdist") {
		if f.Parent() == nil && onlyErr(f) && c.P.reachesAny(f, "(*encoding/csv.Reader).ReadAll", "(*encoding/csv.Reader).Read") && f.Name() != "InstallWheel" {
			if c.validatesNames(f) {
				c.namesChecked = true
				c.okAt("C13.names", shortName(fnName(f))+" returns nil only for names that stay below the directory")
			}
		}
	}
	installRules(c)
	ruleCompiler(c)
	for _, f := range c.P.hookFactories() {
		c.runHook("C13.hooks", f, func(e *Eng, st *State, a hookArgs) {
			e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
				markLocal(st, cond, val)
			}
			e.hooks.MapUpdate = func(e *Eng, st *State, fr *frame, m, k, v *Term, in ssa.Instruction) {
				if m != a.vfs {
					return
				}
				if k.Op == "rangekey" || k == a.dir {
					return
				}
				if !k.isCall("path.Join") {
					c.fail(e, st, "C13.hooks", in, "a hook puts a file at %v", k)
					return
				}
				for i, p := range k.Args {
					if s, ok := p.str(); ok {
						if !isLocal(s) {
							c.fail(e, st, "C13.hooks", in, "a hook puts a file at %v", k)
						}
						continue
					}
					if i == 0 && (p == a.dir || schemeDir(p) != "") {
						if p != a.dir {
							if why := rooted(st, p); why != "" && why != "may be relative" {
								c.fail(e, st, "C13.hooks", in, "a hook puts files in %v, which %s", p, why)
							}
						}
						continue
					}
					if !st.Marked("local:" + p.key) {
						c.fail(e, st, "C13.hooks", in, "a hook puts a file at %v although the name may lead out of the directory", k)
					} else if i == len(k.Args)-1 && !st.Marked("nodot:"+p.key) {
						c.fail(e, st, "C13.hooks", in, "a hook puts a file at %v although the name may be that of the directory itself", k)
					}
				}
				c.ok(e, "C13.hooks", in, "")
			}
		})
	}
	for id := range c.rules {
		if strings.HasPrefix(id, "C34") {
			delete(c.rules, id)
			delete(c.need, id)
			for k, v := range c.viol {
				if v.Rule == id {
					delete(c.viol, k)
				}
			}
			for k, r := range c.iterOKs {
				if r == id {
					delete(c.iterOKs, k)
				}
			}
			delete(c.obl, id)
		}
	}
}

func init() { propRules["C13"] = ruleC13 }
