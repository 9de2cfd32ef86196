package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type propRule struct {
	id    string
	title string
	run   func(c *Ctx)
}

var propRules = map[string]func(c *Ctx){}

var seedFlag = flag.Int("seed", 1, "")

func main() {
	prop := flag.String("property", "", "property id, or 'all'")
	tier := flag.String("tier", "quick", "quick|thorough")
	vdir := flag.String("verif", "/verif", "")
	dbg := flag.Bool("debug", false, "")
	dump := flag.Bool("globals", false, "")
	flag.StringVar(&repoDir, "repo", "/repo", "")
	flag.Parse()
	debugPanics = *dbg
	if *dump || flag.NArg() == 2 {
		P, err := loadProgram("")
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		P.evalInits()
		if *dump {
			dumpGlobals(P)
			return
		}
		dbgRun(P, flag.Arg(0), flag.Arg(1))
		return
	}
	if flag.Arg(0) == "exports" {
		P, err := loadProgram("")
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, f := range P.fns {
			if f.Object() != nil && f.Object().Exported() && f.Parent() == nil {
				fmt.Printf("\t%q: true,\n", fnName(f))
			}
		}
		return
	}
	if *prop == "all" || strings.Contains(*prop, ",") {
		var ids []string
		if *prop != "all" {
			ids = strings.Split(*prop, ",")
		} else {
			for id := range propRules {
				ids = append(ids, id)
			}
		}
		sort.Strings(ids)
		rc := 0
		for _, id := range ids {
			if runProperty(id, *tier, *vdir) != 0 {
				rc = 1
			}
		}
		os.Exit(rc)
	}
	os.Exit(runProperty(*prop, *tier, *vdir))
}

var loaded = map[string]*Program{}

func getProgram(tags string) (*Program, error) {
	if P := loaded[tags]; P != nil {
		baseMem = P.globals
		return P, nil
	}
	P, err := loadProgram(tags)
	if err != nil {
		return nil, err
	}
	P.evalInits()
	loaded[tags] = P
	return P, nil
}

func runProperty(id, tier, vdir string) int {
	t0 := time.Now()
	run := propRules[id]
	if run == nil {
		fmt.Fprintf(os.Stderr, "no rules for property %q\n", id)
		fmt.Printf("VIOLATION property=%s replay=none\n", id)
		return 1
	}
	var ctxs []*Ctx
	var P *Program
	tagsets := []string{"", "aux"}
	for _, tags := range tagsets {
		var err error
		P, err = getProgram(tags)
		c := newCtx(P, id, tier)
		if err != nil {
			c.P = &Program{}
			c.addViol(&Violation{Rule: "load", Where: "?", Msg: err.Error()})
		} else {
			for _, n := range P.initNotes {
				c.addViol(&Violation{Rule: "load", Where: "?", Msg: n})
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if debugPanics {
							panic(r)
						}
						c.addViol(&Violation{Rule: "internal", Where: "?", Msg: fmt.Sprintf("the analysis failed, the property is undecided: %v", r)})
					}
				}()
				run(c)
			}()
			c.finish()
		}
		ctxs = append(ctxs, c)
		if tier != "thorough" {
			break
		}
	}
	c := ctxs[0]
	for i, d := range ctxs[1:] {
		for _, v := range d.viol {
			v.Msg += " [build tags: " + tagsets[i+1] + "]"
			dup := false
			for _, w := range c.viol {
				if w.Rule == v.Rule && w.Where == v.Where {
					dup = true
				}
			}
			if !dup {
				c.addViol(v)
			}
		}
	}
	known := readKnown(filepath.Join(vdir, "known_findings.txt"), id)
	var vs []*Violation
	var kf []string
	keys := make([]string, 0, len(c.viol))
	for k := range c.viol {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		v := c.viol[k]
		if m := known.match(v); m != "" {
			kf = append(kf, m)
			continue
		}
		vs = append(vs, v)
	}
	sort.Strings(kf)
	last := ""
	for _, k := range kf {
		if k != last {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
		}
		last = k
	}
	writeEvidence(c, tier, vdir, len(vs), time.Since(t0))
	if len(vs) > 0 {
		rp := filepath.Join(vdir, "evidence", id+".violation.txt")
		var b strings.Builder
		for _, v := range vs {
			fmt.Fprintf(&b, "%s %s [%s] %s\n", v.Rule, v.Where, v.Fn, v.Msg)
			if t := c.rules[v.Rule]; t != "" {
				fmt.Fprintf(&b, "    rule: %s\n", t)
			}
			for _, s := range v.Trace {
				fmt.Fprintf(&b, "    path: %s\n", s)
			}
		}
		_ = os.MkdirAll(filepath.Dir(rp), 0o755)
		_ = os.WriteFile(rp, []byte(b.String()), 0o644)
		for i, v := range vs {
			if i >= 20 {
				break
			}
			fmt.Printf("  %s %s [%s] %s\n", v.Rule, v.Where, v.Fn, v.Msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	_ = os.Remove(filepath.Join(vdir, "evidence", id+".violation.txt"))
	n := 0
	for _, m := range c.obl {
		n += len(m)
	}
	fmt.Printf("OK property=%s obligations=%d functions=%d call-sites=%d paths=%d (%.1fs)\n", id, n, len(c.fns), len(c.sites), c.paths, time.Since(t0).Seconds())
	return 0
}

type knownList []struct{ rule, where, text string }

// known findings: lines "finding: property=<id> rule=<rule> at=<function> <text>"
func readKnown(path, id string) knownList {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out knownList
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+id+" ")
		f := strings.SplitN(rest, " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[0], "rule=") && strings.HasPrefix(f[1], "at=") {
			out = append(out, struct{ rule, where, text string }{f[0][5:], f[1][3:], f[2]})
		}
	}
	return out
}

func (k knownList) match(v *Violation) string {
	for _, x := range k {
		if x.rule == v.Rule && x.where == v.Fn {
			return x.text
		}
	}
	return ""
}

func writeEvidence(c *Ctx, tier, vdir string, nviol int, wall time.Duration) {
	type ruleEv struct {
		Rule    string   `json:"rule"`
		Text    string   `json:"text"`
		Decided int      `json:"constructs_decided"`
		Samples []string `json:"samples"`
	}
	var rs []ruleEv
	ids := map[string]bool{}
	for id := range c.rules {
		ids[id] = true
	}
	for id := range c.obl {
		ids[id] = true
	}
	var order []string
	for id := range ids {
		order = append(order, id)
	}
	sort.Strings(order)
	total := 0
	var samples []string
	for _, id := range order {
		var ks []string
		for k := range c.obl[id] {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		total += len(ks)
		if len(ks) > 8 {
			ks = ks[:8]
		}
		rs = append(rs, ruleEv{id, c.rules[id], len(c.obl[id]), ks})
		for _, k := range ks {
			if len(samples) < 40 {
				samples = append(samples, id+": "+k)
			}
		}
	}
	var fns []string
	for f := range c.fns {
		fns = append(fns, shortName(fnName(f)))
	}
	sort.Strings(fns)
	ev := map[string]interface{}{
		"property": c.Prop, "tier": tier, "seed": *seedFlag, "level": "other",
		"coverage": map[string]interface{}{
			"explanation": "static analysis of the type-checked SSA form of the current working tree: path-sensitive dataflow/typestate rules, decided without executing the code; every counted obligation is a construct (call site, path set, table entry) on which the rule was decided",
			"counts": map[string]interface{}{
				"obligations_decided": total, "functions_analysed": len(c.fns), "call_sites": len(c.sites), "entry_analyses": c.engs,
				"path_classes_at_exit": c.paths, "abstract_steps": c.steps, "lossy_joins": c.lossy,
			},
			"rules":     rs,
			"functions": fns,
			"samples":   samples,
		},
		"wall_s":      wall.Seconds(),
		"assumptions": append([]string{}, c.assum...),
		"violations":  nviol,
	}
	if len(c.assum) == 0 {
		ev["assumptions"] = []string{"library calls behave as documented; calls not listed as pure may modify whatever is reachable from their arguments"}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(vdir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(vdir, "evidence", c.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

// ---------------------------------------------------------------------------
// debugging

func dbgRun(P *Program, pkg, name string) {
	fn := P.fn(pkg, name)
	if fn == nil {
		fmt.Println("no such fn")
		return
	}
	e := P.engine()
	e.hooks.Post = func(e *Eng, st *State, ev *CallEvent) {
		fmt.Println("CALL", P.pos(ev.Pos), shortName(ev.Name), ev.Args, "=>", ev.Res)
	}
	e.opaqueFn = func(f *ssa.Function) bool {
		return f.Pkg != fn.Pkg && f.Pkg != nil && f.Object() != nil && f.Object().Exported() && f.Parent() == nil
	}
	e.mergeAt = 64
	if os.Getenv("MERGE") != "" {
		fmt.Sscan(os.Getenv("MERGE"), &e.mergeAt)
	}
	if os.Getenv("QUIET") != "" {
		e.hooks.Post = nil
	}
	st := newState()
	t := time.Now()
	exits := e.runFn(fn, "E;", symParams(fn), nil, st)
	fmt.Println("exits", len(exits), "steps", e.steps, "lossy", e.lossy, time.Since(t))
	for _, x := range exits {
		fmt.Println("EXIT", x.kind, x.res, P.pos(x.pos))
	}
}

func dumpGlobals(P *Program) {
	for _, k := range sortedTerms(func() map[*Term]bool {
		m := map[*Term]bool{}
		for k := range P.globals.mem {
			m[k] = true
		}
		return m
	}()) {
		fmt.Println(k, "=", P.globals.mem[k])
	}
}
