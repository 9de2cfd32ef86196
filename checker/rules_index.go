package main

// The package index client: downloads and their verification, listing, selection.

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const pep503Dir = "pkg/python/pep503"

// checksums that a link to a file may carry.
var linkHash = map[string]string{"md5": "crypto/md5.New", "sha1": "crypto/sha1.New", "sha224": "crypto/sha256.New224", "sha256": "crypto/sha256.New", "sha384": "crypto/sha512.New384", "sha512": "crypto/sha512.New"}
var sumFuncs = map[string]string{"crypto/md5.Sum": "crypto/md5.New", "crypto/sha1.Sum": "crypto/sha1.New", "crypto/sha256.Sum224": "crypto/sha256.New224", "crypto/sha256.Sum256": "crypto/sha256.New", "crypto/sha512.Sum384": "crypto/sha512.New384", "crypto/sha512.Sum512": "crypto/sha512.New"}

// calleeOf: the name of the function whose result t is, pure or not, and its arguments.
func calleeOf(t *Term) (string, []*Term) {
	if t == nil {
		return "", nil
	}
	if t.Op == "call" {
		return t.Aux, t.Args
	}
	if s, i := t.siteOf(); s != nil && i <= 0 {
		return t.siteName(), s.Args
	}
	return "", nil
}

// hexDigest: t is the hexadecimal digest of content; returns the constructor of the algorithm.
func hexDigest(st *State, t *Term) (ctor string, content *Term) {
	t = stripConv(t)
	n, a := calleeOf(t)
	var x *Term
	switch n {
	case "encoding/hex.EncodeToString":
		x = a[0]
	case "fmt.Sprintf":
		if a[0] == mkStr("%x") && len(a) == 2 && a[1].Op == "list" && len(a[1].Args) == 1 {
			x = unbox(a[1].Args[0])
		}
	}
	if x == nil {
		return "", nil
	}
	x = stripConv(x)
	if x.Op == "subslice" {
		x = x.Args[0]
	}
	n, a = calleeOf(x)
	if k := sumFuncs[n]; k != "" {
		return k, a[0]
	}
	if n != "(hash.Hash).Sum" || !a[1].isNil() {
		return "", nil
	}
	h := unbox(a[0])
	return h.siteName(), st.Mark("hashed:" + h.String())
}

func hashWrite(st *State, ev *CallEvent) {
	switch ev.Name {
	case "(io.Writer).Write", "(hash.Hash).Write":
		h := unbox(ev.Args[0])
		if strings.HasPrefix(h.siteName(), "crypto/") {
			k := "hashed:" + h.String()
			if st.Marked(k) {
				st.SetMark(k, tTrue)
			} else {
				st.SetMark(k, ev.Args[1])
			}
		}
	case "io.Copy", "io.WriteString":
		h := unbox(ev.Args[0])
		if strings.HasPrefix(h.siteName(), "crypto/") {
			k := "hashed:" + h.String()
			v := tTrue
			if n, a := calleeOf(unbox(ev.Args[1])); n == "bytes.NewReader" && !st.Marked(k) {
				v = a[0]
			}
			st.SetMark(k, v)
		}
	}
}

// whole content of the response: io.ReadAll(resp.Body); returns the response.
func bodyOf(t *Term) *Term {
	s, i := t.siteOf()
	if s == nil || i != 0 || t.siteName() != "io.ReadAll" {
		return nil
	}
	b := unbox(s.Args[0])
	if b.Op == "fld" && b.Aux == "Body" && b.Args[0].Op == "deref" {
		return b.Args[0].Args[0]
	}
	return nil
}

func isHTTP(n string) bool {
	switch n {
	case "(*net/http.Client).Do", "(*net/http.Client).Get", "net/http.Get", "(*net/http.Transport).RoundTrip", "(net/http.RoundTripper).RoundTrip", "(*net/http.Client).Post", "net/http.Post", "(*net/http.Client).PostForm", "(*net/http.Client).Head", "net/http.Head":
		return true
	}
	return false
}

// reqURL: the URL that the response came from.
func reqURL(resp *Term) *Term {
	s, i := resp.siteOf()
	if s == nil || i != 0 {
		return nil
	}
	switch resp.siteName() {
	case "(*net/http.Client).Do":
		n, a := calleeOf(s.Args[1])
		switch n {
		case "net/http.NewRequestWithContext":
			if a[1] == mkStr("GET") || a[1] == tEmpty {
				return a[2]
			}
		case "net/http.NewRequest":
			if a[0] == mkStr("GET") || a[0] == tEmpty {
				return a[1]
			}
		}
	case "(*net/http.Client).Get":
		return s.Args[1]
	case "net/http.Get":
		return s.Args[0]
	}
	return nil
}

type index struct {
	c    *Ctx
	rule map[string]string
}

// fragment: t is the fragment of the URL u, parsed.
func fragmentOf(t *Term) *Term {
	if t.Op != "fld" || t.Aux != "Fragment" || t.Args[0].Op != "deref" {
		return nil
	}
	p := t.Args[0].Args[0]
	if n, a := calleeOf(p); n == "net/url.Parse" {
		return a[0]
	}
	// request.URL
	if p.Op == "fld" && p.Aux == "URL" && p.Args[0].Op == "deref" {
		switch n, a := calleeOf(p.Args[0].Args[0]); n {
		case "net/http.NewRequestWithContext":
			return a[2]
		case "net/http.NewRequest":
			return a[1]
		}
	}
	return nil
}

// verified reports why content may not be used, "" if it may.
func (ix *index) verified(e *Eng, st *State, content *Term) string {
	resp := bodyOf(content)
	if resp == nil {
		return "what is used is not the whole body of a response but " + content.show(4)
	}
	s, _ := content.siteOf()
	if errOf(st, s) != yes && !st.Marked("readok:"+s.String()) {
		return "reading the response may have failed"
	}
	if !st.Marked("status200:" + resp.String()) {
		return "the status of the response may be something other than 200"
	}
	u := reqURL(resp)
	if u == nil {
		return "the response is not that to a GET request for a known URL"
	}
	if m := st.Mark("sums:" + u.String()); st.Marked("nofrag:"+u.String()) || m == content || m == tTrue {
		return ""
	}
	return "the checksum in the fragment of the URL may not have been compared"
}

// hook installs the bookkeeping of what was verified.
func (ix *index) hook(e *Eng) {
	c := ix.c
	R := ix.rule["sums"]
	prevPre, prevBranch, prevBack, prevExit := e.hooks.Pre, e.hooks.Branch, e.hooks.BackEdge, e.hooks.LoopExit
	e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
		hashWrite(st, ev)
		if prevPre != nil {
			prevPre(e, st, ev)
		}
	}
	prevPost := e.hooks.Post
	e.hooks.Range = noteRange
	e.hooks.Post = func(e *Eng, st *State, ev *CallEvent) {
		if strings.HasPrefix(ev.Name, "crypto/") && ev.Res != nil {
			st.ClearMark("hashed:" + ev.Res.String())
			markIn(st, ev.Frame, "hnew", ev.Res)
		}
		if prevPost != nil {
			prevPost(e, st, ev)
		}
	}
	// the values of the checksum key that t is one of
	vals := func(t *Term) (key, list *Term) {
		if t.Op != "idx" || !e.ascending(t.Args[1]) {
			return nil, nil
		}
		return sumKey(t.Args[0]), t.Args[0]
	}
	known := func(st *State, key *Term) string {
		for a := range linkHash {
			if st.decide(mkEq(key, mkStr(a))) == yes {
				return a
			}
		}
		return ""
	}
	e.hooks.Branch = func(e *Eng, st *State, fr *frame, cond *Term, val bool, in ssa.Instruction) {
		if prevBranch != nil {
			prevBranch(e, st, fr, cond, val, in)
		}
		for cond.Op == "not" {
			cond, val = cond.Args[0], !val
		}
		if cond.Op == "bin" && cond.Aux == "==" && val {
			for _, ab := range [][2]*Term{{cond.Args[0], cond.Args[1]}, {cond.Args[1], cond.Args[0]}} {
				a, b := ab[0], ab[1]
				if a.Op == "fld" && a.Aux == "StatusCode" && a.Args[0].Op == "deref" && b == mkInt(200) {
					st.SetMark("status200:"+a.Args[0].Args[0].String(), tTrue)
				}
				if b == tEmpty {
					if u := fragmentOf(a); u != nil {
						st.SetMark("nofrag:"+u.String(), tTrue)
					}
				}
				if a.siteName() == "io.ReadAll" && b.isNil() {
					s, _ := a.siteOf()
					st.SetMark("readok:"+s.String(), tTrue)
				}
				ix.compare(st, fr, a, b, vals, known)
			}
		}
		if cond.isCall("strings.EqualFold") && val {
			ix.compare(st, fr, cond.Args[0], cond.Args[1], vals, known)
			ix.compare(st, fr, cond.Args[1], cond.Args[0], vals, known)
		}
		// url.Parse of the URL that was requested cannot fail
		if cond.Op == "bin" && cond.Aux == "==" && !val && cond.Args[1].isNil() && cond.Args[0].siteName() == "net/url.Parse" {
			s, _ := cond.Args[0].siteOf()
			st.SetMark("nofrag:"+s.Args[0].String(), tTrue)
		}
		// all values seen
		if cond.Op == "bin" && cond.Aux == "<" && !val && cond.Args[1].isCall("len") && e.ascending(cond.Args[0]) {
			if l := cond.Args[1].Args[0]; sumKey(l) != nil {
				markIn(st, fr, "vdone", l)
			}
		}
	}
	e.hooks.BackEdge = func(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) {
		if prevBack != nil {
			prevBack(e, st, fr, header)
		}
		if m := rangeOver(e, st, fr, header); m != nil { // over the keys
			if n, a := calleeOf(m); n == "net/url.ParseQuery" && fragmentOf(a[0]) != nil {
				var key *Term
				for f := range st.facts {
					f.any(func(t *Term) bool {
						if t.Op == "rangekey" && t.Args[0] == m {
							key = t
						}
						return key != nil
					})
				}
				if inLoop(st, fr, "vdone") {
					c.iterOK(e, ix.rule["algs"], fr, header)
				} else if key == nil || !unknownAlg(st, key) {
					c.iterBad(e, st, ix.rule["algs"], fr, header, "the checksums of an algorithm may be passed over")
				}
				clearIn(st, "vdone", "hnew")
				for k := range st.marks {
					if strings.HasPrefix(k, "hashed:") {
						st.ClearMark(k)
					}
				}
				return
			}
		}
		if l := listOver(e, st, fr, header); l != nil {
			if key := sumKey(l); key != nil {
				switch {
				case inLoop(st, fr, "vsum"):
					c.iterOK(e, R, fr, header)
				case unknownAlg(st, key):
				default:
					c.iterBad(e, st, R, fr, header, "a checksum of the fragment may be accepted without being equal to that of the content")
				}
				clearIn(st, "vsum")
				if inLoop(st, fr, "hnew") {
					for k := range st.marks {
						if strings.HasPrefix(k, "hashed:") {
							st.ClearMark(k)
						}
					}
					clearIn(st, "hnew")
				}
			}
		}
	}
	e.hooks.LoopExit = func(e *Eng, st *State, fr *frame, header, from, to *ssa.BasicBlock) {
		if prevExit != nil {
			prevExit(e, st, fr, header, from, to)
		}
		if m := rangeOver(e, st, fr, header); m != nil && from == header {
			if n, a := calleeOf(m); n == "net/url.ParseQuery" {
				if u := fragmentOf(a[0]); u != nil {
					v := st.Mark("content")
					if v == nil {
						v = tTrue
					}
					st.SetMark("sums:"+u.String(), v)
				}
			}
		}
	}
}

// sumKey: l is the list of checksums that the fragment has under a key; returns the key.
func sumKey(l *Term) *Term {
	if l.Op != "rangeval" && l.Op != "lookup" || len(l.Args) < 2 || l.Args[1].Op != "rangekey" || l.Args[1].Args[0] != l.Args[0] {
		return nil
	}
	if n, a := calleeOf(l.Args[0]); n != "net/url.ParseQuery" || fragmentOf(a[0]) == nil {
		return nil
	}
	return l.Args[1]
}

func unknownAlg(st *State, key *Term) bool {
	for a := range linkHash {
		if st.decide(mkEq(key, mkStr(a))) != no {
			return false
		}
	}
	return true
}

func (ix *index) compare(st *State, fr *frame, a, b *Term, vals func(*Term) (*Term, *Term), known func(*State, *Term) string) {
	key, list := vals(b)
	if key == nil {
		return
	}
	ctor, content := hexDigest(st, a)
	alg := known(st, key)
	if alg == "" || linkHash[alg] != ctor || content == nil || bodyOf(content) == nil {
		return
	}
	_ = list
	st.SetMark("content", content)
	markIn(st, fr, "vsum", b)
}

// rangeOver: the loop at header goes over a map (or string); returns it.
func rangeOver(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) *Term {
	for _, in := range header.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if r, ok := n.Iter.(*ssa.Range); ok {
				if x := st.Mark("rng:" + e.iid(r)); x != nil {
					return x
				}
				return e.val(fr, st, r.X)
			}
		}
	}
	return nil
}

// noteRange is to be called from the Range hook.
func noteRange(e *Eng, st *State, fr *frame, x *Term, in ssa.Instruction) {
	st.SetMark("rng:"+e.iid(in), x)
}

// listOver: the loop at header runs while an index is below the length of a list; returns the list.
func listOver(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) *Term {
	if len(header.Instrs) == 0 {
		return nil
	}
	cond, ok := header.Instrs[len(header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	b, ok := cond.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	for _, v := range []ssa.Value{b.X, b.Y} {
		if l, ok := v.(*ssa.Call); ok {
			if bi, ok := l.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				x := e.val(fr, st, l.Call.Args[0])
				if x.Op == "sym" && strings.Contains(x.Aux, "undef:") { // no longer used
					if n := e.val(fr, st, l); n.isCall("len") {
						return n.Args[0]
					}
					if u, ok := l.Call.Args[0].(*ssa.UnOp); ok && u.Op == token.MUL {
						if a := e.val(fr, st, u.X); !(a.Op == "sym" && strings.Contains(a.Aux, "undef:")) {
							return st.load(a, u.Type())
						}
					}
				}
				return x
			}
		}
	}
	return nil
}

// listTest: the block of the loop at header that ends the loop once an index has reached the length of a list, and the list.
func listTest(e *Eng, st *State, fr *frame, header *ssa.BasicBlock) (*ssa.BasicBlock, *Term) {
	if l := listOver(e, st, fr, header); l != nil {
		return header, l
	}
	body := naturalLoop(header)
	for _, b := range header.Parent().Blocks {
		if !body[b] || len(b.Instrs) == 0 {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); !ok || body[b.Succs[0]] && body[b.Succs[1]] {
			continue
		}
		if l := listOver(e, st, fr, b); l != nil {
			return b, l
		}
	}
	return nil, nil
}

// ranThrough: the branch leaves a loop because an index has reached the length of a list; returns the list.
func ranThrough(e *Eng, st *State, fr *frame, in ssa.Instruction, val bool) *Term {
	b := in.Block()
	if _, ok := in.(*ssa.If); !ok {
		return nil
	}
	l := listOver(e, st, fr, b)
	if l == nil {
		return nil
	}
	to := b.Succs[1]
	if val {
		to = b.Succs[0]
	}
	for _, h := range b.Parent().Blocks {
		if h.Dominates(b) {
			if body := naturalLoop(h); len(body) > 1 && body[b] && !body[to] {
				return l
			}
		}
	}
	return nil
}

func ruleC20(c *Ctx) {
	c.rule("C20.only", "all HTTP requests are made by the package index client, in functions that are analysed here", 1)
	c.rule("C20.verify", "what a request delivers is used (returned or parsed) only if it is the complete body of a response with status 200 and the URL has no fragment or all checksums in it were compared", 3)
	c.rule("C20.sums", "each checksum that the fragment of the URL gives for a known algorithm is found equal to that of the complete body, or there is an error", 1)
	c.rule("C20.algs", "no known algorithm for which the fragment of the URL gives checksums is passed over", 1)
	c.rule("C20.url", "a file is requested from the URL of its link; its signature from the same without fragment and with .asc", 2)
	c.rule("C20.cli", "getwheel writes exactly the content of the file whose link has the given name", 1)
	P := c.P
	done := map[*ssa.Function]bool{}
	ix := &index{c: c, rule: map[string]string{"sums": "C20.sums", "algs": "C20.algs"}}
	for _, f := range c.shipped() {
		if pkgDir(f) != pep503Dir || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || f.Synthetic != "" || !P.reachesFn(f, func(g *ssa.Function) bool { return done[g] || callsAny(g, isHTTP) }) {
			continue
		}
		P.reachesFn(f, func(g *ssa.Function) bool { done[g] = true; return false })
		done[f] = true
		c.indexEntry(ix, f)
	}
	for _, f := range c.shipped() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cc, ok := in.(ssa.CallInstruction); ok && isHTTP(calleeName(cc.Common())) {
					if done[f] {
						c.okAt("C20.only", P.pos(posOf(in)))
					} else {
						c.failAt("C20.only", posOf(in), f, "a request is made outside of the package index client, and its result is not checked", nil)
					}
				}
			}
		}
	}
	c.getwheel()
}

func callsAny(f *ssa.Function, pred func(string) bool) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if cc, ok := in.(ssa.CallInstruction); ok && pred(calleeName(cc.Common())) {
				return true
			}
		}
	}
	return false
}

// indexEntry analyses one exported operation of the client.
func (c *Ctx) indexEntry(ix *index, fn *ssa.Function) {
	exits := c.run("C20.verify", fn, nil, func(e *Eng, st *State) {
		e.mergeAt = 3000
		e.hooks.Pre = func(e *Eng, st *State, ev *CallEvent) {
			if ev.Name == "golang.org/x/net/html.Parse" {
				n, a := calleeOf(unbox(ev.Args[0]))
				if n != "bytes.NewReader" && n != "bytes.NewBuffer" && n != "strings.NewReader" {
					c.fail(e, st, "C20.verify", ev.Instr, "a page is parsed that is not a complete verified response: %s", ev.Args[0].show(4))
					return
				}
				if why := ix.verified(e, st, stripConv(a[0])); why != "" {
					c.fail(e, st, "C20.verify", ev.Instr, "a page is parsed although %s", why)
				} else {
					c.ok(e, "C20.verify", ev.Instr, "page")
				}
			}
		}
		ix.hook(e)
	})
	sig := fn.Signature.Results()
	if sig.Len() != 2 || !isBytes(sig.At(0).Type()) {
		return
	}
	for _, x := range exits {
		if x.kind != 0 || errState(x.st, x.res[1]) == no {
			continue
		}
		content := x.res[0]
		if content.isNil() {
			c.failAt("C20.verify", x.pos, fn, "success is reported without any content", x.st)
			continue
		}
		if why := ix.verified(nil, x.st, content); why != "" {
			c.failAt("C20.verify", x.pos, fn, "content is returned although "+why, x.st)
			continue
		}
		c.okAt("C20.verify", shortName(fnName(fn))+" returns content")
		u := reqURL(bodyOf(content))
		href := func(t *Term) bool { return t.Op == "fld" && t.Aux == "HRef" && strings.HasPrefix(t.String(), "param:") }
		switch fn.Name() {
		case "Get":
			if href(u) {
				c.okAt("C20.url", "Get")
			} else {
				c.failAt("C20.url", x.pos, fn, "the file is requested from something other than the URL of its link: "+u.show(5), x.st)
			}
		case "GetSignature":
			if u.Op == "concat" && len(u.Args) == 2 && u.Args[1] == mkStr(".asc") && splitPart(x.st, u.Args[0], "#", 0) != nil && href(splitPart(x.st, u.Args[0], "#", 0)) {
				c.okAt("C20.url", "GetSignature")
			} else {
				c.failAt("C20.url", x.pos, fn, "the signature is requested from something other than the URL of its link without fragment and with .asc: "+u.show(5), x.st)
			}
		}
	}
}

// getwheel: the command that writes a downloaded file to the standard output.
func (c *Ctx) getwheel() {
	found := false
	for _, f := range c.P.cmdFns() {
		if !c.P.reachesAny(f, "(github.com/datawire/ocibuild/pkg/python/pep503.FileLink).Get") {
			continue
		}
		found = true
		exits := c.run("C20.cli", f, nil, func(e *Eng, st *State) {
			e.mergeAt = 3000
			e.hooks.Post = func(e *Eng, st *State, ev *CallEvent) {
				if isStdoutWrite(ev) {
					if st.Marked("wrote") {
						c.fail(e, st, "C20.cli", ev.Instr, "something else than the one file is written")
					}
					st.SetMark("wrote", ev.Args[1])
					v := unbox(ev.Args[1])
					if n, a := calleeOf(v); n == "bytes.NewReader" || n == "bytes.NewBuffer" || n == "strings.NewReader" {
						v = a[0]
					}
					if v.Op == "conv" {
						v = v.Args[0]
					}
					s, i := v.siteOf()
					if s == nil || i != 0 || !strings.HasSuffix(v.siteName(), "pep503.FileLink).Get") {
						c.fail(e, st, "C20.cli", ev.Instr, "what is written is not the verified content of a file of the index: %s", v.show(4))
						return
					}
					if errOf(st, s) != yes {
						c.fail(e, st, "C20.cli", ev.Instr, "content is written although the download may have failed")
					}
					link := s.Args[0]
					t := valField(link, "Link")
					if t != nil {
						t = valField(t, "Text")
					}
					if t == nil || !eqFact(st, func(a, b *Term) bool {
						return a == t && b.Op == "idx" && b.Args[1] == tZero && strings.HasPrefix(b.Args[0].String(), "param:")
					}) {
						c.fail(e, st, "C20.cli", ev.Instr, "the file that is written may not be the one that was asked for")
						return
					}
					c.ok(e, "C20.cli", ev.Instr, "")
				}
			}
		})
		for _, x := range exits {
			if x.kind == 0 && len(x.res) == 1 && errState(x.st, x.res[0]) != no && !x.st.Marked("wrote") {
				c.failAt("C20.cli", x.pos, f, "success is reported although nothing was written", x.st)
			}
		}
	}
	if !found {
		c.missing("C20.cli", "the command that downloads a wheel")
	}
}

func init() { propRules["C20"] = ruleC20 }
