package main

// Constant texts of the analysed program: templates and regular expressions.

import (
	"regexp/syntax"
	"strings"
	"text/template"
)

// renderTemplate folds a constant template with placeholder values.
func renderTemplate(txt string, vals map[string]string) (string, error) {
	t, err := template.New("x").Option("missingkey=error").Parse(txt)
	if err != nil {
		return "", err
	}
	var b strings.Builder
	if err := t.Execute(&b, vals); err != nil {
		return "", err
	}
	return b.String(), nil
}

// matchMarks matches got against a text with {{X}} holes; each hole takes exactly one \x01name\x02 mark.
func matchMarks(want, got string) map[string]string {
	out := map[string]string{}
	for {
		i := strings.Index(want, "{{")
		if i < 0 {
			if want != got {
				return nil
			}
			return out
		}
		if !strings.HasPrefix(got, want[:i]) {
			return nil
		}
		got = got[i:]
		j := strings.Index(want, "}}")
		name := want[i+2 : j]
		want = want[j+2:]
		if !strings.HasPrefix(got, "\x01") {
			return nil
		}
		k := strings.Index(got, "\x02")
		if k < 0 {
			return nil
		}
		out[name] = got[:k+1]
		got = got[k+1:]
	}
}

// regexText: the constant pattern of a compiled regular expression.
func regexText(t *Term) (string, bool) {
	var s string
	ok := false
	t.any(func(x *Term) bool {
		if x.isCall("regexp.MustCompile") || x.siteName() == "regexp.MustCompile" || x.siteName() == "regexp.Compile" || x.isCall("regexp.Compile") {
			if y := mustSite(x); len(y.Args) > 0 {
				s, ok = y.Args[0].str()
			} else if len(x.Args) > 0 {
				s, ok = x.Args[0].str()
			}
			return ok
		}
		return false
	})
	return s, ok
}

func subexpIndex(pat, name string) int {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return -1
	}
	for i, n := range re.CapNames() {
		if n == name {
			return i
		}
	}
	return -1
}

// anchoredGroup: the pattern matches whole strings only, and group g admits only word characters and those in extra.
func anchoredGroup(pat string, g int, extra string) string {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return "does not parse"
	}
	if !anchored(re) {
		return "is not anchored at both ends"
	}
	var grp *syntax.Regexp
	var find func(r *syntax.Regexp)
	find = func(r *syntax.Regexp) {
		if r.Op == syntax.OpCapture && r.Cap == g {
			grp = r
		}
		for _, s := range r.Sub {
			find(s)
		}
	}
	find(re)
	if grp == nil {
		return "has no such group"
	}
	allowed := func(c rune) bool {
		return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || strings.ContainsRune(extra, c)
	}
	bad := ""
	var chk func(r *syntax.Regexp)
	chk = func(r *syntax.Regexp) {
		switch r.Op {
		case syntax.OpLiteral:
			for _, c := range r.Rune {
				if !allowed(c) {
					bad = "admits characters that are not part of a reference"
				}
			}
		case syntax.OpCharClass:
			for i := 0; i+1 < len(r.Rune); i += 2 {
				if r.Rune[i+1]-r.Rune[i] > 128 {
					bad = "admits characters that are not part of a reference"
					return
				}
				for c := r.Rune[i]; c <= r.Rune[i+1]; c++ {
					if !allowed(c) {
						bad = "admits characters that are not part of a reference"
					}
				}
			}
		case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
			bad = "admits any character"
		}
		for _, s := range r.Sub {
			chk(s)
		}
	}
	chk(grp)
	return bad
}

// anchored: every match starts at the beginning and ends at the end of the text.
func anchored(re *syntax.Regexp) bool {
	begin := func(r *syntax.Regexp) bool { return r.Op == syntax.OpBeginText }
	end := func(r *syntax.Regexp) bool { return r.Op == syntax.OpEndText }
	switch re.Op {
	case syntax.OpConcat:
		return len(re.Sub) > 1 && begin(re.Sub[0]) && end(re.Sub[len(re.Sub)-1])
	case syntax.OpCapture:
		return anchored(re.Sub[0])
	case syntax.OpAlternate:
		for _, s := range re.Sub {
			if !anchored(s) {
				return false
			}
		}
		return true
	}
	return false
}
