package main

import (
	"fmt"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"candverif/gen"
	"candverif/lang"
	"candverif/run"
)

// C28: a program with one violation; every error must be at a line of the text
// that breaks the rule, after the chain of imports that leads to its file.

func init() { judges["places"] = judgePlaces }

var placeRe = regexp.MustCompile(`(?:on |\[)(\d+):(\d+)`)

func inRanges(l int, rs string) bool {
	for _, r := range strings.Fields(rs) {
		var a, b int
		fmt.Sscanf(r, "%d-%d", &a, &b)
		if a <= l && l <= b {
			return true
		}
	}
	return false
}

func placeLine(m string) int {
	x := placeRe.FindStringSubmatch(m)
	if x == nil {
		return -1
	}
	n, _ := strconv.Atoi(x[1])
	return n
}

// judgePlaces: X["ranges"] are the lines of the violation; X["chain"] the lines and
// paths of the imports that lead to it; X["first"] judges the first error only.
func judgePlaces(e *Env, c *Case) string {
	dir := e.W.Reset(c.Files)
	r := e.W.Do(run.Req{Op: "ir", Src: c.Src, Dir: dir, Out: filepath.Join(dir, "prog.out")})
	var errs []string
	switch {
	case r.Died && locatedRe.MatchString(r.Why()) && !strings.Contains(r.Why(), "Internal error"):
		m := r.Output
		if k := locatedRe.FindStringIndex(m); k != nil {
			m = m[k[0]:]
		}
		if inRanges(placeLine(m), c.X["ranges"]) {
			return ""
		}
		return fmt.Sprintf("the violation is on lines %s: %s", c.X["ranges"], clip(m, 500))
	case r.Hang || r.Died || r.Panic != "":
		return "an invalid program is not rejected cleanly: " + r.Why()
	default:
		errs = append(append(errs, r.ParseErrs...), r.SemErrs...)
	}
	if len(errs) == 0 {
		return "an invalid program is accepted: " + c.X["why"]
	}
	if ch := strings.Fields(c.X["chain"]); len(ch) > 0 {
		for i := 0; i < len(ch); i += 2 {
			want, _ := strconv.Atoi(ch[i])
			if len(errs) == 0 || placeLine(errs[0]) != want || !strings.Contains(errs[0], ch[i+1]) {
				return fmt.Sprintf("the import of %q on line %d is not mentioned at its place: %s", ch[i+1], want, clip(strings.Join(errs, " | "), 500))
			}
			errs = errs[1:]
		}
		if len(errs) == 0 {
			return "the imported file is wrong and only its import is mentioned"
		}
	}
	for i, m := range errs {
		if c.X["first"] != "" && i > 0 {
			break
		}
		if !inRanges(placeLine(m), c.X["ranges"]) {
			return fmt.Sprintf("an error is reported on line %d, the violation is on lines %s: %s", placeLine(m), c.X["ranges"], clip(m, 500))
		}
	}
	return ""
}

// spread breaks the lines of a text at random spaces.
func spread(s *gen.Src, t string) string {
	if s.P(1, 2) {
		return t
	}
	var b strings.Builder
	quote := false
	for i := 0; i < len(t); i++ {
		ch := t[i]
		if ch == '"' {
			quote = !quote
		}
		if ch == ' ' && !quote && s.P(1, 4) && !strings.HasSuffix(t[:i], "return") && !strings.HasPrefix(t, "#") {
			b.WriteString(s.Pick("\n", "\n ", "\n\n", " // c\n"))
			continue
		}
		b.WriteByte(ch)
	}
	return b.String()
}

// where gives the lines of each of the texts in src, or "" when one is not there once.
func where(src string, texts []string) string {
	var out []string
	for _, t := range texts {
		t = strings.TrimSpace(t)
		if strings.Count(src, t) != 1 {
			return ""
		}
		a := 1 + strings.Count(src[:strings.Index(src, t)], "\n")
		out = append(out, fmt.Sprintf("%d-%d", a, a+strings.Count(t, "\n")))
	}
	return strings.Join(out, " ")
}

func genPlaces(s *gen.Src) *Case {
	r := rules[s.N(len(rules))]
	st, items := r.f(s, true)
	if len(items) == 1 && strings.HasPrefix(items[0], "\x00") {
		st = fmt.Sprintf(st, items[0][1:])
		items = nil
	}
	if st == "" && items == nil {
		return nil
	}
	var texts []string
	if st != "" {
		st = spread(s, st)
		texts = append(texts, st)
	}
	for i := range items {
		items[i] = spread(s, items[i])
		texts = append(texts, items[i])
	}
	c := &Case{Judge: "places", NonTr: true, Files: map[string]string{}, X: map[string]string{"note": strings.Join(texts, " "), "why": r.name}}
	for n, t := range ruleFiles {
		c.Files[n] = t
	}
	s.Label("rule:" + r.name)
	if r.name == "imported file" || r.name == "type arguments of an import" {
		c.X["first"] = "1" // then come the errors of the imported file
	}
	if s.P(1, 4) {
		// in a file at the end of a chain of imports
		s.Label("imported")
		var b strings.Builder
		b.WriteString(ruleImports)
		b.WriteString(rulePrelude)
		fill := func(b *strings.Builder) {
			for i := s.N(5); i > 0; i-- {
				b.WriteString(s.Pick("\n", "// x\n", "\n\n"))
			}
		}
		fill(&b)
		for i, it := range items {
			fmt.Fprintf(&b, "func zfill%d() { }\n", i)
			b.WriteString(strings.TrimSpace(it) + "\n")
			fill(&b)
		}
		if st != "" {
			b.WriteString("func zbody() {\n")
			fill(&b)
			b.WriteString(st + "\n}\n")
		}
		leaf := b.String()
		c.X["ranges"] = where(leaf, texts)
		chain := []string{}
		name := "zleaf.cd"
		c.Files[name] = leaf
		for i := s.Range(1, 3); i > 0; i-- {
			var m strings.Builder
			fill(&m)
			l := 1 + strings.Count(m.String(), "\n")
			fmt.Fprintf(&m, "import zx, \"%s\"\n", name)
			fill(&m)
			fmt.Fprintf(&m, "func zfn%d() { }\n", i)
			chain = append([]string{fmt.Sprint(l), name}, chain...)
			if i == 1 {
				c.Src = m.String() + "func main() { }\n"
				break
			}
			name = fmt.Sprintf("zstep%d.cd", i)
			c.Files[name] = m.String()
		}
		c.X["chain"] = strings.Join(chain, " ")
	} else {
		o := lang.DefaultOpt()
		o.Stmts, o.Funcs, o.FnStmts, o.Structs, o.Globals, o.NoDump = s.N(7), s.N(3), 3, 1, 1, true
		g := lang.NewG(s, o)
		p := g.GenProg()
		if st != "" {
			insertAt(s, p, st)
		}
		for _, it := range items {
			k := s.N(len(p.Items) + 1)
			ni := append([]lang.Item(nil), p.Items[:k]...)
			ni = append(ni, lang.Item{Raw: []string{it}})
			p.Items = append(ni, p.Items[k:]...)
		}
		c.Src = padding(s) + ruleImports + rulePrelude + padding(s) + lang.Source(p)
		c.X["ranges"] = where(c.Src, texts)
	}
	if c.X["ranges"] == "" {
		return nil
	}
	return c
}

// brokenTexts cannot be parsed, and end on the line they start on.
var brokenTexts = []string{
	"{ zx := ; }", "{ zx := 3 +; }", "{ zx := 3 * / 2; }", "{ zfun(1, ; }", "{ zfun(1; }", "{ zx := (1 + 2; }", "{ zx := [2]i32{1, 2; }", "{ zx := @ZS{zf: 1, zg \"a\"}; }", "{ zx : = ; }", "{ zx : i32; }",
	"{ zx : = = 3; }", "{ if { } }", "{ for ; ; { } }", "{ zx := ) ; }", "{ zx := ] ; }", "{ zx = ; }", "{ zx.; }", "{ zx := 3 as ; }", "{ zx := &; }", "{ zx := *; }", "{ zx := [2]{1, 2}; }", "{ zx := func( { }; }",
	"{ zx := func(a) { }; }", "{ zx := @; }", "{ zx[3; }", "{ zx := $; }", "{ zx := ?3; }", "{ switch 3 { case { } } }", "{ switch 3 { 1 { } } }", "{ zx, := 1; }", "{ , zx = 1; }", "{ zx := 'ab'; }", "{ zx := :i32 3; }", "{ else { } }", "{ case 1 { } }",
}

// padding moves the rest of the text down.
func padding(s *gen.Src) string {
	n := 0
	switch s.W(60, 10, 3, 1) {
	case 0:
		return ""
	case 1:
		n = 1 + s.N(40)
	case 2:
		n = 200 + s.N(400)
	case 3:
		n = 65000 + s.N(2000)
	}
	s.Label("moved down")
	return strings.Repeat(s.Pick("\n", "// c\n", " \n", "\r\n"), n)
}

func genSyntaxPlaces(s *gen.Src) *Case {
	t := brokenTexts[s.N(len(brokenTexts))]
	o := lang.DefaultOpt()
	o.Stmts, o.Funcs, o.FnStmts, o.Structs, o.Globals, o.NoDump = s.N(7), s.N(3), 3, 1, 1, true
	g := lang.NewG(s, o)
	p := g.GenProg()
	insertAt(s, p, t)
	c := &Case{Judge: "places", NonTr: true, Src: padding(s) + ruleImports + rulePrelude + padding(s) + lang.Source(p), Files: ruleFiles, X: map[string]string{"note": t, "why": "syntax", "first": "1"}}
	c.X["ranges"] = where(c.Src, []string{t})
	if c.X["ranges"] == "" {
		return nil
	}
	s.Label("text:" + t)
	return c
}

func init() {
	register(&Prop{ID: "C28", Title: "places", Rule: "a program with exactly one violation, at a place whose lines are known; distinct by text", Fams: []Fam{
		{Name: "rules", Quick: 16000, Thorough: 400000, Gen: genPlaces},
		{Name: "syntax", Quick: 4000, Thorough: 60000, Gen: genSyntaxPlaces},
	}})
}
