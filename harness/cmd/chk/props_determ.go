package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"candverif/gen"
	"candverif/lang"
	"candverif/run"
)

// C27: what the compiler answers is a function of the sources. The same
// program is given to the same process twice, to a process that compiled other
// programs and to a fresh one; messages are compared as text, modules up to
// the names LLVM does not interpret.

func init() { judges["determ"] = judgeDeterm }

var llNameRe = regexp.MustCompile(`[@%]("(\\[0-9A-Fa-f]{2}|[^"\\])*"|[A-Za-z0-9._$-]+)|[A-Za-z._$0-9-]+:`)
var llLabelRe = regexp.MustCompile(`^("[^"]*"|[A-Za-z0-9._$-]+):$`)

// canonIR renames everything in order of appearance. Names without a body are
// those of the C library: they stay.
func canonIR(ll string) string {
	ext := map[string]bool{"@main": true}
	for _, l := range strings.Split(ll, "\n") {
		if strings.HasPrefix(l, "declare ") {
			if m := llNameRe.FindString(l[strings.IndexByte(l, '@'):]); m != "" {
				ext[m] = true
			}
		}
	}
	names := map[string]string{}
	var out strings.Builder
	for _, l := range strings.Split(ll, "\n") {
		if llLabelRe.MatchString(l) {
			l = "%" + strings.TrimSuffix(l, ":") + " (label)"
		}
		out.WriteString(llNameRe.ReplaceAllStringFunc(l, func(n string) string {
			if n[0] != '@' && n[0] != '%' || ext[n] {
				return n
			}
			r, ok := names[n]
			if !ok {
				r = fmt.Sprintf("%cN%d", n[0], len(names))
				names[n] = r
			}
			return r
		}))
		out.WriteByte('\n')
	}
	return out.String()
}

func determAnswer(e *Env, c *Case, dir string) string {
	ll := filepath.Join(dir, "prog.out.ll")
	os.Remove(ll)
	r := e.W.Do(run.Req{Op: "ir", Src: c.Src, Dir: dir, Out: filepath.Join(dir, "prog.out")})
	if r.Hang || r.Panic != "" || (r.Died && !locatedRe.MatchString(r.Why())) {
		return "fails internally" // that is for C18 to judge
	}
	if r.Died {
		i := locatedRe.FindStringIndex(r.Why())
		return "diagnostic " + r.Why()[i[0]:]
	}
	a := r.Stage + "\n" + strings.Join(r.ParseErrs, "\n") + "\n" + strings.Join(r.SemErrs, "\n")
	if r.Stage == "done" {
		b, _ := os.ReadFile(ll)
		a += "\n" + canonIR(string(b)) + "\n" + strings.Join(r.Flags, " ")
	}
	return a
}

func judgeDeterm(e *Env, c *Case) string {
	dir := e.W.Reset(c.Files)
	first := determAnswer(e, c, dir)
	for i := 0; i < 6; i++ {
		switch {
		case i == 2:
			e.W.Do(run.Req{Op: "ir", Src: c.X["other"], Dir: dir, Out: filepath.Join(dir, "other.out")})
		case i == 4:
			e.W.Stop()
		}
		if a := determAnswer(e, c, dir); a != first {
			return fmt.Sprintf("compiled %d times, the answers differ: %s", i+2, diffOut(first, a))
		}
	}
	return ""
}

func genDeterm(s *gen.Src) *Case {
	var c *Case
	switch s.W(3, 2, 2, 1) {
	case 0:
		c = genModules(s)
		s.Label("modules")
	case 1:
		c = genRobustSeeds(s)
		s.Label("mutated")
	case 2:
		c = genRule(true)(s)
		s.Label("rejected")
	default:
		o := lang.DefaultOpt()
		c = runCase(s, lang.NewG(s, o).GenProg(), 1)
		s.Label("program")
	}
	if c == nil {
		return nil
	}
	x := map[string]string{"other": robustSeeds[s.N(len(robustSeeds))]}
	if i := strings.Index(x["other"], "\n--- "); i >= 0 {
		x["other"] = x["other"][:i]
	}
	return &Case{Judge: "determ", Src: c.Src, Files: c.Files, X: x, NonTr: len(c.Src) > 20}
}

// genDetermMethods: several imported files have a method for the same type and
// name, which is where an answer could depend on the order of a Go map.
func genDetermMany(s *gen.Src) *Case {
	n := s.Range(2, 7)
	files := map[string]string{"base.cd": "struct T { a i32 }\nfunc mk(x i32) T { return @T{a: x}; }\n"}
	var b strings.Builder
	b.WriteString("import base, \"./base.cd\";\n")
	for _, i := range s.Perm(n) {
		name := fmt.Sprintf("m%d", i)
		t := "import base, \"./base.cd\";\n"
		for k := s.Range(1, 4); k > 0; k-- {
			switch s.N(4) {
			case 0:
				t += fmt.Sprintf("struct S%d { a i32 b i64 }\n", k)
			case 1:
				t += fmt.Sprintf("g%d : i32 = %d;\n", k, s.N(99))
			case 2:
				t += fmt.Sprintf("func f%d(t base.T) i32 { return t.a + %d; }\n", k, s.N(99))
			case 3:
				t += fmt.Sprintf("func h%d(x i32) i32 { f := func(y i32) i32 { return x + y; }; return f(%d); }\n", k, s.N(99))
			}
		}
		files[name+".cd"] = t
		fmt.Fprintf(&b, "import %s, \"./%s.cd\";\n", name, name)
	}
	b.WriteString("func main() {\n\tt := base.mk(4);\n")
	for k := 0; k < s.Range(1, 5); k++ {
		b.WriteString([]string{
			"\t@print(t.f" + fmt.Sprint(s.N(5)) + "());\n",
			"\t@print(m" + fmt.Sprint(s.N(n)) + ".g" + fmt.Sprint(s.N(5)) + ");\n",
			"\t@print(m" + fmt.Sprint(s.N(n)) + ".h" + fmt.Sprint(s.N(5)) + "(3));\n",
			"\tq" + fmt.Sprint(k) + " : i32 = zz" + fmt.Sprint(k) + ";\n",
			"\t@print(t);\n",
		}[s.W(3, 3, 3, 1, 1)])
	}
	b.WriteString("}\n")
	return &Case{Judge: "determ", Src: b.String(), Files: files, X: map[string]string{"other": "func main() { @print(1); }"}, NonTr: true}
}

func init() {
	register(&Prop{ID: "C27", Title: "determinism", Rule: "seven answers for the same sources were compared; distinct by sources", Assum: assumBase, Fams: []Fam{
		{Name: "answers", Quick: 1500, Thorough: 40000, Gen: genDeterm},
		{Name: "many-files", Quick: 1200, Thorough: 30000, Gen: genDetermMany},
	}})
}
