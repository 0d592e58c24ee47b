package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"candverif/gen"
	"candverif/run"
)

// C19: histories of edits and candice commands over one project, in a scratch
// directory. Every step carries what the model says about it.

type cliStep struct {
	Write map[string]string `json:"write,omitempty"` // files written before the command
	Args  []string          `json:"args"`
	Tool  string            `json:"tool,omitempty"` // "" = candice, "compiler" = the one-file compiler
	Stdin string            `json:"stdin,omitempty"`
	// What must be seen.
	Ok   bool   `json:"ok"`
	Run  bool   `json:"run,omitempty"`  // the command runs the program: its output is Want
	Want string `json:"want,omitempty"` // output of the program
	RC   int    `json:"rc"`
	Out  string `json:"out,omitempty"` // executable or object that exists afterwards
	Obj  bool   `json:"obj,omitempty"`
	Keep string `json:"keep,omitempty"` // executable that must be as before
	CC   string `json:"cc,omitempty"`   // arguments the configured compiler must have seen, in this order
	Tree bool   `json:"tree,omitempty"`
	Init string `json:"init,omitempty"`
}

func init() { judges["cli"] = judgeCli }

var warnRe = regexp.MustCompile(`(?m)^(\x1b\[[0-9;]*m)* Warning [^\n]*\n`)
var escRe = regexp.MustCompile(`\x1b\[[0-9;]*m`)
var markRe = regexp.MustCompile(`MARK[0-9]+:`)

func judgeCli(e *Env, c *Case) string {
	dir := e.W.Reset(c.Files)
	os.WriteFile(filepath.Join(dir, "mycc"), []byte("#!/bin/sh\nfor a in \"$@\"; do echo \"$a\"; done >> cc.log\nexec clang \"$@\"\n"), 0o755)
	written := map[string]string{}
	for n, t := range c.Files {
		written[n] = t
	}
	for i, l := range c.L {
		var st cliStep
		if err := json.Unmarshal([]byte(l), &st); err != nil {
			panic(err)
		}
		for n, t := range st.Write {
			if t == "\x00" {
				os.Remove(filepath.Join(dir, n))
				delete(written, n)
				continue
			}
			os.MkdirAll(filepath.Dir(filepath.Join(dir, n)), 0o755)
			os.WriteFile(filepath.Join(dir, n), []byte(t), 0o644)
			written[n] = t
		}
		if m := cliStepJudge(e, dir, &st, written); m != "" {
			return fmt.Sprintf("step %d (%s): %s", i+1, strings.Join(st.Args, " "), m)
		}
		for n, t := range written {
			b, err := os.ReadFile(filepath.Join(dir, n))
			if err != nil || string(b) != t {
				return fmt.Sprintf("step %d (%s): the source file %s changed", i+1, strings.Join(st.Args, " "), n)
			}
		}
	}
	return ""
}

func cliStepJudge(e *Env, dir string, st *cliStep, written map[string]string) string {
	var before []byte
	if st.Keep != "" {
		before, _ = os.ReadFile(filepath.Join(dir, st.Keep))
	}
	os.Remove(filepath.Join(dir, "cc.log"))
	tool := e.Cli
	if st.Tool != "" {
		tool = filepath.Join(filepath.Dir(e.Cli), st.Tool)
	}
	pr := run.Exec(dir, 60, []string{run.Unlimited}, st.Stdin, tool, st.Args...)
	if pr.CPU {
		return "the command does not end"
	}
	if pr.RC < 0 || pr.RC > 1 || pr.Signal != "" || strings.Contains(pr.ErrOut, "goroutine ") {
		return fmt.Sprintf("the command crashes (status %d %s): %s", pr.RC, pr.Signal, clip(pr.ErrOut, 500))
	}
	plain := escRe.ReplaceAllString(pr.Out, "")
	switch {
	case st.Init != "":
		if b, err := os.ReadFile(filepath.Join(dir, st.Init, "candice.json")); err != nil || len(b) == 0 {
			return "init writes no candice.json"
		}
		if b, err := os.ReadFile(filepath.Join(dir, st.Init, "main.cd")); err != nil || len(b) == 0 {
			return "init writes no main.cd"
		}
		for _, n := range []string{"candice.json", "main.cd"} {
			b, _ := os.ReadFile(filepath.Join(dir, st.Init, n))
			written[filepath.Join(st.Init, n)] = string(b)
		}
		return ""
	case st.Tree:
		for _, w := range strings.Split(st.Want, "\n") {
			if !strings.Contains(plain, w) {
				return fmt.Sprintf("the tree does not mention %q: %s", w, clip(plain, 400))
			}
		}
		return ""
	}
	if !st.Ok {
		if !strings.Contains(plain, " Error ") && !strings.Contains(plain, "rror") {
			return "the project cannot be built and no error is reported: " + clip(plain, 400)
		}
		if strings.Contains(plain, "BUILD SUCCESSFUL") {
			return "the project cannot be built and success is reported: " + clip(plain, 400)
		}
		if m := markRe.FindString(plain); m != "" && st.Run {
			return "the project cannot be built and a program is run: " + clip(plain, 400)
		}
		if st.Keep != "" {
			after, _ := os.ReadFile(filepath.Join(dir, st.Keep))
			if string(after) != string(before) {
				return "a project that does not compile changes " + st.Keep
			}
		}
		return ""
	}
	if st.Run {
		want := st.Want
		if st.RC != 0 {
			want += fmt.Sprintf("exit status %d\n", st.RC)
		}
		got := warnRe.ReplaceAllString(pr.Out, "")
		if got != want {
			return "running the project: " + diffOut(want, got)
		}
	} else if !strings.Contains(plain, "BUILD SUCCESSFUL") {
		return "building a valid project fails: " + clip(plain, 600)
	}
	if st.CC != "" {
		b, _ := os.ReadFile(filepath.Join(dir, "cc.log"))
		have := strings.Split(strings.TrimSpace(string(b)), "\n")
		k := 0
		wants := strings.Split(st.CC, "\n")
		for _, a := range have {
			if k < len(wants) && a == wants[k] {
				k++
			}
		}
		if k < len(wants) {
			return fmt.Sprintf("the configured compiler is not given %q (in that order): it got %q", wants, have)
		}
	}
	if _, err := os.Stat(filepath.Join(dir, ".intermediate_output.ll")); err == nil {
		return "the intermediate file is left behind"
	}
	exe := filepath.Join(dir, st.Out)
	if _, err := os.Stat(exe); err != nil {
		return "the build writes no " + st.Out
	}
	if st.Obj {
		lk := run.Exec(dir, 60, []string{run.Unlimited}, "", run.ClangBin, "-w", st.Out, "-o", "linked.bin")
		if lk.RC != 0 {
			return "the object does not link: " + clip(lk.ErrOut, 400)
		}
		exe = filepath.Join(dir, "linked.bin")
	}
	r := run.Exec(dir, 20, nil, st.Stdin, exe)
	if r.Out != st.Want || r.RC != st.RC || r.Signal != "" {
		return fmt.Sprintf("the program that was built: %s (exit status %d %s, expected %d)", diffOut(st.Want, r.Out), r.RC, r.Signal, st.RC)
	}
	return ""
}

const cliHelper = `#ifndef FOO
#define FOO 0
#endif
int helper(int x) {
#ifdef __OPTIMIZE__
	return x * 1000 + FOO * 10 + 1;
#else
	return x * 1000 + FOO * 10;
#endif
}
`

// cliProj is the model of one project directory.
type cliProj struct {
	s        *gen.Src
	base     string // "" or "sub/": where candice.json lives
	entry    string
	output   string
	kind     string
	cxx      string
	obj      bool
	helper   int // 0 none, 1 helper.c in the configuration, 2 in @add_compiler_flag of main, 3 of the imported file
	foo      int // value of FOO in the configuration, -1 none
	addFoo   int // value given by @add_compiler_flag
	fakeFoo  bool
	opt      string
	lib      int // 0 not imported
	libPath  string
	mark     int
	rc       int
	reads    bool
	bad      int
	jsonKeep bool
}

const (
	badNone = iota
	badParse
	badSem
	badLink
	badNoEntry
	badJSON
	badKind
	badCxx
	badFlag
	badLib
	nBad
)

func (p *cliProj) source() map[string]string {
	s := p.s
	var b strings.Builder
	if p.lib > 0 {
		fmt.Fprintf(&b, "import lib, %q;\n", "./"+p.libPath)
	}
	if p.helper > 0 {
		b.WriteString("extern func helper(i32) i32;\n")
	}
	if p.bad == badLink {
		b.WriteString("extern func nowhere_to_be_found(i32) i32;\n")
	}
	if p.reads {
		b.WriteString("extern func getchar() i32;\n")
	}
	if p.rc >= 0 {
		b.WriteString("func main() i32 {\n")
	} else {
		b.WriteString("func main() {\n")
	}
	if p.helper == 2 {
		b.WriteString("\t@add_compiler_flag(\"helper.c\");\n")
	}
	if p.addFoo >= 0 && p.helper > 0 {
		f := fmt.Sprintf("\t@add_compiler_flag(\"-DFOO=%d\");\n", p.addFoo)
		switch s.N(3) {
		case 0:
			f = "\t#if LINUX {\n" + f + "\t}\n"
		case 1:
			f = "\t#if 1 {\n" + f + "\t}\n"
		}
		b.WriteString(f)
	}
	if p.fakeFoo {
		b.WriteString("\t#if WINDOWS {\n\t\t@add_compiler_flag(\"-DFOO=77\", \"-lnosuchlibrary\");\n\t}\n")
	}
	fmt.Fprintf(&b, "\t@print(\"MARK%d:\");\n", p.mark)
	if p.helper > 0 {
		b.WriteString("\t@print(helper(4));\n")
	}
	if p.lib > 0 {
		b.WriteString("\t@print(\" \", lib.f(7));\n")
	}
	if p.reads {
		b.WriteString("\tn : i32 = 0; c : i32 = getchar();\n\tfor c >= 0 { n = n * 3 + c; c = getchar(); }\n\t@print(\" read\", n);\n")
	}
	if p.bad == badLink {
		b.WriteString("\t@print(nowhere_to_be_found(1));\n")
	}
	if p.bad == badSem {
		b.WriteString([]string{"\t@print(zz);\n", "\tx : i32 = \"s\";\n", "\treturn \"s\";\n"}[s.N(3)])
	}
	if p.bad == badParse {
		b.WriteString([]string{"\tx : ) = 3;\n", "\tif {\n", "\t@print(1;\n"}[s.N(3)])
	}
	if p.rc >= 0 {
		fmt.Fprintf(&b, "\treturn %d;\n", p.rc)
	}
	b.WriteString("}\n")
	w := map[string]string{p.entry: b.String(), "helper.c": cliHelper}
	if p.bad == badNoEntry {
		w[p.entry] = "\x00"
	}
	if p.lib > 0 {
		fl := ""
		if p.helper == 3 {
			fl = "@add_compiler_flag(\"helper.c\"); "
		}
		t := fmt.Sprintf("func f(x i32) i32 { %sreturn x * %d; }\n", fl, p.lib)
		if p.bad == badLib {
			t = []string{"func f(x i32) i32 { }\n", "func f(x i32) i32 { return y; }\n", "func f( { return 3; }\n"}[s.N(3)]
		}
		w[p.libPath] = t
	}
	return w
}

func (p *cliProj) flags() (fl []string) {
	s := p.s
	switch s.N(3) {
	case 0:
		fl = append(fl, "-m64")
	case 1:
		fl = append(fl, "-w")
	}
	if p.opt != "" {
		fl = append(fl, p.opt)
	}
	if p.helper == 1 {
		fl = append(fl, "helper.c")
	}
	if p.foo >= 0 {
		fl = append(fl, fmt.Sprintf("-DFOO=%d", p.foo))
	}
	if p.bad == badFlag {
		fl = append(fl, []string{"no_such_file.o", "-lnosuchlibrary"}[s.N(2)])
	}
	return
}

func (p *cliProj) config(fl []string) string {
	m := map[string]interface{}{"name": "x", "entrypoint": p.entry, "cxx": p.cxx, "kind": p.kind, "output": p.output, "flags": fl}
	if p.obj {
		m["binary"] = "obj"
	} else if p.s.Bool() {
		m["binary"] = "exe"
	}
	if p.bad == badKind {
		m["kind"] = []string{"gcc", "CXX", ""}[p.s.N(3)]
	}
	if p.bad == badCxx {
		m["cxx"] = "no-such-compiler-here"
	}
	if p.bad == badNoEntry && p.s.Bool() {
		m["entrypoint"] = "nowhere.cd"
	}
	b, _ := json.MarshalIndent(m, "", " ")
	if p.bad == badJSON {
		b = b[:len(b)-1-p.s.N(len(b)/2)]
	}
	return string(b)
}

func (p *cliProj) outPath() string {
	if p.obj {
		return p.output + ".o"
	}
	return p.output
}

func modelRead(in string) int32 {
	n := int32(0)
	for i := 0; i < len(in); i++ {
		n = n*3 + int32(in[i])
	}
	return n
}

func genCli(s *gen.Src) *Case {
	c := &Case{Judge: "cli", Files: map[string]string{}, X: map[string]string{}}
	p := &cliProj{s: s, kind: "cxx", cxx: "clang", foo: -1, addFoo: -1, rc: -1, entry: "main.cd", output: "program", libPath: "lib.cd"}
	p.base = s.Pick("", "", "sub/", "a/b/")
	if s.P(1, 4) {
		p.entry = s.Pick("src/m.cd", "other.cd")
	}
	n := s.Range(2, 5)
	good := 0
	lastExe := ""
	mark := 0
	for i := 0; i < n; i++ {
		if s.P(1, 8) {
			// a new project on top
			d := s.Pick("fresh", "fresh2")
			st := cliStep{Args: []string{"init", d}, Init: d, Write: map[string]string{d + "/.keep": ""}}
			c.L = append(c.L, enc(st))
			// its entry point is relative to the working directory: it is built where it is
			if s.Bool() {
				st := cliStep{Args: []string{"init", "."}, Init: "."}
				c.L = append(c.L, enc(st))
				mode := s.Pick("build", "run")
				c.L = append(c.L, enc(cliStep{Args: []string{mode, "."}, Ok: true, Run: mode == "run", Want: "Hello world!", Out: "program"}))
				if p.base == "" {
					lastExe = ""
				}
				good++
			}
			continue
		}
		// edits
		mark++
		p.mark = mark
		p.bad = 0
		if s.P(1, 3) {
			p.bad = s.Range(1, nBad-1)
		}
		if s.P(1, 2) || i == 0 {
			p.kind = s.Pick("cxx", "cxx", "llvm")
			p.cxx = s.Pick("clang", "clang", "./mycc", "clang-17")
			p.output = s.Pick("program", "prog2", "out/bin.x")
			p.obj = p.kind == "cxx" && s.P(1, 5)
			p.opt = s.Pick("", "", "-O0", "-O1", "-O2")
		}
		p.helper = s.W(3, 3, 2, 2)
		p.lib = 0
		if s.P(1, 2) || p.helper == 3 {
			p.lib = s.Range(2, 9)
		}
		if p.bad == badLib && p.lib == 0 {
			p.lib = 3
		}
		if p.obj {
			p.helper = 0
		}
		p.foo, p.addFoo = -1, -1
		if s.P(1, 2) {
			p.foo = s.Range(1, 9)
		}
		if s.P(1, 2) {
			p.addFoo = s.Range(1, 9)
		}
		p.fakeFoo = s.P(1, 3)
		p.reads = s.P(1, 2)
		p.rc = -1
		if s.P(1, 2) {
			p.rc = s.Range(0, 120)
		}
		if p.obj && (p.bad == badLink || p.bad == badFlag) {
			p.bad = badSem // only linking would notice
		}
		st := cliStep{Write: p.source()}
		fl := p.flags()
		st.Write[p.base+"candice.json"] = p.config(fl)
		st.Write["out/.keep"] = ""
		if p.lib > 0 && p.helper == 3 {
			s.Label("flag from an imported file")
		}
		mode := s.Pick("build", "run")
		arg := strings.TrimSuffix(p.base, "/")
		if arg == "" {
			arg = "."
		}
		st.Args = []string{mode, arg}
		release := s.P(1, 3)
		if release {
			st.Args = append(st.Args, "--release")
		}
		if s.Bool() {
			st.Stdin = s.Pick("", "a", "hello\n", "x\x01\n\n")
		}
		st.Ok = p.bad == 0
		st.Run = mode == "run"
		if p.obj && st.Run {
			st.Ok = false
			s.Label("run of an object")
		}
		if st.Ok {
			good++
			var w strings.Builder
			fmt.Fprintf(&w, "MARK%d:", p.mark)
			if p.helper > 0 {
				v := 4000
				foo := p.foo
				if p.addFoo >= 0 {
					foo = p.addFoo
				}
				if foo > 0 {
					v += foo * 10
				}
				if release || p.opt == "-O1" || p.opt == "-O2" {
					v++
				}
				fmt.Fprintf(&w, "%d", v)
			}
			if p.lib > 0 {
				fmt.Fprintf(&w, "  %d", 7*p.lib)
			}
			if p.reads {
				fmt.Fprintf(&w, " read %d", modelRead(st.Stdin))
			}
			st.Want = w.String()
			st.Out = p.outPath()
			st.Obj = p.obj
			if p.rc > 0 {
				st.RC = p.rc
			}
			if p.cxx == "./mycc" {
				cc := append([]string(nil), fl...)
				if p.helper == 3 {
					cc = append(cc, "helper.c")
				}
				if p.helper == 2 {
					cc = append(cc, "helper.c")
				}
				if release {
					cc = append(cc, "-O3")
				}
				st.CC = strings.Join(cc, "\n")
				s.Label("configured compiler observed")
			}
			lastExe = st.Out
		} else {
			s.Label(fmt.Sprintf("bad:%d", p.bad))
			if lastExe != "" && p.bad != badLink && p.bad != badFlag && p.bad != badCxx && p.kind == "cxx" && p.bad != 0 {
				st.Keep = lastExe
			}
		}
		if p.rc < 0 {
			st.RC = 0
		}
		s.Label(mode)
		s.Label("kind:" + p.kind)
		c.L = append(c.L, enc(st))
		if s.P(1, 6) && p.bad != badNoEntry {
			var want []string
			want = append(want, "main")
			c.L = append(c.L, enc(cliStep{Args: []string{"tree", p.entry}, Tree: p.bad != badParse, Want: strings.Join(want, "\n"), Keep: ""}))
			if p.bad == badParse {
				c.L = c.L[:len(c.L)-1]
			}
		}
		if st.Ok && p.helper <= 1 && s.P(1, 5) {
			// the same file with the one-file compiler
			st2 := st
			st2.Tool = "compiler"
			st2.Write = nil
			name := s.Pick("one", "out/two")
			st2.Args = []string{"-name", name}
			objs := []string{}
			if p.helper == 1 {
				objs = append(objs, "helper.c", "-UFOO")
			}
			if len(objs) > 0 {
				st2.Args = append(st2.Args, "-o", strings.Join(objs, ","))
				st2.Want = strings.Replace(st2.Want, fmt.Sprintf("MARK%d:%s", p.mark, numAfter(st2.Want)), fmt.Sprintf("MARK%d:4000", p.mark), 1)
			}
			st2.Args = append(st2.Args, p.entry)
			st2.Run, st2.Obj, st2.CC, st2.Out = false, false, "", name
			s.Label("one-file compiler")
			c.L = append(c.L, enc(st2))
		}
	}
	c.NonTr = good > 0
	c.Want = fmt.Sprintf("%d good builds of %d steps", good, len(c.L))
	return c
}

func numAfter(w string) string {
	i := strings.IndexByte(w, ':') + 1
	j := i
	for j < len(w) && w[j] >= '0' && w[j] <= '9' {
		j++
	}
	return w[i:j]
}

func enc(st cliStep) string {
	b, _ := json.Marshal(st)
	return string(b)
}

func init() {
	register(&Prop{ID: "C19", Title: "command", Rule: "the history builds at least one valid project and the program that was built is executed; distinct by history", Assum: assumBase, Cli: true, Fams: []Fam{
		{Name: "project", Quick: 400, Thorough: 12000, Gen: genCli},
	}})
}
