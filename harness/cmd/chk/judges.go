package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"candverif/run"
)

func init() {
	judges["run"] = judgeRun
	judges["reject"] = judgeReject
	judges["accept"] = judgeAccept
	judges["sameprint"] = judgeSamePrint
	judges["lex"] = judgeLex
	judges["robust"] = judgeRobust
}

// compileTo front-ends and emits the program; msg says what went wrong.
func compileTo(e *Env, c *Case) (dir, bin, msg string) {
	dir = e.W.Reset(c.Files)
	if c.X["std"] != "" {
		os.MkdirAll(filepath.Join(dir, "std"), 0o755)
		for _, n := range []string{"array.cd", "map.cd"} {
			b, err := os.ReadFile(filepath.Join(repoRoot(), "std", n))
			if err != nil {
				return dir, bin, "the std files cannot be read: " + err.Error()
			}
			os.WriteFile(filepath.Join(dir, "std", n), b, 0o644)
		}
	}
	bin = filepath.Join(dir, "prog.out")
	src := c.Src
	r := e.W.Do(run.Req{Op: "ir", Src: src, Dir: dir, Out: bin})
	if w := r.Why(); w != "" {
		return dir, bin, "a valid program does not compile: " + w
	}
	if r.Stage != "done" {
		return dir, bin, "a valid program does not compile (stage " + r.Stage + ")"
	}
	return dir, bin, ""
}

func diffOut(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	a := i - 40
	if a < 0 {
		a = 0
	}
	cut := func(s string) string {
		if a >= len(s) {
			return ""
		}
		s = s[a:]
		if len(s) > 160 {
			s = s[:160]
		}
		return s
	}
	return fmt.Sprintf("output differs at byte %d: expected …%q, got …%q", i, cut(want), cut(got))
}

// verifyIR runs LLVM's own parser and verifier on the emitted module.
func verifyIR(dir, ll string) string {
	pr := run.Exec(dir, 60, nil, "", "llvm-as-18", "-disable-output", ll)
	if pr.RC != 0 {
		return "LLVM rejects the emitted module: " + clip(pr.ErrOut, 700)
	}
	return ""
}

var defineRe = regexp.MustCompile(`(?m)^(define .*\)) \{$`)

// judgeRun compiles, links, executes and compares the whole output.
func judgeRun(e *Env, c *Case) string {
	dir, bin, msg := compileTo(e, c)
	if msg != "" {
		return msg
	}
	opts := []string{"jit"}
	if o := c.X["opt"]; o != "" {
		opts = strings.Split(o, ",")
	}
	ins := []string{bin + ".ll"}
	for n := range c.Files {
		if strings.HasSuffix(n, ".c") {
			ins = append(ins, filepath.Join(dir, n))
		}
	}
	for _, o := range opts {
		var pr run.ProcResult
		switch o {
		case "verify":
			if m := verifyIR(dir, bin+".ll"); m != "" {
				return m
			}
			continue
		case "jit":
			pr = run.Exec(dir, 30, nil, c.X["stdin"], "lli-18", bin+".ll")
		case "asan":
			b, err := os.ReadFile(bin + ".ll")
			if err != nil {
				return "no module was emitted: " + err.Error()
			}
			ll := bin + ".asan.ll"
			os.WriteFile(ll, defineRe.ReplaceAll(b, []byte("$1 sanitize_address {")), 0o644)
			exe := bin + ".asan"
			args := []string{"-w", "-O1", "-fsanitize=address", ll, "-o", exe, "-lm"}
			for _, f := range ins[1:] {
				args = append(args, f)
			}
			if r := run.Exec(dir, 120, nil, "", "clang-18", args...); r.RC != 0 {
				return "clang rejects the emitted code (asan): " + clip(r.ErrOut, 700)
			}
			pr = run.Exec(dir, 20, []string{run.Unlimited, "ASAN_OPTIONS=detect_leaks=0:hard_rss_limit_mb=3000:color=never"}, c.X["stdin"], exe)
			if strings.Contains(pr.ErrOut, "ReserveShadowMemoryRange") || strings.Contains(pr.ErrOut, "AddressSanitizer failed to a") {
				continue // no room for the shadow memory here: this execution decides nothing
			}
			if strings.Contains(pr.ErrOut, "AddressSanitizer") {
				return "memory error: " + clip(pr.ErrOut, 900)
			}
		default:
			exe := bin + o
			if errs, ok := e.W.Clang(dir, exe, o, ins...); !ok {
				return "clang rejects the emitted code (" + o + "): " + clip(errs, 700)
			}
			pr = run.Exec(dir, 10, nil, c.X["stdin"], exe)
		}
		if pr.CPU {
			return "the program does not terminate (" + o + "); output so far: " + clip(pr.Out, 300)
		}
		if pr.RC < 0 || pr.Signal != "" {
			return "the program crashes (" + o + "): " + pr.Signal + "; output so far: " + clip(pr.Out, 300) + " " + clip(pr.ErrOut, 300)
		}
		if pr.Out != c.Want {
			return "(" + o + ") " + diffOut(c.Want, pr.Out)
		}
		if w := c.X["rc"]; w != "" && fmt.Sprint(pr.RC) != w {
			return fmt.Sprintf("(%s) exit status %d, expected %s", o, pr.RC, w)
		}
	}
	return ""
}

// judgeReject: the front end must report an error, without failing internally.
func judgeReject(e *Env, c *Case) string {
	dir := e.W.Reset(c.Files)
	r := e.W.Do(run.Req{Op: "ir", Src: c.Src, Dir: dir, Out: filepath.Join(dir, "prog.out")})
	// A diagnostic of the compiler proper ends the process, but it says where.
	if r.Died && locatedRe.MatchString(r.Why()) && !strings.Contains(r.Why(), "Internal error") {
		return ""
	}
	if r.Hang || r.Died || r.Panic != "" {
		return "an invalid program (" + c.X["why"] + ") is not rejected cleanly: " + r.Why()
	}
	if !r.Rejected() {
		return "an invalid program is accepted: " + c.X["why"]
	}
	return ""
}

// judgeAccept: the front end must accept, and clang must accept what is emitted.
func judgeAccept(e *Env, c *Case) string {
	dir, bin, msg := compileTo(e, c)
	if msg != "" {
		return msg
	}
	return verifyIR(dir, bin+".ll")
}

// judgeSamePrint: two spellings parse to the same tree.
func judgeSamePrint(e *Env, c *Case) string {
	a := e.W.Do(run.Req{Op: "print", Src: c.Src})
	if w := a.Why(); w != "" {
		return "first spelling: " + w
	}
	b := e.W.Do(run.Req{Op: "print", Src: c.X["other"]})
	if w := b.Why(); w != "" {
		return "second spelling: " + w
	}
	if a.Text != b.Text {
		return "trees differ: " + diffOut(a.Text, b.Text)
	}
	// Quotes are printed as they are, such a text has other tokens.
	if c.X["numbers"] == "" || strings.Contains(strings.ReplaceAll(c.Src, `\n`, ""), `\`) || strings.Contains(c.Src, "'") {
		return ""
	}
	if w, g := numbers(e, c.Src), numbers(e, a.Text); w != g {
		return "the names, operators and numbers of the text and those of its printed tree differ: " + diffOut(w, g)
	}
	return ""
}

// numbers are the values of the number literals and the operators of a text, a
// line for each one.
func numbers(e *Env, text string) string {
	var b strings.Builder
	for _, t := range e.W.Do(run.Req{Op: "lex", Src: text}).Toks {
		l, _ := strconv.Unquote(t.L)
		switch t.T {
		case "INT", "HEX", "BINARY":
			base := 0
			if t.T == "INT" {
				base = 10
			}
			n, err := strconv.ParseUint(l, base, 64)
			if err != nil {
				f, _ := strconv.ParseFloat(l, 64)
				fmt.Fprintln(&b, strconv.FormatFloat(f, 'f', -1, 64))
				break
			}
			if int64(n) < 0 { // printed with a minus
				n = -n
			}
			fmt.Fprintln(&b, n)
		case "FLOAT":
			f, _ := strconv.ParseFloat(l, 64)
			fmt.Fprintln(&b, strconv.FormatFloat(f, 'f', -1, 64))
		case "PLUS", "STAR", "SLASH", "PERCENT", "LT", "LE", "GT", "GE", "EQ", "NE", "BANG", "SHL", "SHR", "ANDAND", "OROR", "AMP", "BAR", "CARET", "IDENT":
			if l != "ANONYMOUS_FUNCTION" { // the name the printer gives them
				fmt.Fprintln(&b, l)
			}
		}
	}
	return b.String()
}

// judgeLex compares the token stream: L holds type, literal, line triples.
func judgeLex(e *Env, c *Case) string {
	r := e.W.Do(run.Req{Op: "lex", Src: c.Src})
	if w := r.Why(); w != "" {
		return w
	}
	var got []string
	for _, t := range r.Toks {
		got = append(got, fmt.Sprintf("%s %s line %d", t.T, t.L, t.Line))
	}
	for i := 0; i < len(got) || i < len(c.L); i++ {
		w, g := "<nothing>", "<nothing>"
		if i < len(c.L) {
			w = c.L[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if strings.HasSuffix(w, " line ?") {
			g = g[:strings.LastIndex(g, " line ")] + " line ?"
		}
		if w != g {
			return fmt.Sprintf("token %d: expected %s, got %s", i, w, g)
		}
	}
	return ""
}

// judgeRobust: whatever the input, the front end answers in bounded time.
var locatedRe = regexp.MustCompile(`on \[\d+:\d+\]: `)

func judgeRobust(e *Env, c *Case) string {
	dir := e.W.Reset(c.Files)
	ops := []string{"ir"}
	if o := c.X["ops"]; o != "" {
		ops = strings.Split(o, ",")
	}
	for _, op := range ops {
		r := e.W.Do(run.Req{Op: op, Src: c.Src, Dir: dir, Out: filepath.Join(dir, "prog.out")})
		// A diagnostic of the compiler proper ends the process, but it says where.
		if r.Died && locatedRe.MatchString(r.Why()) && !strings.Contains(r.Why(), "Internal error") {
			continue
		}
		if r.Hang || r.Died || r.Panic != "" {
			return op + ": " + r.Why()
		}
		if c.X["verify"] != "" && r.Stage == "done" {
			if m := verifyIR(dir, filepath.Join(dir, "prog.out.ll")); m != "" {
				return "the program is accepted but " + m
			}
		}
	}
	return ""
}

func repoRoot() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}
