package main

import (
	"fmt"
	"strings"

	"candverif/gen"
)

// Families named "long": the same guarantees for programs whose lists, chains,
// names, texts and nestings are much larger than what the other generators
// write. What they print follows from how they are built.

// extraFams are added to their properties when the checker starts.
var extraFams = map[string][]Fam{}

func longFam(id string, quick, thorough int, g func(s *gen.Src, b *szb)) {
	extraFams[id] = append(extraFams[id], Fam{Name: "long", Quick: quick, Thorough: thorough, Gen: func(s *gen.Src) *Case {
		b := &szb{s: s}
		g(s, b)
		if b.want.Len() == 0 {
			return nil
		}
		return &Case{Judge: "run", Src: b.top.String() + "func main() void {\n" + b.body.String() + "}\n", Files: b.files, Want: b.want.String(), NonTr: b.want.Len() >= 4,
			X: map[string]string{"opt": optMix(s)}}
	}})
}

type szb struct {
	s               *gen.Src
	top, body, want strings.Builder
	files           map[string]string
	n               int
}

// szv is a value: its type, an expression for it and what @print writes.
type szv struct{ t, e, out string }

func (b *szb) val() szv {
	s := b.s
	b.n++
	k := b.n*7 + s.N(5)
	if s.P(1, 3) {
		k = -k
	}
	switch s.W(4, 2, 2, 2, 2, 2, 2, 2, 3, 2, 2) {
	case 1:
		k %= 128
		return szv{"i8", fmt.Sprintf("%d as i8", k), fmt.Sprint(k)}
	case 2:
		return szv{"i16", fmt.Sprintf("%d as i16", k), fmt.Sprint(k)}
	case 3:
		return szv{"i64", fmt.Sprintf("(%d as i64 * 1000000007 as i64)", k), fmt.Sprint(int64(k) * 1000000007)}
	case 4:
		k &= 0xff
		return szv{"u8", fmt.Sprintf("%d as u8", k), fmt.Sprint(k)}
	case 5:
		k &= 0xffff
		return szv{"u16", fmt.Sprintf("%d as u16", k), fmt.Sprint(k)}
	case 6:
		return szv{"u32", fmt.Sprintf("%d as u32", k), fmt.Sprint(uint32(k))}
	case 7:
		k &= 0xfffff
		return szv{"u64", fmt.Sprintf("%d as u64", k), fmt.Sprint(k)}
	case 8:
		t := fmt.Sprintf("s%d", k&0xffff)
		return szv{"*i8", `"` + t + `"`, t}
	case 9:
		return szv{"f64", fmt.Sprintf("%d.5 as f64", k&0xfff), fmt.Sprintf("%d.500", k&0xfff)}
	case 10:
		return szv{"f32", fmt.Sprintf("%d.25", k&0xfff), fmt.Sprintf("%d.250", k&0xfff)}
	}
	return szv{"i32", fmt.Sprint(k), fmt.Sprint(k)}
}

func (b *szb) vals(n int) []szv {
	vs := make([]szv, n)
	one := b.s.P(1, 3)
	for i := range vs {
		vs[i] = b.val()
		for j := 0; one && vs[i].t != vs[0].t && j < 200; j++ {
			vs[i] = b.val() // all of one type: nothing but the place tells them apart
		}
	}
	return vs
}

func (b *szb) size(hi int) int {
	switch b.s.W(2, 4, 3) {
	case 0:
		return 1 + b.s.N(4)
	case 1:
		return 4 + b.s.N(max(1, hi/3))
	}
	return hi/3 + b.s.N(hi-hi/3+1)
}

func (b *szb) line(f string, a ...any) { fmt.Fprintf(&b.body, "\t"+f+"\n", a...) }
func (b *szb) topl(f string, a ...any) { fmt.Fprintf(&b.top, f+"\n", a...) }
func (b *szb) out(f string, a ...any)  { fmt.Fprintf(&b.want, f, a...) }

func szJoin(vs []szv, f func(i int, v szv) string) string {
	var l []string
	for i, v := range vs {
		l = append(l, f(i, v))
	}
	return strings.Join(l, ", ")
}

func szTypes(vs []szv) string { return szJoin(vs, func(_ int, v szv) string { return v.t }) }
func szExprs(vs []szv) string { return szJoin(vs, func(_ int, v szv) string { return v.e }) }

// printAll writes names, in statements of random width.
func (b *szb) printAll(w *strings.Builder, names []string) {
	for len(names) > 0 {
		k := min(len(names), 1+b.s.N(6))
		fmt.Fprintf(w, "\t@print(%s, \"\\n\");\n", strings.Join(names[:k], ", "))
		names = names[k:]
		w.WriteString("\x01") // where a line of output ends
	}
}

// flow prints names and says that they hold vs: the lines are cut the same way.
func (b *szb) show(w *strings.Builder, names []string, outs []string, times int) {
	var t strings.Builder
	b.printAll(&t, names)
	var out strings.Builder
	k := 0
	for _, l := range strings.Split(t.String(), "\x01") {
		if l == "" {
			continue
		}
		for j := strings.Count(l, ", ") - 0; j > 0; j-- {
			out.WriteString(outs[k] + " ")
			k++
		}
		out.WriteString("\n")
	}
	w.WriteString(strings.ReplaceAll(t.String(), "\x01", ""))
	for ; times > 0; times-- {
		b.want.WriteString(out.String())
	}
}

func szNames(p string, n int) (l []string) {
	for i := 0; i < n; i++ {
		l = append(l, fmt.Sprintf("%s%d", p, i))
	}
	return
}

func szOuts(vs []szv) (l []string) {
	for _, v := range vs {
		l = append(l, v.out)
	}
	return
}

// longCalls: parameters, results, captures and nesting of anonymous functions.
func longCalls(s *gen.Src, b *szb) {
	s.Rep(1, 4, func(i int) {
		switch s.W(4, 3, 3, 2) {
		case 0: // parameters
			vs := b.vals(b.size(24))
			s.LabelN("parameters", len(vs))
			names := szNames(fmt.Sprintf("p%d_", i), len(vs))
			sig := szJoin(vs, func(k int, v szv) string { return names[k] + " " + v.t })
			var body strings.Builder
			b.show(&body, names, szOuts(vs), 1)
			switch s.N(3) {
			case 0:
				b.topl("func f%d(%s) void {\n%s}", i, sig, body.String())
				b.line("f%d(%s);", i, szExprs(vs))
			case 1:
				b.topl("func f%d(%s) void {\n%s}", i, sig, body.String())
				b.line("v%d : func(%s) void = f%d;", i, szTypes(vs), i)
				b.line("v%d(%s);", i, szExprs(vs))
			case 2:
				b.line("v%d := func(%s) void {\n%s\t};", i, sig, body.String())
				b.line("v%d(%s);", i, szExprs(vs))
			}
		case 1: // results, as a permutation of the parameters
			vs := b.vals(max(2, b.size(14)))
			s.LabelN("results", len(vs))
			names := szNames(fmt.Sprintf("p%d_", i), len(vs))
			perm := s.Perm(len(vs))
			res := make([]szv, len(vs))
			rn := make([]string, len(vs))
			for k, j := range perm {
				res[k], rn[k] = vs[j], names[j]
			}
			b.topl("func g%d(%s) %s { return %s; }", i, szJoin(vs, func(k int, v szv) string { return names[k] + " " + v.t }), szTypes(res), strings.Join(rn, ", "))
			got := szNames(fmt.Sprintf("r%d_", i), len(vs))
			if s.Bool() {
				b.line("%s : = g%d(%s);", strings.Join(got, ", "), i, szExprs(vs))
			} else {
				for k := range got {
					z := "0 as " + res[k].t
					if res[k].t == "*i8" {
						z = `"zero"`
					} else if res[k].t[0] == 'f' {
						z = "0.0 as " + res[k].t
					}
					b.line("%s : %s = %s;", got[k], res[k].t, z)
				}
				b.line("%s = g%d(%s);", strings.Join(got, ", "), i, szExprs(vs))
			}
			b.show(&b.body, got, szOuts(res), 1)
		case 2: // captures
			vs := b.vals(b.size(14))
			s.LabelN("captures", len(vs))
			names := szNames(fmt.Sprintf("c%d_", i), len(vs))
			for k, v := range vs {
				b.line("%s : %s = %s;", names[k], v.t, v.e)
			}
			var body strings.Builder
			perm := s.Perm(len(vs))
			pn, po := make([]string, len(vs)), make([]string, len(vs))
			for k, j := range perm {
				pn[k], po[k] = names[j], vs[j].out
			}
			times := 1 + s.N(2)
			b.show(&body, pn, po, times)
			b.line("l%d := func() void {\n%s\t};", i, body.String())
			for k, v := range vs {
				if s.Bool() {
					w := b.val()
					for w.t != v.t {
						w = b.val()
					}
					b.line("%s = %s;", names[k], w.e)
				}
			}
			for ; times > 0; times-- {
				b.line("l%d();", i)
			}
		case 3: // nested anonymous functions, each adds its own
			d := 2 + s.N(6)
			s.LabelN("nesting", d)
			sum := 0
			k0 := s.N(50)
			b.line("n%d_0 : i32 = %d;", i, k0)
			sum = k0
			var pre, post strings.Builder
			for k := 1; k <= d; k++ {
				x := s.N(100)
				sum += x
				fmt.Fprintf(&pre, "\tl%d_%d := func(a%d_%d i32) i32 {\n\tn%d_%d := n%d_%d + a%d_%d;\n", i, k, i, k, i, k, i, k-1, i, k)
				post.WriteString(fmt.Sprintf("\x02%d:%d", k, x))
			}
			inner := fmt.Sprintf("\treturn n%d_%d;\n\t};\n", i, d)
			all := pre.String() + inner
			parts := strings.Split(post.String(), "\x02")[1:]
			for j := len(parts) - 1; j >= 0; j-- {
				var k, x int
				fmt.Sscanf(parts[j], "%d:%d", &k, &x)
				if j > 0 {
					y := s.N(9)
					sum += y
					all += fmt.Sprintf("\treturn l%d_%d(%d) + %d;\n\t};\n", i, k, x, y)
				} else {
					all += fmt.Sprintf("\t@print(l%d_%d(%d), \"\\n\");\n", i, k, x)
				}
			}
			b.body.WriteString(all)
			b.out("%d \n", sum)
		}
	})
}

// longControl: switches, chains of conditions, nested loops and blocks.
func longControl(s *gen.Src, b *szb) {
	s.Rep(1, 3, func(i int) {
		switch s.W(3, 3, 3, 2) {
		case 0:
			n := b.size(40)
			s.LabelN("cases", n)
			base, step := s.N(40)-20, 1+s.N(5)
			perm := s.Perm(n)
			b.topl("func s%d(x i32) i32 {\n\tr := 0;\n\tswitch x {", i)
			for _, k := range perm {
				if s.P(1, 4) {
					b.topl("\tcase %d { return %d; }", base+k*step, 1000+k)
				} else {
					b.topl("\tcase %d { r = %d; }", base+k*step, 1000+k)
				}
			}
			def := 0
			if s.Bool() {
				def = 7
				b.topl("\tdefault { r = 7; }")
			}
			b.topl("\t}\n\treturn r;\n}")
			b.line("for i%d := %d; i%d <= %d; i%d = i%d + 1 { @print(s%d(i%d), \"\"); }", i, base-1, i, base+n*step, i, i, i, i)
			for x := base - 1; x <= base+n*step; x++ {
				r := def
				if x >= base && (x-base)%step == 0 && (x-base)/step < n {
					r = 1000 + (x-base)/step
				}
				b.out("%d ", r)
			}
		case 1:
			n := b.size(20)
			s.LabelN("else-ifs", n)
			b.topl("func c%d(x i32) i32 {\n\tr := -1;", i)
			lim := make([]int, n)
			for k := range lim {
				lim[k] = s.N(60)
			}
			hasElse := s.Bool()
			for k, l := range lim {
				if k > 0 {
					fmt.Fprint(&b.top, "\telse ")
				}
				b.topl("\tif x == %d { r = %d; }", l, 2000+k)
			}
			if hasElse {
				b.topl("\telse { r = -2; }")
			}
			b.topl("\treturn r;\n}")
			b.line("for i%d := 0; i%d < 60; i%d = i%d + 1 { @print(c%d(i%d), \"\"); }", i, i, i, i, i, i)
			for x := 0; x < 60; x++ {
				r := -1
				if hasElse {
					r = -2
				}
				for k, l := range lim {
					if l == x {
						r = 2000 + k
						break
					}
				}
				b.out("%d ", r)
			}
		case 2:
			// nested loops: at the innermost place a counter decides; each loop
			// may leave or go on after its inner loop
			d := 2 + s.N(6)
			s.LabelN("loops", d)
			type lp struct{ n, act, at, pre, preAt int } // act after the inner loop, pre before it: 0 nothing, 1 break, 2 continue when the variable is at
			ls := make([]lp, d)
			total := 1
			for k := range ls {
				ls[k] = lp{n: 1 + s.N(3), act: s.N(3), pre: s.W(3, 1, 1)}
				ls[k].at, ls[k].preAt = s.N(ls[k].n), s.N(ls[k].n)
				total *= ls[k].n
			}
			b.line("t%d := 0;", i)
			names := []string{"", "break", "continue"}
			for k, l := range ls {
				b.line("for x%d_%d := 0; x%d_%d < %d; x%d_%d = x%d_%d + 1 {", i, k, i, k, l.n, i, k, i, k)
				if l.pre > 0 {
					b.line("if x%d_%d == %d { %s; }", i, k, l.preAt, names[l.pre])
				}
				b.line("t%d = t%d * 3 + %d;", i, i, k+1)
			}
			for k := d - 1; k >= 0; k-- {
				l := ls[k]
				if l.act > 0 {
					b.line("if x%d_%d == %d { %s; }", i, k, l.at, names[l.act])
				}
				b.line("t%d = t%d * 5 + %d;\n\t}", i, i, k+1)
			}
			b.line("@print(t%d, \"\\n\");", i)
			var t int32
			var run func(k int)
			run = func(k int) {
				if k == d {
					return
				}
				l := ls[k]
				for x := 0; x < l.n; x++ {
					if l.pre > 0 && x == l.preAt {
						if l.pre == 1 {
							break
						}
						continue
					}
					t = t*3 + int32(k+1)
					run(k + 1)
					if l.act > 0 && x == l.at {
						if l.act == 1 {
							break
						}
						continue
					}
					t = t*5 + int32(k+1)
				}
			}
			run(0)
			b.out("%d \n", t)
		case 3: // expression blocks in expression blocks
			d := 2 + s.N(7)
			s.LabelN("expression blocks", d)
			var e strings.Builder
			sum := 0
			for k := 0; k < d; k++ {
				x := s.N(100)
				sum += x
				fmt.Fprintf(&e, ":i32 { y%d_%d := %d; if y%d_%d < 0 { return 7; } z%d_%d := ", i, k, x, i, k, i, k)
			}
			x := s.N(100)
			sum += x
			fmt.Fprint(&e, x)
			for k := d - 1; k >= 0; k-- {
				fmt.Fprintf(&e, "; return z%d_%d + y%d_%d; }", i, k, i, k)
			}
			b.line("e%d := %s;", i, e.String())
			b.line("@print(e%d, \"\\n\");", i)
			b.out("%d \n", sum)
		}
	})
	b.out("end \n")
	b.line("@print(\"end\", \"\\n\");")
}

// longValues: structures with many fields and long arrays, as values.
func longValues(s *gen.Src, b *szb) {
	s.Rep(1, 3, func(i int) {
		if s.Bool() {
			vs := b.vals(b.size(26))
			s.LabelN("fields", len(vs))
			names := szNames("f", len(vs))
			b.topl("struct W%d {", i)
			for k, v := range vs {
				b.topl("\t%s %s", names[k], v.t)
			}
			b.topl("}")
			perm := s.Perm(len(vs))
			var fs []string
			for _, k := range perm {
				fs = append(fs, names[k]+": "+vs[k].e)
			}
			b.topl("func w%d(w W%d) W%d { return w; }", i, i, i)
			b.line("a%d := @W%d{%s};", i, i, strings.Join(fs, ", "))
			copyOf := fmt.Sprintf("a%d", i)
			if s.Bool() {
				copyOf = fmt.Sprintf("w%d(a%d)", i, i)
			}
			b.line("b%d : W%d = %s;", i, i, copyOf)
			old := szOuts(vs)
			cur := append([]string{}, old...)
			for n := s.N(6); n > 0; n-- {
				k := s.N(len(vs))
				w := b.val()
				for w.t != vs[k].t {
					w = b.val()
				}
				b.line("a%d.%s = %s;", i, names[k], w.e)
				cur[k] = w.out
			}
			var an, bn []string
			for _, n := range names {
				an, bn = append(an, fmt.Sprintf("a%d.%s", i, n)), append(bn, fmt.Sprintf("b%d.%s", i, n))
			}
			b.show(&b.body, an, cur, 1)
			b.show(&b.body, bn, old, 1)
			return
		}
		vs := b.vals(b.size(90))
		for k := range vs {
			for vs[k].t != vs[0].t {
				vs[k] = b.val()
			}
		}
		s.LabelN("elements", len(vs))
		n := len(vs)
		b.line("a%d := [%d]%s{%s};", i, n, vs[0].t, szExprs(vs))
		b.line("b%d : [%d]%s = a%d;", i, n, vs[0].t, i)
		old := szOuts(vs)
		cur := append([]string{}, old...)
		for m := s.N(6); m > 0; m-- {
			k := s.N(n)
			w := b.val()
			for w.t != vs[0].t {
				w = b.val()
			}
			b.line("a%d[%d] = %s;", i, k, w.e)
			cur[k] = w.out
		}
		for _, x := range []struct {
			n string
			o []string
		}{{"a", cur}, {"b", old}} {
			b.line("for i%s%d := 0; i%s%d < %d; i%s%d = i%s%d + 1 { @print(%s%d[i%s%d], \"\"); }", x.n, i, x.n, i, n, x.n, i, x.n, i, x.n, i, x.n, i)
			b.out("%s ", strings.Join(x.o, " "))
		}
	})
}

// longTexts: strings of thousands of bytes and long concatenations.
func longTexts(s *gen.Src, b *szb) {
	s.Rep(1, 3, func(i int) {
		n := b.size(2400)
		s.LabelN("bytes", n)
		var t strings.Builder
		for t.Len() < n {
			fmt.Fprintf(&t, "%d%s", t.Len(), s.Pick(" ", ".", "%", "x", "é", "//", "'"))
		}
		txt := t.String()
		e := `"` + txt + `"`
		if s.Bool() { // in parts
			m := 2 + s.N(24)
			s.LabelN("parts", m)
			var ps []string
			rest := txt
			for k := 0; k < m; k++ {
				c := s.N(len(rest) + 1)
				if k == m-1 {
					c = len(rest)
				} else if s.P(2, 3) {
					c = min(c, 1+len(txt)/m)
				}
				ps = append(ps, `"`+rest[:c]+`"`)
				rest = rest[c:]
			}
			e = strings.Join(ps, " + ")
		}
		b.line("t%d := %s;", i, e)
		b.line("@print(t%d, \"\\n\");", i)
		b.out("%s \n", txt)
		k := s.N(len(txt))
		b.line("@print(t%d[%d] as u8, \"\\n\");", i, k)
		b.out("%d \n", txt[k])
		// equal, and different in one byte only
		j := len(txt) - 1 - s.N(1+len(txt)/2)
		c := byte('Q')
		o := []byte(txt)
		if o[j] >= 0x80 {
			j = 0
		}
		o[j] = c
		b.line("@print(t%d == \"%s\", t%d == \"%s\", t%d != \"%s\", \"\\n\");", i, txt, i, string(o), i, txt[:len(txt)-1-b2i(txt[len(txt)-1] >= 0x80)])
		b.out("1 0 1 \n")
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// longNames: names that only differ far from their start, and many of them.
func longNames(s *gen.Src, b *szb) {
	stem := s.Pick("n", "name_", "counter_of_things_") + strings.Repeat(s.Pick("a", "ab", "x_", "long_"), s.N(b.size(40)+1))
	n := 2 + b.size(40)
	s.LabelN("stem", len(stem))
	s.LabelN("names", n)
	var ln, lo []string
	for k := 0; k < n; k++ {
		name := fmt.Sprintf("%s%c", stem, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"[k%53])
		if k >= 53 {
			name += "z"
		}
		v := b.val()
		switch s.W(4, 2, 2, 2) {
		case 0:
			b.line("%s : %s = %s;", name, v.t, v.e)
			ln, lo = append(ln, name), append(lo, v.out)
		case 1:
			b.topl("%s : %s = %s;", name, v.t, v.e)
			ln, lo = append(ln, name), append(lo, v.out)
		case 2:
			b.topl("func %s(%sparameter %s) %s { %slocal := %sparameter; return %slocal; }", name, stem, v.t, v.t, stem, stem, stem)
			ln, lo = append(ln, fmt.Sprintf("%s(%s)", name, v.e)), append(lo, v.out)
		case 3:
			w := b.val()
			b.topl("struct %s { %sfirst %s %ssecond %s }", name, stem, v.t, stem, w.t)
			b.line("%s_v := @%s{%sfirst: %s, %ssecond: %s};", name, name, stem, v.e, stem, w.e)
			ln, lo = append(ln, name+"_v."+stem+"second", name+"_v."+stem+"first"), append(lo, w.out, v.out)
		}
	}
	b.show(&b.body, ln, lo, 1)
	// scopes in scopes, with and without their own declaration
	d := 1 + s.N(14)
	s.LabelN("scopes", d)
	var vals []szv
	cur := b.val()
	b.line("shadow : %s = %s;", cur.t, cur.e)
	for k := 0; k < d; k++ {
		vals = append(vals, cur)
		b.line("%s {", s.Pick("if 1 == 1", "for once := 0; once < 1; once = once + 1"))
		if s.Bool() {
			cur = b.val()
			b.line("shadow : %s = %s;", cur.t, cur.e)
		}
		b.line("@print(shadow, \"\\n\");")
		b.out("%s \n", cur.out)
	}
	for k := d - 1; k >= 0; k-- {
		b.line("}\n\t@print(shadow, \"\\n\");")
		b.out("%s \n", vals[k].out)
	}
}

// longLists: declarations and assignments of many values at once.
func longLists(s *gen.Src, b *szb) {
	b.topl("func t(x i32) i32 { @print(x, \"\"); return x; }")
	s.Rep(1, 3, func(i int) {
		n := 2 + b.size(12)
		s.LabelN("list", n)
		names := szNames(fmt.Sprintf("v%d_", i), n)
		var es, os []string
		for k := 0; k < n; k++ {
			x := s.N(900)
			es = append(es, fmt.Sprintf("t(%d)", x))
			os = append(os, fmt.Sprint(x))
			b.out("%d ", x)
		}
		b.line("%s : = %s;", strings.Join(names, ", "), strings.Join(es, ", "))
		b.show(&b.body, names, os, 1)
		if s.Bool() {
			// permutation of the variables, through their old values
			p := s.Perm(n)
			var src, now []string
			for _, j := range p {
				src, now = append(src, names[j]), append(now, os[j])
			}
			b.line("%s = %s;", strings.Join(names, ", "), strings.Join(src, ", "))
			b.show(&b.body, names, now, 1)
			return
		}
		b.line("a%d := [%d]i32{%s};", i, n, strings.TrimSuffix(strings.Repeat("0, ", n), ", "))
		p := s.Perm(n)
		var ls, rs []string
		now := make([]string, n)
		for _, j := range p {
			ls = append(ls, fmt.Sprintf("a%d[t(%d)]", i, j))
			b.out("%d ", j)
		}
		for _, j := range p {
			x := s.N(900)
			rs = append(rs, fmt.Sprintf("t(%d)", x))
			now[j] = fmt.Sprint(x)
			b.out("%d ", x)
		}
		b.line("%s = %s;", strings.Join(ls, ", "), strings.Join(rs, ", "))
		var an []string
		for k := 0; k < n; k++ {
			an = append(an, fmt.Sprintf("a%d[%d]", i, k))
		}
		b.show(&b.body, an, now, 1)
	})
	// the arguments of one call
	n := b.size(24)
	var ps, es []string
	for k := 0; k < n; k++ {
		ps, es = append(ps, fmt.Sprintf("q%d i32", k)), append(es, fmt.Sprintf("t(%d)", k*3))
		b.out("%d ", k*3)
	}
	b.topl("func many(%s) i32 { return q%d; }", strings.Join(ps, ", "), n-1)
	b.line("@print(many(%s), \"\\n\");", strings.Join(es, ", "))
	b.out("%d \n", (n-1)*3)
}

// longPointers: pointers to pointers.
func longPointers(s *gen.Src, b *szb) {
	s.Rep(1, 3, func(i int) {
		d := 1 + s.N(8)
		s.LabelN("levels", d)
		v := b.val()
		b.line("p%d_0 : %s = %s;", i, v.t, v.e)
		for k := 1; k <= d; k++ {
			b.line("p%d_%d : %s%s = &p%d_%d;", i, k, strings.Repeat("*", k), v.t, i, k-1)
		}
		for n := 1 + s.N(3); n > 0; n-- {
			w := b.val()
			for w.t != v.t {
				w = b.val()
			}
			k := 1 + s.N(d)
			b.line("%sp%d_%d = %s;", strings.Repeat("*", k), i, k, w.e)
			v = w
		}
		b.line("other%d : %s = %s;", i, v.t, v.e)
		w := b.val()
		for w.t != v.t {
			w = b.val()
		}
		k := s.N(d + 1)
		b.line("@print(%sp%d_%d, \"\\n\");", strings.Repeat("*", k), i, k)
		b.out("%s \n", v.out)
		if d > 1 {
			// the second level points to another object
			b.line("%sp%d_%d = &other%d;", strings.Repeat("*", d-1), i, d, i)
			b.line("other%d = %s;", i, w.e)
			b.line("@print(%sp%d_%d, p%d_0, *p%d_1, \"\\n\");", strings.Repeat("*", d), i, d, i, i)
			b.out("%s %s %s \n", w.out, v.out, w.out)
		}
	})
}

// longExprs: chains of operators and deep parentheses.
func longExprs(s *gen.Src, b *szb) {
	s.Rep(1, 3, func(i int) {
		n := b.size(120)
		s.LabelN("operands", n)
		b.line("k%d := %d;", i, 3)
		var e strings.Builder
		acc := int32(s.N(1000))
		fmt.Fprint(&e, acc)
		open := 0
		for j := 0; j < n; j++ {
			x := int32(s.N(1000))
			o := fmt.Sprint(x)
			if s.P(1, 3) {
				o, x = fmt.Sprintf("k%d", i), 3
			}
			op := s.Pick("+", "-", "^", "|", "*")
			// parenthesised so far: only the order of writing counts
			switch op {
			case "+":
				acc += x
			case "-":
				acc -= x
			case "^":
				acc ^= x
			case "|":
				acc |= x
			case "*":
				acc *= x
			}
			fmt.Fprintf(&e, " %s %s)", op, o)
			open++
		}
		b.line("e%d : i32 = %s%s;", i, strings.Repeat("(", open), e.String())
		b.line("@print(e%d, \"\\n\");", i)
		b.out("%d \n", acc)
	})
	// flat, to the left
	n := b.size(120)
	acc := int32(0)
	var e strings.Builder
	b.line("z := 1;")
	e.WriteString("z - z")
	for j := 0; j < n; j++ {
		x := int32(s.N(1000))
		if s.Bool() {
			acc += x
			fmt.Fprintf(&e, " + %d", x)
		} else {
			acc -= x
			fmt.Fprintf(&e, " - %d", x)
		}
	}
	b.line("@print(%s, \"\\n\");", e.String())
	b.out("%d \n", acc)
}

// longModules: chains of imports and many type parameters.
func longModules(s *gen.Src, b *szb) {
	b.files = map[string]string{}
	if s.Bool() {
		d := 2 + s.N(12)
		s.LabelN("import chain", d)
		sum := 0
		for k := 0; k < d; k++ {
			x := s.N(100)
			sum += x
			if k == d-1 {
				b.files[fmt.Sprintf("c%d.cd", k)] = fmt.Sprintf("struct V { x i32 }\nglob : i32 = %d;\nfunc f() i32 { return glob; }\n", x)
			} else {
				b.files[fmt.Sprintf("c%d.cd", k)] = fmt.Sprintf("import c, \"c%d.cd\";\nstruct V { x c.V }\nglob : i32 = %d;\nfunc f() i32 { return c.f() + glob; }\n", k+1, x)
			}
		}
		b.topl("import c, \"c0.cd\";")
		b.line("@print(c.f(), \"\\n\");")
		b.out("%d \n", sum)
	}
	n := 1 + s.N(9)
	s.LabelN("type parameters", n)
	var head string
	for k := 0; k < n; k++ {
		head += fmt.Sprintf("type T%d;\n", k)
	}
	m := 1 + s.N(7)
	s.LabelN("instances", m)
	var st, set strings.Builder
	st.WriteString("struct Box {")
	for k := 0; k < n; k++ {
		fmt.Fprintf(&st, " f%d T%d", k, k)
		fmt.Fprintf(&set, "func get%d(b *Box) T%d { return (*b).f%d; }\n", k, k, k)
	}
	st.WriteString(" }\n")
	b.files["g.cd"] = head + st.String() + set.String()
	for j := 0; j < m; j++ {
		vs := b.vals(n)
		b.topl("import g%d, %s, \"g.cd\";", j, szTypes(vs))
		b.line("b%d := @g%d.Box{%s};", j, j, szJoin(vs, func(k int, v szv) string { return fmt.Sprintf("f%d: %s", k, v.e) }))
		var ns []string
		for k := range vs {
			if s.Bool() {
				ns = append(ns, fmt.Sprintf("b%d.f%d", j, k))
			} else {
				ns = append(ns, fmt.Sprintf("g%d.get%d(&b%d)", j, k, j))
			}
		}
		b.show(&b.body, ns, szOuts(vs), 1)
	}
}

// longAliases: names of names of types.
func longAliases(s *gen.Src, b *szb) {
	s.Rep(1, 3, func(i int) {
		v := b.val()
		d := 1 + s.N(14)
		s.LabelN("chain", d)
		b.topl("type A%d_0 = %s;", i, v.t)
		w := 0
		for k := 1; k <= d; k++ {
			b.topl("type A%d_%d = A%d_%d;", i, k, i, k-1)
			w = k
		}
		b.topl("struct SA%d { x A%d_%d y i8 }", i, i, w)
		b.topl("func fa%d(x A%d_%d) A%d_%d { return x; }", i, i, w, i, s.N(d+1))
		b.line("s%d := @SA%d{x: %s, y: 1 as i8};", i, i, v.e)
		b.line("x%d : A%d_%d = fa%d(s%d.x);", i, i, s.N(d+1), i, i)
		b.line("y%d : %s = x%d;", i, v.t, i)
		b.line("p%d : *A%d_%d = &y%d;", i, i, w, i)
		b.line("a%d : [1]A%d_%d = [1]%s{*p%d};", i, i, s.N(d+1), v.t, i)
		b.line("@print(x%d, y%d, a%d[0], \"\\n\");", i, i, i)
		b.out("%s %s %s \n", v.out, v.out, v.out)
	})
}

// longConsts: constants that follow from constants.
func longConsts(s *gen.Src, b *szb) {
	n := b.size(40)
	s.LabelN("constants", n)
	v := int32(s.N(100))
	b.topl("const K0 : i32 = %d;", v)
	for k := 1; k <= n; k++ {
		x := int32(1 + s.N(9))
		switch s.N(4) {
		case 0:
			v += x
			b.topl("const K%d : i32 = K%d + %d;", k, k-1, x)
		case 1:
			v -= x
			b.topl("const K%d : i32 = K%d - %d;", k, k-1, x)
		case 2:
			v *= x
			b.topl("const K%d : i32 = %d * K%d;", k, x, k-1)
		case 3:
			v ^= x
			b.topl("const K%d : i32 = K%d ^ %d;", k, k-1, x)
		}
		if s.P(1, 4) || k == n {
			b.line("@print(K%d, \"\\n\");", k)
			b.out("%d \n", v)
		}
	}
}

// genLongReject: one element of something long has the wrong type or name.
func genLongReject(s *gen.Src) *Case {
	b := &szb{s: s}
	ok := s.P(1, 6)
	bad := func(v szv) string {
		if ok {
			return v.e
		}
		switch s.N(3) {
		case 0:
			return "nowhere"
		case 1:
			if v.t == "*i8" {
				return "1"
			}
			return `"text"`
		}
		if v.t == "i32" {
			return "1 as i64"
		}
		return "1 as i32 + 1"
	}
	wrong := func(v szv) string {
		for {
			e := bad(v)
			if !(v.t == "i32" && strings.HasSuffix(e, "+ 1")) {
				return e
			}
		}
	}
	kind, at := "", 0
	put := func(vs []szv) []szv {
		vs = append([]szv(nil), vs...)
		at = s.N(len(vs))
		if s.Bool() {
			at = len(vs) - 1
		}
		vs[at].e = wrong(vs[at])
		return vs
	}
	same := func(n int) []szv {
		vs := b.vals(n)
		for k := range vs {
			for vs[k].t != vs[0].t {
				vs[k] = b.val()
			}
		}
		return vs
	}
	switch s.N(9) {
	case 0:
		kind = "argument"
		vs := b.vals(b.size(24))
		b.topl("func f(%s) void { }", szJoin(vs, func(k int, v szv) string { return fmt.Sprintf("p%d %s", k, v.t) }))
		b.line("f(%s);", szExprs(put(vs)))
	case 1:
		kind = "number of arguments"
		vs := b.vals(b.size(24))
		b.topl("func f(%s) void { }", szJoin(vs, func(k int, v szv) string { return fmt.Sprintf("p%d %s", k, v.t) }))
		if !ok {
			if s.Bool() {
				vs = vs[:len(vs)-1]
			} else {
				vs = append(vs, vs[len(vs)-1])
			}
		}
		b.line("f(%s);", szExprs(vs))
	case 2:
		kind = "field"
		vs := b.vals(b.size(24))
		b.topl("struct W { %s }", strings.ReplaceAll(szJoin(vs, func(k int, v szv) string { return fmt.Sprintf("f%d %s", k, v.t) }), ",", ""))
		b.line("w := @W{%s};", szJoin(put(vs), func(k int, v szv) string { return fmt.Sprintf("f%d: %s", k, v.e) }))
	case 3:
		kind = "element"
		vs := same(b.size(60))
		b.line("a := [%d]%s{%s};", len(vs), vs[0].t, szExprs(put(vs)))
	case 4:
		kind = "case"
		n := b.size(30)
		at = s.N(n)
		b.line("switch 3 {")
		for k := 0; k < n; k++ {
			e := fmt.Sprint(k)
			if k == at && !ok {
				e = s.Pick(`"text"`, "nowhere", "1 as i64", fmt.Sprint((k+1)%n))
				if n == 1 && e == "0" {
					e = "nowhere"
				}
			}
			b.line("case %s { }", e)
		}
		b.line("}")
	case 5:
		kind = "returned value"
		vs := b.vals(2 + b.size(12))
		b.topl("func f() %s { return %s; }", szTypes(vs), szExprs(put(vs)))
	case 6:
		kind = "condition chain"
		n := b.size(20)
		at = s.N(n)
		for k := 0; k < n; k++ {
			c, st := fmt.Sprintf("%d == 3", k), "x := 1;"
			if k == at && !ok {
				if s.Bool() {
					c = s.Pick(`nowhere`, "3 == 3 as i64", "@W{}")
				} else {
					st = s.Pick("x : i32 = \"text\";", "nowhere = 3;", "f(1);", "return 1;", "break;")
				}
			}
			b.line("if %s { %s }", c, st)
			if k+1 < n {
				b.line("else")
			}
		}
	case 7:
		kind = "nested block"
		n := b.size(16)
		at = s.N(n)
		for k := 0; k < n; k++ {
			b.line("if 1 == 1 { x%d := %d;", k, k)
		}
		for k := n - 1; k >= 0; k-- {
			if k == at && !ok {
				b.line("%s", s.Pick("x0 = 1 as i64;", "nowhere();", "x0 = \"text\";", fmt.Sprintf("x%d = 1;", n)))
			}
			b.line("x%d = 2; }", k)
			if k == at && !ok && s.P(1, 3) {
				b.line("x%d = 3;", k)
			}
		}
	case 8:
		kind = "one of many functions"
		n := b.size(40)
		at = s.N(n)
		for k := 0; k < n; k++ {
			v := b.val()
			e := v.e
			if k == at {
				e = wrong(v)
			}
			b.topl("func f%d() %s { x : %s = %s; return x; }", k, v.t, v.t, e)
		}
	}
	src := b.top.String() + "func main() void {\n" + b.body.String() + "}\n"
	s.Label(kind)
	if ok {
		return &Case{Judge: "accept", Src: src, NonTr: true, X: map[string]string{"note": kind}}
	}
	return &Case{Judge: "reject", Src: src, NonTr: true, X: map[string]string{"why": fmt.Sprintf("%s %d of a long list is wrong", kind, at), "note": kind}}
}

// genLongReturns: one path among many.
func genLongReturns(s *gen.Src) *Case {
	b := &szb{s: s}
	n := b.size(40)
	at := -1
	if s.Bool() {
		at = s.N(n)
	}
	missing := at >= 0
	ret := func(k int) string {
		if k == at {
			return fmt.Sprintf("x = %d;", k)
		}
		return fmt.Sprintf("return %d;", k)
	}
	var t strings.Builder
	switch s.N(3) {
	case 0: // if, else if …, else
		for k := 0; k < n; k++ {
			fmt.Fprintf(&t, "\tif x == %d { %s } else\n", k, ret(k))
		}
		t.WriteString("\t{ return 0; }\n")
	case 1:
		t.WriteString("\tswitch x {\n")
		for k := 0; k < n; k++ {
			fmt.Fprintf(&t, "\tcase %d { %s }\n", k, ret(k))
		}
		t.WriteString("\tdefault { return 0; }\n\t}\n")
	case 2:
		n = 1 + n/3
		if at >= n {
			at = n - 1
		}
		for k := 0; k < n; k++ {
			t.WriteString(strings.Repeat("\t", k+1) + "if x == 3 {\n")
		}
		t.WriteString("return 1;\n")
		for k := n - 1; k >= 0; k-- {
			fmt.Fprintf(&t, "} else { %s }\n", ret(k))
		}
	}
	if missing && s.P(1, 3) {
		t.WriteString("\treturn 4;\n")
		missing = false
	}
	c := &Case{Judge: "accept", Src: "func f(x i32) i32 {\n" + t.String() + "}\nfunc main() void { @print(f(3)); }\n", NonTr: true, X: map[string]string{}}
	if missing {
		c.Judge = "reject"
		c.X["why"] = "one path among many leaves the body without returning a value"
	}
	s.LabelN("paths", n)
	return c
}

func init() {
	extraFams["C13"] = append(extraFams["C13"], Fam{Name: "long", Quick: 1500, Thorough: 40000, Gen: genLongReject})
	extraFams["C15"] = append(extraFams["C15"], Fam{Name: "long", Quick: 800, Thorough: 20000, Gen: genLongReturns})
	longFam("C01", 150, 4000, longExprs)
	longFam("C03", 150, 4000, longExprs)
	longFam("C04", 250, 6000, longControl)
	longFam("C05", 250, 6000, longLists)
	longFam("C06", 250, 6000, longNames)
	longFam("C07", 250, 6000, longValues)
	longFam("C08", 200, 4000, longPointers)
	longFam("C10", 350, 8000, longCalls)
	longFam("C11", 150, 4000, longConsts)
	longFam("C12", 200, 4000, longTexts)
	longFam("C16", 150, 4000, longModules)
	longFam("C26", 150, 4000, longAliases)
}
