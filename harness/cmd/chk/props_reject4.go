package main

import (
	"fmt"
	"strings"

	"candverif/gen"
)

// listOf makes n types and values, and with bad one value (at a random place)
// of another type.
func listOf(s *gen.Src, n int, bad bool, same bool) (types, vals []string) {
	pool := allTV[:12]
	t := pool[s.N(len(pool))]
	for i := 0; i < n; i++ {
		if !same {
			t = pool[s.N(len(pool))]
		}
		types = append(types, t.t)
		vals = append(vals, t.v)
	}
	if bad {
		i := s.N(n)
		for {
			o := allTV[s.N(15)]
			if o.t != types[i] {
				vals[i] = o.v
				break
			}
		}
	}
	return
}

// named writes "p0 t0, p1 t1, …".
func named(types []string, sep string) string {
	var l []string
	for i, t := range types {
		l = append(l, fmt.Sprintf("p%d %s", i, t))
	}
	return strings.Join(l, sep)
}

var constTV = []tv{{"i32", "3"}, {"i64", "3 as i64"}, {"i8", "3 as i8"}, {"u16", "3 as u16"}, {"u64", "3 as u64"}, {"f32", "1.5"}, {"f64", "1.5 as f64"}, {"i1", "(1 == 2)"}, {"*i8", `"abc"`}}

func init() {
	general = append(general, rule{"one value of a list", func(s *gen.Src, bad bool) (string, []string) {
		n := s.Range(1, 7)
		kind := s.N(9)
		types, vals := listOf(s, n, bad, kind == 1)
		vs := strings.Join(vals, ", ")
		ts := strings.Join(types, ", ")
		sig := "func zq(" + named(types, ", ") + ") i32 { return 1; }\n"
		switch kind {
		case 0: // fields
			var fs []string
			for i, v := range vals {
				fs = append(fs, fmt.Sprintf("p%d: %s", i, v))
			}
			for i := len(fs) - 1; i > 0; i-- {
				j := s.N(i + 1)
				fs[i], fs[j] = fs[j], fs[i]
			}
			return "", []string{"struct ZQ { " + named(types, " ") + " }\n", "func zq() { zx := @ZQ{" + strings.Join(fs, ", ") + "}; }\n"}
		case 1: // elements
			return fmt.Sprintf("{ zx := [%d]%s{%s}; }", n, types[0], vs), nil
		case 2: // arguments
			return "", []string{sig, "func zqc() { zq(" + vs + "); }\n"}
		case 3: // of a value
			return "", []string{sig, "func zqc() { zv := zq; zx := zv(" + vs + "); }\n"}
		case 4: // of a method
			return "", []string{"func zq(pp ZS, " + named(types, ", ") + ") i32 { return 1; }\n", `func zqc() { zv := @ZS{zf: 1, zg: "a"}; zx := zv.zq(` + vs + "); }\n"}
		case 5: // results
			return "", []string{"func zq() " + ts + " { return " + vs + "; }\n"}
		case 6: // assigned
			var ns []string
			for i := range types {
				ns = append(ns, fmt.Sprintf("p%d", i))
			}
			return "", []string{"func zq(" + named(types, ", ") + ") { " + strings.Join(ns, ", ") + " = " + vs + "; }\n"}
		case 7: // of an anonymous function
			return "{ zv := func(" + named(types, ", ") + ") { }; zv(" + vs + "); }", nil
		}
		return "", []string{"struct ZQ { h func(" + ts + ") i32 }\n", sig, "func zqc() { zv := @ZQ{h: zq}; zx := zv.h(" + vs + "); }\n"}
	}}, rule{"number of values of a list", func(s *gen.Src, bad bool) (string, []string) {
		n := s.N(8)
		m := n
		for bad && m == n {
			m = s.N(9)
		}
		types, vals := listOf(s, 9, false, false)
		types, vals = types[:n], vals[:m]
		vs := strings.Join(vals, ", ")
		ps := named(types, ", ")
		sig := "func zq(" + ps + ") i32 { return 1; }\n"
		switch s.N(6) {
		case 0:
			return "", []string{sig, "func zqc() { zq(" + vs + "); }\n"}
		case 1:
			return "", []string{sig, "func zqc() { zv := zq; zx := zv(" + vs + "); }\n"}
		case 2:
			c := ""
			if ps != "" {
				c = ", "
			}
			return "", []string{"func zq(pp ZS" + c + ps + ") i32 { return 1; }\n", `func zqc() { zv := @ZS{zf: 1, zg: "a"}; zx := zv.zq(` + vs + "); }\n"}
		case 3:
			return "{ zv := func(" + ps + ") { }; zv(" + vs + "); }", nil
		case 4:
			return "", []string{"struct ZQ { h func(" + strings.Join(types, ", ") + ") i32 }\n", sig, "func zqc() { zv := @ZQ{h: zq}; zx := zv.h(" + vs + "); }\n"}
		}
		if n < 2 || m < 1 {
			return "", nil
		}
		var ns []string
		for i := range types {
			ns = append(ns, fmt.Sprintf("p%d", i))
		}
		if s.Bool() {
			return "{ " + strings.Join(ns, ", ") + " := " + vs + "; }", nil
		}
		return "", []string{"func zq(" + ps + ") { " + strings.Join(ns, ", ") + " = " + vs + "; }\n"}
	}}, rule{"a constant does not change", func(s *gen.Src, bad bool) (string, []string) {
		t := constTV[s.N(len(constTV))]
		decl := "const zk := " + t.v + "; "
		if s.P(1, 3) {
			decl = "const zk : " + t.t + " = " + t.v + "; "
		}
		vdecl := "zk := " + t.v + "; "
		pre := "zx := [3]i32{1, 2, 3}; zy := 1; zz := " + t.v + "; zp := &zy; "
		use := s.Pick("", "", "", "zc := zk; ", "zz = zk; ", "zc := [1]"+t.t+"{zk}; ", "if zk == zk { } ")
		uses := "" +
			"zk = %[1]s; |zy, zk = 4, %[1]s; |zk, zy = %[1]s, 4; |zx[0], zk = 4, %[1]s; |zx[zy], zx[1], zk = 4, 5, %[1]s; |*zp, zk = 4, %[1]s; |zk = zk; |zk = zz; |(zk) = %[1]s; |zx[zy], zk, zy = 4, zz, 3; "
		if t.t == "*i8" {
			uses += "|zk[0] = 3 as i8; |*zk = 3 as i8; |zx[0], zk[zy] = 3, 4 as i8; |zk = zk + 1; "
		} else if t.t != "i1" {
			uses += "|zc := ++zk; |zc := --zk; |zx[0], zk = 4, ++zk; |zc := zz + --zk; |zk = zk + zk; "
		}
		l := strings.Split(uses, "|")
		w := l[s.N(len(l))]
		if strings.Contains(w, "%") {
			w = fmt.Sprintf(w, t.v)
		}
		w = use + w
		switch s.N(9) {
		case 0:
			w = "{ " + w + "} "
		case 1:
			w = "if zy == 1 { " + w + "} "
		case 2:
			w = "for zi := 0; zi < 1; zi = zi + 1 { " + w + "} "
		case 3:
			w = "zl := func() { zk2 := zk; " + w + "}; "
		case 4:
			w = "zl := func() { zl2 := func() { " + w + "}; }; "
		case 5:
			w = "switch zy { case 1 { " + w + "} default { } } "
		}
		if !bad {
			decl = vdecl
		}
		if s.P(1, 3) {
			return "", []string{strings.Replace(decl, "zk", "ZK", 1) + "\nfunc zq() { " + pre + strings.ReplaceAll(w, "zk", "ZK") + "}\n"}
		}
		return "{ " + pre + decl + w + "}", nil
	}})
}
