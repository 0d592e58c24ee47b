package main

import (
	"candverif/gen"
)

// More rules, each a list of texts that respect it and a list of texts that
// break it. A text that starts with # is an item of the root.
type ruleTexts struct {
	name      string
	good, bad []string
}

// ruleFiles are the files the prelude imports.
var ruleFiles = map[string]string{
	"zm.cd": "struct ZMS { a i32 }\nunion ZMU { a i32 b f32 }\nconst ZMC : i32 = 3;\nZMG : i32 = 4;\nfunc zmf(x i32) i32 { return x; }\nfunc zmm(s ZMS, k i32) i32 { return s.a + k; }\nfunc zmv() { }\n",
	"zg.cd": "type T;\nstruct ZGS { a T }\nfunc zgf(x T) T { return x; }\nfunc zgm(s *ZGS, x T) { (*s).a = x; }\n",
	"z2.cd": "type A;\ntype B;\nstruct ZP { a A b B }\nfunc zpa(p ZP) A { return p.a; }\n",
	"zn.cd": "func znf() i32 { return 1; }\nfunc main() { }\n",
	"zo.cd": "main := 3;\n",
	"zb.cd": "func zbf() i32 { return \"a\"; }\n",
	"zs.cd": "func zbf() i32 { return 1 + ; }\n",
	"zc.cd": "import zd, \"zd.cd\"\nfunc zcf() i32 { return 1; }\n",
	"zd.cd": "import zc, \"zc.cd\"\nfunc zdf() i32 { return 1; }\n",
}

const ruleImports = "import zm, \"zm.cd\"\nimport zgi, i32, \"zg.cd\"\nimport zgl, i64, \"zg.cd\"\n"

var ruleList = []ruleTexts{
	{"modules are no values",
		[]string{"{ zx := zm.zmf; zx = zm.zmf; }", "{ zx := zm.ZMG; }", "{ zx := [1]i32{zm.ZMC}; }"},
		[]string{"{ zx := zm; }", "{ @print(zm); }", "{ zfun(zm, \"a\"); }", "{ zx := zm + 1; }", "{ zm = 3; }", "{ zx := &zm; }", "{ zx := [1]i32{zm}; }", "{ zm(); }", "{ zx := zm[0]; }", "{ zx := *zm; }", "{ zx := zm as i32; }", "{ if zm { } }", "{ for zm { } }", "{ switch zm { case 1 { } } }", "{ zx := @ZS{zf: zm, zg: \"a\"}; }"}},
	{"assignment to what a module defines",
		[]string{"{ zm.ZMG = 4; }", "{ zx := &zm.ZMG; *zx = 3; }", "{ zx := ++zm.ZMG; }"},
		[]string{"{ zm.ZMC = 4; }", "{ zm.zmf = zm.zmf; }", "{ zx := ++zm.ZMC; }", "{ zm.ZMG = \"a\"; }", "{ zm.ZMG = 3 as i64; }", "{ zm.znope = 4; }"}},
	{"members of a module",
		[]string{"{ zx := zm.zmf(3) + zm.ZMC; }", "{ zx : zm.ZMS = @zm.ZMS{a: 3}; }", "{ zx := zgi.zgf(3); }", "{ zx := zgl.zgf(3 as i64); }", "#func zq(a zm.ZMS, b *zgi.ZGS, c [2]zm.ZMU) { }"},
		[]string{"{ zx := zm.znope(3); }", "{ zx := zm.znope; }", "{ zx := @zm.ZNope{a: 3}; }", "#func zq(a zm.ZNope) { }", "#func zq(a *zm.ZNope) { }", "#func zq(a [2]znope.ZMS) { }", "{ zx := znope.zmf(3); }", "{ zx := zm.a; }", "#struct ZQ { a zm.ZNope }", "#func zq() *zm.ZNope { return 0 as *i32; }", "{ zx := @alloc(zm.ZNope, 2); }", "{ zx := @alloc(ZMS, 2); }", "{ zx := @ZMS{a: 3}; }", "{ zx := zmf(3); }", "{ zx := ZMC; }", "{ zx := ZMG + 1; }", "#func zq(a ZMS) { }", "{ zx := zm.zfun(1, \"a\"); }", "{ zx := zm.ZG; }", "#func zq(a zm.ZS) { }", "{ zx := zm.zgf(3); }", "{ zx := zm.i32; }"}},
	{"types of a module's members",
		[]string{"{ zx := zm.zmf(3); zy : i32 = zx; }", "{ zx := @zm.ZMS{a: 3}; zy := zm.zmm(zx, 3); }", "{ zx := @zm.ZMS{a: 3}; zy := zx.zmm(3); }", "{ zx : i64 = zgl.zgf(3 as i64); }"},
		[]string{"{ zx := zm.zmf(\"a\"); }", "{ zx := zm.zmf(3 as i64); }", "{ zx := zm.zmf(); }", "{ zx := zm.zmf(1, 2); }", "{ zx : i64 = zm.zmf(3); }", "{ zx := @zm.ZMS{a: \"a\"}; }", "{ zx := @zm.ZMS{a: 3}; zy := zx.zmm(\"a\"); }", "{ zx := @zm.ZMS{a: 3}; zy := zx.a + 1 as i64; }", "{ zx := @zm.ZMS{a: 3}; zy := zx.b; }", "{ zx := zm.zmv(); }", "{ @print(zm.zmv()); }", "{ zx := zm.ZMG(3); }", "{ zx := @zm.ZMS{b: 3}; }"}},
	{"instances of a file are different types",
		[]string{"{ zx := @zgi.ZGS{a: 3}; zy : zgi.ZGS = zx; zy.a = 4; }", "{ zx := @zgi.ZGS{a: 3}; zgi.zgm(&zx, 4); }", "{ zx := @zgl.ZGS{a: 3 as i64}; zy := [1]zgl.ZGS{zx}; }"},
		[]string{"{ zx := @zgi.ZGS{a: 3}; zy : zgl.ZGS = zx; }", "{ zx := @zgi.ZGS{a: 3}; zgl.zgm(&zx, 4 as i64); }", "{ zx := @zgi.ZGS{a: 3}; zx.a = 4 as i64; }", "{ zx := @zgl.ZGS{a: 3}; }", "{ zx := zgi.zgf(3 as i64); }", "{ zx := zgl.zgf(3); }", "{ zx := @zgi.ZGS{a: 3}; zy := @zgl.ZGS{a: 3 as i64}; zx = zy; }", "{ zx := @zgi.ZGS{a: 3}; zy := [2]zgl.ZGS{zx, zx}; }", "{ zx := @zm.ZMS{a: 3}; zy : zgi.ZGS = zx; }", "{ zx := @zm.ZMS{a: 3}; zy := @zgi.ZGS{a: 4}; zm.zmm(zy, 1); }", "#func zq(a zgi.ZGS) zgl.ZGS { return a; }", "{ zx := @zgi.ZGS{a: 3}; zp := &zx; zy : *zgl.ZGS = zp; }"}},
	{"type arguments of an import",
		[]string{"#import zq, i32, \"zg.cd\"", "#import zq, *i8, [2]i32, \"z2.cd\"", "#import zq, ZS, func(i32) i32, \"z2.cd\"", "#import zq, \"zm.cd\""},
		[]string{"#import zq, i32, i32, \"zg.cd\"", "#import zq, i32, \"z2.cd\"", "#import zq, i32, i64, i8, \"z2.cd\"", "#import zq, i32, \"zm.cd\"", "#import zq, \"zg.cd\"", "#import zq, \"z2.cd\"", "#import zq, ZNope, \"zg.cd\"", "#import zq, *ZNope, \"zg.cd\"", "#import zq, znope.ZS, \"zg.cd\"", "#import zq, i32, ZNope, \"z2.cd\"", "#import zq, zm.ZNope, \"zg.cd\""}},
	{"imported file",
		[]string{"#import zq, \"zm.cd\"", "#import zq, \"./zm.cd\""},
		[]string{"#import zq, \"znope.cd\"", "#import zq, \"zn.cd\"", "#import zq, \"zo.cd\"", "#import zq, \"zb.cd\"", "#import zq, \"zs.cd\"", "#import zq, \"zc.cd\"", "#import zq, \"sub/zm.cd\"", "#import zq, \"zm\"", "#import zq, \"\""}},
	{"imports and functions are items of the root",
		[]string{"#import zq, \"zm.cd\"", "#func zq() { }", "{ zq := func() { }; }"},
		[]string{"{ import zq, \"zm.cd\" }", "{ func zq() { } }", "{ zl := func() { func zq() { } }; }", "{ if ZG == 5 { func zq() { } } }", "{ pub func zq() { } }"}},
	{"methods are called",
		[]string{"{ zx := @ZS{zf: 1, zg: \"a\"}; zy := zx.zrecv(3); }", "{ zy := (@ZS{zf: 1, zg: \"a\"}).zrecv(3); }"},
		[]string{"{ zx := @ZS{zf: 1, zg: \"a\"}; zy := zx.zrecv; }", "{ zx := @ZS{zf: 1, zg: \"a\"}; zcall(zx.zrecv); }", "{ zx := @ZS{zf: 1, zg: \"a\"}; zx.zrecv = 3; }", "{ zx := @ZS{zf: 1, zg: \"a\"}; @print(zx.zrecv); }", "{ zx := @ZS{zf: 1, zg: \"a\"}; zp := &zx; zp.zrecv(3); }"}},
	{"a type is not part of itself",
		[]string{"#struct ZQ { a *ZQ }", "#struct ZQ { a [2]*ZQ b func(ZQ) ZQ }", "#struct ZQa { a *ZQb } struct ZQb { a ZQa }", "#union ZQ { a *ZQ b i32 }"},
		[]string{"#struct ZQ { a ZQ }", "#struct ZQ { a i32 b [2]ZQ }", "#struct ZQa { a ZQb } struct ZQb { a ZQa }", "#struct ZQa { a ZQb } struct ZQb { a [1]ZQc } struct ZQc { a i32 b ZQa }", "#union ZQ { a ZQ b i32 }", "#union ZQ { a i32 b [2]ZQs } struct ZQs { a ZQ }", "#struct ZQ { a ZQt }\ntype ZQt = ZQ;", "#type ZQt = [2]ZQ;\nstruct ZQ { a ZQt }"}},
	{"void is no type of a value",
		[]string{"#struct ZQ { a *void }", "#func zq() void { }", "#func zq(a func() void) { }", "#func zq(a *void) *void { return a; }"},
		[]string{"#struct ZQ { a void }", "#func zq(a void) { }", "#union ZQ { a void b i32 }", "#struct ZQ { a [2]void }", "#func zq(a i32, b void) { }", "#func zq() [2]void { }", "{ zx := func(a void) { }; }", "#func zq(a [2]void) { }", "{ zx := @alloc(void, 2); }"}},
	{"void values are no operands",
		[]string{"{ zvoid(); }", "{ zx := zvoid; zx(); }", "{ zx := func() { zvoid(); }; }"},
		[]string{"{ zx := [1]i32{zvoid()}; }", "{ zx := zvoid() + 1; }", "{ if zvoid() { } }", "{ zfun(zvoid(), \"a\"); }", "{ zx := @ZS{zf: zvoid(), zg: \"a\"}; }", "{ zx := zvoid() == zvoid(); }", "{ zx := !zvoid(); }", "{ ZG = zvoid(); }", "{ @print(1, zvoid()); }", "{ zx := zvoid() as i32; }", "{ zx := &zvoid(); }", "{ zx, zy := 1, zvoid(); }", "{ switch zvoid() { case 1 { } } }", "{ zx := \"a\"; @print(zx[zvoid()]); }", "{ zx := zvoid; @print(zx()); }"}},
	{"types of values hold no void",
		[]string{"{ zx := 8 as i64 as *void; zy := zx as **void; }", "{ zx : [2]*void = [2]*void{8 as i64 as *void, 8 as i64 as *void}; }", "{ zx : *func() void = 8 as i64 as *func() void; }", "{ @print(@sizeof(*void), @sizeof([3]*void)); }", "#type ZQ = func(*void) void;", "#struct ZQ { a func() void b *[3]func() void }", "{ zx : *func(i32) func() void = 8 as i64 as *func(i32) func() void; }"},
		[]string{"{ zx := 8 as i64 as *[3]void; }", "{ zx := 8 as i64 as *func(void) i32; }", "{ zx := 8 as i64 as *func(i32) func(void) void; }", "{ zx := @alloc(*[3]void, 2); }", "{ zx := [0]*[2]void{}; }", "{ @print(@sizeof([3]void)); }", "{ @print(@sizeof(*func(i32, void) void)); }", "#struct ZQ { a *[3]void }", "#struct ZQ { a [2]func(void) i32 }", "#union ZQ { a i32 b *[3]void }", "#type ZQ = *[3]void;", "#func zq(a *[2]void) { }", "#func zq() *[2]void { return 8 as i64 as *[2]void; }", "{ zx := func(a *func(void) void) { }; }", "#extern func zq(**[3]void) i32;"}},
	{"extern functions are declared",
		[]string{"#extern func zq(i32) i32;\nextern func zq(i32) i32;", "#pub func zq(a i32) i32 { return a; }\nextern func zq(i32) i32;", "#extern func zq(*i8) i32;\npub func zq(a *i8) i32 { return 1; }", "#extern func zqa(i32) i32;\nfunc zq(a i32) i32 { return zqa(a); }", "{ zx := 3; }"},
		[]string{"#extern func zq(i32) i32;\nfunc zq(a i32) i32 { return a; }", "#func zq(a i32) i32 { return a; }\nextern func zq(i32) i32;", "#extern func zq(i64) i32;\npub func zq(a i32) i32 { return a; }", "#pub func zq(a i32) i32 { return a; }\nextern func zq(i32) i64;", "#extern func zq(i32, ..) i32;\npub func zq(a i32) i32 { return a; }", "#extern func zq() i32;\nzq := 3;", "#zq : i32 = 3;\nextern func zq() i32;", "#const zq : i32 = 3;\nextern func zq(i32) i32;"}},
	{"variadic functions are another type",
		[]string{"#extern func zq(*i8, ..) i32;\nfunc zr() { zx := zq; zx(\"a\", 1); }", "#extern func zq(*i8, ..) i32;\nfunc zr() { zx : func(*i8, ..) i32 = zq; zx(\"a\"); zx(\"a\", 1, \"b\"); }", "#extern func zq(*i8, ..) i32;\nfunc zs(f func(*i8, ..) i32) { f(\"a\", 3); }\nfunc zr() { zs(zq); }"},
		[]string{"#extern func zq(*i8, ..) i32;\nfunc zr() { zx : func(*i8) i32 = zq; }", "#extern func zq(*i8) i32;\nfunc zr() { zx : func(*i8, ..) i32 = zq; }", "#extern func zq(*i8, ..) i32;\nfunc zs(f func(*i8) i32) { }\nfunc zr() { zs(zq); }", "#extern func zq(*i8, ..) i32;\nfunc zr() func(*i8) i32 { return zq; }", "#extern func zq(*i8, ..) i32;\nextern func zqb(*i8) i32;\nfunc zr() { zx := zq; zx = zqb; }", "#extern func zq(*i8, ..) i32;\nfunc zr() { zx := zq; zx(); }", "#extern func zq(*i8, ..) i32;\nfunc zr() { zx := zq; zx(3, 4); }", "#extern func zq(*i8, ..) i32;\nfunc zr() { zq(); }", "#extern func zq(*i8, ..) i32;\nfunc zr() { zq(\"a\", zvoid()); }", "#extern func zq(*i8, ..) i32;\nfunc zr() { zq(\"a\", 1, zpair()); }", "#extern func zq(i32, *i8, ..) i32;\nfunc zr() { zq(1); }"}},
	{"type of a multiple declaration",
		[]string{"{ zx, zy : i32 = 1, ZC; }", "{ zx, zy, zz : ZS = @ZS{zf: 1, zg: \"a\"}, @ZS{zf: 1, zg: \"a\"}, @ZS{zf: 1, zg: \"a\"}; }", "{ const zx, zy : i64 = 1 as i64, 2 as i64; }", "{ zx, zy : *i8 = \"a\", \"b\"; }", "{ zx, zy : func() void = zvoid, zvoid; }", "{ zx, zy : [2]i32 = [2]i32{1, 2}, [2]i32{3, 4}; }", "{ zx, zy : zm.ZMS = @zm.ZMS{a: 1}, @zm.ZMS{a: 2}; }", "{ zx, zy : = zpair(); }"},
		[]string{"{ zx, zy : i64 = 1, 2; }", "{ zx, zy : i32 = 1 as i64, 2; }", "{ zx, zy : i32 = 1, 2 as i64; }", "{ zx, zy : i32 = zpair(); }", "{ zx, zy : *i8 = zpair(); }", "{ zx, zy : zm.ZMS = @zm.ZMS{a: 1}, @ZS{zf: 1, zg: \"a\"}; }", "{ zx, zy : ZNope = 1, 2; }", "{ zx, zy : zm.ZNope = 1, 2; }", "{ zx, zy : void = 1, 2; }", "{ zx, zy : *i32 = &ZG, ZG; }", "{ const zx, zy : u32 = 1, 2; }", "{ zx, zy, zz : [2]i32 = [2]i32{1, 2}, [2]i32{3, 4}, [3]i32{3, 4, 5}; }", "{ zx, zy : func() void = zvoid, zpair; }", "{ zx, zy : f64 = 1.0, 2.0 as f64; }", "{ zl := func() { zx, zy : i64 = 1, 2; }; }"}},
	{"only constants make constants",
		[]string{"{ const zk : i32 = zm.ZMC; switch 3 { case zm.ZMC { } case zk + 1 { } } }", "#const ZQ : i32 = zm.ZMC + ZC;\nZR : i32 = ZQ;", "#ZQ : func(i32) i32 = zm.zmf;", "#const ZQ : func(i32) i32 = zm.zmf;", "{ const zk := 3; zl := func() i32 { const zj : i32 = zk + 1; return zj; }; zl(); }", "{ const zk := \"a\"; const zj := zk; zx : *i8 = zj; }", "#const ZQ := \"a\";\nZR : *i8 = ZQ;\nconst ZT := ZQ;", "{ const zk := 16 as *i32; const zj := zk; zx := zj; }"},
		[]string{"{ const zk : i32 = zm.ZMG; }", "#ZQ : i32 = zm.ZMG;", "#const ZQ : i32 = zm.ZMC + zm.ZMG;", "{ switch 3 { case zm.ZMG { } } }", "{ zv := 3; switch 3 { case zv { } } }", "{ switch 3 { case ZG { } } }", "#ZQ : i32 = ZG;", "{ zv := 3; zl := func() { const zj : i32 = zv; }; }", "{ zl := func(zp i32) { switch 3 { case zp { } } }; }", "{ const zk : i32 = zm.zmf(3); }", "#ZQ : i32 = zm.zmf(3);", "{ switch 3 { case zm.zmf(1) { } } }", "{ zp := 3; const zj := &zp; }"}},
	{"cases are different",
		[]string{"{ zx := 3; switch zx { case 1 { } case 2 { } } }", "{ zx := 3 as i64; switch zx { case 1 as i64 { } case 2 as i64 { } default { } } }"},
		[]string{"{ zx := 3; switch zx { case 1 { } case 2 { } case 1 { } } }", "{ zx := 3; switch zx { case 4 { } case 2 + 2 { } } }", "{ zx := 3 as u8; switch zx { case 1 as u8 { } case 257 as u8 { } default { } } }"}},
	{"union literals",
		[]string{"{ zx : ZU = 3; zx.zi = 4; }", "{ zx : ZU = 1.5; zy := zx.zh; }"},
		[]string{"{ zx := @ZU{zi: 3}; }", "{ zx := @ZU{}; }", "{ zx := @zm.ZMU{a: 3}; }"}},
	{"members of a union",
		[]string{"{ zx : ZU = 3; @print(zx.zi); }", "{ zx : ZU = 3; zp := &zx; zp.zi = 3; }"},
		[]string{"{ zx : ZU = 3; @print(zx.zf); }", "{ zx : ZU = 3; zx.zi = \"a\"; }", "{ zx : ZU = 3; zx.zh = 3; }", "{ zx : ZU = 3; zx = 1.5 as f64; }", "{ zx : ZU = 3; @print(zx[0]); }", "{ zx : ZU = 3; zy := zx + zx; }", "{ zx : ZU = 3; zy : ZS = zx; }"}},
	{"return outside of a function",
		[]string{"#func zq() { return; }"},
		[]string{"#return;", "#return 3;"}},
	{"a global and a function of one name",
		[]string{"#ZQ := 3;\nfunc zq() { }"},
		[]string{"#zq := 3;\nfunc zq() { }", "#func zq() { }\nzq := 3;", "#zfun := 3;", "#const zfun := 3;"}},
	{"unknown builtin",
		[]string{"{ @print(3); }", "{ zx := @sizeof(ZS); }", "{ @unreachable(); }"},
		[]string{"{ @znope(3); }", "{ zx := @size(ZS); }", "{ @Print(3); }"}},
	{"number of builtin arguments",
		[]string{"{ zx := @alloc(i32, 2); @free(zx); }", "{ zx := @sizeof(i32); }"},
		[]string{"{ @free(); }", "{ zx := @alloc(i32); }", "{ zx := @alloc(); }", "{ zx := @realloc(); }", "{ zx := @alloc(i32, 2); zx = @realloc(zx); }", "{ zx := @sizeof(); }", "{ zx := @alloc(i32, 2, 3); }", "{ zx := @alloc(i32, 2); @free(zx, zx); }", "{ zx := @sizeof(i32, i64); }"}},
	{"identifier of a condition",
		[]string{"{ #if LINUX { zx := 3; } }", "{ #if 0 { zx := znope; } }"},
		[]string{"{ #if ZNOPE { zx := 3; } }", "{ #if linux { zx := 3; } }", "##if ZNOPE { zq := 3; }"}},
	{"element of a field or an element",
		[]string{"{ zx := [2]ZS{@ZS{zf: 1, zg: \"a\"}, @ZS{zf: 1, zg: \"a\"}}; zx[0].zf = 3; }", "{ zx := @ZS{zf: 1, zg: \"a\"}; zy := zx.zg[0]; }"},
		[]string{"{ zx := [2]ZS{@ZS{zf: 1, zg: \"a\"}, @ZS{zf: 1, zg: \"a\"}}; zx.zf = 3; }", "{ zx := @ZS{zf: 1, zg: \"a\"}; zy := zx[0]; }", "{ zx := @ZS{zf: 1, zg: \"a\"}; zy := zx.zf[0]; }", "{ zx := @ZS{zf: 1, zg: \"a\"}; zy := zx.zf.zf; }", "{ zx := [2]i32{1, 2}; zy := zx[0][1]; }", "{ zx := @ZS{zf: 1, zg: \"a\"}; zy := *zx; }", "{ zx := @ZS{zf: 1, zg: \"a\"}; zy := &zx; zz := **zy; }", "{ zx := 3; zy := zx[0]; }"}},
	{"pointer types",
		[]string{"{ zx := 3; zp : *i32 = &zx; }", "{ zx := 3 as *i32; }", "{ zx := \"a\" as *i32; }"},
		[]string{"{ zx := 3; zp : *i64 = &zx; }", "{ zx := 3; zp := &zx; zq := &zp; zp = zq; }", "{ zx := 3; zp : i32 = &zx; }", "{ zx := 3; zp : *i8 = &zx; }", "{ zx := 3; zp : *u32 = &zx; }", "{ zx := [2]i32{1, 2}; zp : *i32 = &zx; }", "{ zp : *ZT = &(@ZS{zf: 1, zg: \"a\"}); }", "{ zx := 3; zp := &zx; zfun(zp, \"a\"); }", "{ zx := \"a\"; zy : *u8 = zx; }"}},
	{"array types",
		[]string{"{ zx := [2]i32{1, 2}; zx = [2]i32{3, 4}; }", "{ zx := [2][2]i8{[2]i8{1 as i8, 2 as i8}, [2]i8{1 as i8, 2 as i8}}; }"},
		[]string{"{ zx := [2]i32{1, 2}; zx = [3]i32{3, 4, 5}; }", "{ zx := [2]i32{1, 2}; zx = [2]i64{3 as i64, 4 as i64}; }", "{ zx := [2][2]i8{[2]i8{1 as i8, 2 as i8}, [1]i8{1 as i8}}; }", "#func zq(a [2]i32) [3]i32 { return a; }", "{ zx := [2]i32{1, 2}; zx = 3; }", "{ zx := [2]i32{1, 2}; zy : *i32 = zx; }", "{ zx := [2]ZS{@ZS{zf: 1, zg: \"a\"}, @ZT{zf: 1, zg: \"a\"}}; }"}},
	{"function types",
		[]string{"{ zx : func(i32, *i8) i64 = zfun; }", "{ zx : func() = zvoid; zx = func() { }; }", "{ zx := zpair; }"},
		[]string{"{ zx : func(i32) i64 = zfun; }", "{ zx : func(i32, *i8) i32 = zfun; }", "{ zx : func(i32, *i8) = zfun; }", "{ zx : func(*i8, i32) i64 = zfun; }", "{ zx : func(i32, *i8, i32) i64 = zfun; }", "{ zx : func() i32 = zvoid; }", "{ zx : func() *i8, i32 = zpair; }", "{ zx : func() i32 = zpair; }", "{ zx : func() i32, *i8, i32 = zpair; }", "{ zx := zfun; zx = zvoid; }", "{ zx : func(func(i32)) i32 = func(q func(i64)) i32 { return 1; }; }", "{ zcall(zfun); }", "{ zcall(func(q i64) i64 { return q; }); }", "{ zcall(func(q i32) i32 { return q; }); }", "{ zcall(zvoid); }"}},
	{"results of a call with many results",
		[]string{"{ zx, zy := zpair(); zx = 3; }", "{ zx := 1; zy := \"b\"; zx, zy = zpair(); }"},
		[]string{"{ zx := zpair(); zy := zx + 1; }", "{ zx, zy, zz := zpair(); }", "{ zx := 1; zy := 2; zx, zy = zpair(); }", "{ zx := 1; zx, ZG = zpair(); }", "{ zx := zpair() + 1; }", "{ zfun(zpair()); }", "{ zx, zy := zpair(); zy = 3; }", "{ zx, zy := zfun(1, \"a\"); }", "{ zx, zy := 3; }", "{ if zpair() { } }"}},
	{"break in an anonymous function in a loop",
		[]string{"{ for zi := 0; zi < 1; zi = zi + 1 { zl := func() { for 1 == 1 { break; } }; } }"},
		[]string{"{ for zi := 0; zi < 1; zi = zi + 1 { zl := func() { break; }; } }", "{ for zi := 0; zi < 1; zi = zi + 1 { zl := func() { if zi == 1 { continue; } }; } }", "{ for zi := 0; zi < 1; zi = zi + 1 { zl := func() { switch ZG { case 1 { break; } } }; } }"}},
	{"loop variable",
		[]string{"{ for zi := 0; zi < 1; zi = zi + 1 { @print(zi); } }", "{ for zi := 0; zi < 1; zi = zi + 1 { } zi := 3; }"},
		[]string{"{ for zi := 0; zi < 1; zi = zi + 1 { } @print(zi); }", "{ for zi := 0; zj < 1; zi = zi + 1 { } }", "{ for zi := 0; zi < 1; zj = zi + 1 { } }", "{ for zi := 0; zi < 1 as i64; zi = zi + 1 { } }", "{ for zi := 0; zi < 1; zi = \"a\" { } }", "{ for zi := znope; zi < 1; zi = zi + 1 { } }", "{ for zi := 0; zi < 1; zi = zi + 1 { zj := 3; } @print(zj); }", "{ for zi := 0; zi < 1; zi = zj { zj := 3; } }"}},
	{"type definitions",
		[]string{"#type ZQ = i32;\nfunc zq(a ZQ) i32 { return a; }", "#type ZQ = *ZS;", "#type ZQ = func(ZS) [2]ZT;"},
		[]string{"#type ZQ = ZNope;", "#type ZQ = *ZNope;", "#type ZQ = [2]ZNope;", "#type ZQ = func(ZNope);", "#type ZQ = func() ZNope;", "#type ZQ = ZQ;", "#type ZQ = *ZQ;", "#type ZQa = ZQb;\ntype ZQb = ZQa;", "#type ZQ = i32;\ntype ZQ = i64;", "#type ZQ = i32;\nfunc zq(a ZQ) *i8 { return a; }", "#type ZQ = i64;\nfunc zq(a ZQ) i32 { return a; }", "#type ZQ = zm.ZNope;"}},
	{"fields of a literal",
		[]string{"{ zx := @ZS{zf: 1, zg: \"a\"}; }", "{ zx := @ZS{zg: \"a\", zf: 1}; }"},
		[]string{"{ zx := @ZS{zf: 1, zq: \"a\"}; }", "{ zx := @ZS{zf: 1, zg: \"a\", zh: 3}; }", "{ zx := @ZNope{zf: 1}; }", "{ zx := @i32{zf: 1}; }", "{ zx := @ZS{zf: \"a\", zg: 1}; }", "{ zx := @ZS{zf: znope, zg: \"a\"}; }", "{ zx := @ZS{zf: 1, zf: 2, zg: \"a\"}; }"}},
	{"variables of the outside of a block of a value",
		[]string{"{ zx := 3; zy := :i32 { return zx; }; }", "{ zy := :i32 { zx := 4; return zx; }; }"},
		[]string{"{ zy := :i32 { zx := 4; return zx; }; @print(zx); }", "{ zy := :i32 { return zy; }; }", "{ zy := :i32 { return znope; }; }", "{ zy := :ZNope { return 3; }; }"}},
	{"parameters are known in their function only",
		[]string{"#func zq(za i32) i32 { return za; }", "{ zl := func(za i32) i32 { return za; }; }"},
		[]string{"#func zqa(za i32) i32 { return za; }\nfunc zqb() i32 { return za; }", "{ zl := func(zap i32) i32 { return zap; }; @print(zap); }", "#func zq(za i32) i32 { return zb; }", "{ zl := func(zap i32, zbp i32) i32 { return 1; }; zm2 := func() i32 { return zbp; }; }"}},
}

func init() {
	for _, r := range ruleList {
		rules = append(rules, rule{r.name, func(s *gen.Src, bad bool) (string, []string) {
			l := r.good
			if bad {
				l = r.bad
			}
			t := l[s.N(len(l))]
			if t[0] == '#' {
				return "", []string{t[1:] + "\n"}
			}
			return t, nil
		}})
	}
}
