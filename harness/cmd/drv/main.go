// drv links the packages of gabivlj/candice from /repo and executes one request
// per line (JSON on stdin), answering on file descriptor 3. It holds no oracle.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"strings"

	"github.com/gabivlj/candice/internals/compiler"
	"github.com/gabivlj/candice/internals/lexer"
	"github.com/gabivlj/candice/internals/parser"
	"github.com/gabivlj/candice/internals/semantic"
	"github.com/gabivlj/candice/internals/token"
	"github.com/gabivlj/candice/internals/tree_printer"
)

type Req struct {
	Op  string `json:"op"`
	B   []byte `json:"src"`
	Src string `json:"-"`
	Dir string `json:"dir,omitempty"`
	Out string `json:"out,omitempty"`
}

type Tok struct {
	T    string `json:"t"`
	L    string `json:"l"`
	Line uint32 `json:"n"`
	Pos  uint32 `json:"p"`
	Over int    `json:"o"`
}

type Resp struct {
	Stage     string   `json:"stage"` // last stage reached
	ParseErrs []string `json:"perr,omitempty"`
	SemErrs   []string `json:"serr,omitempty"`
	Panic     string   `json:"panic,omitempty"`
	Text      string   `json:"text,omitempty"`
	Err       string   `json:"err,omitempty"`
	Toks      []Tok    `json:"toks,omitempty"`
}

// tokNames gives the harness its own names of the token kinds.
var tokNames = map[token.TypeToken]string{
	token.ILLEGAL:      "ILLEGAL",
	token.EOF:          "EOF",
	token.IDENT:        "IDENT",
	token.INT:          "INT",
	token.FLOAT:        "FLOAT",
	token.HEX:          "HEX",
	token.BINARY:       "BINARY",
	token.STRING:       "STRING",
	token.CHAR:         "CHAR",
	token.AT:           "AT",
	token.OR:           "OROR",
	token.AND:          "ANDAND",
	token.ANDBIN:       "AMP",
	token.ORBIN:        "BAR",
	token.XORBIN:       "CARET",
	token.COMMA:        "COMMA",
	token.PLUS:         "PLUS",
	token.MINUS:        "MINUS",
	token.BANG:         "BANG",
	token.ASTERISK:     "STAR",
	token.SLASH:        "SLASH",
	token.LT:           "LT",
	token.LS:           "SHL",
	token.RS:           "SHR",
	token.GT:           "GT",
	token.EQ:           "EQ",
	token.NOTEQ:        "NE",
	token.LTE:          "LE",
	token.GTE:          "GE",
	token.DOT:          "DOT",
	token.DOUBLE_DOT:   "DOTDOT",
	token.DOUBLE_PLUS:  "INC",
	token.DOUBLE_MINUS: "DEC",
	token.MODULO:       "PERCENT",
	token.LPAREN:       "LPAREN",
	token.RPAREN:       "RPAREN",
	token.LBRACE:       "LBRACE",
	token.RBRACE:       "RBRACE",
	token.LBRACKET:     "LBRACKET",
	token.RBRACKET:     "RBRACKET",
	token.SEMICOLON:    "SEMI",
	token.COLON:        "COLON",
	token.ASSIGN:       "ASSIGN",
	token.MACRO_IF:     "MACRO_IF",
	token.TYPE:         "kw:type",
	token.PUBLIC:       "kw:pub",
	token.UNION:        "kw:union",
	token.STRUCT:       "kw:struct",
	token.FUNCTION:     "kw:func",
	token.TRUE:         "kw:true",
	token.FALSE:        "kw:false",
	token.IF:           "kw:if",
	token.ELSE:         "kw:else",
	token.RETURN:       "kw:return",
	token.IMPORT:       "kw:import",
	token.FOR:          "kw:for",
	token.BREAK:        "kw:break",
	token.CONTINUE:     "kw:continue",
	token.EXTERN:       "kw:extern",
	token.AS:           "kw:as",
	token.SWITCH:       "kw:switch",
	token.CASE:         "kw:case",
	token.DEFAULT:      "kw:default",
	token.CONST:        "kw:const",
}

func tokName(t token.TypeToken) string {
	if n, ok := tokNames[t]; ok {
		return n
	}
	return "?" + string(t)
}

func errs(e []error) []string {
	var r []string
	for _, x := range e {
		r = append(r, x.Error())
	}
	return r
}

func handle(r Req) (resp Resp) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			// keep the frames below the panic
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1800 {
				st = st[:1800]
			}
			resp.Panic = fmt.Sprint(e) + "\n" + st
		}
	}()
	if r.Dir != "" {
		if err := os.Chdir(r.Dir); err != nil {
			resp.Err = "chdir: " + err.Error()
			return
		}
	}
	switch r.Op {
	case "lex":
		resp.Stage = "lex"
		l := lexer.New(r.Src)
		for i := 0; i < 2*len(r.Src)+8; i++ {
			t := l.NextToken()
			resp.Toks = append(resp.Toks, Tok{T: tokName(t.Type), L: strconv.Quote(t.Literal), Line: t.Line, Pos: t.Position, Over: t.OverallPosition})
			if t.Type == token.EOF {
				break
			}
		}
	case "tree":
		resp.Stage = "tree"
		var sb strings.Builder
		if err := tree_printer.WriteOutput(r.Src, &sb); err != nil {
			resp.Err = err.Error()
		}
		resp.Text = sb.String()
	case "parse", "print", "sem", "ir":
		resp.Stage = "parse"
		p := parser.New(lexer.New(r.Src))
		root := p.Parse()
		resp.ParseErrs = errs(p.Errors)
		if r.Op == "print" {
			resp.Stage = "print"
			resp.Text = root.String()
			return
		}
		if r.Op == "parse" || len(p.Errors) > 0 {
			return
		}
		resp.Stage = "sem"
		semantic.ResetPaths()
		s := semantic.New()
		s.Analyze(root)
		resp.SemErrs = errs(s.Errors)
		if r.Op == "sem" || len(s.Errors) > 0 {
			return
		}
		resp.Stage = "compile"
		c := compiler.New(s)
		c.Compile(root)
		resp.Stage = "emit"
		if err := c.GenerateExecutableExperimental(r.Out, "", nil, false, false); err != nil {
			resp.Err = err.Error()
			return
		}
		resp.Stage = "done"
	default:
		resp.Err = "unknown op"
	}
	return
}

func main() {
	out := os.NewFile(3, "resp")
	w := bufio.NewWriter(out)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dn, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	_ = dn
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var r Req
		if err := json.Unmarshal(line, &r); err != nil {
			panic(err)
		}
		r.Src = string(r.B)
		resp := handle(r)
		b, err := json.Marshal(resp)
		if err != nil {
			panic(err)
		}
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
}
