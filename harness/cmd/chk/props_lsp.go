package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"strconv"
	"strings"

	"candverif/gen"
	"candverif/lang"
	"candverif/run"
)

// C30: histories of messages to the language server (cmd/autocomplete). Every
// request gets exactly one answer, in order; every change of the document is
// followed with the tree of the text as it is now, or with its first error,
// whatever came before.

type lspMsg struct {
	Kind   string          `json:"k"` // init, change, request, notice, bad, answer
	Method string          `json:"m,omitempty"`
	ID     json.RawMessage `json:"id,omitempty"`
	Params json.RawMessage `json:"p,omitempty"`
	Text   string          `json:"t,omitempty"` // of a change: the document afterwards
	Earl   []string        `json:"e,omitempty"` // of a change: what the text was between, in the same message
	URI    string          `json:"u,omitempty"`
}

func init() { judges["lsp"] = judgeLsp }

func lspFrame(b []byte) string { return fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(b), b) }

func (m *lspMsg) body(version int) []byte {
	o := map[string]any{"jsonrpc": "2.0"}
	if m.ID != nil {
		o["id"] = m.ID
	}
	if m.Method != "" {
		o["method"] = m.Method
	}
	if m.Params != nil {
		o["params"] = m.Params
	}
	switch m.Kind {
	case "change":
		var cc []any
		for _, t := range m.Earl {
			cc = append(cc, map[string]any{"text": t})
		}
		cc = append(cc, map[string]any{"text": m.Text})
		o["params"] = map[string]any{"textDocument": map[string]any{"uri": m.URI, "version": version}, "contentChanges": cc}
	case "answer":
		o["result"] = nil
	}
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	return b
}

// lspReplies cuts the output of the server into messages.
func lspReplies(out string) (rs []map[string]json.RawMessage, bad string) {
	for out != "" {
		k := strings.Index(out, "\r\n\r\n")
		if k < 0 {
			return rs, "an answer has no header: " + clip(out, 200)
		}
		n := -1
		for _, h := range strings.Split(out[:k], "\r\n") {
			if name, v, ok := strings.Cut(h, ":"); ok && strings.EqualFold(strings.TrimSpace(name), "Content-Length") {
				if x, err := strconv.Atoi(strings.TrimSpace(v)); err == nil {
					n = x
				}
			}
		}
		out = out[k+4:]
		if n < 0 || n > len(out) {
			return rs, "an answer is not as long as its header says"
		}
		var r map[string]json.RawMessage
		if err := json.Unmarshal([]byte(out[:n]), &r); err != nil {
			return rs, "an answer is not JSON: " + clip(out[:n], 200)
		}
		rs = append(rs, r)
		out = out[n:]
	}
	return rs, ""
}

func judgeLsp(e *Env, c *Case) string {
	dir := e.W.Reset(nil)
	var in strings.Builder
	var msgs []lspMsg
	for i, l := range c.L {
		var m lspMsg
		if err := json.Unmarshal([]byte(l), &m); err != nil {
			panic(err)
		}
		msgs = append(msgs, m)
		in.WriteString(lspFrame(m.body(i)))
	}
	pr := run.Exec(dir, 60, []string{run.Unlimited}, in.String(), filepath.Join(filepath.Dir(e.Cli), "lsp"))
	if pr.CPU {
		return "the server does not end with its input"
	}
	if pr.RC != 0 || pr.Signal != "" {
		return fmt.Sprintf("the server dies (status %d %s): %s", pr.RC, pr.Signal, clip(pr.ErrOut[max(0, len(pr.ErrOut)-900):], 900))
	}
	rs, bad := lspReplies(pr.Out)
	if bad != "" {
		return bad
	}
	k, log := 0, string([]rune(pr.ErrOut)) // (the driver writes its answers the same way)
	for i, m := range msgs {
		at := fmt.Sprintf("message %d (%s %s)", i+1, m.Kind, m.Method)
		if m.ID != nil && m.Kind != "answer" {
			if k >= len(rs) {
				return at + ": a request is left without answer"
			}
			r := rs[k]
			k++
			if string(r["id"]) != string(m.ID) {
				return fmt.Sprintf("%s: the answer has id %s instead of %s", at, r["id"], m.ID)
			}
			if m.Kind != "init" {
				if _, ok := r["error"]; !ok {
					return at + ": a request the server does not know is not answered with an error"
				}
				continue
			}
			var res struct {
				Capabilities struct {
					TextDocumentSync struct {
						OpenClose bool
						Change    int
					}
				}
			}
			if json.Unmarshal(r["result"], &res) != nil || res.Capabilities.TextDocumentSync.Change != 1 || !res.Capabilities.TextDocumentSync.OpenClose {
				return fmt.Sprintf("%s: the answer does not announce full text synchronisation: %s", at, r["result"])
			}
		}
		if m.Kind != "change" {
			continue
		}
		t := e.W.Do(run.Req{Op: "tree", Src: m.Text})
		if t.Panic != "" {
			return ""
		}
		want := t.Text
		if t.Err != "" {
			// the text is wrong: that is said, with the same words
			want = t.Err
		}
		want = string([]rune(want))
		p := strings.Index(log, want)
		if p < 0 {
			return fmt.Sprintf("%s: expected after this change %q; what follows in the log is %q", at, clip(want, 300), clip(log, 600))
		}
		log = log[p+len(want):]
	}
	if k < len(rs) {
		return fmt.Sprintf("there is an answer nobody asked for: %s", rs[k]["id"])
	}
	return ""
}

func lspText(s *gen.Src, i int) string {
	mark := fmt.Sprintf("zq%d", i)
	switch s.W(5, 3, 2, 1) {
	case 0:
		return fmt.Sprintf("%s : i32 = %d;\n", mark, s.N(1000)) + lang.Source(smallProg(s))
	case 1: // a few root statements
		var sb strings.Builder
		for j := s.N(4); j > 0; j-- {
			fmt.Fprintf(&sb, "%s%d : i32 = %s;\n", mark, j, lang.Render(lang.ExprToks(anyTree(s, 2), false)))
		}
		fmt.Fprintf(&sb, "func %s() { @print(\"%s\"); }", mark, s.Pick("é", "日本", "a", " ", "\\n", "😀", "x // y"))
		return sb.String()
	case 2: // an edit that is under way
		toks, _ := lang.Tokens(smallProg(s), false)
		return fmt.Sprintf("%s : i32 = 1;\n", mark) + lang.Render(mutTokens(s, toks))
	}
	return s.Pick("", " ", "\n", "// only a comment", mark+" : i32 = 1", "func "+mark+"() {", "\"", "@", "struct "+mark+" { é i32 }", mark+" : [\u00e9]i32")
}

func genLsp(s *gen.Src) *Case {
	c := &Case{Judge: "lsp", X: map[string]string{}}
	changes := 0
	id := 0
	nextID := func() json.RawMessage {
		id++
		if s.P(1, 4) {
			return json.RawMessage(fmt.Sprintf("\"r-%d\"", id))
		}
		return json.RawMessage(fmt.Sprint(id))
	}
	add := func(m lspMsg) {
		b, err := json.Marshal(m)
		if err != nil {
			panic(err)
		}
		c.L = append(c.L, string(b))
	}
	if s.P(9, 10) {
		add(lspMsg{Kind: "init", Method: "initialize", ID: nextID(), Params: json.RawMessage(s.Pick("{}", `{"capabilities":{}}`, `{"processId":null,"rootUri":"file:///p","capabilities":{"textDocument":{"hover":{}}}}`))})
		if s.Bool() {
			add(lspMsg{Kind: "notice", Method: "initialized", Params: json.RawMessage("{}")})
		}
	}
	last := ""
	s.Rep(1, 9, func(i int) {
		switch s.W(8, 2, 2, 2, 1, 1) {
		case 0:
			m := lspMsg{Kind: "change", Method: "textDocument/didChange", URI: s.Pick("file:///a.cd", "file:///a.cd", "file:///b.cd"), Text: lspText(s, i)}
			if last != "" && s.P(1, 5) {
				m.Text = last // undone, or only touched
			}
			if s.P(1, 6) {
				m.Earl = []string{lspText(s, 100+i)}
			}
			last = m.Text
			changes++
			s.Label("change")
			add(m)
		case 1:
			add(lspMsg{Kind: "request", Method: s.Pick("textDocument/hover", "textDocument/completion", "textDocument/definition", "shutdown", "candice/unknown", "textDocument/DidChange"), ID: nextID(), Params: json.RawMessage(s.Pick("{}", "null", `{"textDocument":{"uri":"file:///a.cd"},"position":{"line":0,"character":3}}`))})
			s.Label("unknown request")
		case 2:
			add(lspMsg{Kind: "notice", Method: s.Pick("textDocument/didOpen", "textDocument/didClose", "textDocument/didSave", "$/cancelRequest", "workspace/didChangeConfiguration"), Params: json.RawMessage(s.Pick("{}", `{"settings":null}`, `{"textDocument":{"uri":"file:///a.cd","text":"func"}}`))})
			s.Label("notification")
		case 3:
			add(lspMsg{Kind: "bad", Method: "textDocument/didChange", Params: json.RawMessage(s.Pick("{}", "null", "[]", "3", `"x"`, `{"contentChanges":null}`, `{"contentChanges":[]}`, `{"contentChanges":"x"}`, `{"contentChanges":[{}]}`, `{"contentChanges":[{"text":5}]}`, `{"textDocument":[],"contentChanges":[{"text":""}]}`))})
			s.Label("malformed change")
		case 4:
			add(lspMsg{Kind: "init", Method: "initialize", ID: nextID(), Params: json.RawMessage("{}")})
		case 5:
			add(lspMsg{Kind: "answer", ID: json.RawMessage(fmt.Sprint(900 + i))})
		}
	})
	c.NonTr = changes > 0 && len(c.L) > 1
	return c
}

func init() {
	register(&Prop{ID: "C30", Title: "language server", Cli: true, Rule: "a history of at least two messages with a change of the document; distinct by messages", Assum: assumBase, Fams: []Fam{
		{Name: "server", Quick: 1500, Thorough: 30000, Gen: genLsp},
	}})
}
