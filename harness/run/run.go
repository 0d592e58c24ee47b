// Package run drives the code under test: a pool of driver processes (which
// link the compiler from /repo) plus clang and the produced executables.
package run

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type Tok struct {
	T    string `json:"t"`
	L    string `json:"l"`
	Line uint32 `json:"n"`
	Pos  uint32 `json:"p"`
	Over int    `json:"o"`
}

type Req struct {
	Op   string   `json:"op"`
	Src  string   `json:"-"`
	B    []byte   `json:"src"` // Src, byte for byte
	Dir  string   `json:"dir,omitempty"`
	Out  string   `json:"out,omitempty"`
	Args []string `json:"args,omitempty"`
}

type Resp struct {
	Stage     string   `json:"stage"`
	ParseErrs []string `json:"perr"`
	SemErrs   []string `json:"serr"`
	Panic     string   `json:"panic"`
	Text      string   `json:"text"`
	Err       string   `json:"err"`
	Toks      []Tok    `json:"toks"`
	Flags     []string `json:"flags"`
	// set by the pool
	Died   bool   `json:"-"`
	Hang   bool   `json:"-"`
	Output string `json:"-"` // what the driver printed while handling the request
}

// Rejected tells that the front end reported errors.
func (r *Resp) Rejected() bool { return len(r.ParseErrs) > 0 || len(r.SemErrs) > 0 }

// Why summarises an abnormal answer.
func (r *Resp) Why() string {
	switch {
	case r.Hang:
		return "compiler does not terminate (stage after " + r.Stage + ")"
	case r.Died:
		return "compiler process died: " + tail(r.Output, 700)
	case r.Panic != "":
		return "compiler panics: " + head(r.Panic, 900)
	case len(r.ParseErrs) > 0:
		return "syntax error reported: " + head(strings.Join(r.ParseErrs, " | "), 500)
	case len(r.SemErrs) > 0:
		return "semantic error reported: " + head(strings.Join(r.SemErrs, " | "), 500)
	case r.Err != "":
		return "error: " + r.Err
	}
	return ""
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// Infra is an error of the machinery, not of the code under test.
type Infra struct{ Err error }

func (e Infra) Error() string { return "harness: " + e.Err.Error() }

func infra(f string, a ...interface{}) { panic(Infra{fmt.Errorf(f, a...)}) }

// Worker is one slot: a driver process and a scratch directory.
type Worker struct {
	Bin  string
	Dir  string
	cmd  *exec.Cmd
	in   io.WriteCloser
	resp *bufio.Reader
	out  *os.File
	outN int64
	n    int
}

func NewWorker(bin, dir string) *Worker {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		infra("%v", err)
	}
	return &Worker{Bin: bin, Dir: dir}
}

func (w *Worker) start() {
	w.out, _ = os.OpenFile(filepath.Join(w.Dir, "drv.out"), os.O_CREATE|os.O_TRUNC|os.O_RDWR|os.O_APPEND, 0o644)
	w.outN = 0
	cmd := exec.Command("/bin/sh", "-c", "ulimit -v 6000000; exec "+w.Bin)
	cmd.Dir = w.Dir
	cmd.Stdout = w.out
	cmd.Stderr = w.out
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	r, wr, err := os.Pipe()
	if err != nil {
		infra("%v", err)
	}
	cmd.ExtraFiles = []*os.File{wr}
	w.in, err = cmd.StdinPipe()
	if err != nil {
		infra("%v", err)
	}
	if err := cmd.Start(); err != nil {
		infra("start driver: %v", err)
	}
	wr.Close()
	w.cmd = cmd
	w.resp = bufio.NewReaderSize(r, 1<<20)
	w.n = 0
}

func (w *Worker) Stop() {
	if w.cmd == nil {
		return
	}
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
	w.out.Close()
	w.cmd = nil
}

func cpuSeconds(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndex(s, ")")+1:])
	if len(f) < 14 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	return (u + k) / 100
}

const hangCPU = 12.0 // seconds of processor time for one tiny request

func (w *Worker) Do(r Req) *Resp {
	if w.cmd == nil {
		w.start()
	}
	w.n++
	r.B = []byte(r.Src)
	b, err := json.Marshal(r)
	if err != nil {
		infra("%v", err)
	}
	cpu0 := cpuSeconds(w.cmd.Process.Pid)
	type ans struct {
		line []byte
		err  error
	}
	ch := make(chan ans, 1)
	go func(rd *bufio.Reader, in io.WriteCloser) {
		in.Write(append(b, '\n'))
		line, err := rd.ReadBytes('\n')
		ch <- ans{line, err}
	}(w.resp, w.in)
	deadline := time.Now().Add(600 * time.Second)
	var a ans
	for {
		select {
		case a = <-ch:
			goto got
		case <-time.After(time.Second):
			if cpuSeconds(w.cmd.Process.Pid)-cpu0 > hangCPU {
				resp := &Resp{Hang: true, Stage: "?"}
				w.Stop()
				return resp
			}
			if time.Now().After(deadline) {
				w.Stop()
				infra("driver gives no answer and uses no processor time")
			}
		}
	}
got:
	resp := &Resp{}
	if a.err != nil {
		w.cmd.Wait()
		o, _ := os.ReadFile(filepath.Join(w.Dir, "drv.out"))
		resp.Died = true
		resp.Output = string(o[min(int(w.outN), len(o)):])
		w.Stop()
		return resp
	}
	if err := json.Unmarshal(a.line, resp); err != nil {
		infra("bad driver answer: %v", err)
	}
	if st, err := w.out.Stat(); err == nil && st.Size() > w.outN {
		buf := make([]byte, min(int(st.Size()-w.outN), 1<<16))
		w.out.ReadAt(buf, w.outN)
		resp.Output = string(buf)
		w.outN = st.Size()
	}
	if w.n > 3000 || w.outN > 32<<20 {
		w.Stop()
	}
	return resp
}

// Reset clears the work directory and writes files into it.
func (w *Worker) Reset(files map[string]string) string {
	dir := filepath.Join(w.Dir, "w")
	if err := os.RemoveAll(dir); err != nil {
		infra("%v", err)
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		infra("%v", err)
	}
	for n, c := range files {
		p := filepath.Join(dir, n)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			infra("%v", err)
		}
		if err := os.WriteFile(p, []byte(c), 0o644); err != nil {
			infra("%v", err)
		}
	}
	return dir
}

// ProcResult is the outcome of a child process.
type ProcResult struct {
	Out    string
	ErrOut string
	RC     int
	Signal string
	CPU    bool // killed by its processor time limit
}

type capBuf struct {
	bytes.Buffer
	max int
}

func (c *capBuf) Write(p []byte) (int, error) {
	if c.Len()+len(p) > c.max {
		return 0, errors.New("too much output")
	}
	return c.Buffer.Write(p)
}

// Unlimited marks an environment whose process needs its address space (a
// sanitizer's shadow memory); such processes limit their resident memory instead.
const Unlimited = "VERIF_UNLIMITED=1"

func vlimit(env []string) string {
	for _, e := range env {
		if e == Unlimited {
			return "unlimited"
		}
	}
	return "8000000"
}

// Exec runs a command with a processor time limit (seconds).
func Exec(dir string, cpu int, env []string, stdin string, name string, args ...string) ProcResult {
	all := append([]string{"-c", fmt.Sprintf("ulimit -t %d; ulimit -v "+vlimit(env)+"; ulimit -c 0; exec \"$0\" \"$@\"", cpu), name}, args...)
	cmd := exec.Command("/bin/sh", all...)
	cmd.Dir = dir
	if env != nil {
		cmd.Env = append(os.Environ(), env...)
	}
	cmd.Stdin = strings.NewReader(stdin)
	so, se := &capBuf{max: 4 << 20}, &capBuf{max: 1 << 20}
	cmd.Stdout, cmd.Stderr = so, se
	cmd.WaitDelay = 2 * time.Second
	if err := cmd.Start(); err != nil {
		infra("start %s: %v", name, err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(400 * time.Second):
		cmd.Process.Kill()
		infra("%s gives no result and uses no processor time", name)
	}
	r := ProcResult{Out: so.String(), ErrOut: se.String()}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			ws := ee.Sys().(syscall.WaitStatus)
			if ws.Signaled() {
				r.RC = -1
				r.Signal = ws.Signal().String()
				r.CPU = ws.Signal() == syscall.SIGXCPU || (ws.Signal() == syscall.SIGKILL)
			} else {
				r.RC = ee.ExitCode()
				if r.RC > 128 {
					r.Signal = fmt.Sprintf("signal %d", r.RC-128)
				}
			}
		} else {
			r.RC = -2
			r.Signal = err.Error()
		}
	}
	return r
}

// ClangBin is the C compiler that accepts the emitted IR.
var ClangBin = "clang-17"

// Clang compiles and links inputs into out.
func (w *Worker) Clang(dir, out string, opt string, inputs ...string) (string, bool) {
	args := []string{"-w", opt}
	args = append(args, inputs...)
	args = append(args, "-o", out, "-lm")
	r := Exec(dir, 120, nil, "", ClangBin, args...)
	if r.RC != 0 {
		if r.Signal != "" && strings.Contains(r.ErrOut, "emory") {
			infra("clang: %s", tail(r.ErrOut, 300))
		}
		return r.ErrOut, false
	}
	return "", true
}
