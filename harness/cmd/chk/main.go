// chk decides one property by generated-input search.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"candverif/gen"
	"candverif/run"
)

// Case is one self-contained test: what is fed to the code under test and
// what is expected of it. It is what a replay file stores.
type Case struct {
	Prop  string            `json:"property"`
	Fam   string            `json:"family"`
	Judge string            `json:"judge"`
	Src   string            `json:"src,omitempty"`
	Files map[string]string `json:"files,omitempty"`
	Want  string            `json:"want"`
	X     map[string]string `json:"x,omitempty"`
	L     []string          `json:"l,omitempty"`
	NonTr bool              `json:"nontrivial"`
	// set in files when the text is not valid UTF-8
	SrcB  []byte `json:"src_bytes,omitempty"`
	WantB []byte `json:"want_bytes,omitempty"`
}

func (c *Case) encode() []byte {
	d := *c
	if !utf8.ValidString(d.Src) {
		d.SrcB = []byte(d.Src)
	}
	if !utf8.ValidString(d.Want) {
		d.WantB = []byte(d.Want)
	}
	b, _ := json.MarshalIndent(&d, "", " ")
	return append(b, '\n')
}

func decodeCase(b []byte) (*Case, error) {
	c := &Case{}
	if err := json.Unmarshal(b, c); err != nil {
		return nil, err
	}
	if c.SrcB != nil {
		c.Src, c.SrcB = string(c.SrcB), nil
	}
	if c.WantB != nil {
		c.Want, c.WantB = string(c.WantB), nil
	}
	return c, nil
}

// Env is what a judge can use.
type Env struct {
	W   *run.Worker
	Cli string // path of the built candice command
	RT  string // directory with compiled run-time helpers
}

type Fam struct {
	Name     string
	Quick    int
	Thorough int
	Gen      func(s *gen.Src) *Case
	// Exhaustive families enumerate: Gen is called with index choices only.
	Serial bool
}

type Prop struct {
	ID    string
	Title string
	Fams  []Fam
	Rule  string
	Assum []string
	Cli   bool
}

type JudgeFn func(e *Env, c *Case) (msg string) // "" means the property held

var props = map[string]*Prop{}
var judges = map[string]JudgeFn{}

func register(p *Prop) { props[p.ID] = p }

var (
	fProp   = flag.String("prop", "", "property id")
	fTier   = flag.String("tier", "quick", "quick or thorough")
	fReplay = flag.String("replay", "", "replay file")
	fFam    = flag.String("fam", "", "only this family")
	fN      = flag.Int("n", 0, "override case count")
	fSeed   = flag.Int("seed", -1, "override VERIF_SEED")
	fDump   = flag.Int("dump", -1, "print the case with this index of -fam")
	fScale  = flag.Float64("scale", 1, "scale case counts")
	fAll    = flag.Bool("all", false, "do not stop at failures; list them by note (development aid)")
	fOnly   = flag.Int("only", -1, "only this case of -fam")
	fRaw    = flag.Bool("raw", false, "do not shrink (development aid)")
	fJobs   = flag.Int("j", 0, "parallel jobs")
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "chk: "+f+"\n", a...)
	os.Exit(3)
}

func judge(e *Env, c *Case) (msg string, ierr error) {
	defer func() {
		if r := recover(); r != nil {
			if i, ok := r.(run.Infra); ok {
				ierr = i
				return
			}
			panic(r)
		}
	}()
	j := judges[c.Judge]
	if j == nil {
		return "", fmt.Errorf("unknown judge %q", c.Judge)
	}
	return j(e, c), nil
}

type violation struct {
	fam   *Fam
	idx   int
	rec   []uint32
	spans []gen.Span
	c     *Case
	msg   string
}

func main() {
	flag.Parse()
	start := time.Now()
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	drv := os.Getenv("VERIF_DRV")
	if drv == "" {
		fatal("VERIF_DRV is not set")
	}
	seed := 1
	if v := os.Getenv("VERIF_SEED"); v != "" {
		seed, _ = strconv.Atoi(v)
	}
	if *fSeed >= 0 {
		seed = *fSeed
	}
	scratch, err := os.MkdirTemp("", "verif-chk-")
	if err != nil {
		fatal("%v", err)
	}
	code := 3
	defer func() {
		os.RemoveAll(scratch)
		os.Exit(code)
	}()
	jobs := runtime.NumCPU()
	if *fJobs > 0 {
		jobs = *fJobs
	}
	mkEnv := func(i int) *Env {
		return &Env{W: run.NewWorker(drv, filepath.Join(scratch, fmt.Sprintf("w%d", i))), Cli: os.Getenv("VERIF_CLI"), RT: scratch}
	}
	if *fReplay != "" {
		b, err := os.ReadFile(*fReplay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return
		}
		c, err := decodeCase(b)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return
		}
		e := mkEnv(0)
		msg, ierr := judge(e, c)
		e.W.Stop()
		if ierr != nil {
			fmt.Fprintln(os.Stderr, ierr)
			return
		}
		if msg != "" {
			fmt.Println(msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, *fReplay)
			code = 1
			return
		}
		fmt.Println("held")
		code = 0
		return
	}
	p := props[*fProp]
	if p != nil {
		p.Fams = append(p.Fams, extraFams[*fProp]...)
	}
	if p == nil {
		fmt.Fprintf(os.Stderr, "chk: no property %q\n", *fProp)
		return
	}
	if *fDump >= 0 {
		for i := range p.Fams {
			f := &p.Fams[i]
			if f.Name == *fFam {
				s := gen.New(gen.Hash(p.ID, f.Name, seed, *fDump))
				c := f.Gen(s)
				if c == nil {
					fmt.Println("discarded")
				} else {
					fmt.Println(show(c))
					fmt.Println(s.Labels)
				}
			}
		}
		code = 0
		return
	}

	known := loadKnown(root, p.ID)
	type job struct {
		fam *Fam
		idx int
	}
	var jobsList []job
	famN := map[string]int{}
	for i := range p.Fams {
		f := &p.Fams[i]
		if *fFam != "" && f.Name != *fFam {
			continue
		}
		n := f.Quick
		if *fTier == "thorough" {
			n = f.Thorough
		}
		n = int(float64(n) * *fScale)
		if *fN > 0 {
			n = *fN
		}
		famN[f.Name] = n
		for k := 0; k < n; k++ {
			if *fOnly >= 0 && k != *fOnly {
				continue
			}
			jobsList = append(jobsList, job{f, k})
		}
	}
	// interleave families so that every one is sampled early
	sort.SliceStable(jobsList, func(a, b int) bool {
		fa := float64(jobsList[a].idx) / float64(famN[jobsList[a].fam.Name])
		fb := float64(jobsList[b].idx) / float64(famN[jobsList[b].fam.Name])
		return fa < fb
	})

	var (
		mu       sync.Mutex
		next     int64
		stop     int32
		viols    []violation
		evals    = map[string]int{}
		disc     = map[string]int{}
		labels   = map[string]int{}
		distinct = map[uint64]bool{}
		samples  []string
		sampled  = map[string]int{}
		infraErr error
	)
	envs := make([]*Env, jobs)
	var wg sync.WaitGroup
	for wi := 0; wi < jobs; wi++ {
		envs[wi] = mkEnv(wi)
		wg.Add(1)
		go func(e *Env) {
			defer wg.Done()
			for {
				k := int(atomic.AddInt64(&next, 1)) - 1
				if k >= len(jobsList) || atomic.LoadInt32(&stop) != 0 {
					return
				}
				j := jobsList[k]
				s := gen.New(gen.Hash(p.ID, j.fam.Name, seed, j.idx))
				c := j.fam.Gen(s)
				if c == nil {
					mu.Lock()
					disc[j.fam.Name]++
					mu.Unlock()
					continue
				}
				c.Prop, c.Fam = p.ID, j.fam.Name
				msg, ierr := judge(e, c)
				mu.Lock()
				if ierr != nil {
					if infraErr == nil {
						infraErr = ierr
					}
					atomic.StoreInt32(&stop, 1)
					mu.Unlock()
					return
				}
				evals[j.fam.Name]++
				for l, n := range s.Labels {
					labels[l] += n
				}
				if c.NonTr {
					distinct[gen.Hash(c.Judge, c.Src, filesKey(c), c.Want)] = true
				}
				if sampled[j.fam.Name] < 2 && len(samples) < 12 {
					sampled[j.fam.Name]++
					samples = append(samples, clip(show(c), 1500))
				}
				if msg != "" && *fAll {
					fmt.Printf("FAIL %s#%d %s => %s\n", j.fam.Name, j.idx, c.X["note"], strings.ReplaceAll(clip(msg, 1500), "\n", " "))
				} else if msg != "" && !known.matches(c, msg) {
					viols = append(viols, violation{j.fam, j.idx, append([]uint32(nil), s.Rec...), s.Spans, c, msg})
					atomic.StoreInt32(&stop, 1)
				}
				mu.Unlock()
			}
		}(envs[wi])
	}
	wg.Wait()
	if infraErr != nil && len(viols) == 0 {
		fmt.Fprintln(os.Stderr, infraErr)
		return
	}
	code = 0
	nviol := 0
	if len(viols) > 0 {
		nviol = 1
		sort.Slice(viols, func(a, b int) bool { return viols[a].idx < viols[b].idx })
		v := viols[0]
		limit := time.Now().Add(45 * time.Second)
		last, lastMsg := v.c, v.msg
		lastLen := len(v.rec)
		budget := 4000
		if *fRaw {
			budget = 0
		}
		gen.Shrink(v.rec, v.spans, budget, jobs, func(cs [][]uint32) []gen.Tried {
			out := make([]gen.Tried, len(cs))
			if time.Now().After(limit) {
				return out
			}
			var wg sync.WaitGroup
			for i := range cs {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					// A sequence that no generator would make is not a case.
					defer func() { recover() }()
					s := gen.Replay(cs[i])
					c := v.fam.Gen(s)
					if c == nil {
						return
					}
					c.Prop, c.Fam = p.ID, v.fam.Name
					msg, ierr := judge(envs[i], c)
					if ierr != nil || msg == "" || known.matches(c, msg) {
						return
					}
					out[i] = gen.Tried{Rec: s.Rec, Spans: s.Spans, Fails: true}
					mu.Lock()
					if len(s.Rec) <= lastLen {
						last, lastMsg, lastLen = c, msg, len(s.Rec)
					}
					mu.Unlock()
				}(i)
			}
			wg.Wait()
			return out
		})
		dir := filepath.Join(root, "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", p.ID, v.fam.Name, v.idx))
		os.WriteFile(path, last.encode(), 0o644)
		fmt.Println(show(last))
		fmt.Println("what failed:", lastMsg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		code = 1
	}
	// replay the known findings
	for _, k := range known.list {
		if k.Case == nil {
			continue
		}
		msg, ierr := judge(envs[0], k.Case)
		if ierr != nil {
			fmt.Fprintln(os.Stderr, ierr)
			code = 3
			break
		}
		if msg != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
		}
	}
	for _, e := range envs {
		e.W.Stop()
	}
	total := 0
	for _, n := range evals {
		total += n
	}
	dtotal := 0
	for _, n := range disc {
		dtotal += n
	}
	fams := map[string]interface{}{}
	for n := range famN {
		fams[n] = map[string]int{"generated": evals[n] + disc[n], "judged": evals[n], "discarded": disc[n]}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": *fTier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": total, "distinct_nontrivial": len(distinct), "rule": p.Rule,
			"samples": samples, "families": fams, "classes": labels, "discarded": dtotal,
		},
		"assumptions": p.Assum, "violations": nviol, "wall_s": time.Since(start).Seconds(),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		code = 3
	}
	fmt.Printf("%s %s seed=%d: %d cases judged, %d distinct non-trivial, %d discarded, %.1fs\n", p.ID, *fTier, seed, total, len(distinct), dtotal, time.Since(start).Seconds())
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func filesKey(c *Case) string {
	var ks []string
	for k := range c.Files {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		sb.WriteString(k + "\x00" + c.Files[k] + "\x00")
	}
	for _, l := range c.L {
		sb.WriteString(l + "\x00")
	}
	return sb.String()
}

func show(c *Case) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "[%s/%s judge=%s]\n", c.Prop, c.Fam, c.Judge)
	if c.Src != "" {
		sb.WriteString(c.Src)
		if !strings.HasSuffix(c.Src, "\n") {
			sb.WriteByte('\n')
		}
	}
	var ks []string
	for k := range c.Files {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&sb, "--- file %s\n%s\n", k, c.Files[k])
	}
	for i, l := range c.L {
		if c.Judge == "cli" {
			fmt.Fprintf(&sb, "--- step %d: %s\n", i+1, strings.ReplaceAll(strings.ReplaceAll(l, "\\n", "\n"), "\\t", "\t"))
		}
	}
	if c.Want != "" {
		fmt.Fprintf(&sb, "--- expected: %q\n", c.Want)
	}
	ks = nil
	for k := range c.X {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&sb, "--- %s: %q\n", k, c.X[k])
	}
	return sb.String()
}

// ---- known findings

type knownEntry struct {
	Prop string
	File string
	What string
	Case *Case
}

type knownSet struct{ list []knownEntry }

// loadKnown reads known-findings.txt: lines "known: property=<id> case=<file> <what>"
// and "fixed: property=<id> <commit> <what>"; the latter suppress nothing.
func loadKnown(root, id string) *knownSet {
	ks := &knownSet{}
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return ks
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" ")
		f, what, _ := strings.Cut(rest, " ")
		f = strings.TrimPrefix(f, "case=")
		cb, err := os.ReadFile(filepath.Join(root, f))
		if err != nil {
			fatal("known finding: %v", err)
		}
		c, err := decodeCase(cb)
		if err != nil {
			fatal("known finding: %v", err)
		}
		ks.list = append(ks.list, knownEntry{id, f, what, c})
	}
	return ks
}

// matches tells whether a failing case is exactly a listed one.
func (k *knownSet) matches(c *Case, msg string) bool {
	for _, e := range k.list {
		if e.Case != nil && e.Case.Judge == c.Judge && e.Case.Src == c.Src && filesKey(e.Case) == filesKey(c) && e.Case.Want == c.Want {
			return true
		}
	}
	return false
}
