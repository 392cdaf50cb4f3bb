package rt

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func sleepMS(n int) { time.Sleep(time.Duration(n) * time.Millisecond) }
func devnullLog()   { log.SetOutput(io.Discard) }

type Violation struct {
	Case  string
	Fails []string
	Files []string
}

type known struct {
	Property string `json:"property"`
	Case     string `json:"case"` // family name of the pinned reproduction
	What     string `json:"what"`
	Where    string `json:"where"`
}

type knownFile struct {
	Findings []known  `json:"findings"`
	Fixed    []string `json:"fixed"`
}

// CPU seconds one case may burn before it counts as a hang.  Cases normally
// take milliseconds; the bound is three to four orders of magnitude above.
const hangCPU = 90.0

// Wall-clock backstop for a case that burns no CPU (deadlock).
const hangWall = 420 * time.Second

// maxDeaths is the number of lost workers after which a run stops.
const maxDeaths = 8

type runner struct {
	ck      *Check
	tier    string
	seed    int64
	verif   string
	tmp     string
	mu      sync.Mutex
	results []*Result
	viol    []Violation
	pinned  map[string][]string // family -> fails
	pinRun  map[string]int
	deaths  int
	harness []string // harness problems (not verdicts)
}

func procCPU(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	i := bytes.LastIndexByte(b, ')')
	f := strings.Fields(string(b[i+1:]))
	if len(f) < 14 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	s, _ := strconv.ParseFloat(f[12], 64)
	return (u + s) / 100
}

type tail struct {
	mu   sync.Mutex
	head []byte
	tail []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.head) < 64<<10 {
		t.head = append(t.head, p...)
	} else {
		t.tail = append(t.tail, p...)
		if len(t.tail) > 128<<10 {
			t.tail = t.tail[len(t.tail)-64<<10:]
		}
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.head) + string(t.tail)
}

// shard runs items, restarting the worker after each death.
func (r *runner) shard(id int, items []workItem) {
	dir := filepath.Join(r.tmp, fmt.Sprintf("w%d", id))
	os.MkdirAll(dir, 0755)
	attempt := 0
	for len(items) > 0 {
		attempt++
		wf := filepath.Join(dir, "work.json")
		of := filepath.Join(dir, fmt.Sprintf("out%d.jsonl", len(items)*100+attempt))
		batch := items
		if r.fresh(items[0].Fam) {
			batch = items[:1] // a process of its own
		} else {
			for i := range items {
				if r.fresh(items[i].Fam) {
					batch = items[:i]
					break
				}
			}
		}
		left := len(items) - len(batch)
		b, _ := json.Marshal(batch)
		os.WriteFile(wf, b, 0644)
		cmd := exec.Command(os.Args[0], "worker", r.ck.ID, r.tier, fmt.Sprint(r.seed), wf, of, dir)
		st := &tail{}
		cmd.Stderr = st
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all", "GOMAXPROCS="+r.procs())
		if err := cmd.Start(); err != nil {
			r.note("cannot start worker: " + err.Error())
			return
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		var werr error
		killed := ""
		lastCase := ""
		baseCPU := 0.0
		var since time.Time
		read := newFollow(of)
		collect := func() {
			for _, res := range read.next() {
				if res.Begin {
					lastCase = res.Case
					baseCPU = procCPU(cmd.Process.Pid)
					since = time.Now()
					continue
				}
				lastCase = ""
				r.take(res)
				for len(items) > 0 {
					k := fmt.Sprintf("%s/%d", items[0].Fam, items[0].Idx)
					items = items[1:]
					if k == res.Case {
						break
					}
				}
			}
		}
	loop:
		for {
			select {
			case werr = <-done:
				break loop
			case <-time.After(300 * time.Millisecond):
				collect()
				if lastCase != "" {
					cpu := procCPU(cmd.Process.Pid) - baseCPU
					lim := hangCPU
					if r.ck.Race {
						lim *= 4
					}
					if r.ck.HangCPU > 0 {
						lim = r.ck.HangCPU
					}
					if cpu > lim {
						killed = fmt.Sprintf("no result after %.0f CPU seconds (hang)", cpu)
					} else if !since.IsZero() && time.Since(since) > hangWall && cpu < 2 {
						killed = "no result and no CPU use for minutes (deadlock)"
					}
					if killed != "" {
						cmd.Process.Signal(syscall.SIGQUIT)
						select {
						case werr = <-done:
						case <-time.After(5 * time.Second):
							cmd.Process.Kill()
							werr = <-done
						}
						break loop
					}
				}
			}
		}
		collect()
		if werr == nil && len(items) == left {
			attempt = 0
			continue
		}
		if lastCase == "" && len(items) > 0 {
			// died between cases: harness trouble unless it repeats on the same item
			if attempt > 50 {
				r.note("worker keeps dying outside cases: " + clipS(st.String(), 600))
				return
			}
			if werr != nil && strings.Contains(st.String(), "DATA RACE") {
				r.fail(fmt.Sprintf("%s/%d", items[0].Fam, items[0].Idx), []string{"data race: " + clipS(st.String(), 1400)}, nil)
			}
			continue
		}
		if lastCase == "" {
			return
		}
		// the worker died inside lastCase
		r.mu.Lock()
		r.deaths++
		enough := r.deaths >= maxDeaths
		r.mu.Unlock()
		msg := "process died"
		s := st.String()
		switch {
		case killed != "":
			msg = killed
		case strings.Contains(s, "DATA RACE"):
			msg = "data race detected"
		case strings.Contains(s, "MEMORY-BLOWUP"):
			msg = "memory blow-up: live heap above limit"
		case strings.Contains(s, "stack overflow") || strings.Contains(s, "goroutine stack exceeds"):
			msg = "stack overflow"
		case strings.Contains(s, "concurrent map"):
			msg = "concurrent map access"
		case strings.Contains(s, "fatal error:"):
			msg = "fatal error"
		case werr != nil && strings.Contains(werr.Error(), "killed"):
			msg = "killed (out of memory?)"
		}
		r.fail(lastCase, []string{msg + "\n" + crashExcerpt(s)}, nil)
		if enough {
			return // the verdict is clear; the rest would only take time
		}
		for len(items) > 0 {
			k := fmt.Sprintf("%s/%d", items[0].Fam, items[0].Idx)
			items = items[1:]
			if k == lastCase {
				break
			}
		}
	}
}

func (r *runner) fresh(fam string) bool {
	for i := range r.ck.Families {
		if r.ck.Families[i].Name == fam {
			return r.ck.Families[i].Fresh
		}
	}
	return false
}

func (r *runner) procs() string {
	if r.ck.Race {
		return "8"
	}
	return "2"
}

func crashExcerpt(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i, l := range lines {
		if strings.Contains(l, "fatal error") || strings.Contains(l, "DATA RACE") || strings.Contains(l, "MEMORY-BLOWUP") || strings.HasPrefix(l, "panic:") || strings.Contains(l, "stack exceeds") {
			out = append(out, l)
		}
		if strings.Contains(l, "/repo/") || strings.HasPrefix(l, "github.com/benedoc-inc/pdfer") {
			out = append(out, strings.TrimSpace(l))
			_ = i
		}
		if len(out) > 14 {
			break
		}
	}
	if len(out) == 0 {
		return clipS(s, 800)
	}
	return strings.Join(out, "\n")
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (r *runner) note(s string) {
	r.mu.Lock()
	r.harness = append(r.harness, s)
	r.mu.Unlock()
}

func famOf(k string) string { return k[:strings.LastIndexByte(k, '/')] }

func (r *runner) isPinned(k string) bool {
	f := famOf(k)
	for i := range r.ck.Families {
		if r.ck.Families[i].Name == f {
			return r.ck.Families[i].Pinned
		}
	}
	return false
}

func (r *runner) fail(k string, fails, files []string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.isPinned(k) {
		r.pinned[famOf(k)] = append(r.pinned[famOf(k)], fails...)
		r.pinRun[famOf(k)]++
		return
	}
	r.viol = append(r.viol, Violation{Case: k, Fails: fails, Files: files})
}

func (r *runner) take(res *Result) {
	if len(res.Fails) > 0 {
		r.fail(res.Case, res.Fails, res.Files)
	}
	r.mu.Lock()
	if r.isPinned(res.Case) && len(res.Fails) == 0 {
		r.pinRun[famOf(res.Case)]++
	}
	r.results = append(r.results, res)
	r.mu.Unlock()
}

type follow struct {
	path string
	off  int64
}

func newFollow(p string) *follow { return &follow{path: p} }

func (f *follow) next() []*Result {
	fh, err := os.Open(f.path)
	if err != nil {
		return nil
	}
	defer fh.Close()
	fh.Seek(f.off, 0)
	rd := bufio.NewReaderSize(fh, 1<<20)
	var out []*Result
	for {
		line, err := rd.ReadBytes('\n')
		if err != nil {
			return out
		}
		f.off += int64(len(line))
		var r Result
		if json.Unmarshal(line, &r) == nil {
			out = append(out, &r)
		}
	}
}

// Main runs one check; returns the exit status.
func Main(id, tier string, seed int64, verif string, only string) int {
	ck := Checks[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		return 2
	}
	start := time.Now()
	tmp, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	r := &runner{ck: ck, tier: tier, seed: seed, verif: verif, tmp: tmp, pinned: map[string][]string{}, pinRun: map[string]int{}}
	var kf knownFile
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		json.Unmarshal(b, &kf)
	}
	var items []workItem
	for i := range ck.Families {
		f := &ck.Families[i]
		n := f.Quick
		if tier == "thorough" {
			n = f.Thorough
			if n < f.Quick {
				n = f.Quick
			}
		}
		for j := 0; j < n; j++ {
			if only != "" && only != fmt.Sprintf("%s/%d", f.Name, j) && only != f.Name {
				continue
			}
			items = append(items, workItem{f.Name, j})
		}
	}
	if only != "" && len(items) == 0 {
		if i := strings.LastIndexByte(only, '/'); i > 0 {
			n, _ := strconv.Atoi(only[i+1:])
			items = append(items, workItem{only[:i], n})
		}
	}
	workers := 8
	if ck.Race {
		workers = 4
	}
	if v := os.Getenv("VERIF_WORKERS"); v != "" {
		workers, _ = strconv.Atoi(v)
	}
	shards := make([][]workItem, workers)
	for i, it := range items {
		shards[i%workers] = append(shards[i%workers], it)
	}
	var wg sync.WaitGroup
	for i := range shards {
		if len(shards[i]) == 0 {
			continue
		}
		wg.Add(1)
		go func(i int) { defer wg.Done(); r.shard(i, shards[i]) }(i)
	}
	wg.Wait()

	// known findings
	status := 0
	listed := map[string]known{}
	for _, k := range kf.Findings {
		if k.Property == id {
			listed[k.Case] = k
		}
	}
	var famNames []string
	for f := range r.pinRun {
		famNames = append(famNames, f)
	}
	sort.Strings(famNames)
	for _, f := range famNames {
		fails := r.pinned[f]
		k, ok := listed[f]
		switch {
		case len(fails) == 0 && ok:
			fmt.Printf("note: known finding %s no longer reproduces\n", f)
		case len(fails) > 0 && ok:
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
		case len(fails) > 0:
			r.viol = append(r.viol, Violation{Case: f + "/0", Fails: fails})
		}
	}
	sort.Slice(r.viol, func(i, j int) bool { return r.viol[i].Case < r.viol[j].Case })

	// violations
	if dump := os.Getenv("VERIF_DUMP"); dump != "" {
		b, _ := json.Marshal(r.viol)
		os.WriteFile(dump, b, 0644)
	}
	rdir := filepath.Join(verif, "evidence", "replay", id)
	os.RemoveAll(rdir)
	for i, v := range r.viol {
		if i >= 20 {
			fmt.Printf("... %d further violating cases\n", len(r.viol)-i)
			break
		}
		status = 1
		os.MkdirAll(rdir, 0755)
		p := filepath.Join(rdir, strings.ReplaceAll(v.Case, "/", "_")+".json")
		var kept []string
		for _, f := range v.Files {
			b, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			np := filepath.Join(rdir, strings.TrimPrefix(filepath.Base(f), "keep_"))
			os.WriteFile(np, b, 0644)
			kept = append(kept, np)
		}
		b, _ := json.MarshalIndent(map[string]interface{}{
			"property": id, "case": v.Case, "tier": tier, "seed": seed, "fails": v.Fails, "files": kept,
			"rerun": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s VERIF_CASE=%s /verif/run.sh %s", seed, tier, v.Case, id),
		}, "", "  ")
		os.WriteFile(p, b, 0644)
		if i < 6 {
			fmt.Printf("case %s: %s\n", v.Case, clipS(strings.Join(v.Fails, " | "), 900))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
	}

	// evidence
	counts := map[string]int64{}
	distinct := map[uint64]bool{}
	allObs := map[uint64]bool{}
	var samples []string
	total := int64(0)
	perFam := map[string]int{}
	for _, res := range r.results {
		perFam[famOf(res.Case)]++
		for k, n := range res.Counts {
			counts[k] += n
			total += n
		}
		fp := uint64(0)
		for _, d := range res.Distinct {
			fp = fp*1099511628211 ^ d
			allObs[d] = true
		}
		if len(res.Distinct) > 0 {
			distinct[fp] = true
		}
		if res.Sample != "" && len(samples) < 12 {
			samples = append(samples, res.Case+": "+res.Sample)
		}
	}
	sort.Strings(samples)
	if only == "" {
		if len(r.results) < len(items)-r.deaths {
			r.note(fmt.Sprintf("only %d of %d cases reported", len(r.results), len(items)))
		}
		ev := map[string]interface{}{
			"property": id, "tier": tier, "seed": seed, "level": "exploration",
			"coverage": map[string]interface{}{
				"evaluations":           len(r.results),
				"oracle_comparisons":    total,
				"distinct_observations": len(allObs),
				"distinct_nontrivial":   len(distinct),
				"rule":                  ck.Rule,
				"samples":               samples,
				"cases_per_family":      perFam,
				"observations":          counts,
				"worker_deaths":         r.deaths,
			},
			"assumptions": ck.Assume,
			"wall_s":      time.Since(start).Seconds(),
			"violations":  len(r.viol),
		}
		os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
		b, _ := json.MarshalIndent(ev, "", "  ")
		os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0644)
		fmt.Printf("%s: %d cases, %d oracle comparisons, %d distinct observations, %d violating cases, %.1fs\n", id, len(r.results), total, len(distinct), len(r.viol), time.Since(start).Seconds())
	} else {
		fmt.Printf("%s: %d cases run, counts %v, %d violating\n", id, len(r.results), counts, len(r.viol))
	}
	if len(r.harness) > 0 && status == 0 {
		for _, h := range r.harness {
			fmt.Println("HARNESS:", h)
		}
		return 2
	}
	return status
}
