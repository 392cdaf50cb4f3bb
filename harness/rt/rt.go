// Package rt is the monitor runtime: it enumerates a deterministic case list,
// runs the cases in worker processes, watches those processes (panic, fatal
// error, stack overflow, memory blow-up, CPU hang, data race) and turns what
// the oracles report into verdicts, replay files and evidence.
package rt

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
)

// Family is a deterministic list of cases.
type Family struct {
	Name     string
	Quick    int
	Thorough int
	Run      func(c *C)
	// Pinned families reproduce one listed known finding each; they never
	// count towards a violation when listed in known_findings.json.
	Pinned bool
	Fresh  bool // every case in a process that has done nothing before
	// Watch the heap: bytes a single case may allocate live (0: default).
}

type Check struct {
	ID       string
	Title    string
	Rule     string // what makes an observation non-trivial
	Families []Family
	Race     bool
	Assume   []string
	HangCPU  float64 // CPU seconds of a case that count as a hang (0: default)
	MaxAS    uint64  // address space limit of a worker in bytes (0: none)
}

var Checks = map[string]*Check{}

func Register(c *Check) { Checks[c.ID] = c }

// C is the context of one case.
type C struct {
	Check *Check
	Fam   string
	Idx   int
	Tier  string
	Seed  int64
	R     *rand.Rand
	res   *Result
	Files map[string][]byte
	Dir   string // scratch directory of the worker
}

type Result struct {
	Case     string           `json:"case"`
	Fails    []string         `json:"fails,omitempty"`
	Counts   map[string]int64 `json:"counts,omitempty"`
	Distinct []uint64         `json:"distinct,omitempty"`
	Sample   string           `json:"sample,omitempty"`
	Files    []string         `json:"files,omitempty"`
	Begin    bool             `json:"begin,omitempty"`
}

func (c *C) Key() string { return fmt.Sprintf("%s/%d", c.Fam, c.Idx) }

// Failf reports a violation of the property.
func (c *C) Failf(f string, a ...interface{}) {
	if len(c.res.Fails) < 8 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		c.res.Fails = append(c.res.Fails, s)
	}
}

func (c *C) Failed() bool { return len(c.res.Fails) > 0 }

// Obs counts n oracle comparisons of kind k.
func (c *C) Obs(k string, n int) { c.res.Counts[k] += int64(n) }

// Distinct records a fingerprint of what was observed.
func (c *C) Distinct(parts ...interface{}) {
	if len(c.res.Distinct) > 64 {
		return
	}
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	c.res.Distinct = append(c.res.Distinct, h.Sum64())
}

// Save attaches a file to the replay of this case.
func (c *C) Save(name string, b []byte) {
	c.Files[name] = append([]byte{}, b...)
}

func (c *C) Sample(f string, a ...interface{}) {
	if c.res.Sample == "" {
		s := fmt.Sprintf(f, a...)
		if len(s) > 300 {
			s = s[:300]
		}
		c.res.Sample = s
	}
}

// Try runs fn and turns a panic into a failure.
func (c *C) Try(what string, fn func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			c.Failf("%s panicked: %v\n%s", what, r, trimStack(debug.Stack()))
			ok = false
		}
	}()
	fn()
	return true
}

func trimStack(s []byte) string {
	lines := strings.Split(string(s), "\n")
	var out []string
	for i, l := range lines {
		if strings.Contains(l, "pdfer") && !strings.Contains(l, "verifharness") {
			out = append(out, l)
			if i+1 < len(lines) {
				out = append(out, strings.TrimSpace(lines[i+1]))
			}
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func seedFor(seed int64, parts ...string) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d", seed)
	for _, p := range parts {
		h.Write([]byte{0})
		h.Write([]byte(p))
	}
	return int64(h.Sum64() >> 1)
}

func caseSeed(seed int64, id, fam string, idx int) int64 {
	return seedFor(seed, id, fam, fmt.Sprint(idx))
}

// ---- worker ----

var curCase atomic.Value

func runCase(ck *Check, fam *Family, idx int, tier string, seed int64, dir string) (*Result, map[string][]byte) {
	r := &Result{Case: fmt.Sprintf("%s/%d", fam.Name, idx), Counts: map[string]int64{}}
	c := &C{Check: ck, Fam: fam.Name, Idx: idx, Tier: tier, Seed: seed, R: rand.New(rand.NewSource(caseSeed(seed, ck.ID, fam.Name, idx))), res: r, Files: map[string][]byte{}, Dir: dir}
	func() {
		defer func() {
			if p := recover(); p != nil {
				st := debug.Stack()
				t := trimStack(st)
				if t == "" {
					t = string(st)
				}
				c.Failf("panic: %v\n%s", p, t)
			}
		}()
		fam.Run(c)
	}()
	return r, c.Files
}

type workItem struct {
	Fam string `json:"f"`
	Idx int    `json:"i"`
}

// WorkerMain runs the items listed in the work file and logs to out.
func WorkerMain(ck *Check, tier string, seed int64, workFile, outFile, dir string) {
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(100)
	if ck.MaxAS > 0 {
		l := syscall.Rlimit{Cur: ck.MaxAS, Max: ck.MaxAS}
		syscall.Setrlimit(syscall.RLIMIT_AS, &l)
	}
	var items []workItem
	b, err := os.ReadFile(workFile)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	json.Unmarshal(b, &items)
	f, err := os.OpenFile(outFile, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	// the library logs freely; the monitors do not need it
	if dn, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = dn
	}
	devnullLog()
	go heapMonitor()
	fams := map[string]*Family{}
	for i := range ck.Families {
		fams[ck.Families[i].Name] = &ck.Families[i]
	}
	enc := json.NewEncoder(f)
	for _, it := range items {
		key := fmt.Sprintf("%s/%d", it.Fam, it.Idx)
		curCase.Store(key)
		enc.Encode(&Result{Case: key, Begin: true})
		cd := filepath.Join(dir, strings.ReplaceAll(key, "/", "_"))
		os.MkdirAll(cd, 0755)
		res, files := runCase(ck, fams[it.Fam], it.Idx, tier, seed, cd)
		if len(res.Fails) > 0 {
			for n, d := range files {
				p := filepath.Join(dir, "keep_"+strings.ReplaceAll(key, "/", "_")+"_"+n)
				if os.WriteFile(p, d, 0644) == nil {
					res.Files = append(res.Files, p)
				}
			}
			sort.Strings(res.Files)
		}
		os.RemoveAll(cd)
		enc.Encode(res)
	}
	f.Close()
	os.Exit(0)
}

// MemLimit is the live-heap bound that counts as a blow-up for the inputs the
// checks feed (all far below 8 MB).
const MemLimit = 3 << 30

func heapMonitor() {
	var ms runtime.MemStats
	for {
		sleepMS(50)
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > MemLimit {
			fmt.Fprintf(os.Stderr, "MEMORY-BLOWUP heap=%d case=%v\n", ms.HeapAlloc, curCase.Load())
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			os.Stderr.Write(buf[:n])
			os.Exit(87)
		}
	}
}
