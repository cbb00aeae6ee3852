// Package mc is a small bounded-exhaustive exploration engine.
//
// A property function enumerates cases (configurations, operation sequences,
// environment answers) in a fixed order, simplest first. Cases are sharded
// over worker processes; every case is executed on the real code and compared
// with an oracle. Nondeterministic environment answers inside one case are
// explored with Explore: depth-first over all choice sequences, optionally
// bounded by the number of deviations from the default answer.
package mc

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// ---------------------------------------------------------------- chooser

// Chooser answers choice points: it replays Prefix, then takes 0.
type Chooser struct {
	prefix []int
	V      []int // choices taken
	N      []int // number of alternatives at each point
	Limit  int   // maximum number of points (0: 1e6)

	Diverged bool // a replay met other choice points than the first time
}

// NewChooser replays prefix.
func NewChooser(prefix []int) *Chooser { return &Chooser{prefix: prefix} }

type divergence string

// Choose returns a value in [0,n).
func (c *Chooser) Choose(n int) int {
	if n <= 0 {
		panic(divergence(fmt.Sprintf("choice among %d alternatives", n)))
	}
	i := len(c.V)
	lim := c.Limit
	if lim == 0 {
		lim = 1000000
	}
	if i >= lim {
		panic(Livelock{i})
	}
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n { // the code does not ask the same questions again
			v = n - 1
			c.Diverged = true
		}
	}
	c.V = append(c.V, v)
	c.N = append(c.N, n)
	return v
}

// Livelock is raised when an execution asks for too many choices.
type Livelock struct{ Points int }

// Explore runs f for every choice sequence with at most bound non-default
// choices (bound < 0: all). It returns the number of executions.
func Explore(bound int, limitPoints int, f func(*Chooser)) int {
	var prefix []int
	execs := 0
	for {
		c := NewChooser(prefix)
		c.Limit = limitPoints
		started()
		f(c)
		execs++
		// next sequence
		dev := make([]int, len(c.V)+1)
		for i, v := range c.V {
			dev[i+1] = dev[i]
			if v != 0 {
				dev[i+1]++
			}
		}
		i := len(c.V) - 1
		for ; i >= 0; i-- {
			if c.V[i]+1 < c.N[i] && (bound < 0 || dev[i]+1 <= bound) {
				break
			}
		}
		if i < 0 {
			return execs
		}
		prefix = append(append([]int{}, c.V[:i]...), c.V[i]+1)
	}
}

// ---------------------------------------------------------------- run

type Violation struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Case     string `json:"case"`
	Message  string `json:"message"`
	Replays  string `json:"replays,omitempty"`
}

type failure struct{ msg string }

// R is the state of one worker's run of a property.
type R struct {
	Context  string // starts every message of the current case
	Property string
	Tier     string
	shard, n int
	only     string
	deadline time.Time
	known    map[string]string

	caseNo     int
	next       uint64 // the case claimed by this worker
	local      uint64
	ctl        []byte // shared claim counter
	Cases      int
	Skipped    int // cases not run because of the deadline
	Evals      int64
	Trans      int64
	states     map[uint64]struct{}
	outcomes   map[string]int64
	notes      map[string]int64
	samples    []string
	knownHit   []string
	viol       *Violation
	shm        []byte
	cur        string
	statesFull bool
}

const shmSize = 1 << 16

// Thorough reports whether the deep tier was requested.
func (r *R) Thorough() bool { return r.Tier == "thorough" }

// Case runs one case if it belongs to this shard.
func (r *R) Case(key string, f func()) {
	if r.viol != nil {
		return
	}
	r.caseNo++
	if r.only != "" {
		if key != r.only {
			return
		}
	} else {
		if uint64(r.caseNo) < r.next {
			return
		}
		if r.next == 0 {
			r.next = r.claim()
			if uint64(r.caseNo) < r.next {
				return
			}
		}
		r.next = r.claim()
		if time.Now().After(r.deadline) {
			r.Skipped++
			return
		}
	}
	r.Cases++
	r.Context = ""
	r.setCur(key)
	if len(r.samples) < 3 || (r.Cases&(r.Cases-1) == 0 && len(r.samples) < 12) {
		r.samples = append(r.samples, key)
	}
	msg := r.attempt(f)
	if msg == "" {
		return
	}
	if _, ok := r.known[key]; ok {
		r.knownHit = append(r.knownHit, key)
		return
	}
	again := 0
	for i := 0; i < 5; i++ {
		if r.attempt(f) != "" {
			again++
		}
	}
	r.viol = &Violation{r.Property, r.Tier, key, msg, fmt.Sprintf("%d/5", again)}
}

// claim reserves the next case for this worker.
func (r *R) claim() uint64 {
	if r.ctl == nil {
		r.local++
		return r.local
	}
	return atomic.AddUint64((*uint64)(unsafe.Pointer(&r.ctl[0])), 1)
}

func (r *R) setCur(key string) {
	r.cur = key
	if r.shm != nil {
		binary.LittleEndian.PutUint64(r.shm, binary.LittleEndian.Uint64(r.shm)+1)
		k := key
		if len(k) > shmSize-16 {
			k = k[:shmSize-16]
		}
		binary.LittleEndian.PutUint32(r.shm[8:], uint32(len(k)))
		copy(r.shm[12:], k)
	}
}

// Tick tells the watchdog that the current case is progressing.
func (r *R) Tick() {
	if r.shm != nil {
		binary.LittleEndian.PutUint64(r.shm, binary.LittleEndian.Uint64(r.shm)+1)
	}
}

var starts []func()

// OnStart has f called before every case and every explored execution.
func OnStart(f func()) { starts = append(starts, f) }

func started() {
	for _, f := range starts {
		f()
	}
}

func (r *R) attempt(f func()) (msg string) {
	started()
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case failure:
				msg = x.msg
			case divergence:
				panic(e)
			case Livelock:
				msg = fmt.Sprintf("the code asked for %d random choices without finishing", x.Points)
			default:
				msg = fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack()))
			}
		}
	}()
	f()
	return ""
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i, l := range lines {
		if strings.Contains(l, "goslide") && i < 40 {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n")
}

// Failf reports that the property does not hold in the current case.
func (r *R) Failf(format string, a ...interface{}) {
	panic(failure{r.Context + fmt.Sprintf(format, a...)})
}

// Protect runs f and reports whether it panicked (other than a Failf).
func Protect(f func()) (panicked bool, val interface{}) {
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case failure, divergence, Livelock:
				panic(e)
			}
			panicked, val = true, e
		}
	}()
	f()
	return false, nil
}

// Eval counts one execution on the real code; Step counts transitions.
func (r *R) Eval()      { r.Evals++; r.Tick() }
func (r *R) Step(n int) { r.Trans += int64(n) }

const maxStates = 4000000

// State records a visited abstract state.
func (r *R) State(parts ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	r.StateHash(h.Sum64())
}

func (r *R) StateHash(h uint64) {
	if len(r.states) >= maxStates {
		r.statesFull = true
		return
	}
	r.states[h] = struct{}{}
}

// Outcome counts a class of observed outcomes.
func (r *R) Outcome(s string) { r.outcomes[s]++ }

// Note adds to a named counter reported in the evidence.
func (r *R) Note(s string, n int64) { r.notes[s] += n }

// H is an incremental FNV-1a hash for hot loops.
type H uint64

func NewH() H { return 14695981039346656037 }
func (h H) Add(x uint64) H {
	for i := 0; i < 8; i++ {
		h = (h ^ H(x&255)) * 1099511628211
		x >>= 8
	}
	return h
}

// Explore is Explore with the run's deadline: what is left out when it passes
// is counted as a truncated case.
func (r *R) Explore(bound int, limitPoints int, f func(*Chooser)) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(expired); !ok {
				panic(e)
			}
			r.Skipped++
		}
	}()
	n := 0
	Explore(bound, limitPoints, func(c *Chooser) {
		n++
		if n&15 == 0 && r.Expired() {
			panic(expired{})
		}
		f(c)
		if c.Diverged {
			r.Note("executions whose replay met other choice points", 1)
		}
	})
}

type expired struct{}

// Expired reports whether the deadline has passed (never when replaying).
func (r *R) Expired() bool { return r.only == "" && time.Now().After(r.deadline) }

// ---------------------------------------------------------------- driver

type Prop struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Fn          func(*R)
}

type workerResult struct {
	Cases, Skipped int
	TotalCases     int
	Evals, Trans   int64
	Outcomes       map[string]int64
	Notes          map[string]int64
	Samples        []string
	KnownHit       []string
	Viol           *Violation
	StatesFull     bool
	Divergence     string
}

func arg(name, def string) string {
	for i, a := range os.Args {
		if a == name && i+1 < len(os.Args) {
			return os.Args[i+1]
		}
	}
	return def
}

// Main is the entry point of a harness binary.
func Main(props []Prop) {
	id := arg("-prop", "")
	var p *Prop
	for i := range props {
		if props[i].ID == id {
			p = &props[i]
		}
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	if s := arg("-shard", ""); s != "" {
		worker(p, s)
		return
	}
	parent(p)
}

func budget(tier string) time.Duration {
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		var n int
		fmt.Sscan(s, &n)
		return time.Duration(n) * time.Second
	}
	if tier == "thorough" {
		return 800 * time.Second
	}
	return 240 * time.Second
}

func loadKnown(prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(arg("-verif", "/verif"), "known_findings.jsonl"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		var k struct{ Status, Property, Case, What string }
		if json.Unmarshal([]byte(l), &k) == nil && k.Status == "known" && k.Property == prop {
			m[k.Case] = k.What
		}
	}
	return m
}

func worker(p *Prop, s string) {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	var i, n int
	fmt.Sscanf(s, "%d/%d", &i, &n)
	out := arg("-out", "")
	r := &R{Property: p.ID, Tier: arg("-tier", "quick"), shard: i, n: n, only: arg("-only", ""),
		deadline: time.Now().Add(budget(arg("-tier", "quick"))),
		states:   map[uint64]struct{}{}, outcomes: map[string]int64{}, notes: map[string]int64{},
		known: loadKnown(p.ID)}
	if f, err := os.OpenFile(out+".shm", os.O_RDWR, 0o600); err == nil {
		r.shm, _ = syscall.Mmap(int(f.Fd()), 0, shmSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	}
	if f, err := os.OpenFile(filepath.Join(arg("-work", ""), "ctl"), os.O_RDWR, 0o600); err == nil && r.only == "" {
		r.ctl, _ = syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	}
	if r.ctl == nil && n > 1 {
		fmt.Fprintln(os.Stderr, "HARNESS-BUG: no shared claim counter")
		os.Exit(2)
	}
	silence()
	var div string
	func() {
		defer func() {
			if e := recover(); e != nil {
				if d, ok := e.(divergence); ok {
					div = string(d) + " in " + r.cur
					return
				}
				panic(e)
			}
		}()
		p.Fn(r)
	}()
	sf, err := os.Create(out + ".states")
	if err == nil {
		buf := make([]byte, 0, 8*len(r.states))
		for h := range r.states {
			buf = binary.LittleEndian.AppendUint64(buf, h)
		}
		sf.Write(buf)
		sf.Close()
	}
	b, _ := json.Marshal(workerResult{r.Cases, r.Skipped, r.caseNo, r.Evals, r.Trans, r.outcomes, r.notes,
		r.samples, r.knownHit, r.viol, r.statesFull, div})
	if err := os.WriteFile(out, b, 0o600); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// silence sends the output of the code under test to /dev/null.
func silence() {
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = null
	}
}

func parent(p *Prop) {
	start := time.Now()
	tier := arg("-tier", "quick")
	verif := arg("-verif", "/verif")
	dir := arg("-work", os.TempDir())
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	only := arg("-only", "")
	if only != "" {
		n = 1
	}
	type w struct {
		cmd  *exec.Cmd
		out  string
		shm  []byte
		done chan error
		last uint64
		when time.Time
		log  string
	}
	if ctl, err := os.Create(filepath.Join(dir, "ctl")); err == nil {
		ctl.Truncate(4096)
		ctl.Close()
	}
	ws := make([]*w, n)
	for i := range ws {
		out := filepath.Join(dir, fmt.Sprintf("w%d.json", i))
		f, err := os.Create(out + ".shm")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		f.Truncate(shmSize)
		shm, err := syscall.Mmap(int(f.Fd()), 0, shmSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		args := []string{"-prop", p.ID, "-shard", fmt.Sprintf("%d/%d", i, n), "-out", out, "-tier", tier, "-verif", verif, "-work", dir}
		if only != "" {
			args = append(args, "-only", only)
		}
		x := &w{cmd: exec.Command(os.Args[0], args...), out: out, shm: shm, done: make(chan error, 1), when: time.Now(), log: out + ".log"}
		lf, _ := os.Create(x.log)
		x.cmd.Stderr = lf
		x.cmd.Stdout = lf
		x.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
		if err := x.cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		go func() { x.done <- x.cmd.Wait() }()
		ws[i] = x
	}
	curCase := func(x *w) string {
		n := binary.LittleEndian.Uint32(x.shm[8:])
		return string(append([]byte{}, x.shm[12:12+n]...))
	}
	var viol *Violation
	var results []workerResult
	fatal := ""
	running := n
	alive := make([]bool, n)
	for i := range alive {
		alive[i] = true
	}
	for running > 0 && viol == nil && fatal == "" {
		time.Sleep(20 * time.Millisecond)
		for i, x := range ws {
			if !alive[i] {
				continue
			}
			select {
			case err := <-x.done:
				alive[i] = false
				running--
				var res workerResult
				b, rerr := os.ReadFile(x.out)
				if err != nil || rerr != nil || json.Unmarshal(b, &res) != nil {
					// The process died: a fatal runtime error or an exit
					// inside the code under test.
					logb, _ := os.ReadFile(x.log)
					killed := err != nil && strings.Contains(err.Error(), "killed")
					if c := curCase(x); c != "" && !killed && !strings.Contains(string(logb), "HARNESS-BUG") {
						viol = &Violation{p.ID, tier, c, "the process died in this case: " + fmt.Sprint(err) + "\n" + tail(string(logb), 1500), ""}
					} else {
						fatal = fmt.Sprintf("worker %d failed: %v\n%s", i, err, tail(string(logb), 3000))
					}
					continue
				}
				if res.Divergence != "" {
					fatal = "nondeterminism outside the explorer's control: " + res.Divergence
					continue
				}
				if res.Viol != nil {
					viol = res.Viol
				}
				results = append(results, res)
			default:
				v := binary.LittleEndian.Uint64(x.shm)
				if v != x.last {
					x.last, x.when = v, time.Now()
				} else if time.Since(x.when) > 150*time.Second && v > 0 {
					viol = &Violation{p.ID, tier, curCase(x), "this case does not terminate (no progress for 150 s)", ""}
				}
				if gb := resident(x.cmd.Process.Pid); gb > maxResidentGB && v > 0 {
					viol = &Violation{p.ID, tier, curCase(x), fmt.Sprintf("this case needs more than %v GB of memory", maxResidentGB), ""}
				}
			}
		}
	}
	for i, x := range ws {
		if alive[i] {
			x.cmd.Process.Kill()
			<-x.done
		}
	}
	if fatal != "" {
		fmt.Fprintln(os.Stderr, fatal)
		os.Exit(2)
	}
	// evidence
	states := map[uint64]struct{}{}
	tot := workerResult{Outcomes: map[string]int64{}, Notes: map[string]int64{}}
	known := map[string]bool{}
	for i, x := range ws {
		b, _ := os.ReadFile(x.out + ".states")
		for len(b) >= 8 {
			states[binary.LittleEndian.Uint64(b)] = struct{}{}
			b = b[8:]
		}
		_ = i
	}
	for _, r := range results {
		tot.Cases += r.Cases
		tot.Skipped += r.Skipped
		tot.Evals += r.Evals
		tot.Trans += r.Trans
		tot.StatesFull = tot.StatesFull || r.StatesFull
		if r.TotalCases > tot.TotalCases {
			tot.TotalCases = r.TotalCases
		}
		for k, v := range r.Outcomes {
			tot.Outcomes[k] += v
		}
		for k, v := range r.Notes {
			tot.Notes[k] += v
		}
		if len(tot.Samples) < 12 {
			tot.Samples = append(tot.Samples, r.Samples...)
		}
		for _, k := range r.KnownHit {
			known[k] = true
		}
	}
	if len(tot.Samples) > 12 {
		tot.Samples = tot.Samples[:12]
	}
	sort.Strings(tot.Samples)
	if len(tot.Samples) == 0 {
		tot.Samples = []string{"(stopped before the first case completed)"}
	}
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	cov := map[string]interface{}{
		"samples":           tot.Samples,
		"rule":              p.Rule,
		"cases":             tot.Cases,
		"cases_skipped":     tot.Skipped,
		"exhaustive":        tot.Skipped == 0 && viol == nil,
		"distinct_outcomes": len(tot.Outcomes),
		"outcomes":          topN(tot.Outcomes, 40),
	}
	if len(tot.Notes) > 0 {
		cov["counters"] = tot.Notes
	}
	if tot.StatesFull {
		cov["states_note"] = "the set of recorded states reached its cap; the count is a lower bound"
	}
	if p.Level == "model_checking" {
		cov["states"] = len(states)
		cov["transitions"] = tot.Trans
		cov["traces_validated_against_impl"] = tot.Evals
	} else {
		cov["evaluations"] = tot.Evals
		cov["distinct_nontrivial"] = len(states)
		cov["transitions"] = tot.Trans
	}
	nv := 0
	if viol != nil {
		nv = 1
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": p.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": nv,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if only == "" {
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	fmt.Printf("%s %s: %d cases, %d executions, %d transitions, %d states, %d outcomes, %d skipped, %.1fs\n",
		p.ID, tier, tot.Cases, tot.Evals, tot.Trans, len(states), len(tot.Outcomes), tot.Skipped, time.Since(start).Seconds())
	for k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, loadKnown(p.ID)[k])
	}
	if viol != nil {
		path := filepath.Join(verif, "evidence", fmt.Sprintf("%s-replay.json", p.ID))
		b, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("case: %s\n%s\nreproduced: %s\n", viol.Case, viol.Message, viol.Replays)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		os.Exit(1)
	}
}

const maxResidentGB = 3.2

// resident is the memory a process occupies, in GB.
func resident(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	var size, rss float64
	fmt.Sscan(string(b), &size, &rss)
	return rss * float64(os.Getpagesize()) / 1e9
}

func topN(m map[string]int64, n int) map[string]int64 {
	if len(m) <= n {
		return m
	}
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if m[keys[i]] != m[keys[j]] {
			return m[keys[i]] > m[keys[j]]
		}
		return keys[i] < keys[j]
	})
	o := map[string]int64{}
	for _, k := range keys[:n] {
		o[k] = m[k]
	}
	return o
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// WorkDir is the scratch directory of this run.
func WorkDir() string { return arg("-work", os.TempDir()) }
