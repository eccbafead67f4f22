// Runtime monitors for go-geoql-parser: see ../DESIGN.md.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

const modPath = "mmadfox/go-geoql-parser"

// exit codes of a worker besides 0
const (
	exitHarness = 4  // the harness itself failed: no verdict
	exitMemory  = 86 // the case in the journal used too much memory
	exitStuck   = 87 // wall-clock watchdog: no verdict
	exitHang    = 88 // the short input in the journal was being processed for minutes
)

type part struct {
	name            string
	quick, thorough int // number of cases
	run             func(c *ctx, r *rand.Rand, i int)
}

// A part whose name ends so is run as a whole by every worker, so that the
// results of 16 processes are compared.
const everywhere = "in every process"

func (p *part) everywhere() bool { return strings.HasSuffix(p.name, everywhere) }

type property struct {
	id    string
	rule  string
	level string
	parts []part
	need  []string // counters that must not be zero for a verdict
	twice bool     // run every case in two processes and compare digests
	notes []string // assumptions
}

var properties = map[string]*property{}

func register(p *property) {
	if p.level == "" {
		p.level = "exploration"
	}
	properties[p.id] = p
}

type violation struct {
	Property string `json:"property"`
	Part     string `json:"part"`
	Case     int    `json:"case"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	What     string `json:"what"`
	Input    string `json:"input"`
	Quoted   string `json:"quoted"`
	Twice    bool   `json:"twice,omitempty"`
}

type workerStats struct {
	Evals      int64             `json:"evals"`
	Cases      int64             `json:"cases"`
	Counters   map[string]int64  `json:"counters"`
	Max        map[string]int64  `json:"max"`
	Samples    []string          `json:"samples"`
	Violations []violation       `json:"violations"`
	Blocks     []bool            `json:"blocks"`
	Digests    map[string]uint64 `json:"digests,omitempty"`
}

// ctx is what a monitor sees of the run.
type ctx struct {
	prop    *property
	tier    string
	seed    int64
	part    *part
	idx     int
	st      workerStats
	hashes  map[uint64]bool
	journal []byte
	stop    bool
	verbose bool
	reverse bool // run the cases last to first
	mu      sync.Mutex
	beat    time.Time
	dig     uint64
	caseDig uint64
	sampled int
	slow    uint64 // steps spent on runaway loops
	ill     map[string]bool
	written int
	steps   uint64 // steps of the last guarded call
	inside  bool   // the code under test is running
}

const maxViolations = 5
const maxHashes = 3 << 20

func (c *ctx) thorough() bool { return c.tier == "thorough" }

func (c *ctx) fail(input, format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	v := violation{Property: c.prop.id, Part: c.part.name, Case: c.idx, Seed: c.seed, Tier: c.tier,
		What: fmt.Sprintf(format, args...), Input: clipN(input, 1<<16), Quoted: fmt.Sprintf("%q", clip(input))}
	if c.verbose {
		fmt.Printf("FAIL %s: %s\n  input %q\n", c.prop.id, v.What, input)
	}
	if len(c.st.Violations) < maxViolations {
		c.st.Violations = append(c.st.Violations, v)
	} else {
		c.stop = true
	}
}

func clipN(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (c *ctx) eval()                  { c.st.Evals++ }
func (c *ctx) count(name string)      { c.st.Counters[name]++ }
func (c *ctx) add(name string, n int) { c.st.Counters[name] += int64(n) }
func (c *ctx) max(name string, n int) {
	if int64(n) > c.st.Max[name] {
		c.st.Max[name] = int64(n)
	}
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// nontrivial notes a case as non-trivial; equal keys count once.
func (c *ctx) nontrivial(key string) {
	if len(c.hashes) < maxHashes {
		c.hashes[hash64(key)] = true
	}
}

// digest folds an observation into the digest of the case.
func (c *ctx) digest(s string) { c.caseDig = c.caseDig*1099511628211 ^ hash64(s) }

func (c *ctx) sample(s string) {
	if c.sampled < 2 { // per part
		c.sampled++
		c.st.Samples = append(c.st.Samples, c.part.name+": "+clip(s))
	}
}

type stepLimit struct{ n uint64 }

// stepBudget is far above what the code needs for an input of n bytes, and
// polynomial in n.
func stepBudget(n int) uint64 {
	b := 200000 + 1000*uint64(n)
	if n <= 200_000 { // above that only what grows in proportion is tried
		b += 2 * uint64(n) * uint64(min(n, 2000))
	}
	return b
}

// guard runs f, which calls the code under test with n bytes of input, and
// turns a panic or a runaway loop into a violation.
func (c *ctx) guard(what, input string, n int, f func()) (ok bool) {
	c.note(input)
	lim := stepBudget(n)
	stepsReset(lim, func() { panic(stepLimit{lim}) })
	c.enter(true)
	defer func() {
		c.enter(false)
		c.steps = stepsTotal()
		c.st.Max["steps"] = max(c.st.Max["steps"], int64(stepsTotal()))
		if n > 100000 {
			c.st.Max["steps per byte of long inputs"] = max(c.st.Max["steps per byte of long inputs"], int64(stepsTotal())/int64(n))
		} else if n > 1000 {
			c.st.Max["steps per byte of middling inputs"] = max(c.st.Max["steps per byte of middling inputs"], int64(stepsTotal())/int64(n))
		}
		stepsReset(1<<62, func() {})
		r := recover()
		if r == nil {
			return
		}
		ok = false
		if l, is := r.(stepLimit); is {
			c.fail(input, "%s: more than %d steps for an input of %d bytes", what, l.n, n)
			if c.slow += l.n; c.slow > 2e9 { // more of them would take too long
				c.stop = true
			}
			return
		}
		if st := string(debug.Stack()); !strings.Contains(panicSite(st), modPath) {
			fmt.Fprintf(os.Stderr, "harness panic (%s, input %q): %v\n%s\n", what, clip(input), r, st)
			os.Exit(exitHarness)
		}
		c.fail(input, "%s: panic: %v", what, r)
	}()
	f()
	return true
}

// enter notes that the code under test begins or ends to run.
func (c *ctx) enter(inside bool) {
	if c.journal == nil {
		return
	}
	c.mu.Lock()
	c.inside = inside
	if inside {
		c.beat = time.Now()
	}
	c.mu.Unlock()
}

// panicSite is the part of a stack between the panic and the guard.
func panicSite(st string) string {
	if i := strings.Index(st, "panic("); i >= 0 {
		st = st[i:]
	}
	if i := strings.Index(st, ".guard("); i >= 0 {
		st = st[:i]
	}
	return st
}

// note journals the input about to be run.
func (c *ctx) note(input string) {
	if c.journal == nil {
		return
	}
	n := copy(c.journal[24:], input)
	binary.LittleEndian.PutUint64(c.journal[16:], uint64(n))
}

// noted is the length of the input in the journal.
func (c *ctx) noted() uint64 { return binary.LittleEndian.Uint64(c.journal[16:]) }

func (c *ctx) begin(pi, i int) {
	c.idx = i
	if c.journal != nil {
		binary.LittleEndian.PutUint64(c.journal[0:], uint64(pi)+1)
		binary.LittleEndian.PutUint64(c.journal[8:], uint64(i))
		binary.LittleEndian.PutUint64(c.journal[16:], 0)
	}
	c.mu.Lock()
	c.beat = time.Now()
	c.mu.Unlock()
}

// caseRand is the source of all random choices of one case.
func (c *ctx) caseRand(p *part, i int) *rand.Rand {
	return newRand(uint64(c.seed)*0x9e3779b97f4a7c15 ^ hash64(c.prop.id+"/"+p.name) ^ uint64(i)*0xbf58476d1ce4e5b9)
}

type splitmix struct{ s uint64 }

func (s *splitmix) Uint64() uint64 {
	s.s += 0x9e3779b97f4a7c15
	z := s.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}
func (s *splitmix) Int63() int64    { return int64(s.Uint64() >> 1) }
func (s *splitmix) Seed(seed int64) { s.s = uint64(seed) }

func newRand(seed uint64) *rand.Rand { return rand.New(&splitmix{seed}) }

func (c *ctx) runCase(pi int, p *part, i int) {
	c.part = p
	c.begin(pi, i)
	c.caseDig = 14695981039346656037
	h := blockHits()
	for k := range h {
		h[k] = 0
	}
	p.run(c, c.caseRand(p, i), i)
	c.cover()
	c.st.Cases++
	if c.prop.twice {
		// one digest for every run of cases keeps the file small
		k := fmt.Sprintf("%d/%d", pi, i)
		c.st.Digests[k] = c.caseDig
	}
}

func (c *ctx) cover() {
	for k, n := range blockHits() {
		if n > 0 {
			c.st.Blocks[k] = true
		}
	}
}

func (c *ctx) size(p *part) int {
	if c.thorough() {
		return p.thorough
	}
	return p.quick
}

func worker(c *ctx, shard, shards int, dir string) {
	f, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("journal-%d", shard)), os.O_RDWR|os.O_CREATE, 0o600)
	must(err)
	must(f.Truncate(1 << 17))
	c.journal, err = syscall.Mmap(int(f.Fd()), 0, 1<<17, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	c.beat = time.Now()
	go c.watch()
	for k := range c.prop.parts {
		pi := k
		if c.reverse {
			pi = len(c.prop.parts) - 1 - k
		}
		p := &c.prop.parts[pi]
		c.sampled = 0
		if shard >= 2 {
			c.sampled = 2 // samples come from two shards only
		}
		first, step := shard, shards
		if p.everywhere() {
			first, step = 0, 1
		}
		for i := first; i < c.size(p) && !c.stop; i += step {
			if c.reverse {
				n := (c.size(p) - first + step - 1) / step
				c.runCase(pi, p, first+step*(n-1-(i-first)/step))
			} else {
				c.runCase(pi, p, i)
			}
		}
	}
	c.finish(dir, shard)
}

func (c *ctx) finish(dir string, shard int) {
	hs := make([]uint64, 0, len(c.hashes))
	for h := range c.hashes {
		hs = append(hs, h)
	}
	var buf bytes.Buffer
	must(binary.Write(&buf, binary.LittleEndian, hs))
	must(os.WriteFile(filepath.Join(dir, fmt.Sprintf("hash-%d", shard)), buf.Bytes(), 0o600))
	js, err := json.Marshal(&c.st)
	must(err)
	must(os.WriteFile(filepath.Join(dir, fmt.Sprintf("stat-%d", shard)), js, 0o600))
}

// watch ends the process when a case uses too much memory, or does not end.
func (c *ctx) watch() {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(50 * time.Millisecond)
		metrics.Read(s)
		if s[0].Value.Uint64() > 3<<30 {
			os.Exit(exitMemory)
		}
		c.mu.Lock()
		idle := time.Since(c.beat)
		inside := c.inside
		c.mu.Unlock()
		switch {
		case inside && idle > 200*time.Second && c.noted() < 1<<15:
			os.Exit(exitHang)
		case inside && idle > 280*time.Second: // seconds are usual
			os.Exit(exitHang)
		case idle > 300*time.Second:
			os.Exit(exitStuck)
		}
	}
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(exitHarness)
	}
}

func newCtx(p *property, tier string, seed int64) *ctx {
	c := &ctx{prop: p, tier: tier, seed: seed, hashes: map[uint64]bool{}}
	c.st.Counters, c.st.Max = map[string]int64{}, map[string]int64{}
	c.st.Blocks = make([]bool, len(blockHits()))
	if p.twice {
		c.st.Digests = map[string]uint64{}
	}
	return c
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	shards := flag.Int("shards", 8, "number of worker processes")
	shard := flag.Int("worker", -1, "shard to run (worker process)")
	reverse := flag.Bool("reverse", false, "run the cases last to first (worker process)")
	dir := flag.String("dir", "", "scratch directory (worker process)")
	replay := flag.String("replay", "", "replay file")
	out := flag.String("out", "", "directory for evidence/ and replays/")
	flag.Parse()
	if *replay != "" {
		os.Exit(replayFile(*replay))
	}
	p := properties[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(exitHarness)
	}
	if *shard >= 0 {
		c := newCtx(p, *tier, *seed)
		c.reverse = *reverse
		worker(c, *shard, *shards, *dir)
		return
	}
	os.Exit(supervise(p, *tier, *seed, *shards, *out))
}

// replayFile runs the one case a replay file names.
func replayFile(name string) int {
	data, err := os.ReadFile(name)
	must(err)
	var v violation
	must(json.Unmarshal(data, &v))
	p := properties[v.Property]
	if p == nil {
		return exitHarness
	}
	var first uint64
	for round := 0; ; round++ {
		c := newCtx(p, v.Tier, v.Seed)
		c.verbose = round == 0
		for i := range p.parts {
			if p.parts[i].name == v.Part {
				c.runCase(i, &p.parts[i], v.Case)
			}
		}
		if len(c.st.Violations) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, name)
			return 1
		}
		if round == 0 {
			first = c.caseDig
		}
		if first != c.caseDig {
			fmt.Printf("FAIL %s: repeated runs of the case differ\nVIOLATION property=%s replay=%s\n", v.Property, v.Property, name)
			return 1
		}
		if !v.Twice || round > 20 {
			break
		}
	}
	fmt.Println("held")
	return 0
}

type shardRun struct {
	st   workerStats
	dead bool
}

// supervise runs the workers, merges what they saw, and gives the verdict.
func supervise(p *property, tier string, seed int64, shards int, out string) int {
	start := time.Now()
	self, err := os.Executable()
	must(err)
	rounds := 1
	if p.twice {
		rounds = 2
	}
	var violations []violation
	inconclusive := ""
	total := workerStats{Counters: map[string]int64{}, Max: map[string]int64{}}
	hashes := map[uint64]bool{}
	digests := map[string]uint64{}
	limit := 800 * time.Second
	if tier == "thorough" {
		limit = 6 * time.Hour
	}
	for round := 0; round < rounds; round++ {
		dir, err := os.MkdirTemp("", "geoql-run-")
		must(err)
		defer os.RemoveAll(dir)
		var wg sync.WaitGroup
		var mu sync.Mutex
		for s := 0; s < shards; s++ {
			wg.Add(1)
			go func(s int) {
				defer wg.Done()
				cmd := exec.Command(self, "-prop", p.id, "-tier", tier, "-seed", fmt.Sprint(seed),
					"-shards", fmt.Sprint(shards), "-worker", fmt.Sprint(s), "-dir", dir, fmt.Sprintf("-reverse=%v", round == 1))
				var stderr tailBuffer
				cmd.Stderr = &stderr
				cmd.Env = append(os.Environ(), "GOMAXPROCS="+workerProcs(p), "GORACE=halt_on_error=0 exitcode=66")
				t := time.AfterFunc(limit, func() { cmd.Process.Kill() })
				err := cmd.Run()
				t.Stop()
				mu.Lock()
				defer mu.Unlock()
				text := stderr.String()
				st, ok := readStats(dir, s)
				if ok {
					merge(&total, &st, round == 0)
					violations = append(violations, st.Violations...)
					for k, d := range st.Digests {
						if first, ok := digests[k]; !ok {
							digests[k] = d
						} else if first != d {
							violations = append(violations, digestViolation(p, tier, seed, k))
						}
					}
					readHashes(dir, s, hashes)
				}
				if strings.Contains(text, "WARNING: DATA RACE") {
					violations = append(violations, journalViolation(p, tier, seed, dir, s, "data race: "+raceSummary(text)))
				} else if err != nil {
					code := cmd.ProcessState.ExitCode()
					switch {
					case code == exitHang:
						violations = append(violations, journalViolation(p, tier, seed, dir, s, "no result after minutes"))
					case code == exitMemory:
						violations = append(violations, journalViolation(p, tier, seed, dir, s, "more than 3 GB of memory in use"))
					case code == 2 && strings.Contains(text, modPath) && (strings.Contains(text, "fatal error:") || strings.Contains(text, "stack exceeds") || strings.Contains(text, "panic:")):
						violations = append(violations, journalViolation(p, tier, seed, dir, s, "process crashed: "+firstLine(text)))
					default:
						inconclusive = fmt.Sprintf("worker %d: %v\n%s", s, err, text)
					}
				} else if !ok {
					inconclusive = fmt.Sprintf("worker %d left no statistics", s)
				}
			}(s)
		}
		wg.Wait()
		os.RemoveAll(dir)
	}
	sort.SliceStable(violations, func(i, j int) bool { return len(violations[i].Input) < len(violations[j].Input) })
	known := loadKnown(filepath.Join(out, "KNOWN_FINDINGS.txt"))
	var fresh []violation
	told := map[string]bool{}
	for _, v := range violations {
		if what, ok := known[v.Property+" "+fmt.Sprintf("%q", v.Input)]; ok {
			if !told[what] {
				told[what] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", v.Property, what)
			}
			continue
		}
		fresh = append(fresh, v)
	}
	var missing []string
	for _, n := range p.need {
		if total.Counters[n] == 0 {
			missing = append(missing, n)
		}
	}
	if inconclusive == "" && len(missing) > 0 {
		inconclusive = "nothing observed for " + strings.Join(missing, ", ")
	}
	writeEvidence(p, tier, seed, out, &total, len(hashes), len(fresh), time.Since(start).Seconds(), inconclusive)
	fmt.Printf("%s %s seed=%d: %d evaluations in %d cases, %d distinct non-trivial, %d violations, %.1fs\n",
		p.id, tier, seed, total.Evals, total.Cases, len(hashes), len(fresh), time.Since(start).Seconds())
	if len(fresh) > 0 {
		must(os.MkdirAll(filepath.Join(out, "replays"), 0o755))
		for i, v := range fresh {
			if i == maxViolations {
				break
			}
			name := filepath.Join(out, "replays", fmt.Sprintf("%s-%d.json", p.id, i))
			js, _ := json.MarshalIndent(v, "", " ")
			must(os.WriteFile(name, js, 0o644))
			fmt.Printf("  %s (part %s, case %d): %s\n    input %s\n", p.id, v.Part, v.Case, v.What, v.Quoted)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, name)
		}
		return 1
	}
	if inconclusive != "" {
		fmt.Println("INCONCLUSIVE:", inconclusive)
		return 3
	}
	return 0
}

func workerProcs(p *property) string {
	if p.id == "C21" {
		return "4"
	}
	return "2"
}

func readStats(dir string, s int) (st workerStats, ok bool) {
	js, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("stat-%d", s)))
	if err != nil {
		return st, false
	}
	return st, json.Unmarshal(js, &st) == nil
}

func readHashes(dir string, s int, into map[uint64]bool) {
	b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("hash-%d", s)))
	if err != nil {
		return
	}
	for ; len(b) >= 8; b = b[8:] {
		into[binary.LittleEndian.Uint64(b)] = true
	}
}

func merge(t, s *workerStats, first bool) {
	t.Evals += s.Evals
	t.Cases += s.Cases
	for k, v := range s.Counters {
		t.Counters[k] += v
	}
	for k, v := range s.Max {
		t.Max[k] = max(t.Max[k], v)
	}
	if first {
		t.Samples = append(t.Samples, s.Samples...)
	}
	if t.Blocks == nil {
		t.Blocks = make([]bool, len(s.Blocks))
	}
	for i, b := range s.Blocks {
		t.Blocks[i] = t.Blocks[i] || b
	}
}

// journalViolation describes the case a worker was running when it ended.
func journalViolation(p *property, tier string, seed int64, dir string, s int, what string) violation {
	v := violation{Property: p.id, Seed: seed, Tier: tier, What: what}
	j, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("journal-%d", s)))
	if err == nil && len(j) > 24 {
		pi := int(binary.LittleEndian.Uint64(j)) - 1
		if pi >= 0 && pi < len(p.parts) {
			v.Part = p.parts[pi].name
		}
		v.Case = int(binary.LittleEndian.Uint64(j[8:]))
		n := min(int(binary.LittleEndian.Uint64(j[16:])), len(j)-24)
		v.Input = string(j[24 : 24+n])
		v.Quoted = fmt.Sprintf("%q", clip(v.Input))
	}
	return v
}

func digestViolation(p *property, tier string, seed int64, key string) violation {
	v := violation{Property: p.id, Seed: seed, Tier: tier, Twice: true, What: "two processes got different results for the same case"}
	var pi int
	fmt.Sscanf(key, "%d/%d", &pi, &v.Case)
	v.Part = p.parts[pi].name
	return v
}

func raceSummary(text string) string {
	var fns []string
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, modPath) && strings.HasSuffix(l, ")") && len(fns) < 4 {
			fns = append(fns, l)
		}
	}
	return strings.Join(fns, " <- ")
}

func firstLine(text string) string {
	for _, l := range strings.Split(text, "\n") {
		if strings.Contains(l, "fatal error") || strings.Contains(l, "panic") || strings.Contains(l, "stack exceeds") {
			return l
		}
	}
	return ""
}

// tailBuffer keeps the start and the end of what is written to it.
type tailBuffer struct {
	mu         sync.Mutex
	head, tail []byte
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := len(p)
	if room := 16<<10 - len(t.head); room > 0 {
		k := min(room, len(p))
		t.head = append(t.head, p[:k]...)
		p = p[k:]
	}
	t.tail = append(t.tail, p...)
	if len(t.tail) > 64<<10 {
		t.tail = append([]byte(nil), t.tail[len(t.tail)-16<<10:]...)
	}
	return n, nil
}

func (t *tailBuffer) String() string { return string(t.head) + string(t.tail) }

// loadKnown reads lines of the form
// known: property=ID input="quoted" description
func loadKnown(name string) map[string]string {
	m := map[string]string{}
	data, err := os.ReadFile(name)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(data), "\n") {
		var id, in string
		if _, err := fmt.Sscanf(l, "known: property=%s input=%q", &id, &in); err == nil {
			m[id+" "+fmt.Sprintf("%q", in)] = strings.TrimPrefix(l, "known: property="+id+" ")
		}
	}
	return m
}

func writeEvidence(p *property, tier string, seed int64, out string, t *workerStats, distinct, bad int, wall float64, inconclusive string) {
	reached := 0
	var unreached []string
	names := blockNames()
	for i, b := range t.Blocks {
		if b {
			reached++
		} else if i < len(names) && len(unreached) < 60 {
			unreached = append(unreached, names[i])
		}
	}
	obs := map[string]int64{}
	for k, v := range t.Counters {
		obs[k] = v
	}
	cov := map[string]any{
		"evaluations": t.Evals, "distinct_nontrivial": distinct, "rule": p.rule, "samples": t.Samples,
		"cases": t.Cases, "observed": obs, "maxima": t.Max,
	}
	if len(t.Blocks) > 0 {
		cov["code_blocks_reached"], cov["code_blocks"] = reached, len(t.Blocks)
		cov["some_unreached"] = unreached
	}
	if inconclusive != "" {
		cov["inconclusive"] = clipN(inconclusive, 2000)
	}
	if len(t.Samples) == 0 {
		cov["samples"] = []string{}
	}
	ev := map[string]any{"property": p.id, "tier": tier, "seed": seed, "level": p.level, "coverage": cov,
		"wall_s": wall, "violations": bad, "assumptions": p.notes}
	if p.notes == nil {
		ev["assumptions"] = []string{}
	}
	js, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(out, "evidence"), 0o755))
	must(os.WriteFile(filepath.Join(out, "evidence", p.id+".json"), append(js, '\n'), 0o644))
}
