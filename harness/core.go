// vmon: runtime monitors for suiyunonghen/dxsvalue.
//
// One binary, two roles. The supervisor shards the cases of a property over worker processes (the same
// binary, re-executed), watches them for crashes and hangs, merges what their monitors observed and writes
// the evidence file. A worker runs its cases one after another; every case is a deterministic function of
// (seed, property, generator, index) and drives the real library while monitors observe it.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Gen is a family of cases of a property.
type Gen struct {
	Name     string
	Quick    int // number of cases, quick tier
	Thorough int // number of cases, thorough tier (0: 20 x quick)
	Fn       func(c *C, i int)
}

func (g *Gen) n(tier string) int {
	if tier != "thorough" {
		return g.Quick
	}
	if g.Thorough != 0 {
		return g.Thorough
	}
	return g.Quick * 20
}

// Prop is a property with its generators.
type Prop struct {
	ID     string
	Rule   string   // how cases are made and what makes one non-trivial
	Assume []string // assumptions recorded in the evidence
	TZ     []string // when set, worker i runs under TZ[i%len]
	Race   bool     // built with the race detector
	Procs  int      // number of worker processes (0: one per core)
	GoMax  int      // GOMAXPROCS of a worker (0: 2)
	Scale  int      // multiplies the quick counts of generators without a fixed thorough count (0: 10)
	Gens   []*Gen
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Scale == 0 {
		p.Scale = 10
	}
	for _, g := range p.Gens {
		if g.Thorough == 0 {
			g.Quick *= p.Scale
		}
	}
	props[p.ID] = p
}

// maxDistinct bounds the fingerprints one worker remembers; beyond it distinct cases are no longer counted.
const maxDistinct = 3000000

// C is the context of one case.
type C struct {
	P    *Prop
	G    *Gen
	I    int
	R    *rand.Rand
	W    *Worker
	Tier string
	desc func() string
	tmp  string
}

type failure struct{ msg string }

// Failf reports a violation and ends the case.
func (c *C) Failf(format string, args ...interface{}) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Describe registers a lazy description of the case (used for samples and replays).
func (c *C) Describe(f func() string) { c.desc = f }

// Ev counts something a monitor observed.
func (c *C) Ev(name string, n int64) { c.W.Events[name] += n }

// NonTrivial records the fingerprint of a distinct, non-trivial case.
func (c *C) NonTrivial(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch x := p.(type) {
		case []byte:
			h.Write(x)
		case string:
			h.Write([]byte(x))
		case int:
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(x))
			h.Write(b[:])
		default:
			fmt.Fprint(h, x)
		}
		h.Write([]byte{0xfe})
	}
	if len(c.W.distinct) < maxDistinct {
		c.W.distinct[h.Sum64()] = struct{}{}
	}
}

// TempDir is a scratch directory of this case, removed when the case ends.
func (c *C) TempDir() string {
	if c.tmp == "" {
		d, err := os.MkdirTemp("", "vmon")
		if err != nil {
			panic(err)
		}
		c.tmp = d
	}
	return c.tmp
}

// Worker is the state of a worker process; exported fields go to the supervisor.
type Worker struct {
	Evals      int64
	PerGen     map[string]int64
	Events     map[string]int64
	Samples    []sample
	Violations []violation
	Distinct   []uint64
	distinct   map[uint64]struct{}
}

type sample struct {
	Gen   string
	Index int
	Case  string
}

type violation struct {
	Property string
	Gen      string
	Index    int
	Global   int
	Seed     uint64
	Tier     string
	TZ       string `json:",omitempty"`
	Shard    int
	Shards   int
	Message  string
	Case     string `json:",omitempty"`
	How      string
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

// runCase runs one case and returns a violation or nil.
func (w *Worker) runCase(p *Prop, g *Gen, i int, seed uint64, tier string) (v *violation) {
	c := &C{P: p, G: g, I: i, W: w, Tier: tier,
		R: rand.New(rand.NewPCG(seed^hash64(p.ID+"/"+g.Name), uint64(i)+1))}
	defer func() {
		if c.tmp != "" {
			os.RemoveAll(c.tmp)
		}
		r := recover()
		if r != nil {
			v = &violation{Property: p.ID, Gen: g.Name, Index: i, Seed: seed, Tier: tier, TZ: os.Getenv("TZ")}
			if f, ok := r.(failure); ok {
				v.Message, v.How = f.msg, "monitor"
			} else {
				v.Message, v.How = fmt.Sprintf("panic: %v\n%s", r, clip(string(debug.Stack()), 6000)), "panic"
			}
		}
		if c.desc != nil && (v != nil || (len(w.Samples) < 64 && w.PerGen[g.Name] < 2)) {
			d := safeDesc(c.desc)
			if v != nil {
				v.Case = clip(d, 20000)
			} else {
				w.Samples = append(w.Samples, sample{g.Name, i, clip(d, 600)})
			}
		}
		w.Evals++
		w.PerGen[g.Name]++
	}()
	g.Fn(c, i)
	return nil
}

func safeDesc(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprint("description failed: ", r)
		}
	}()
	return f()
}

type caseRef struct {
	g *Gen
	i int
}

func locate(p *Prop, tier string, idx int) (caseRef, bool) {
	for _, g := range p.Gens {
		n := g.n(tier)
		if idx < n {
			return caseRef{g, idx}, true
		}
		idx -= n
	}
	return caseRef{}, false
}

func total(p *Prop, tier string) int {
	t := 0
	for _, g := range p.Gens {
		t += g.n(tier)
	}
	return t
}

func workerMain(p *Prop, tier string, seed uint64, shard, shards int, single int, outFile, journal string) {
	debug.SetMaxStack(512 << 20)
	if !p.Race {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30})
	}
	gm := p.GoMax
	if gm == 0 {
		gm = 2
	}
	runtime.GOMAXPROCS(gm)
	w := &Worker{PerGen: map[string]int64{}, Events: map[string]int64{}, distinct: map[uint64]struct{}{}}
	jf, err := os.OpenFile(journal, os.O_CREATE|os.O_RDWR, 0600)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	n := total(p, tier)
	run := func(idx int) bool {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(idx)+1)
		jf.WriteAt(b[:], 0)
		cr, ok := locate(p, tier, idx)
		if !ok {
			return false
		}
		races := raceErrors()
		v := w.runCase(p, cr.g, cr.i, seed, tier)
		if v == nil && raceErrors() > races {
			v = &violation{Property: p.ID, Gen: cr.g.Name, Index: cr.i, Seed: seed, Tier: tier, TZ: os.Getenv("TZ"), Message: "data race", How: "race detector"}
		}
		if v != nil {
			v.Global, v.Shard, v.Shards = idx, shard, shards
			w.Violations = append(w.Violations, *v)
		}
		return len(w.Violations) < 3
	}
	if single >= 0 {
		run(single)
	} else {
		for idx := shard; idx < n; idx += shards {
			if !run(idx) {
				break
			}
		}
	}
	for h := range w.distinct {
		w.Distinct = append(w.Distinct, h)
	}
	out, _ := json.Marshal(w)
	if err := os.WriteFile(outFile, out, 0600); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if raceErrors() > 0 {
		os.Exit(66)
	}
	os.Exit(0)
}

type workerResult struct {
	w       *Worker
	err     string // crash description
	hang    bool
	journal int
	stderr  string
	code    int
}

// zoneFile turns "fixed:<seconds>" into a zone file with that fixed offset; other names are left alone.
func zoneFile(dir, name string) string {
	var off int32
	if n, _ := fmt.Sscanf(name, "fixed:%d", &off); n != 1 {
		return name
	}
	b := append([]byte("TZif"), make([]byte, 16)...)
	for _, n := range []uint32{0, 0, 0, 0, 1, 4} {
		b = binary.BigEndian.AppendUint32(b, n)
	}
	b = binary.BigEndian.AppendUint32(b, uint32(off))
	b = append(b, 0, 0, 'F', 'I', 'X', 0)
	f := filepath.Join(dir, fmt.Sprint("zone", off))
	os.WriteFile(f, b, 0600)
	return f
}

// spawn runs one worker and watches it.
func spawn(dir string, p *Prop, tier string, seed uint64, shard, shards, single int, caseLimit time.Duration) workerResult {
	tag := fmt.Sprintf("%d_%d_%d", shard, single, time.Now().UnixNano())
	outFile := filepath.Join(dir, "out"+tag)
	journal := filepath.Join(dir, "jr"+tag)
	errFile := filepath.Join(dir, "err"+tag)
	ef, _ := os.Create(errFile)
	exe := os.Args[0]
	if plain := os.Getenv("VMON_PLAIN"); plain != "" && shard%2 == 1 { // every other worker without the race detector
		exe = plain
	}
	cmd := exec.Command(exe, "-worker", "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed),
		"-shard", fmt.Sprint(shard), "-shards", fmt.Sprint(shards), "-single", fmt.Sprint(single), "-out", outFile, "-journal", journal)
	cmd.Stdout, cmd.Stderr = ef, ef
	cmd.Env = append(os.Environ(), "TMPDIR="+dir, "GOTRACEBACK=all", "GOGC=200",
		"GORACE=halt_on_error=0 exitcode=0 history_size=3 atexit_sleep_ms=0")
	if len(p.TZ) > 0 {
		cmd.Env = append(cmd.Env, "TZ="+zoneFile(dir, p.TZ[shard%len(p.TZ)]))
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return workerResult{err: "cannot start worker: " + err.Error(), code: 3}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	readJournal := func() int {
		b, err := os.ReadFile(journal)
		if err != nil || len(b) < 8 {
			return -1
		}
		return int(binary.LittleEndian.Uint64(b)) - 1
	}
	last, since := -2, time.Now()
	res := workerResult{}
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	var werr error
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-tick.C:
			if j := readJournal(); j != last {
				last, since = j, time.Now()
			} else if time.Since(since) > caseLimit {
				res.hang = true
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				break loop
			}
		}
	}
	ef.Close()
	res.journal = readJournal()
	sb, _ := os.ReadFile(errFile)
	res.stderr = string(sb)
	os.Remove(errFile)
	os.Remove(journal)
	if res.hang {
		res.err = fmt.Sprintf("case did not return within %v", caseLimit)
		return res
	}
	if werr != nil {
		if ee, ok := werr.(*exec.ExitError); ok {
			res.code = ee.ExitCode()
		} else {
			res.code = 3
		}
	}
	out, err := os.ReadFile(outFile)
	os.Remove(outFile)
	if err == nil {
		res.w = &Worker{}
		if json.Unmarshal(out, res.w) != nil {
			res.w = nil
		}
	}
	if res.w == nil {
		res.err = fmt.Sprintf("worker died (%v)", werr)
	}
	return res
}

func crashHead(stderr string) string {
	for _, marker := range []string{"fatal error:", "panic:", "unexpected fault", "SIGSEGV", "WARNING: DATA RACE", "runtime:"} {
		if k := strings.Index(stderr, marker); k >= 0 {
			return clip(stderr[k:], 5000)
		}
	}
	return clip(stderr, 3000)
}

func main() {
	var (
		propID   = flag.String("prop", "", "property id")
		tier     = flag.String("tier", "quick", "quick or thorough")
		seed     = flag.Uint64("seed", 1, "seed")
		worker   = flag.Bool("worker", false, "worker role")
		shard    = flag.Int("shard", 0, "")
		shards   = flag.Int("shards", 1, "")
		single   = flag.Int("single", -1, "")
		outFile  = flag.String("out", "", "")
		journal  = flag.String("journal", "", "")
		evidence = flag.String("evidence", "", "evidence file to write")
		replays  = flag.String("replays", "", "directory for replay files")
		replay   = flag.String("replay", "", "replay this file")
		list     = flag.Bool("list", false, "list properties")
		scale    = flag.Float64("scale", 1, "multiply the number of cases")
		only     = flag.String("gen", "", "run only this generator")
	)
	flag.Parse()
	if spec := os.Getenv("VMON_COLD"); spec != "" {
		coldMain(spec)
		return
	}
	if *list {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			p := props[id]
			fmt.Println(id, total(p, "quick"), total(p, "thorough"), p.Race)
		}
		return
	}
	if *replay != "" {
		replayMain(*replay)
		return
	}
	p := props[*propID]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *propID)
		os.Exit(2)
	}
	applyScale(p, os.Getenv("VMON_SCALE"), os.Getenv("VMON_GEN"))
	if *scale != 1 || *only != "" {
		os.Setenv("VMON_SCALE", fmt.Sprint(*scale))
		os.Setenv("VMON_GEN", *only)
		applyScale(p, fmt.Sprint(*scale), *only)
	}
	if *worker {
		workerMain(p, *tier, *seed, *shard, *shards, *single, *outFile, *journal)
	}
	os.Exit(supervise(p, *tier, *seed, *evidence, *replays))
}

func applyScale(p *Prop, s, only string) {
	if only != "" {
		var gs []*Gen
		for _, g := range p.Gens {
			if g.Name == only {
				gs = append(gs, g)
			}
		}
		p.Gens = gs
	}
	f := 1.0
	if s != "" {
		fmt.Sscan(s, &f)
	}
	if f != 1 {
		for _, g := range p.Gens {
			g.Thorough = int(float64(g.n("thorough")) * f)
			g.Quick = int(float64(g.Quick) * f)
		}
	}
}

func replayMain(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p := props[v.Property]
	if p == nil {
		os.Exit(2)
	}
	dir, err := os.MkdirTemp("", "vmonreplay")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(dir)
	report := func(r workerResult, how string) bool {
		if r.w != nil && len(r.w.Violations) > 0 {
			x := r.w.Violations[0]
			fmt.Printf("reproduced (%s): %s/%s[%d]: %s\ncase: %s\n", how, x.Property, x.Gen, x.Index, x.Message, x.Case)
			return true
		}
		if r.w == nil || r.code != 0 {
			fmt.Printf("reproduced (%s): %s\n%s\n", how, r.err, crashHead(r.stderr))
			return true
		}
		return false
	}
	if v.Shards == 0 {
		v.Shards = 1
	}
	ok := report(spawn(dir, p, v.Tier, v.Seed, v.Shard, v.Shards, v.Global, 120*time.Second), "single case")
	if !ok {
		ok = report(spawn(dir, p, v.Tier, v.Seed, v.Shard, v.Shards, -1, 120*time.Second), "whole shard history")
	}
	if !ok {
		fmt.Println("not reproduced")
		os.RemoveAll(dir)
		os.Exit(0)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, file)
	os.RemoveAll(dir)
	os.Exit(1)
}

func supervise(p *Prop, tier string, seed uint64, evidence, replayDir string) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "vmonrun")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	shards := p.Procs
	if shards == 0 {
		shards = runtime.NumCPU()
		if shards > 8 {
			shards = 8
		}
	}
	if len(p.TZ) > 0 {
		for shards%len(p.TZ) != 0 {
			shards++
		}
	}
	results := make(chan workerResult, shards)
	for s := 0; s < shards; s++ {
		go func(s int) {
			r := spawn(dir, p, tier, seed, s, shards, -1, 60*time.Second)
			if r.w == nil || r.hang || r.code != 0 {
				r = confirm(dir, p, tier, seed, s, shards, r)
			}
			results <- r
		}(s)
	}
	agg := &Worker{PerGen: map[string]int64{}, Events: map[string]int64{}}
	distinct := map[uint64]struct{}{}
	var viols []violation
	infra := ""
	for s := 0; s < shards; s++ {
		r := <-results
		if r.w != nil {
			agg.Evals += r.w.Evals
			for k, v := range r.w.PerGen {
				agg.PerGen[k] += v
			}
			for k, v := range r.w.Events {
				agg.Events[k] += v
			}
			for _, h := range r.w.Distinct {
				distinct[h] = struct{}{}
			}
			agg.Samples = append(agg.Samples, r.w.Samples...)
			viols = append(viols, r.w.Violations...)
		} else {
			infra += r.err + "\n" + clip(r.stderr, 2000) + "\n"
		}
	}
	sort.Slice(viols, func(i, j int) bool { return viols[i].Global < viols[j].Global })
	wall := time.Since(start).Seconds()
	sort.Slice(agg.Samples, func(i, j int) bool {
		a, b := agg.Samples[i], agg.Samples[j]
		if a.Gen != b.Gen {
			return a.Gen < b.Gen
		}
		return a.Index < b.Index
	})
	var samples []interface{}
	per := map[string]int{}
	for _, s := range agg.Samples {
		if per[s.Gen] < 2 {
			per[s.Gen]++
			samples = append(samples, map[string]interface{}{"generator": s.Gen, "index": s.Index, "case": s.Case})
		}
	}
	if samples == nil {
		samples = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": agg.Evals, "distinct_nontrivial": len(distinct), "rule": p.Rule,
			"samples": samples, "cases_per_generator": agg.PerGen, "monitor_observations": agg.Events,
			"worker_processes": shards,
		},
		"assumptions": p.Assume, "wall_s": wall, "violations": len(viols),
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	if len(p.TZ) > 0 {
		ev["coverage"].(map[string]interface{})["time_zones"] = p.TZ
	}
	if evidence != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(evidence, append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if len(viols) > 0 {
		for k, v := range viols {
			if k >= 3 {
				break
			}
			path := "-"
			if replayDir != "" {
				os.MkdirAll(replayDir, 0755)
				path = filepath.Join(replayDir, fmt.Sprintf("%s_%s_%d.json", p.ID, v.Gen, v.Index))
				b, _ := json.MarshalIndent(v, "", " ")
				os.WriteFile(path, append(b, '\n'), 0644)
			}
			fmt.Printf("%s %s[%d] (%s): %s\n", p.ID, v.Gen, v.Index, v.How, clip(v.Message, 1500))
			if v.Case != "" {
				fmt.Printf("  case: %s\n", clip(v.Case, 1500))
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		}
		return 1
	}
	if infra != "" {
		fmt.Fprintln(os.Stderr, "worker failure that could not be attributed to a case:\n"+infra)
		return 2
	}
	fmt.Printf("%s held: %d cases, %d distinct non-trivial, %.1fs\n", p.ID, agg.Evals, len(distinct), wall)
	return 0
}

// confirm attributes the death or hang of a worker to a case by running it again.
func confirm(dir string, p *Prop, tier string, seed uint64, s, shards int, r workerResult) workerResult {
	mk := func(x workerResult, how string) workerResult {
		w := x.w
		if w == nil {
			w = &Worker{PerGen: map[string]int64{}, Events: map[string]int64{}}
		}
		idx := r.journal
		cr, _ := locate(p, tier, idx)
		v := violation{Property: p.ID, Index: cr.i, Global: idx, Seed: seed, Tier: tier, Shard: s, Shards: shards, How: how}
		if cr.g != nil {
			v.Gen = cr.g.Name
		}
		v.Message = x.err + "\n" + crashHead(x.stderr)
		w.Violations = append(w.Violations, v)
		x.w, x.err = w, ""
		return x
	}
	if r.w != nil && r.code == 66 && len(r.w.Violations) > 0 {
		for i := range r.w.Violations {
			if v := &r.w.Violations[i]; v.How == "race detector" {
				v.Message += "\n" + crashHead(r.stderr)
			}
		}
		return r
	}
	if r.w != nil && r.code == 66 { // the race detector reported
		return mk(workerResult{w: r.w, err: "data race", stderr: r.stderr}, "race detector")
	}
	if r.w != nil {
		return r
	}
	if r.journal >= 0 {
		x := spawn(dir, p, tier, seed, s, shards, r.journal, 120*time.Second)
		if x.w != nil && len(x.w.Violations) > 0 {
			return x
		}
		if x.w == nil {
			return mk(x, map[bool]string{true: "hang", false: "crash"}[x.hang])
		}
	}
	// not the single case: the history of the shard may matter
	y := spawn(dir, p, tier, seed, s, shards, -1, 120*time.Second)
	if y.w != nil && len(y.w.Violations) > 0 {
		return y
	}
	if y.w == nil {
		r.journal = y.journal
		if y.hang || strings.Contains(y.stderr, "dxsvalue") || bytes.Contains([]byte(y.stderr), []byte("fatal error")) {
			return mk(y, map[bool]string{true: "hang", false: "crash"}[y.hang])
		}
	}
	return y
}
