// Command master drives the simulation workers of one check: it derives the
// run seeds from VERIF_SEED, distributes them over worker processes, watches
// the workers, has every violation replayed in a fresh process, and writes the
// evidence file.
//
// Exit status: 0 the property held on everything explored, 1 a violation was
// found (and reproduced), 2 the machinery itself had trouble.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type found struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"seed"`
	Deep     bool     `json:"deep"`
	BySeed   bool     `json:"by_seed,omitempty"`
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	Choices  []uint64 `json:"choices"`
	Original int      `json:"choices_before_minimising"`
	Tried    int      `json:"executions_while_minimising"`
	Case     []string `json:"case"`
	Trace    []string `json:"trace"`
	Hash     string   `json:"event_hash"`
}

type stats struct {
	Runs     int            `json:"runs"`
	Sims     int            `json:"sims"`
	SimNs    int64          `json:"sim_ns"`
	Calls    int            `json:"calls"`
	Steps    uint64         `json:"steps"`
	Switches int            `json:"switches"`
	Faults   map[string]int `json:"faults"`
	Probes   map[string]int `json:"probes"`
	Skipped  map[string]int `json:"skipped"`
}

func (a *stats) add(b *stats) {
	a.Runs += b.Runs
	a.Sims += b.Sims
	a.SimNs += b.SimNs
	a.Calls += b.Calls
	a.Steps += b.Steps
	a.Switches += b.Switches
	for k, v := range b.Faults {
		a.Faults[k] += v
	}
	for k, v := range b.Probes {
		a.Probes[k] += v
	}
	for k, v := range b.Skipped {
		a.Skipped[k] += v
	}
}

type job struct {
	Prop    string   `json:"prop"`
	Seeds   []uint64 `json:"seeds"`
	Deep    bool     `json:"deep"`
	Again   bool     `json:"again"`
	Choices []uint64 `json:"choices"`
	Replay  bool     `json:"replay"`
	Seed    uint64   `json:"seed"`
	Hashes  bool     `json:"hashes"`
	ShrinkS int      `json:"shrink_s"`
	Known   []string `json:"known"`
}

type reply struct {
	Stats   *stats           `json:"stats"`
	Shapes  []uint64         `json:"shapes"`
	Hashes  []uint64         `json:"hashes"`
	Samples []map[string]any `json:"samples"`
	Found   []*found         `json:"found"`
	Diverge []uint64         `json:"diverge"`
	Replay  *found           `json:"replay"`
	NonTriv int              `json:"nontriv"`

	Distinct []uint64 `json:"distinct"`
}

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

var (
	prop    = flag.String("prop", "", "property id")
	tier    = flag.String("tier", "quick", "quick or thorough")
	seed    = flag.Int64("seed", 1, "VERIF_SEED")
	bin     = flag.String("bin", "", "simulation binary")
	dir     = flag.String("dir", "/verif", "verification directory")
	nw      = flag.Int("workers", 8, "worker processes")
	maxRuns = flag.Int("runs", 0, "override the number of runs")
	maxSec  = flag.Int("seconds", 0, "override the wall-clock cap of the search")
	rep     = flag.String("replay", "", "replay this file")
	hashes  = flag.Int("determinism", 0, "compare event hashes of that many seeds across processes and worker counts")
	one     = flag.Uint64("one", 0, "run one seed with tracing")
	started = time.Now()
)

func trouble(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "check %s: "+f+"\n", append([]any{*prop}, a...)...)
	os.Exit(2)
}

type worker struct {
	cmd    *exec.Cmd
	in     *json.Encoder
	stdin  interface{ Close() error }
	lines  chan string
	stderr *tail
	cur    uint64
	curSet bool
}

// tail keeps the beginning and end of a worker's stderr.
type tail struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.b.Len() < 1<<20 {
		t.b.Write(p)
	}
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return t.b.String() }

func newWorker() *worker {
	w := &worker{lines: make(chan string, 64), stderr: &tail{}}
	w.cmd = exec.Command(*bin)
	w.cmd.Dir = "/"
	w.cmd.Env = []string{"GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=single", "TZ=UTC", "HOME=/home/u", "PATH=/usr/bin", "LANG=C.UTF-8", "USER=u"}
	w.cmd.Stderr = w.stderr
	stdin, err := w.cmd.StdinPipe()
	if err != nil {
		trouble("%v", err)
	}
	stdout, err := w.cmd.StdoutPipe()
	if err != nil {
		trouble("%v", err)
	}
	if err := w.cmd.Start(); err != nil {
		trouble("cannot start a worker: %v", err)
	}
	w.in = json.NewEncoder(stdin)
	w.stdin = stdin
	go func() {
		r := bufio.NewReaderSize(stdout, 1<<20)
		for {
			l, err := r.ReadString('\n')
			if err != nil {
				close(w.lines)
				return
			}
			w.lines <- l
		}
	}()
	return w
}

func (w *worker) stop() {
	w.stdin.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

type death struct {
	seed uint64
	hang bool
	text string
}

// do sends one job and waits for its reply; it reports how the worker died
// when there is none.
func (w *worker) do(j *job, perRun time.Duration) (*reply, *death) {
	w.curSet = false
	if err := w.in.Encode(j); err != nil {
		// the worker is gone; the read below tells why
		_ = err
	}
	for {
		select {
		case l, ok := <-w.lines:
			if !ok {
				w.cmd.Wait()
				return nil, &death{seed: w.cur, text: w.stderr.String()}
			}
			if strings.HasPrefix(l, "B ") {
				fmt.Sscanf(l[2:], "%d", &w.cur)
				w.curSet = true
				continue
			}
			if strings.HasPrefix(l, "R ") {
				var r reply
				if err := json.Unmarshal([]byte(l[2:]), &r); err != nil {
					trouble("bad reply: %v", err)
				}
				return &r, nil
			}
			// stray output of the program under test: ignored
		case <-time.After(perRun):
			w.cmd.Process.Kill()
			w.cmd.Wait()
			return nil, &death{seed: w.cur, hang: true, text: w.stderr.String()}
		}
	}
}

func seedOf(i int) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range []byte(*prop) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return mix(mix(uint64(*seed)^h) + uint64(i))
}

// knownFindings returns the violation classes listed as open for a property.
func knownFindings() map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(*dir, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		// open: property=<id> class=<class> <what fails>
		if !strings.HasPrefix(l, "open: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "open: "), " ", 3)
		if len(f) == 3 && f[0] == "property="+*prop && strings.HasPrefix(f[1], "class=") {
			m[strings.TrimPrefix(f[1], "class=")] = f[2]
		}
	}
	return m
}

func firstLines(s string, n int) []string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return l
}

// fatalClass recognises a death of the worker that the Go runtime attributes
// to the program (stack exhaustion, concurrent map access and the like).
func fatalClass(text string) string {
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, "fatal error: ") {
			if strings.Contains(l, "all goroutines are asleep") || strings.Contains(l, "out of memory") || strings.Contains(l, "cannot allocate") {
				return ""
			}
			return "fatal:" + strings.ReplaceAll(strings.TrimPrefix(l, "fatal error: "), " ", "-")
		}
	}
	return ""
}

const watchdog = 120 * time.Second

func replayFile(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		trouble("%v", err)
	}
	var f found
	if err := json.Unmarshal(b, &f); err != nil {
		trouble("%s: %v", path, err)
	}
	*prop = f.Property
	got := replayOnce(&f)
	for _, l := range got.Trace {
		fmt.Println(l)
	}
	if got.Class == "" {
		fmt.Printf("replay of %s: property %s holds on this execution\n", path, f.Property)
		os.Exit(0)
	}
	fmt.Printf("class: %s\n%s\nevent hash: %s (recorded %s)\n", got.Class, got.Message, got.Hash, f.Hash)
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
	os.Exit(1)
}

// replayOnce executes a recorded violation in a fresh process.
func replayOnce(f *found) *found {
	w := newWorker()
	defer w.stop()
	if f.BySeed {
		r, d := w.do(&job{Prop: f.Property, Seeds: []uint64{f.Seed}, Deep: f.Deep, ShrinkS: 1}, watchdog)
		if d != nil {
			return &found{Property: f.Property, Seed: f.Seed, Deep: f.Deep, BySeed: true, Class: fatalClass(d.text), Message: strings.Join(firstLines(d.text, 12), "\n"), Trace: firstLines(d.text, 60)}
		}
		if len(r.Found) > 0 {
			return r.Found[0]
		}
		return &found{}
	}
	r, d := w.do(&job{Prop: f.Property, Replay: true, Choices: f.Choices, Deep: f.Deep, Seed: f.Seed}, watchdog)
	if d != nil {
		return &found{Class: fatalClass(d.text), Message: strings.Join(firstLines(d.text, 12), "\n")}
	}
	return r.Replay
}

func main() {
	flag.Parse()
	if *rep != "" {
		replayFile(*rep)
	}
	pl, ok := plans[*prop]
	if !ok {
		trouble("no such property")
	}
	deep := *tier == "thorough"
	if *one != 0 {
		w := newWorker()
		r, d := w.do(&job{Prop: *prop, Seeds: []uint64{*one}, Deep: deep}, watchdog)
		if d != nil {
			trouble("worker died: %s", d.text)
		}
		b, _ := json.MarshalIndent(r, "", " ")
		fmt.Println(string(b))
		return
	}
	if *hashes > 0 {
		determinism(*hashes, deep)
		return
	}
	runs, secs := pl.quick, 240
	if deep {
		runs, secs = pl.thorough, 600
	}
	if *maxRuns > 0 {
		runs = *maxRuns
	}
	if *maxSec > 0 {
		secs = *maxSec
	}
	known := knownFindings()
	var knownList []string
	for k := range known {
		knownList = append(knownList, k)
	}
	sort.Strings(knownList)

	total := &stats{Faults: map[string]int{}, Probes: map[string]int{}, Skipped: map[string]int{}}
	shapes := map[uint64]bool{}
	execs := map[uint64]struct{}{}
	var samples []map[string]any
	nontriv := 0
	var all []*found
	knownSeen := map[string]int{}
	var mu sync.Mutex
	next, stopAt := 0, time.Now().Add(time.Duration(secs)*time.Second)
	stopping := false
	hashOf := map[uint64]uint64{}
	diverged := map[uint64]bool{}
	var bad []string
	batch := runs / (*nw * 12)
	if batch < 4 {
		batch = 4
	}
	if batch > 400 {
		batch = 400
	}
	checkN := 16 // seeds executed again in another process
	take := func() (lo, hi int) {
		mu.Lock()
		defer mu.Unlock()
		if stopping || next >= runs || time.Now().After(stopAt) {
			return 0, 0
		}
		lo = next
		hi = lo + batch
		if lo == 0 {
			hi = lo + checkN // the first batch is hashed
		}
		if hi > runs {
			hi = runs
		}
		next = hi
		return
	}
	var wg sync.WaitGroup
	for i := 0; i < *nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newWorker()
			defer func() { w.stop() }()
			for {
				lo, hi := take()
				if hi == lo {
					return
				}
				j := &job{Prop: *prop, Deep: deep, ShrinkS: 15, Hashes: lo == 0, Known: knownList}
				for k := lo; k < hi; k++ {
					j.Seeds = append(j.Seeds, seedOf(k))
				}
				r, d := w.do(j, watchdog)
				if d != nil {
					w.stop()
					cls := ""
					if !d.hang {
						cls = fatalClass(d.text)
					}
					mu.Lock()
					stopping = true
					if cls != "" {
						all = append(all, &found{Property: *prop, Seed: d.seed, Deep: deep, BySeed: true, Class: cls, Message: strings.Join(firstLines(d.text, 12), "\n"), Case: []string{"the process dies before its choices can be recorded; the seed replays it"}, Trace: firstLines(d.text, 80)})
					} else if d.hang {
						bad = append(bad, fmt.Sprintf("worker hangs on seed %d", d.seed))
					} else {
						bad = append(bad, fmt.Sprintf("worker died on seed %d:\n%s", d.seed, strings.Join(firstLines(d.text, 60), "\n")))
					}
					mu.Unlock()
					w = newWorker()
					return
				}
				mu.Lock()
				total.add(r.Stats)
				for _, s := range r.Shapes {
					shapes[s] = true
				}
				for _, h := range r.Distinct {
					execs[h] = struct{}{}
				}
				nontriv += r.NonTriv
				if len(samples) < 5 {
					samples = append(samples, r.Samples...)
				}
				for k, h := range r.Hashes {
					hashOf[j.Seeds[k]] = h
				}
				for _, f := range r.Found {
					f.Deep = deep
					if _, k := known[f.Class]; k {
						knownSeen[f.Class]++
						continue
					}
					all = append(all, f)
					stopping = true
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	searchS := time.Since(started).Seconds()
	// determinism sample: the first seeds again, in another process
	if len(bad) == 0 && len(all) == 0 && len(hashOf) > 0 {
		w := newWorker()
		j := &job{Prop: *prop, Deep: deep, Hashes: true, ShrinkS: 1}
		for k := 0; k < checkN && k < runs; k++ {
			j.Seeds = append(j.Seeds, seedOf(k))
		}
		if r, d := w.do(j, watchdog); d == nil {
			for k, h := range r.Hashes {
				if hashOf[j.Seeds[k]] != h {
					diverged[j.Seeds[k]] = true
				}
			}
		}
		w.stop()
	}
	// replay every violation in a fresh process
	var confirmed []*found
	seenClass := map[string]bool{}
	sort.SliceStable(all, func(i, j int) bool { return len(all[i].Choices) < len(all[j].Choices) })
	for _, f := range all {
		if seenClass[f.Class] {
			continue
		}
		got := replayOnce(f)
		if got == nil || got.Class != f.Class || (!f.BySeed && got.Hash != f.Hash) {
			h := ""
			if got != nil {
				h = got.Class + " " + got.Hash
			}
			bad = append(bad, fmt.Sprintf("violation %q (seed %d) did not reproduce exactly in a fresh process: %q %s", f.Class, f.Seed, h, f.Hash))
			if got == nil || got.Class != f.Class {
				continue
			}
		}
		seenClass[f.Class] = true
		confirmed = append(confirmed, f)
	}
	os.MkdirAll(filepath.Join(*dir, "replays"), 0777)
	var paths []string
	for i, f := range confirmed {
		p := filepath.Join(*dir, "replays", fmt.Sprintf("%s-%d.json", *prop, i+1))
		b, _ := json.MarshalIndent(f, "", " ")
		if err := os.WriteFile(p, append(b, '\n'), 0666); err != nil {
			trouble("%v", err)
		}
		paths = append(paths, p)
	}
	wall := time.Since(started).Seconds()
	if samples == nil {
		samples = []map[string]any{}
	}
	if len(samples) > 5 {
		samples = samples[:5]
	}
	hours := searchS / 3600
	cov := map[string]any{
		"evaluations":              total.Runs,
		"distinct_nontrivial":      len(shapes),
		"nontrivial_runs":          nontriv,
		"distinct_executions":      len(execs),
		"rule":                     pl.rule,
		"samples":                  samples,
		"seeds":                    total.Runs,
		"runs_per_hour":            int(float64(total.Runs) / hours),
		"simulations_executed":     total.Sims,
		"simulated_seconds":        float64(total.SimNs) / 1e9,
		"simulated_system_calls":   total.Calls,
		"repository_statements":    total.Steps,
		"context_switches":         total.Switches,
		"faults_injected":          total.Faults,
		"conditions_reached":       total.Probes,
		"runs_without_verdict":     total.Skipped,
		"repeated_in_2nd_process":  len(hashOf),
		"repetitions_that_differ":  len(diverged),
		"workers":                  *nw,
		"components_real":          pl.real,
		"components_simulated":     pl.stub,
		"known_findings_seen":      knownSeen,
		"seed_derivation":          "run i of VERIF_SEED uses seed mix(mix(VERIF_SEED ^ fnv(property)) + i); one seed decides the whole execution",
		"violations_not_confirmed": len(bad),
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": *seed, "level": "exploration", "coverage": cov,
		"assumptions": pl.assume, "wall_s": wall, "violations": len(confirmed),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*dir, "evidence"), 0777)
	if err := os.WriteFile(filepath.Join(*dir, "evidence", *prop+".json"), append(b, '\n'), 0666); err != nil {
		trouble("%v", err)
	}
	fmt.Printf("%s %s seed=%d: %d runs, %d distinct shapes, %d simulations, %d system calls, %.1f simulated s, %d switches, %.1f s\n", *prop, *tier, *seed, total.Runs, len(shapes), total.Sims, total.Calls, float64(total.SimNs)/1e9, total.Switches, wall)
	for _, k := range knownList {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, known[k])
	}
	if len(diverged) > 0 {
		fmt.Fprintf(os.Stderr, "check %s: warning: %d of %d repeated executions differ\n", *prop, len(diverged), len(hashOf))
	}
	for _, x := range bad {
		fmt.Fprintf(os.Stderr, "check %s: %s\n", *prop, x)
	}
	if len(confirmed) > 0 {
		for i, f := range confirmed {
			fmt.Printf("violation class %s (seed %d, %d choices, minimised from %d in %d executions): %s\n", f.Class, f.Seed, len(f.Choices), f.Original, f.Tried, f.Message)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, paths[i])
		}
		os.Exit(1)
	}
	if len(bad) > 0 {
		os.Exit(2)
	}
	if total.Runs == 0 {
		trouble("nothing was executed")
	}
}

// determinism runs the same seeds in one process and spread over many, and
// compares the event hashes.
func determinism(n int, deep bool) {
	var seeds []uint64
	for i := 0; i < n; i++ {
		seeds = append(seeds, seedOf(i))
	}
	ref := map[uint64]uint64{}
	w := newWorker()
	r, d := w.do(&job{Prop: *prop, Seeds: seeds, Deep: deep, Hashes: true, Again: true, ShrinkS: 1}, watchdog)
	if d != nil {
		trouble("worker died: %s", d.text)
	}
	w.stop()
	for i, h := range r.Hashes {
		ref[seeds[i]] = h
	}
	bad := len(r.Diverge)
	for _, s := range r.Diverge {
		fmt.Printf("seed %d differs when repeated in the same process\n", s)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	per := (n + *nw - 1) / *nw
	for k := 0; k < *nw; k++ {
		lo, hi := k*per, (k+1)*per
		if hi > n {
			hi = n
		}
		if lo >= hi {
			continue
		}
		wg.Add(1)
		go func(ss []uint64) {
			defer wg.Done()
			w := newWorker()
			defer w.stop()
			// reversed order: no run may depend on what ran before it
			rs := make([]uint64, len(ss))
			for i := range ss {
				rs[len(ss)-1-i] = ss[i]
			}
			r, d := w.do(&job{Prop: *prop, Seeds: rs, Deep: deep, Hashes: true, ShrinkS: 1}, watchdog)
			mu.Lock()
			defer mu.Unlock()
			if d != nil {
				fmt.Printf("worker died: %s\n", d.text)
				bad++
				return
			}
			for i, h := range r.Hashes {
				if ref[rs[i]] != h {
					bad++
					fmt.Printf("seed %d differs between processes\n", rs[i])
				}
			}
		}(seeds[lo:hi])
	}
	wg.Wait()
	fmt.Printf("%s: %d seeds executed 3 times in %d processes: %d differences\n", *prop, n, *nw+1, bad)
	if bad > 0 {
		os.Exit(2)
	}
}
