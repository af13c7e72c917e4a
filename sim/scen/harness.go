// Package scen holds the simulation scenarios, one or more per property, and
// the worker that runs, minimises and replays them.
package scen

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"verif.sim/simrt"
	"verif.sim/simworld"
)

// T is the context of one simulated run.
type T struct {
	*simrt.Sim
	W       *simworld.World
	Deep    bool // thorough tier
	quiesce bool
	alone   bool // the scenario runs one thing at a time
}

// Scenario is a workload with its oracle.
type Scenario struct {
	Prop    string
	Name    string
	Weight  int
	Body    func(t *T)
	MaxStep int
	Horizon time.Duration
	// Fresh runs every execution in its own process (package-level state).
	Fresh bool
	// Overrun: running out of steps is a violation (livelock).
	Overrun bool
	// NoPreempt leaves the preemption regime to the body.
	NoPreempt bool
}

var scenarios = map[string][]*Scenario{}

// Register adds a scenario.
func Register(s *Scenario) {
	if s.Weight == 0 {
		s.Weight = 1
	}
	scenarios[s.Prop] = append(scenarios[s.Prop], s)
}

// Job is what the driver asks a worker to do.
type Job struct {
	Prop     string
	Seed     int64 // VERIF_SEED
	From     int   // first run index
	Step     int   // stride
	Count    int   // runs altogether (indices < Count)
	WallMS   int64 // stop starting runs after this
	Tier     string
	Only     string // scenario name
	Out      string
	Cur      string // file naming the run in progress
	Replay   string // replay file to execute instead
	One      *One   // a single run (fresh-process mode)
	ShrinkMS int64
	Verbose  bool
	KeepAll  bool
	Known    []Known
	Indices  []int // exactly these runs, in one process
}

// One is a single execution.
type One struct {
	Scenario string
	RunSeed  int64
	Choices  []uint32
	UseRep   bool
}

// Known is a finding that is reported but not a violation.
type Known struct {
	Property string `json:"property"`
	Match    string `json:"match"` // substring of "class: message"
	What     string `json:"what"`
}

// RunResult is the outcome of one execution.
type RunResult struct {
	Idx      int
	Scenario string
	RunSeed  int64
	Class    string   `json:",omitempty"`
	Msg      string   `json:",omitempty"`
	Choices  []uint32 `json:",omitempty"`
	Steps    int
	Preempts int
	Switches int
	Counts   map[string]int
	Hash     uint64
	SchedH   uint64
	SimMS    int64
	Overrun  bool
	Log      []string `json:",omitempty"`
}

// Replay is a replay file.
type Replay struct {
	Property  string   `json:"property"`
	Scenario  string   `json:"scenario"`
	Tier      string   `json:"tier"`
	VerifSeed int64    `json:"verif_seed"`
	RunSeed   int64    `json:"run_seed"`
	Class     string   `json:"class"`
	Message   string   `json:"message"`
	Choices   []uint32 `json:"choices"`
	Hash      string   `json:"event_log_hash"`
	OrigLen   int      `json:"choices_before_minimising"`
	Trace     []string `json:"trace"`
	Race      bool     `json:"race,omitempty"`
	Index     int      `json:"run_index"`
}

// Out is a worker's report.
type Out struct {
	Runs      int
	Overruns  int
	OverrunIx []int
	PerScen   map[string]int
	Counts    map[string]int // summed
	RunsWith  map[string]int // runs in which the counter was non-zero
	Steps     int64
	Preempts  int64
	Switches  int64
	SimMS     int64
	Hashes    []uint64 // event log hash per nontrivial run
	Scheds    []uint64
	Samples   []RunResult
	Viol      []Replay
	Known     map[string]int
	WallMS    int64
	Stopped   bool // by the wall clock
	All       map[string]string
}

var beat int64

func runSeed(seed int64, prop string, i int) int64 {
	if simrt.RaceMode {
		prop += "/race"
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, prop, i)
	return int64(h.Sum64() >> 1)
}

func pick(prop, only string, i int) *Scenario {
	list := scenarios[prop]
	if only != "" {
		for _, s := range list {
			if s.Name == only {
				return s
			}
		}
		return nil
	}
	tot := 0
	for _, s := range list {
		tot += s.Weight
	}
	k := i % tot
	for _, s := range list {
		if k < s.Weight {
			return s
		}
		k -= s.Weight
	}
	return nil
}

func execute(tt *testing.T, sc *Scenario, tier string, one *One, verbose bool) RunResult {
	cfg := simrt.Config{Seed: one.RunSeed, Replay: one.Choices, UseRep: one.UseRep, MaxStep: sc.MaxStep, Horizon: sc.Horizon, Verbose: verbose}
	if cfg.MaxStep == 0 {
		cfg.MaxStep = 400000
	}
	atomic.StoreInt64(&beat, time.Now().UnixNano())
	r := simrt.Run(tt, cfg, func(s *simrt.Sim) {
		t := &T{Sim: s, W: simworld.New(s, one.RunSeed^0x5eed), Deep: tier == "thorough"}
		defer func() { simworld.W = nil; httpNode = nil }()
		t.alone = sc.NoPreempt
		if !sc.NoPreempt {
			t.Regime()
		}
		sc.Body(t)
	})
	simworld.W = nil
	out := RunResult{Scenario: sc.Name, RunSeed: one.RunSeed, Choices: r.Choices, Steps: r.Steps, Preempts: r.Preempts,
		Switches: r.Switches, Counts: r.Counts, Hash: r.Hash, SchedH: r.SchedH, SimMS: r.SimTime.Milliseconds(), Overrun: r.Overrun, Log: r.Log}
	if r.Viol != nil {
		out.Class, out.Msg = r.Viol.Class, r.Viol.Msg
	} else if r.Overrun && sc.Overrun {
		out.Class, out.Msg = "livelock", "the run does not come to an end"
		out.Overrun = false
	}
	return out
}

// Regime draws the preemption regime of the run (swarm style).
func (t *T) Regime() {
	switch t.Choose(8) {
	case 0:
		t.SetPreempt(0)
	case 1:
		t.SetPreempt(4)
	case 2:
		t.SetPreempt(12)
	case 3:
		t.SetPreempt(40)
	case 4:
		t.SetPreempt(150)
	case 5:
		t.SetPreempt(600)
	case 6:
		t.SetPreempt(3000)
	case 7:
		t.SetPreempt(20000)
	}
	if t.Choose(4) == 3 {
		t.SetStall(20 + t.Choose(200))
	}
}

// The race detector reports a pair of places only once per process, so the
// executions of a minimisation need a process each.
var fresh bool

// runOne executes in this process, or in a fresh one if the scenario asks.
func runOne(tt *testing.T, sc *Scenario, job *Job, one *One) RunResult {
	if (!sc.Fresh && !fresh) || job.One != nil {
		return execute(tt, sc, job.Tier, one, job.Verbose)
	}
	atomic.StoreInt64(&beat, time.Now().UnixNano())
	j := *job
	j.One = one
	j.Replay = ""
	j.Out = job.Out + ".one"
	f := job.Out + ".job"
	b, _ := json.Marshal(j)
	os.WriteFile(f, b, 0644)
	os.Remove(j.Out)
	cmd := exec.Command("/proc/self/exe", os.Args[1:]...)
	cmd.Env = append(os.Environ(), "SIM_JOB="+f)
	var eb strings.Builder
	cmd.Stderr = &eb
	if job.Verbose {
		cmd.Stderr = os.Stderr
	}
	err := cmd.Run()
	ob, rerr := os.ReadFile(j.Out)
	var r RunResult
	if rerr != nil || json.Unmarshal(ob, &r) != nil {
		fmt.Fprintf(os.Stderr, "worker: fresh process failed: %v\n%s\n", err, eb.String())
		os.Exit(5)
	}
	os.Remove(f)
	os.Remove(j.Out)
	return r
}

func matchKnown(known []Known, prop string, r *RunResult) *Known {
	s := r.Class + ": " + r.Msg
	for i := range known {
		if known[i].Property == prop && known[i].Match != "" && strings.Contains(s, known[i].Match) {
			return &known[i]
		}
	}
	return nil
}

// Worker is the entry point of the test binary.
func Worker(tt *testing.T) {
	if c := os.Getenv("SIM_CODEC"); c != "" {
		var k, st int
		fmt.Sscanf(c, "%d,%d", &k, &st)
		CodecChild(k, st == 1)
	}
	jf := os.Getenv("SIM_JOB")
	if jf == "" {
		tt.Skip("no SIM_JOB")
	}
	b, err := os.ReadFile(jf)
	if err != nil {
		tt.Fatal(err)
	}
	var job Job
	if err := json.Unmarshal(b, &job); err != nil {
		tt.Fatal(err)
	}
	log.SetOutput(io.Discard)
	debug.SetGCPercent(200)
	setup()
	atomic.StoreInt64(&beat, time.Now().UnixNano())
	go watchdog()
	if job.One != nil {
		sc := pick(job.Prop, job.One.Scenario, 0)
		r := execute(tt, sc, job.Tier, job.One, job.Verbose)
		ob, _ := json.Marshal(r)
		os.WriteFile(job.Out, ob, 0644)
		os.Exit(0)
	}
	if job.Replay != "" {
		replay(tt, &job)
		return
	}
	if len(scenarios[job.Prop]) == 0 {
		fmt.Fprintln(os.Stderr, "no scenario for", job.Prop)
		os.Exit(6)
	}
	out := &Out{PerScen: map[string]int{}, Counts: map[string]int{}, RunsWith: map[string]int{}, Known: map[string]int{}, All: map[string]string{}}
	start := time.Now()
	seen := map[string]bool{}
	list := job.Indices
	for k := 0; ; k++ {
		i := job.From + k*job.Step
		if list != nil {
			if k >= len(list) {
				break
			}
			i = list[k]
		} else if i >= job.Count {
			break
		}
		if job.WallMS > 0 && time.Since(start).Milliseconds() > job.WallMS {
			out.Stopped = true
			break
		}
		sc := pick(job.Prop, job.Only, i)
		one := &One{Scenario: sc.Name, RunSeed: runSeed(job.Seed, job.Prop, i)}
		if job.Cur != "" {
			os.WriteFile(job.Cur, []byte(fmt.Sprintf("%d", i)), 0644)
		}
		r := runOne(tt, sc, &job, one)
		r.Idx = i
		out.Runs++
		if job.KeepAll {
			out.All[fmt.Sprint(i)] = fmt.Sprintf("%016x %016x %d %d %s", r.Hash, r.SchedH, r.Steps, len(r.Choices), r.Class)
			out.Runs = len(out.All)
			continue
		}
		out.PerScen[sc.Name]++
		for k, v := range r.Counts {
			out.Counts[k] += v
			out.RunsWith[k]++
		}
		out.Steps += int64(r.Steps)
		out.Preempts += int64(r.Preempts)
		out.Switches += int64(r.Switches)
		out.SimMS += r.SimMS
		if r.Overrun {
			out.Overruns++
			out.OverrunIx = append(out.OverrunIx, i)
		}
		faults := 0
		for k := range r.Counts {
			if strings.HasPrefix(k, "fault:") {
				faults++
			}
		}
		if r.Switches > 1 || faults > 0 {
			out.Hashes = append(out.Hashes, r.Hash^r.SchedH)
			out.Scheds = append(out.Scheds, r.SchedH)
		}
		if r.Class == "" {
			if len(out.Samples) < 2 && (faults > 0 || r.Switches > 3) {
				s := r
				s.Choices = nil
				if len(s.Log) > 25 {
					s.Log = s.Log[:25]
				}
				out.Samples = append(out.Samples, s)
			}
			continue
		}
		if k := matchKnown(job.Known, job.Prop, &r); k != nil {
			out.Known[k.Match]++
			continue
		}
		key := sc.Name + "/" + r.Class
		if seen[key] {
			continue
		}
		seen[key] = true
		rep := minimise(tt, sc, &job, one, r)
		rep.Index = i
		out.Viol = append(out.Viol, rep)
		break
	}
	out.WallMS = time.Since(start).Milliseconds()
	ob, err := json.Marshal(out)
	if err != nil {
		tt.Fatal(err)
	}
	if err := os.WriteFile(job.Out, ob, 0644); err != nil {
		tt.Fatal(err)
	}
}

func watchdog() {
	for {
		time.Sleep(5 * time.Second)
		if time.Since(time.Unix(0, atomic.LoadInt64(&beat))) > 60*time.Second {
			fmt.Fprintln(os.Stderr, "worker: watchdog: a run takes too long")
			buf := make([]byte, 1<<20)
			fmt.Fprintf(os.Stderr, "%s\n", buf[:runtime.Stack(buf, true)])
			os.Exit(4)
		}
	}
}

func replay(tt *testing.T, job *Job) {
	b, err := os.ReadFile(job.Replay)
	if err != nil {
		tt.Fatal(err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		tt.Fatal(err)
	}
	job.Prop = rp.Property
	job.Tier = rp.Tier
	sc := pick(rp.Property, rp.Scenario, 0)
	if sc == nil {
		tt.Fatalf("no scenario %s/%s", rp.Property, rp.Scenario)
	}
	r := runOne(tt, sc, job, &One{Scenario: sc.Name, RunSeed: rp.RunSeed, Choices: rp.Choices, UseRep: true})
	r.Choices = nil
	ob, _ := json.Marshal(r)
	if err := os.WriteFile(job.Out, ob, 0644); err != nil {
		tt.Fatal(err)
	}
}

// minimise shrinks the choice sequence while the same class of violation
// persists.
func minimise(tt *testing.T, sc *Scenario, job *Job, one *One, r RunResult) Replay {
	best := r
	deadline := time.Now().Add(time.Duration(job.ShrinkMS) * time.Millisecond)
	tries := 0
	try := func(c []uint32) bool {
		if time.Now().After(deadline) {
			return false
		}
		tries++
		x := runOne(tt, sc, job, &One{Scenario: sc.Name, RunSeed: one.RunSeed, Choices: c, UseRep: true})
		if x.Class != r.Class || matchKnown(job.Known, job.Prop, &x) != nil {
			return false
		}
		// what was actually consumed, without trailing zeros
		y := x.Choices
		if len(y) > len(c) {
			y = y[:len(c)]
		}
		for len(y) > 0 && y[len(y)-1] == 0 {
			y = y[:len(y)-1]
		}
		x.Choices = y
		if less(y, best.Choices) {
			best = x
			return true
		}
		return false
	}
	if simrt.RaceMode {
		fresh = true
		defer func() { fresh = false }()
	}
	try(append([]uint32(nil), r.Choices...))
	for progress := true; progress && time.Now().Before(deadline); {
		progress = false
		// cut the tail
		for k := len(best.Choices) / 2; k > 0; k /= 2 {
			for len(best.Choices) > k && try(append([]uint32(nil), best.Choices[:len(best.Choices)-k]...)) {
				progress = true
			}
		}
		// delete blocks
		for k := len(best.Choices) / 2; k > 0; k /= 2 {
			for i := 0; i+k <= len(best.Choices); {
				c := append([]uint32(nil), best.Choices[:i]...)
				c = append(c, best.Choices[i+k:]...)
				if try(c) {
					progress = true
				} else {
					i += k
				}
				if time.Now().After(deadline) {
					break
				}
			}
		}
		// zero blocks
		for k := 64; k > 0; k /= 4 {
			for i := 0; i < len(best.Choices); i += k {
				c := append([]uint32(nil), best.Choices...)
				ch := false
				for j := i; j < i+k && j < len(c); j++ {
					if c[j] != 0 {
						c[j] = 0
						ch = true
					}
				}
				if ch && try(c) {
					progress = true
				}
			}
		}
		// halve values
		for i := 0; i < len(best.Choices); i++ {
			for i < len(best.Choices) && best.Choices[i] > 1 {
				c := append([]uint32(nil), best.Choices...)
				c[i] /= 2
				if !try(c) {
					c = append([]uint32(nil), best.Choices...)
					c[i]--
					if !try(c) {
						break
					}
				}
				progress = true
			}
		}
	}
	return Replay{Property: job.Prop, Scenario: sc.Name, Tier: job.Tier, VerifSeed: job.Seed, RunSeed: one.RunSeed,
		Class: best.Class, Message: best.Msg, Choices: best.Choices, Hash: fmt.Sprintf("%016x", best.Hash),
		OrigLen: len(r.Choices), Trace: best.Log, Race: simrt.RaceMode}
}

func less(a, b []uint32) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	var sa, sb uint64
	for i := range a {
		sa += uint64(a[i])
		sb += uint64(b[i])
	}
	return sa < sb
}

// sortedKeys of a string map.
func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
