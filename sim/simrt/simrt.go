// Package simrt is a deterministic simulation runtime: a single-token,
// choice-sequence-driven scheduler that runs inside a testing/synctest bubble
// (virtual clock). Instrumented code calls Yield between statements and the
// wrappers in ops.go around every blocking operation; which goroutine runs
// next, where it is preempted, when the clock moves and which faults occur are
// all decided by one recorded sequence of integers.
package simrt

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"
)

// what orders runs, goroutines that wait for something of the harness, and
// input and output
var raceRuns, raceHarness, raceIO int64

// IOWrote and IORead order what comes before an output and after an input, as
// the race detector has it for the real ones.
func IOWrote() { raceRelease(unsafe.Pointer(&raceIO)) }

// IORead see IOWrote.
func IORead() { raceAcquire(unsafe.Pointer(&raceIO)) }

// Handoff orders everything before an earlier Handoff with what follows:
// scenarios use it where one goroutine gives objects to another.
func Handoff() {
	raceAcquire(unsafe.Pointer(&raceHarness))
	raceRelease(unsafe.Pointer(&raceHarness))
}

// G is a simulated goroutine.
type G struct {
	id     int
	name   string
	wake   chan struct{}
	parked bool // waiting for the token
	ready  func() bool
	done   bool
	daemon bool // harness-owned: not counted as leaked
	where  string
	doomed bool
	// Proc is the simulated process the goroutine belongs to.
	Proc interface{}
}

// Name returns the name given at creation.
func (g *G) Name() string { return g.name }

// Violation is a property violation found by a run.
type Violation struct {
	Class string
	Msg   string
}

// Sim is one simulated execution.
type Sim struct {
	mu      sync.Mutex
	rng     *rand.Rand
	replay  []uint32
	useRep  bool
	Choices []uint32
	pos     int

	cur     *G
	gs      []*G // live goroutines, by id
	nextID  int
	budget  int
	gapMax  int           // 0: never preempt
	stalled time.Duration // total length of clock stalls
	stallP  int           // 1/stallP chance of a clock stall at a scheduling point
	killed  bool
	kill    chan struct{}
	act     chan struct{}

	Steps    int // scheduling decisions
	Preempts int
	Switches int
	MaxSteps int
	horizon  time.Duration
	start    time.Time
	nyield   int64
	granted  int

	viol    *Violation
	Stuck   string
	Counts  map[string]int
	log     []string
	logN    int
	Hash    uint64
	schedH  uint64
	Verbose bool
	epoch   int64
	exited  bool
	crash   *Violation // unrecovered panic in a simulated goroutine
	// OnPanic, if set, may claim a panic of a simulated goroutine
	OnPanic func(g *G, v interface{}, stack string) bool
	values  map[string]interface{}
	seq     int64
	race0   int
}

// S is the running simulation (nil outside of one).
var S *Sim
var epochs int64

// Epoch numbers the runs of this process.
func Epoch() int64 { return epochs }

const logCap = 4000

type stopRun struct{}

// Config of a run.
type Config struct {
	Seed    int64
	Replay  []uint32 // if UseReplay
	UseRep  bool
	MaxStep int
	Horizon time.Duration
	Verbose bool
}

// Result of a run.
type Result struct {
	Viol     *Violation
	Choices  []uint32
	Steps    int
	Preempts int
	Switches int
	Counts   map[string]int
	Hash     uint64
	SchedH   uint64
	Log      []string
	SimTime  time.Duration
	Overrun  bool // ran out of steps: inconclusive
}

// Run executes body as the main simulated goroutine.
func Run(t *testing.T, cfg Config, body func(*Sim)) (res Result) {
	epochs++
	s := &Sim{
		replay: cfg.Replay, useRep: cfg.UseRep,
		Counts: map[string]int{}, MaxSteps: cfg.MaxStep, horizon: cfg.Horizon,
		Verbose: cfg.Verbose, epoch: epochs, values: map[string]interface{}{},
	}
	if s.MaxSteps == 0 {
		s.MaxSteps = 200000
	}
	if s.horizon == 0 {
		s.horizon = 10 * time.Hour
	}
	s.rng = rand.New(rand.NewSource(cfg.Seed))
	bubble(t, func(t *testing.T) {
		s.kill = make(chan struct{})
		s.act = make(chan struct{}, 1)
		s.start = time.Now()
		S = s
		defer func() { S = nil }()
		s.loop(body)
		res.SimTime = time.Since(s.start)
		s.shutdown()
	})
	res.Viol = s.viol
	if res.Viol == nil && s.crash != nil {
		res.Viol = s.crash
	}
	res.Overrun = s.Stuck != "" && res.Viol == nil
	res.Choices = s.Choices
	res.Steps, res.Preempts, res.Switches = s.Steps, s.Preempts, s.Switches
	res.Counts = s.Counts
	res.Hash, res.SchedH = s.Hash, s.schedH
	res.Log = s.log
	return res
}

// bubble runs f with virtual time. In a race build package testing ends the
// test after any report of the detector; that must not end the worker.
func bubble(t *testing.T, f func(*testing.T)) {
	if !RaceMode {
		synctest.Test(t, f)
		return
	}
	done := make(chan bool)
	go func() {
		defer close(done)
		synctest.Test(t, f)
	}()
	<-done
}

// Choose draws one recorded choice in [0,n). 0 is the simplest value.
func (s *Sim) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	var v int
	if s.useRep {
		if s.pos < len(s.replay) {
			v = int(s.replay[s.pos]) % n
		}
	} else {
		v = s.rng.Intn(n)
	}
	s.pos++
	s.Choices = append(s.Choices, uint32(v))
	return v
}

// Weighted draws an index with the given integer weights; index 0 is simplest.
func (s *Sim) Weighted(w ...int) int {
	tot := 0
	for _, x := range w {
		tot += x
	}
	v := s.Choose(tot)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// Chance is true with probability num/den (false is the simplest).
func (s *Sim) Chance(num, den int) bool {
	if num <= 0 {
		return false
	}
	return s.Choose(den) >= den-num
}

// Range draws an integer in [lo,hi].
func (s *Sim) Range(lo, hi int) int { return lo + s.Choose(hi-lo+1) }

// Bytes draws n bytes.
func (s *Sim) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 2 {
		v := s.Choose(65536)
		b[i] = byte(v)
		if i+1 < n {
			b[i+1] = byte(v >> 8)
		}
	}
	return b
}

// Dur draws a duration from a heavy-tailed set up to max.
func (s *Sim) Dur(max time.Duration) time.Duration {
	switch s.Choose(5) {
	case 0:
		return 0
	case 1:
		return time.Duration(s.Choose(1000)) * max / 100000
	case 2:
		return time.Duration(s.Choose(1000)) * max / 10000
	default:
		return time.Duration(s.Choose(1001)) * max / 1000
	}
}

// Count bumps a fault or reach counter.
func (s *Sim) Count(k string) { s.Counts[k]++ }

// Seq returns the next global event sequence number.
func (s *Sim) Seq() int64 { s.seq++; return s.seq }

// Now is the simulated time since the start of the run.
func (s *Sim) Now() time.Duration { return time.Since(s.start) }

// Logf records one event in the run's event log.
func (s *Sim) Logf(f string, a ...interface{}) {
	raceOff()
	defer raceOn()
	m := fmt.Sprintf(f, a...)
	name := "-"
	if s.cur != nil {
		name = s.cur.name
	}
	line := fmt.Sprintf("%6d %12s %-10s %s", s.Steps, s.Now(), name, m)
	h := fnv.New64a()
	var b [8]byte
	for i := range b {
		b[i] = byte(s.Hash >> (8 * i))
	}
	h.Write(b[:])
	h.Write([]byte(line))
	s.Hash = h.Sum64()
	s.logN++
	if len(s.log) < logCap {
		s.log = append(s.log, line)
	}
	if s.Verbose {
		fmt.Fprintln(os.Stderr, line)
	}
}

// Failf records a violation and stops the run.
func (s *Sim) Failf(class, f string, a ...interface{}) {
	if s.viol == nil && !s.killed {
		s.viol = &Violation{Class: class, Msg: fmt.Sprintf(f, a...)}
		s.Logf("VIOLATION %s: %s", class, s.viol.Msg)
	}
	panic(stopRun{})
}

// Failed reports whether a violation has been recorded.
func (s *Sim) Failed() bool { return s.viol != nil }

// SetPreempt sets the preemption regime: gaps between preemptions are drawn
// in [1,max]; 0 disables preemption (switches only at blocking operations).
func (s *Sim) SetPreempt(max int) { s.gapMax = max; s.drawGap() }

// SetStall makes one in p scheduling decisions advance the clock first,
// stalling every runnable goroutine.
func (s *Sim) SetStall(p int) { s.stallP = p }

func (s *Sim) drawGap() {
	if d := s.granted - s.budget; d > 0 {
		s.nyield += int64(d)
	}
	s.budget = s.gap()
	s.granted = s.budget
}

func (s *Sim) setBudget(n int) {
	s.granted -= s.budget - n
	s.budget = n
}

const noPreempt = 1 << 24

func (s *Sim) gap() int {
	if s.gapMax <= 0 {
		return noPreempt
	}
	v := s.Choose(s.gapMax + s.gapMax/8 + 2)
	if v == 0 {
		return noPreempt
	}
	if v > s.gapMax {
		return 20 * s.gapMax
	}
	return v
}

// runaway is the number of preemption points after which a run is taken to
// be in an endless loop.
const runaway = 250e6

// Atomic runs f without preemption (f must not block).
func (s *Sim) Atomic(f func()) {
	b := s.budget
	s.budget = 1 << 40
	defer func() {
		if !s.killed && (s.cur == nil || !s.cur.doomed) {
			s.budget = b
		}
	}()
	f()
}

// Yield is a possible preemption point.
func Yield() {
	s := S
	if s == nil {
		return
	}
	s.budget--
	if s.budget > 0 {
		return
	}
	s.yieldSlow()
}

func (s *Sim) yieldSlow() {
	if s.killed {
		s.die()
	}
	if s.cur == nil {
		return
	}
	if s.cur.doomed {
		runtime.Goexit()
	}
	s.Preempts++
	s.park(s.cur, nil)
}

func (s *Sim) die() {
	if s.cur != nil && s.cur.done {
		return
	}
	runtime.Goexit()
}

// park gives up the token until the scheduler picks g again.
func (s *Sim) park(g *G, ready func() bool) {
	if s.killed {
		runtime.Goexit()
	}
	raceRelease(unsafe.Pointer(&raceHarness))
	raceOff()
	defer raceOn()
	s.mu.Lock()
	g.ready = ready
	g.parked = true
	s.mu.Unlock()
	select {
	case s.act <- struct{}{}:
	default:
	}
	select {
	case <-g.wake:
	case <-s.kill:
		runtime.Goexit()
	}
	if g.doomed {
		s.setBudget(0)
		runtime.Goexit()
	}
}

// Doom ends every goroutine of a process at its next step.
func (s *Sim) Doom(proc interface{}) {
	s.mu.Lock()
	for _, g := range s.gs {
		if g.Proc == proc {
			g.doomed = true
			g.daemon = true
		}
	}
	s.mu.Unlock()
	if s.cur != nil && s.cur.doomed {
		s.setBudget(0)
	}
}

// CheckDoom ends the calling goroutine if its process was killed.
func CheckDoom() {
	if s := S; s != nil && s.cur != nil && (s.cur.doomed || s.killed) {
		runtime.Goexit()
	}
}

// GoProc starts a harness goroutine as part of a process.
func (s *Sim) GoProc(name string, proc interface{}, f func()) *G {
	g := s.spawn(name, f)
	g.daemon = true
	g.Proc = proc
	return g
}

// Park gives up the token; the scheduler may pick any runnable goroutine.
func Park() {
	if s := S; s != nil && s.cur != nil {
		s.park(s.cur, nil)
	}
}

// WaitUntil blocks the calling simulated goroutine until cond holds. cond is
// evaluated by the scheduler and must be free of side effects.
func WaitUntil(what string, cond func() bool) {
	waitUntil(what, cond)
	raceAcquire(unsafe.Pointer(&raceHarness))
}

// WaitIO is WaitUntil for input and output: it orders nothing by itself.
func WaitIO(what string, cond func() bool) { waitUntil(what, cond) }

func waitUntil(what string, cond func() bool) {
	s := S
	if s == nil {
		if !cond() {
			panic("simrt: would block outside a simulation: " + what)
		}
		return
	}
	if s.killed {
		runtime.Goexit()
	}
	g := s.cur
	if g == nil {
		panic("simrt: WaitUntil on foreign goroutine: " + what)
	}
	g.where = what
	s.park(g, cond)
	g.where = ""
}

// Cur returns the running goroutine.
func (s *Sim) Cur() *G { return s.cur }

// Go starts a simulated goroutine.
func Go(name string, f func()) *G {
	s := S
	if s == nil {
		go f()
		return nil
	}
	return s.spawn(name, f)
}

// Go starts a named harness goroutine.
func (s *Sim) Go(name string, f func()) *G { g := s.spawn(name, f); g.daemon = true; return g }

func (s *Sim) newG(name string) *G {
	raceOff()
	defer raceOn()
	s.mu.Lock()
	g := &G{id: s.nextID, name: name, wake: make(chan struct{})}
	s.nextID++
	s.gs = append(s.gs, g)
	s.mu.Unlock()
	return g
}

func (s *Sim) spawn(name string, f func()) *G {
	if s.killed {
		return &G{name: name, done: true}
	}
	g := s.newG(name)
	if s.cur != nil {
		g.Proc = s.cur.Proc
		g.doomed = s.cur.doomed
	}
	s.launch(g, f)
	return g
}

func (s *Sim) launch(g *G, f func()) {
	g.parked = true
	go s.body(g, f)
	raceOff()
	select {
	case s.act <- struct{}{}:
	default:
	}
	raceOn()
}

func (s *Sim) body(g *G, f func()) {
	defer s.finish(g)
	raceOff()
	select {
	case <-g.wake:
	case <-s.kill:
		return
	}
	raceOn()
	if g.doomed {
		return
	}
	f()
}

func (s *Sim) finish(g *G) {
	if r := recover(); r != nil {
		if _, ok := r.(stopRun); !ok && !s.killed {
			st := string(debug.Stack())
			if s.OnPanic == nil || !s.OnPanic(g, r, st) {
				if s.viol == nil && s.crash == nil {
					s.crash = &Violation{Class: "panic", Msg: fmt.Sprintf("goroutine %s panicked: %v\n%s", g.name, r, trimStack(st))}
					s.Logf("PANIC %s: %v", g.name, r)
				}
			}
		}
	}
	raceRelease(unsafe.Pointer(&raceHarness))
	raceRelease(unsafe.Pointer(&raceRuns))
	raceOff()
	s.mu.Lock()
	g.done = true
	g.parked = false
	for i, x := range s.gs {
		if x == g {
			s.gs = append(s.gs[:i:i], s.gs[i+1:]...)
			break
		}
	}
	s.mu.Unlock()
	if s.cur == g {
		s.cur = nil
	}
	select {
	case s.act <- struct{}{}:
	default:
	}
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	seen := false
	for i := 0; i+1 < len(lines); i++ {
		if strings.HasPrefix(lines[i], "panic(") {
			seen = true
			out = out[:0]
			i++
			continue
		}
		if !seen {
			continue
		}
		if strings.HasPrefix(lines[i], "\t") {
			continue
		}
		fn := lines[i]
		if j := strings.LastIndex(fn, "("); j > 0 {
			fn = fn[:j]
		}
		if strings.HasPrefix(fn, "runtime.") {
			continue
		}
		out = append(out, fn)
		if len(out) >= 6 {
			break
		}
	}
	return "  at " + strings.Join(out, "\n  at ")
}

// AfterFunc runs f in a simulated goroutine after d.
func AfterFunc(d time.Duration, f func()) *time.Timer {
	s := S
	if s == nil {
		return time.AfterFunc(d, f)
	}
	ep := s.epoch
	raceOff()
	// the identity is fixed now, so that timers that fire at the same
	// simulated instant are ordered independently of the Go runtime
	s.mu.Lock()
	id := s.nextID
	s.nextID++
	s.mu.Unlock()
	raceOn()
	var proc interface{}
	if s.cur != nil {
		proc = s.cur.Proc
	}
	return time.AfterFunc(d, func() {
		if S == nil || S.epoch != ep || S.killed {
			return
		}
		g := &G{id: id, name: "timer", wake: make(chan struct{}), Proc: proc}
		raceOff()
		s.mu.Lock()
		s.gs = append(s.gs, g)
		s.mu.Unlock()
		raceOn()
		s.launch(g, f)
	})
}

// adopt re-registers the goroutine after it was woken natively.
func (s *Sim) adopt(g *G) { s.park(g, nil) }

// Sleep sleeps in simulated time.
func Sleep(d time.Duration) {
	s := S
	if s == nil {
		time.Sleep(d)
		return
	}
	g := s.cur
	if s.killed || g == nil {
		runtime.Goexit()
	}
	if d > 0 {
		raceOff()
		defer raceOn()
		t := time.NewTimer(d)
		g.where = "sleep"
		select {
		case <-t.C:
		case <-s.kill:
			t.Stop()
			runtime.Goexit()
		}
		g.where = ""
	}
	s.park(g, nil)
}

// loop is the scheduler; it runs on the bubble's root goroutine.
func (s *Sim) loop(body func(*Sim)) {
	main := s.newG("main")
	main.daemon = true
	main.parked = true
	mainDone := false
	raceAcquire(unsafe.Pointer(&raceRuns))
	raceReport() // what is in the log is of earlier runs
	s.race0 = raceErrors()
	go s.body(main, func() {
		defer func() { mainDone = true }()
		body(s)
	})
	raceOff()
	defer raceOn()
	var last *G
	for {
		synctest.Wait()
		s.cur = nil
		if RaceMode && raceErrors() != s.race0 && s.viol == nil {
			s.race0 = raceErrors()
			if m := raceReport(); m != "" {
				s.viol = &Violation{Class: "data-race", Msg: "accesses that nothing orders: " + m}
				s.Logf("VIOLATION data-race: %s", s.viol.Msg)
			}
		}
		if s.viol != nil || s.crash != nil || mainDone {
			return
		}
		if s.nyield > runaway {
			s.viol = &Violation{Class: "runaway", Msg: "a computation does not come to an end: " + s.dump()}
			s.Logf("VIOLATION runaway: %s", s.viol.Msg)
			return
		}
		if s.Steps >= s.MaxSteps {
			s.Stuck = "step limit"
			return
		}
		var run []*G
		s.mu.Lock()
		for _, g := range s.gs {
			if g.parked && (g.doomed || g.ready == nil || g.ready()) {
				run = append(run, g)
			}
		}
		s.mu.Unlock()
		if len(run) == 0 {
			// nothing runnable: let the clock move to the next timer
			select {
			case <-s.act:
			default:
			}
			synctest.Wait()
			t := time.NewTimer(s.horizon)
			select {
			case <-s.act:
				t.Stop()
			case <-t.C:
				if s.viol == nil {
					s.viol = &Violation{Class: "deadlock", Msg: "nothing can run: " + s.dump()}
					s.Logf("VIOLATION deadlock: %s", s.viol.Msg)
				}
				return
			}
			continue
		}
		s.Steps++
		sort.Slice(run, func(i, j int) bool {
			if (run[i] == last) != (run[j] == last) {
				return run[i] == last
			}
			return run[i].id < run[j].id
		})
		if s.stallP > 0 && s.Chance(1, s.stallP) {
			d := time.Duration(1+s.Choose(4000)) * time.Millisecond
			s.Counts["clock_stall"]++
			s.stalled += d
			time.Sleep(d)
			continue
		}
		i := s.Choose(len(run))
		g := run[i]
		if g != last {
			s.Switches++
			s.schedH = (s.schedH*1099511628211 + uint64(g.id) + 1) ^ uint64(s.Steps)
		}
		last = g
		s.mu.Lock()
		g.parked = false
		g.ready = nil
		s.mu.Unlock()
		s.drawGap()
		s.cur = g
		g.wake <- struct{}{}
	}
}

func (s *Sim) dump() string {
	var out []string
	s.mu.Lock()
	sort.Slice(s.gs, func(i, j int) bool { return s.gs[i].id < s.gs[j].id })
	for _, g := range s.gs {
		st := "blocked"
		if g.parked {
			st = "waiting"
		}
		out = append(out, fmt.Sprintf("%s(%s %s)", g.name, st, g.where))
	}
	s.mu.Unlock()
	return strings.Join(out, ", ")
}

// Live returns the simulated goroutines of the code under test that still exist.
func (s *Sim) Live() []string {
	var out []string
	s.mu.Lock()
	sort.Slice(s.gs, func(i, j int) bool { return s.gs[i].id < s.gs[j].id })
	for _, g := range s.gs {
		if !g.daemon {
			w := g.where
			out = append(out, g.name+"("+w+")")
		}
	}
	s.mu.Unlock()
	return out
}

func (s *Sim) shutdown() {
	s.killed = true
	s.budget = 1
	close(s.kill)
	for i := 0; i < 200; i++ {
		synctest.Wait()
		s.mu.Lock()
		n := len(s.gs)
		s.mu.Unlock()
		if n == 0 {
			break
		}
		time.Sleep(time.Second)
	}
	s.mu.Lock()
	n := len(s.gs)
	s.mu.Unlock()
	if n != 0 {
		fmt.Fprintf(os.Stderr, "simrt: could not end goroutines: %s\n", s.dump())
		os.Exit(3)
	}
}

// Calm is simulated time without clock stalls: it only passes when nothing can
// run, so it does not count against goroutines that are merely held up.
func (s *Sim) Calm() time.Duration { return s.Now() - s.stalled }

// Quiet lets everything else run for d of simulated time without stalls.
func (s *Sim) Quiet(d time.Duration) {
	for end := s.Calm() + d; s.Calm() < end; {
		Sleep(end - s.Calm())
	}
}

// Join waits until all given goroutines are done.
func (s *Sim) Join(gs ...*G) {
	WaitUntil("join", func() bool {
		for _, g := range gs {
			if !g.done {
				return false
			}
		}
		return true
	})
}

// JoinWithin waits for the goroutines for at most d of simulated time,
// not counting stalls.
func (s *Sim) JoinWithin(d time.Duration, gs ...*G) bool {
	deadline := s.Calm() + d
	ok := func() bool {
		for _, g := range gs {
			if !g.done {
				return false
			}
		}
		return true
	}
	for !ok() {
		if s.Calm() >= deadline {
			return false
		}
		Sleep(d / 50)
	}
	raceAcquire(unsafe.Pointer(&raceHarness))
	return true
}

// Done reports whether the goroutine ended.
func (g *G) Done() bool {
	if g.done {
		raceAcquire(unsafe.Pointer(&raceHarness))
	}
	return g.done
}

// Where says what the goroutine is blocked on.
func (g *G) Where() string { return g.where }
