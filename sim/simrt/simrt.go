// Package simrt is the scheduler of the simulation. Simulated tasks are real
// goroutines of which exactly one runs at a time: the one holding the turn.
// The turn passes only at scheduling points (Yield, placed before every
// statement of the repository by the instrumenter; Point, called by the
// simulated kernel and the harness's readers, writers and visitors; and
// blocking on a semaphore), to a task chosen by a seeded generator or by a
// recorded schedule.
//
// Nothing here creates a happens-before edge between tasks (all functions are
// norace and hand over by spinning on Gosched with GOMAXPROCS=1), so a build
// with the race detector reports every pair of conflicting accesses that the
// code under test itself leaves unordered.
package simrt

import (
	"flag"
	"os"
	"reflect"
	"runtime"
)

const maxTasks = runtime.SimMaxTasks

// Seg is one stretch of a schedule: task ran for n scheduling points.
type Seg struct {
	Task int32
	N    int32
}

// Mode selects how the scheduler chooses.
const (
	ModeSerial  = iota // each task runs to completion, in order
	ModeUniform        // random task, geometric quantum with mean Mean
	ModePCT            // priorities with Depth random change points
	ModeReplay         // follow Replay
)

// Config of one run.
type Config struct {
	Mode     int
	Seed     uint64
	Mean     int
	Depth    int
	Horizon  int64 // PCT: change points are drawn from [0,Horizon)
	Replay   []Seg
	MaxSteps int64
	Observe  func() // called at every ObserveEvery-th scheduling point
	Every    int64
}

// Outcome of one run.
type Outcome struct {
	Steps    int64
	Switches int
	Hung     bool // step limit reached
	Deadlock bool // every live task blocked
	Leaked   bool // some goroutine could not be ended
	Left     int  // goroutines still there, blocked for ever, when the tasks had ended
	Sched    []Seg
}

const (
	idle = iota
	live
	hard // blocked in the language runtime (channel, condition variable)
	semw // waiting for a semaphore (mutex, wait group, once)
	done
)

const big = 1 << 30

var (
	budget  int32 = big
	granted int32 = big
	turn    int32
	strict  bool // goroutines may be running that do not hold the turn
	left    int32
	steps   int64
	spins   int64
	waits   int
	ntasks  int32 // tasks known to the scheduler
	state   [maxTasks]uint8
	group   [maxTasks]int32
	prio    [maxTasks]uint32
	dying   [maxTasks]bool   // by group
	semVer  [maxTasks]uint64 // semw: of the semaphores when it began to wait
	low     int32            // tasks before it have ended
	cfg     Config
	rng     uint64
	sched   []Seg
	schedN  int
	replay  int
	hung    bool
	dead    bool
	leaked  bool
	leftN   int
	mains   int32 // tasks 1..mains were given to Run
	fires   int   // timers fired since those have ended
	running bool
	change  [64]int64
	nchange int
	nextObs int64

	nextBeat int64

	// Per-process view of process-global variables of the standard library.
	procs   [maxTasks]procVars
	curProc int32
)

type procVars struct {
	flags *flag.FlagSet
	args  []string
	set   bool
}

// Yield is a scheduling point.
//
//go:norace
func Yield() {
	budget--
	if budget > 0 && (!strict || runtime.SimTask() == turn) {
		return
	}
	slow()
}

//go:norace
func next() uint64 {
	rng += 0x9e3779b97f4a7c15
	z := rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func spent() int32 {
	n := granted - budget
	granted = budget
	return n
}

//go:norace
func slow() {
	me := runtime.SimTask()
	if me <= 0 {
		if me < -1 {
			runtime.Goexit() // left behind
		}
		budget, granted = big, big
		return
	}
	if dying[groupOf(me)] {
		die()
		return
	}
	if turn != me {
		budget++ // it was not this task's
		arrive(me)
		return
	}
	n := spent()
	steps += int64(n)
	left -= n
	spins = 0
	refill()
	limits(me)
	if left <= 0 {
		pass(me, false)
	}
}

// Point is a scheduling point that always accounts for itself.
//
//go:norace
func Point() {
	if runtime.SimTask() > 0 {
		budget--
		slow()
	}
}

// Spawn is a scheduling point before a goroutine is started: from here on
// every scheduling point of the run is accounted for exactly.
//
//go:norace
func Spawn() {
	if runtime.SimTask() > 0 {
		strict = true
		Point()
		if cfg.Mode != ModeReplay && !Dying() {
			// Choose anew as soon as the goroutine exists.
			left, budget, granted = 1, 1, 1
			fresh = true
		}
	}
}

// fresh: the quantum was cut because a goroutine is about to start.
var fresh bool

//go:norace
func limits(me int32) {
	if cfg.MaxSteps > 0 && steps > cfg.MaxSteps {
		hung = true
		killAll()
		die()
		return
	}
	if steps >= nextBeat { // whether or not somebody listens
		nextBeat = steps + 1<<20
		if Beat != nil {
			outside(me, Beat)
		}
	}
	if cfg.Observe != nil && steps >= nextObs {
		nextObs = steps + cfg.Every
		outside(me, cfg.Observe)
	}
}

// Beat is called now and then while steps are being made.
var Beat func()

//go:norace
func outside(me int32, f func()) {
	runtime.SimSetTask(-1)
	b, g := budget, granted
	budget, granted = big, big
	f()
	budget, granted = b, g
	runtime.SimSetTask(me)
}

//go:norace
func refill() {
	b := left
	if cfg.MaxSteps > 0 && int64(b) > cfg.MaxSteps-steps+1 {
		b = int32(cfg.MaxSteps - steps + 1)
	}
	if cfg.Observe != nil && int64(b) > nextObs-steps {
		b = int32(nextObs - steps)
	}
	if int64(b) > nextBeat-steps {
		b = int32(nextBeat - steps)
	}
	if b < 1 {
		b = 1
	}
	budget, granted = b, b
}

// Dying reports whether the calling task's process is being torn down.
//
//go:norace
func Dying() bool {
	me := runtime.SimTask()
	return me > 0 && dying[groupOf(me)]
}

// die ends the calling task. Deferred functions run; scheduling points and
// system calls they reach do nothing.
//
//go:norace
func die() {
	budget, granted = 1, 1
	me := runtime.SimTask()
	if n := inExit[me]; n > 0 && n%100000 != 0 {
		inExit[me]++
		runtime.Gosched()
		return
	}
	inExit[me]++ // also ends a deferred function that would not end by itself
	runtime.Goexit()
}

var inExit [maxTasks]int32

// seen: the task has reached a scheduling point.
var seen [maxTasks]bool

// Kill marks every task of a group for death; they end at their next
// scheduling point.
//
//go:norace
func Kill(g int32) {
	if turn > 0 && runtime.SimTask() == turn {
		n := spent()
		steps += int64(n)
		left -= n
	}
	dying[g] = true
	budget, granted = 1, 1
}

// Die ends the calling task now (its group must have been killed).
//
//go:norace
func Die() { die() }

//go:norace
func killAll() {
	for i := range dying {
		dying[i] = true
	}
	budget, granted = 1, 1
}

//go:norace
func groupOf(id int32) int32 {
	for group[id] == 0 {
		id = runtime.SimParent(id)
	}
	return group[id]
}

// Group returns the process the calling task belongs to.
//
//go:norace
func Group() int32 {
	me := runtime.SimTask()
	if me <= 0 {
		return 0
	}
	return groupOf(me)
}

// discover adopts goroutines the code under test has started.
//
//go:norace
func discover() {
	for n := runtime.SimTasks(); ntasks < n; {
		ntasks++
		state[ntasks] = live
		prio[ntasks] = 1000 + uint32(next()>>33)
		strict = true
	}
	for i := low; i <= ntasks; i++ {
		if state[i] != done && runtime.SimDone(i) {
			state[i] = done
		}
	}
	for low <= ntasks && state[low] == done {
		low++
	}
}

// ready reports whether a task can be given the turn. The tasks of a process
// that is being torn down end without it.
//
//go:norace
func ready(i int32) bool {
	if state[i] != live && state[i] != semw || dying[groupOf(i)] {
		return false
	}
	return state[i] == live || state[i] == semw && semVer[i] != runtime.SimSemVersion()
}

//go:norace
func runnable(not int32) int32 {
	var c int32
	for i := low; i <= ntasks; i++ {
		if ready(i) && i != not {
			c++
		}
	}
	return c
}

//go:norace
func nth(k, not int32) int32 {
	for i := low; i <= ntasks; i++ {
		if ready(i) && i != not {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return 0
}

// choose picks the next holder and its quantum; 0 if nothing can run.
//
//go:norace
func choose(cur int32, forced bool) (int32, int32) {
	t, q := pick(cur, forced)
	if t != 0 && cfg.Mode != ModeUniform && replay >= len(cfg.Replay) && cfg.MaxSteps > 0 && int64(q) > fairAfter()-steps && remaining() > 1 {
		q = int32(max(fairAfter()-steps, fairMean))
	}
	return t, q
}

// A schedule that is not fair can keep a task going that never ends by itself,
// such as one that reports progress, and starve what it waits for. Runs that
// take long are therefore continued with a fair one.
const fairMean = 5000

//go:norace
func fairAfter() int64 { return cfg.MaxSteps / 3 }

//go:norace
func pick(cur int32, forced bool) (int32, int32) {
	discover()
	if cfg.Mode == ModeReplay {
		for replay < len(cfg.Replay) {
			s := cfg.Replay[replay]
			replay++
			if s.Task >= 1 && s.Task <= ntasks && ready(s.Task) && s.N > 0 {
				return s.Task, s.N
			}
		}
	}
	not := int32(0)
	if forced && runnable(cur) > 0 {
		not = cur
	}
	c := runnable(not)
	if c == 0 {
		return 0, 0
	}
	if cfg.Mode != ModeUniform && cfg.MaxSteps > 0 && steps >= fairAfter() && remaining() > 1 {
		return nth(int32(next()%uint64(c)), not), fairMean
	}
	switch cfg.Mode {
	case ModeUniform:
		t := nth(int32(next()%uint64(c)), not)
		if remaining() == 1 {
			return t, big // alone until it starts a goroutine
		}
		return t, geometric()
	case ModePCT:
		var best int32
		for i := low; i <= ntasks; i++ {
			if ready(i) && i != not && (best == 0 || prio[i] > prio[best]) {
				best = i
			}
		}
		return best, int32(untilChange())
	}
	// Serial, and replay after its schedule is exhausted.
	if !forced && cur > 0 && ready(cur) {
		return cur, big
	}
	k := int32(0)
	if forced && cur > 0 {
		for i := int32(1); i <= ntasks; i++ { // the next in cyclic order
			j := (cur+i-1)%ntasks + 1
			if ready(j) && j != not {
				return j, big
			}
		}
	}
	return nth(k, not), big
}

// remaining counts the tasks that have not ended.
//
//go:norace
func remaining() (n int32) {
	for i := low; i <= ntasks; i++ {
		if state[i] != done {
			n++
		}
	}
	return n
}

//go:norace
func geometric() int32 {
	m := uint64(cfg.Mean)
	if m <= 1 {
		return 1
	}
	n := int32(1)
	for n < 100000 && next()%m != 0 {
		n++
	}
	// Runs with very many switches go on with longer quanta.
	return n << min(switches/200_000, 12)
}

//go:norace
func untilChange() int64 {
	for i := 0; i < nchange; i++ {
		if change[i] > steps {
			return change[i] - steps
		}
	}
	return big
}

// arriving reports whether a task that was blocked inside the language runtime
// has been woken up, or one that was started exists, but has not yet reached a
// scheduling point.
//
//go:norace
func arriving() bool {
	for i := low; i <= ntasks; i++ {
		if (state[i] == hard || state[i] == live && !seen[i]) && !runtime.SimDone(i) && !runtime.SimBlocked(i) {
			return true
		}
	}
	return false
}

// lost reports that the holder of the turn cannot hand it on: it has ended or
// is blocked inside the language runtime.
//
//go:norace
func lost() bool {
	if turn > 0 {
		return runtime.SimDone(turn) || runtime.SimBlocked(turn) || spins > patience
	}
	return turn == 0 && spins%64 == 63 || spins > patience
}

// pass hands the turn on; returns when the caller holds it again.
//
//go:norace
func pass(me int32, forced bool) {
	if cfg.Mode == ModePCT && !fresh {
		prio[me] = uint32(next() % 1000) // demoted at a change point
	}
	fresh = false
	gather()
	t, q := choose(me, forced)
	for t == 0 && fire() {
		gather()
		t, q = choose(me, forced)
	}
	if t == 0 {
		giveUp()
		die()
		return
	}
	give(t, q, !forced)
	if t != me {
		wait(me)
	}
}

// gather lets goroutines that were started, or made runnable by the language
// runtime, reach a scheduling point, so that they take part in the choice.
//
//go:norace
func gather() {
	if strict {
		discover()
		for i := 0; i < 4000 && arriving(); i++ {
			runtime.Gosched()
		}
	}
}

//go:norace
func give(t, q int32, exhausted bool) {
	record(t, exhausted)
	if t != turn {
		swapProc(groupOf(t))
	}
	turn = t
	left = q
	spins = 0
	refill()
}

// record notes that t takes over. exhausted: the previous segment ended
// because its quantum was used up (rather than by blocking or ending), so that
// the recorded length is exact; otherwise one more is recorded, which the
// replay will not reach.
//
//go:norace
func record(t int32, exhausted bool) {
	closeSeg(exhausted)
	if schedN > 0 && sched[schedN-1].Task == t && exhausted {
		return // segStart stays: the segment continues
	}
	if schedN < len(sched) {
		sched[schedN] = Seg{t, 1}
		schedN++
	}
	segStart = steps
	switches++
}

//go:norace
func closeSeg(exhausted bool) {
	if schedN == 0 {
		return
	}
	n := steps - segStart
	if !exhausted {
		n++
	}
	sched[schedN-1].N = int32(n)
}

var (
	segStart int64
	switches int
)

//go:norace
func swapProc(g int32) {
	if g == curProc {
		return
	}
	if procs[curProc].set {
		procs[curProc].flags = flag.CommandLine
		procs[curProc].args = os.Args
	}
	if procs[g].set {
		flag.CommandLine = procs[g].flags
		os.Args = procs[g].args
		curProc = g
	}
}

// SetProc gives process g its own command line.
func SetProc(g int32, fs *flag.FlagSet, args []string) {
	procs[g] = procVars{fs, args, true}
}

// arrive handles a task that reaches a scheduling point without the turn: a
// goroutine just started, or one the language runtime has just unblocked.
//
//go:norace
func arrive(me int32) {
	discover()
	seen[me] = true
	if state[me] == hard || state[me] == idle {
		state[me] = live
	}
	strict = true
	wait(me)
}

//go:norace
func wait(me int32) {
	g := groupOf(me)
	for turn != me {
		if dying[g] {
			die()
			return
		}
		spins++
		if lost() {
			stuck()
		}
		runtime.Gosched()
	}
	if state[me] == hard || state[me] == semw {
		state[me] = live
	}
	if dying[g] {
		die()
	}
}

// stuck is called by a waiting task when the holder of the turn cannot hand it
// on, or has made no progress for a million rounds in which it could have run.
//
//go:norace
func stuck() {
	discover()
	if turn > 0 {
		steps += int64(spent())
		if state[turn] == live {
			state[turn] = hard
		}
	}
	strict = true
	if waits < 4000 && arriving() {
		waits++ // whoever was woken up takes part in the choice
		return
	}
	waits = 0
	t, q := choose(0, false)
	if t != 0 {
		give(t, q, false)
		return
	}
	turn = 0
	if fire() {
		return // whoever waited for it takes part in the next choice
	}
	alive, abandoned, ending := false, false, false
	for i := low; i <= ntasks; i++ {
		if state[i] == done {
			continue
		}
		switch {
		case !dying[groupOf(i)]:
			alive = true
		case runtime.SimBlocked(i) || spins > patience:
			abandoned = true
		default:
			ending = true
		}
	}
	if ending {
		return
	}
	spins = 0
	if alive {
		giveUp()
	} else if abandoned {
		abandon()
	}
}

// abandon leaves behind the goroutines of ended processes that are blocked for
// ever.
//
//go:norace
func abandon() {
	for i := low; i <= ntasks; i++ {
		switch {
		case state[i] == done:
		case abandonedN < 2000 && runtime.SimBlocked(i):
			if i <= mains {
				mainsLost++
			}
			runtime.SimAbandon(i)
			state[i] = done
			abandonedN++
		default:
			leaked = true
		}
	}
}

// abandonedN counts the goroutines left behind since this program started.
var abandonedN int

// mainsLost counts those among the tasks given to Run.
var mainsLost int

const patience = 1000000

// Left counts the goroutines the tasks have started and that have not ended.
//
//go:norace
func Left() int {
	discover()
	n := 0
	for i := low; i <= ntasks; i++ {
		if i > mains && state[i] != done {
			n++
		}
	}
	return n
}

//go:norace
func mainsDone() bool {
	for i := low; i <= mains; i++ {
		if state[i] != done {
			return false
		}
	}
	return true
}

// giveUp is called when nothing can go on any more: a deadlock if a task is
// waiting; otherwise only goroutines they started are left.
//
//go:norace
func giveUp() {
	if mainsDone() {
		leftN = Left()
	} else {
		dead = true
	}
	killAll()
}

// fire lets time pass until the next timer is due. Timers alone do not keep a
// run going for ever once its tasks have ended.
//
//go:norace
func fire() bool {
	if mainsDone() {
		if fires++; fires > 100 {
			return false
		}
	}
	return runtime.SimFire(true)
}

// Settle lets all other tasks go on until each has ended or is blocked; some
// time passes, but not more than an hour.
//
//go:norace
func Settle() {
	me := runtime.SimTask()
	if me <= 0 || !strict {
		return
	}
	until := runtime.SimClock() + int64(3600e9)
	for i, n := 0, 0; i < 100000 && !dying[groupOf(me)]; i++ {
		Point()
		gather()
		if runnable(me) == 0 {
			if n++; n > 20 || runtime.SimDue() > until || !runtime.SimFire(true) {
				return
			}
			continue
		}
		steps += int64(spent())
		limits(me)
		pass(me, true)
	}
}

//go:norace
func anyLive() bool {
	for i := low; i <= ntasks; i++ {
		if state[i] != done {
			return true
		}
	}
	return false
}

// block is called when a semaphore (mutex, wait group, once) is not available.
//
//go:norace
func block(version uint64) {
	me := runtime.SimTask()
	if dying[groupOf(me)] {
		die()
		return
	}
	if turn != me {
		arrive(me)
		return
	}
	steps += int64(spent())
	state[me], semVer[me] = semw, version
	pass(me, true)
	state[me] = live
}

// woken is called when a task goes on that was blocked inside the language
// runtime.
//
//go:norace
func woken() {
	me := runtime.SimTask()
	if dying[groupOf(me)] {
		die()
		return
	}
	if turn != me {
		arrive(me)
	}
}

// handoff is called when a mutex is handed to a task that has waited long for
// it: the caller does not take it again first.
//
//go:norace
func handoff() {
	me := runtime.SimTask()
	if dying[groupOf(me)] || turn != me || runnable(me) == 0 {
		return
	}
	steps += int64(spent())
	limits(me)
	pass(me, true)
}

// GiveWay lets others run, if any can.
//
//go:norace
func GiveWay() {
	me := runtime.SimTask()
	if me <= 0 {
		return
	}
	if dying[groupOf(me)] {
		die()
		return
	}
	if turn != me {
		arrive(me)
		return
	}
	steps += int64(spent())
	limits(me)
	pass(me, true)
}

// sleep is called when time has passed for the calling task.
//
//go:norace
func sleep() {
	me := runtime.SimTask()
	if dying[groupOf(me)] {
		die()
		return
	}
	for runtime.SimFire(false) {
		strict = true
	}
	if turn != me {
		arrive(me)
		return
	}
	steps += int64(spent())
	limits(me)
	pass(me, true)
}

// Elapse lets time pass.
//
//go:norace
func Elapse(ns int64) {
	runtime.SimAdvance(ns)
	if runtime.SimTask() <= 0 {
		return
	}
	for runtime.SimFire(false) {
		strict = true
	}
}

//go:norace
func tornDown(id int32) bool { return running && dying[groupOf(id)] }

//go:norace
func finish(me int32) {
	if me <= 0 {
		return
	}
	if turn == me {
		n := spent()
		steps += int64(n)
		state[me] = done
		gather()
		t, q := choose(me, true)
		if t != 0 {
			give(t, q, false)
		} else {
			turn = 0
		}
		return
	}
	state[me] = done
}

// Run executes the tasks (numbered from 1) to completion under the schedule
// cfg describes. groups[i] is the process task i+1 belongs to.
func Run(c Config, tasks []func(), groups []int32) Outcome {
	if running {
		panic("simrt: nested run")
	}
	running = true
	n := int32(len(tasks))
	runtime.SimReset(n)
	runtime.SimBlock, runtime.SimSleep, runtime.SimTornDown, runtime.SimHandoff, runtime.SimWoken = block, sleep, tornDown, handoff, woken
	cfg = c
	rng = c.Seed
	ntasks = n
	strict, hung, dead, leaked, fresh = false, false, false, false, false
	mains, fires, leftN, mainsLost = n, 0, 0, 0
	steps, spins, switches, replay, schedN, segStart = 0, 0, 0, 0, 0, 0
	low = 1
	nextObs = 0
	nextBeat = 1 << 20
	if sched == nil {
		sched = make([]Seg, 1<<24)
	}
	for i := range state {
		state[i], group[i], dying[i], inExit[i], prio[i], seen[i] = idle, 0, false, 0, 0, false
	}
	for i := range tasks {
		state[i+1] = live
		seen[i+1] = true
		group[i+1] = groups[i]
	}
	nchange = 0
	if c.Mode == ModePCT {
		for i := range tasks {
			prio[i+1] = 1000 + uint32(next()>>33)
		}
		for nchange < c.Depth && nchange < len(change) && c.Horizon > 0 {
			at := int64(next() % uint64(c.Horizon))
			j := nchange
			for j > 0 && change[j-1] > at {
				change[j] = change[j-1]
				j--
			}
			change[j] = at
			nchange++
		}
	}
	turn = -1 // nobody yet
	ch := make(chan struct{}, len(tasks))
	for i, f := range tasks {
		id, f := int32(i+1), f
		go func() {
			defer func() { ch <- struct{}{} }()
			start(id)
			defer ended()
			wait(id)
			f()
		}()
	}
	master()
	for range len(tasks) - mainsLost {
		select {
		case <-ch:
		default:
			if !leaked {
				<-ch
			}
		}
	}
	out := Outcome{Steps: steps, Switches: switches, Hung: hung, Deadlock: dead, Leaked: leaked, Left: leftN}
	closeSeg(false)
	out.Sched = append([]Seg(nil), sched[:schedN]...)
	budget, granted = big, big
	turn = 0
	running = false
	runtime.SimBlock, runtime.SimSleep, runtime.SimTornDown, runtime.SimHandoff, runtime.SimWoken = nil, nil, nil, nil, nil
	for i := range procs {
		procs[i] = procVars{}
	}
	return out
}

//go:norace
func start(id int32) { runtime.SimSetTask(id) }

//go:norace
func ended() {
	me := runtime.SimTask()
	finish(me)
	runtime.SimSetTask(0)
}

// master starts the first task and then keeps watch until all have ended.
//
//go:norace
func master() {
	for i := 0; i < 4; i++ {
		runtime.Gosched() // let every task reach its starting line
	}
	curProc = 0
	t, q := choose(0, false)
	if t != 0 {
		give(t, q, false)
	}
	for {
		discover()
		if !anyLive() {
			return
		}
		if leaked {
			return
		}
		spins++
		if lost() {
			stuck()
		}
		runtime.Gosched()
	}
}

// Fresh gives the importing package a command line of its own.
func Fresh() int {
	flag.CommandLine = flag.NewFlagSet(os.Args[0], flag.ExitOnError)
	return 0
}

// Zero resets a variable declared without an initialiser.
func Zero(p interface{}) {
	v := reflect.ValueOf(p).Elem()
	v.Set(reflect.Zero(v.Type()))
}

type reset struct {
	path string
	f    func()
}

var resets [16][]reset

// Register records a package's initialisers; packages register in dependency
// order because they do so from their init functions.
func Register(inst int, path string, f func()) {
	resets[inst] = append(resets[inst], reset{path, f})
}

// Reset re-runs the initialisers of every package of an instance: the state of
// a process that has just started.
func Reset(inst int) {
	Fresh()
	for _, r := range resets[inst] {
		r.f()
	}
}

// Resets reports how many packages instance inst has registered.
func Resets(inst int) int { return len(resets[inst]) }
