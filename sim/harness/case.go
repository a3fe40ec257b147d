package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"strings"
	"syscall"

	"verif.local/sim/kern"
	"verif.local/sim/simrt"
)

// Case is one simulated run, complete: the same case and the same code give
// the same run.
type Case struct {
	Prop  string `json:"prop"`
	Kind  string `json:"kind"`
	Seed  uint64 `json:"seed"`
	Rand  uint64 `json:"rand"` // seeds the language runtime's randomness
	Texts []Text `json:"texts"`
	Rules []int  `json:"rules,omitempty"` // pieces of Texts[0] that are rules
	Sched Sched  `json:"sched"`

	Tasks  [][]Op     `json:"tasks,omitempty"`
	Shared []Slot     `json:"shared,omitempty"`
	Every  int64      `json:"every,omitempty"` // observer period
	CLI    *CLI       `json:"cli,omitempty"`
	NoHarm bool       `json:"noharm,omitempty"`
	Extra  []Delivery `json:"extra,omitempty"`
}

// Sched describes the schedule.
type Sched struct {
	Mode    int    `json:"mode"`
	Seed    uint64 `json:"seed,omitempty"`
	Mean    int    `json:"mean,omitempty"`
	Depth   int    `json:"depth,omitempty"`
	Horizon int64  `json:"horizon,omitempty"`
	// ModeReplay: the schedule of every simulated run of the case, in order.
	Segs [][]simrt.Seg `json:"segs,omitempty"`
}

// genLone is for scenarios with one task: it matters only if the code under
// test starts goroutines.
func genLone(r *R) Sched {
	if r.p(30) {
		return Sched{Mode: simrt.ModeSerial}
	}
	return genSched(r)
}

func genSched(r *R) Sched {
	s := Sched{Seed: r.u64()}
	switch r.n(10) {
	case 0:
		s.Mode = simrt.ModeSerial
	case 1, 2, 3:
		s.Mode = simrt.ModePCT
		s.Depth = r.in(1, 6)
		s.Horizon = int64(r.pickInt(300, 3000, 20000, 100000))
	default:
		s.Mode = simrt.ModeUniform
		s.Mean = r.pickInt(1, 2, 3, 5, 10, 30, 100, 300, 1000, 3000)
	}
	return s
}

func (s Sched) config() simrt.Config {
	c := simrt.Config{Mode: s.Mode, Seed: s.Seed, Mean: s.Mean, Depth: s.Depth, Horizon: s.Horizon}
	if s.Mode == simrt.ModeReplay {
		c.Seed = 1
	}
	return c
}

// Viol is a broken property.
type Viol struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

func viol(class, format string, args ...interface{}) *Viol {
	return &Viol{class, clip(fmt.Sprintf(format, args...), 6000)}
}

// Result of executing a case.
type Result struct {
	Viol    *Viol
	Hash    uint64 // of everything observable: traces, schedule, outcomes
	Steps   int64
	Switch  int
	Runs    int
	Calls   int
	Faults  map[string]int
	Probes  map[string]int
	Scheds  [][]simrt.Seg // of every scheduled run, for the replay file
	Restart bool          // the process must not be reused
	Trouble string        // the simulation itself could not do its work
}

func newResult() *Result {
	return &Result{Hash: 14695981039346656037, Faults: map[string]int{}, Probes: map[string]int{}}
}

func (r *Result) mix(x uint64) {
	r.Hash = (r.Hash ^ x) * 1099511628211
	r.Hash ^= r.Hash >> 31
}

func (r *Result) mixs(s string) { r.mix(fp(s)) }

func (r *Result) probe(name string, on bool) {
	if on {
		r.Probes[name]++
	}
}

func (r *Result) faults(p *kern.Proc) {
	for k, n := range p.Counts {
		r.Faults[k] += n
	}
	r.Calls += p.Calls
}

// finishRun folds a scheduler outcome into the result.
func (r *Result) ran(o simrt.Outcome) {
	r.Runs++
	r.Steps += o.Steps
	r.Switch += o.Switches
	r.mix(uint64(o.Steps))
	for _, s := range o.Sched {
		r.mix(uint64(s.Task)<<32 ^ uint64(s.N))
	}
	r.Scheds = append(r.Scheds, o.Sched)
	if o.Leaked || o.Deadlock {
		r.Restart = true
	}
}

// quiet runs f as the harness: no scheduling, simulated randomness and system
// calls, no faults.
func quiet(rand uint64, f func()) {
	runtime.SimSeedRand(rand)
	runtime.SimSetTask(-1)
	defer runtime.SimSetTask(0)
	f()
}

// env is what a process finds besides its files: the time and the number of
// processors.
func env(rand uint64) (procs int, epoch int64) {
	if rand == refRand {
		return 1, 0
	}
	x := rand * 0x9e3779b97f4a7c15
	return []int{1, 1, 2, 2, 3, 4, 8, 16}[x>>61], int64(x>>20%40_000_000) * 7_919_000_017
}

func setEnv(rand uint64) {
	procs, epoch := env(rand)
	runtime.SimProcs, runtime.SimEpoch = procs, epoch
	runtime.SimSetClock(epoch)
	surroundings(rand, true)
}

var setVars = map[string]string{"HOME": "/home/u", "LANG": "C", "PATH": "/usr/bin:/bin", "USER": "u"}

// surroundings sets what a process may ask about besides time and processors:
// its id, the host's name and the environment. vary: any variable may be set.
func surroundings(rand uint64, vary bool) {
	kern.PidBase, syscall.SimHostname = 4000, "host"
	x := rand * 0xd1342543de82ef95
	if rand == refRand {
		vary = false
	} else {
		kern.PidBase = 1 + int(x>>44)
		syscall.SimHostname = []string{"host", "localhost", "h" + fmt.Sprint(x>>50), "a.very.long.name.of.a.host.in.some.department.example.org"}[x>>30&3]
	}
	workDir, os.Args = "/", []string{"program"}
	if rand != refRand {
		workDir = []string{"/", "/home/u", "/tmp", "/w/" + fmt.Sprint(x>>55)}[x>>33&3]
		os.Args = [][]string{{"program"}, {"/usr/bin/" + fmt.Sprint("p", x>>52)}, {"./p", "-v", "arg"}, {"x.test", "-test.v", "-test.run=X"}}[x>>36&3]
	}
	syscall.SimEnviron = func(key string) (string, bool) {
		if v, ok := setVars[key]; ok {
			return v, true
		}
		if !vary || quietVars[key] || strings.HasPrefix(key, "GO") || strings.HasPrefix(key, "LC_") {
			return "", false
		}
		h := fnv.New64a()
		h.Write([]byte(key))
		y := (h.Sum64() ^ x) * 0x9e3779b97f4a7c15
		vals := []string{"", "1", "1", "0", "true", "yes", "2", "64", "1000", "debug", "/tmp", "x"}
		if y>>63 == 0 {
			return "", false
		}
		return vals[int(y>>40%uint64(len(vals)))], true
	}
}

// Variables the standard library itself looks at.
var quietVars = map[string]bool{"TMPDIR": true, "PWD": true, "TZ": true, "ZONEINFO": true}

// workDir is the directory processes of the library's callers run in.
var workDir string

// machine is a new machine with such a process.
func machine(inst int, group int32) *kern.Proc {
	m := kern.NewMachine()
	m.PutDir(workDir)
	return m.NewProc(inst, group, workDir)
}

const refRand = 0x5eed5eed5eed5eed

// fresh puts the packages in the state of a process that has just started.
// Their initialisers are the code under test's too: they make their system
// calls to a machine of their own.
func fresh(rand uint64) {
	setEnv(rand)
	quiet(rand, func() {
		kern.Table[0] = machine(0, 0)
		simrt.Reset(1)
	})
}

// pristine is quiet in the state of a process that has just started.
func pristine(rand uint64, f func()) {
	fresh(rand)
	quiet(rand, func() {
		kern.Table[0] = machine(0, 0)
		f()
	})
}
