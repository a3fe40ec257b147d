// Command harness is the simulator: it generates seeded cases for a property,
// executes each in a simulated world and checks the property on it.
//
//	harness run -prop P -base SEED -from I -stride K -count N -seconds S -hashes FILE
//	harness replay FILE
//	harness gen -prop P -base SEED -index I
//	harness hashes -prop P -base SEED -indexes I,J,...
//
// The output is JSON; deciding what it means is the driver's business.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/kern"
	"verif.local/sim/simrt"
)

type prop struct {
	gen  func(*Case, *R)
	exec func(*Case) *Result
}

func cliProp(p string) prop {
	return prop{func(c *Case, r *R) { genCLI(c, r, p) }, execCLI}
}

var props = map[string]prop{
	"L01": {genL01, execL01},
	"L02": {genL02, execL02},
	"L03": {genL03, execL03},
	"L04": {genL04, execL04},
	"L05": {genL05, execL05},
	"L06": {genL06, execL06},
	"L07": {genL07, execL07},
	"C01": cliProp("C01"),
	"C02": cliProp("C02"),
	"C03": cliProp("C03"),
	"C04": cliProp("C04"),
	"C05": cliProp("C05"),
	"C06": cliProp("C06"),
	"C07": cliProp("C07"),
	"C08": cliProp("C08"),
	"L08": {genL08, execL08},
	"L09": {genL09, execL09},
}

func seedOf(base uint64, prop string, index int64) uint64 {
	r := newR(base, "seed "+prop)
	r.s += uint64(index) * 0x9e3779b97f4a7c15
	return r.u64()
}

func genCase(id string, base uint64, index int64) *Case {
	p, ok := props[id]
	if !ok {
		fatal("unknown property %s", id)
	}
	c := &Case{Prop: id, Seed: seedOf(base, id, index)}
	r := newR(c.Seed, "case")
	c.Rand = r.u64()
	p.gen(c, r)
	return c
}

func execCase(c *Case) *Result {
	p, ok := props[c.Prop]
	if !ok {
		fatal("unknown property %s", c.Prop)
	}
	syscall.SimEscaped, kern.Unsupported = 0, ""
	kern.Table = [64]*kern.Proc{}
	forget()
	res := p.exec(c)
	if syscall.SimEscaped != 0 {
		res.Trouble = fmt.Sprintf("system call %d is not simulated", syscall.SimEscaped)
	}
	if kern.Unsupported != "" {
		res.Trouble = "system call not simulated: " + kern.Unsupported
	}
	if res.Viol != nil {
		res.mixs(res.Viol.Class)
		res.mixs(res.Viol.Msg)
	}
	return res
}

// maxPinned limits the length of a schedule that is written out.
const maxPinned = 200000

// pin turns a case into one that replays the very schedule of its execution.
func pin(c *Case, res *Result) *Case {
	d := *c
	if c.Sched.Mode != simrt.ModeSerial && len(res.Scheds) > 0 {
		n := 0
		for _, s := range res.Scheds {
			n += len(s)
		}
		if n > maxPinned {
			return c // the seed stands for the schedule
		}
		d.Sched = Sched{Mode: simrt.ModeSerial}
		for _, s := range res.Scheds {
			if len(s) > 1 {
				d.Sched = Sched{Mode: simrt.ModeReplay, Segs: res.Scheds}
			}
		}
	}
	return &d
}

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness: "+format+"\n", args...)
	os.Exit(3)
}

type summary struct {
	Next     int64          `json:"next"` // first index not executed
	Cases    int64          `json:"cases"`
	Runs     int64          `json:"runs"`
	Steps    int64          `json:"steps"`
	Switches int64          `json:"switches"`
	Calls    int64          `json:"calls"`
	Faulty   int64          `json:"faulty"`
	Faults   map[string]int `json:"faults"`
	Probes   map[string]int `json:"probes"`
	Kinds    map[string]int `json:"kinds"`
	Seconds  float64        `json:"seconds"`
	Restart  bool           `json:"restart,omitempty"`
	Trouble  string         `json:"trouble,omitempty"`
	Viol     *Viol          `json:"viol,omitempty"`
	Slowest  float64        `json:"slowest"` // seconds of the slowest case
	Slow     int64          `json:"slow"`    // and its index
	Index    int64          `json:"index"`
	Hash     uint64         `json:"hash,omitempty"`
	Case     *Case          `json:"case,omitempty"`
	Samples  []sample       `json:"samples,omitempty"`
	Known    map[string]int `json:"known,omitempty"`
}

// finding is a recorded defect: what identifies it is the class of the
// violation together with a text its report contains.
type finding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Class    string `json:"class"`
	Contains string `json:"contains"`
	Fixed    string `json:"fixed"`
}

func match(fs []finding, prop string, v *Viol) *finding {
	for i, f := range fs {
		if v != nil && f.Fixed == "" && f.Property == prop && f.Class == v.Class && f.Contains != "" && strings.Contains(v.Msg, f.Contains) {
			return &fs[i]
		}
	}
	return nil
}

type sample struct {
	Index  int64          `json:"index"`
	Seed   uint64         `json:"seed"`
	Hash   string         `json:"hash"`
	Steps  int64          `json:"steps"`
	Switch int            `json:"switches"`
	Faults map[string]int `json:"faults"`
	Case   *Case          `json:"case"`
}

func gcNow() bool {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.HeapAlloc > 256<<20
}

func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	id := fs.String("prop", "", "")
	base := fs.Uint64("base", 1, "")
	from := fs.Int64("from", 0, "")
	stride := fs.Int64("stride", 1, "")
	count := fs.Int64("count", 1<<40, "")
	seconds := fs.Float64("seconds", 5, "")
	hashes := fs.String("hashes", "", "")
	samples := fs.Int("samples", 0, "")
	least := fs.Int64("least", 0, "cases to execute even when the time is up")
	progress := fs.String("progress", "", "file that holds the index being executed")
	known := fs.String("known", "", "known findings")
	fs.Parse(args)
	var findings []finding
	if *known != "" {
		b, err := os.ReadFile(*known)
		if err == nil {
			err = json.Unmarshal(b, &findings)
		}
		if err != nil {
			fatal("%v", err)
		}
	}
	pulse := pulseOf(*progress)
	s := summary{Faults: map[string]int{}, Probes: map[string]int{}, Kinds: map[string]int{}, Index: -1}
	var hw *bufio.Writer
	if *hashes != "" {
		f, err := os.OpenFile(*hashes, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
		if err != nil {
			fatal("%v", err)
		}
		defer f.Close()
		hw = bufio.NewWriter(f)
		defer hw.Flush()
	}
	begin := time.Now()
	i := *from
	for n := int64(0); n < *count; n++ {
		if n >= *least && time.Since(begin).Seconds() > *seconds {
			break
		}
		copy(pulse, fmt.Sprintf("%-20d", i))
		if n%16 == 15 && gcNow() {
			runtime.GC()
		}
		c := genCase(*id, *base, i)
		t0 := time.Now()
		res := execCase(c)
		if d := time.Since(t0).Seconds(); d > s.Slowest {
			s.Slowest, s.Slow = d, i
		}
		s.Cases++
		s.Runs += int64(res.Runs)
		s.Steps += res.Steps
		s.Switches += int64(res.Switch)
		s.Calls += int64(res.Calls)
		faulty := 0
		for k, v := range res.Faults {
			if v > 0 {
				s.Faults[k] += v
				faulty += v
			}
		}
		for k, v := range res.Probes {
			s.Probes[k] += v
		}
		s.Kinds[c.Kind]++
		nontrivial := faulty > 0 || res.Switch > 2
		if nontrivial {
			s.Faulty++
		}
		if hw != nil {
			var b [9]byte
			binary.LittleEndian.PutUint64(b[:], res.Hash)
			if nontrivial {
				b[8] = 1
			}
			hw.Write(b[:])
		}
		if len(s.Samples) < *samples && nontrivial {
			s.Samples = append(s.Samples, sample{i, c.Seed, fmt.Sprintf("%016x", res.Hash), res.Steps, res.Switch, res.Faults, c})
		}
		at := i
		i += *stride
		if res.Trouble != "" {
			s.Trouble, s.Index, s.Case = res.Trouble, at, c
			break
		}
		if f := match(findings, *id, res.Viol); f != nil {
			if s.Known == nil {
				s.Known = map[string]int{}
			}
			s.Known[f.ID]++
		} else if res.Viol != nil {
			s.Viol, s.Index, s.Hash, s.Case = res.Viol, at, res.Hash, pin(c, res)
			break
		}
		if res.Restart {
			s.Restart = true
			break
		}
	}
	s.Next = i
	s.Seconds = time.Since(begin).Seconds()
	emit(s)
}

// pulseOf is the memory of a file through which others can see that a run
// advances: the index of the case, and a number that grows. It is written to
// without system calls, which would disturb the simulation.
func pulseOf(name string) []byte {
	b := make([]byte, 28)
	if name != "" {
		f, err := os.OpenFile(name, os.O_CREATE|os.O_TRUNC|os.O_RDWR, 0o644)
		if err == nil {
			err = f.Truncate(4096)
		}
		if err == nil {
			b, err = syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		}
		if err != nil {
			fatal("%v", err)
		}
		f.Close()
	}
	pulse = b[20:28]
	simrt.Beat = beat
	return b
}

var (
	pulse []byte
	beats uint64
)

// beat runs between the steps of whichever task has the turn, so what it
// touches is shared by all of them: it must neither be seen by the race
// detector nor order the tasks for it, as an atomic counter would.
//
//go:norace
func beat() {
	beats++
	for i := range pulse {
		pulse[i] = byte(beats >> (8 * i))
	}
}

func emit(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		fatal("%v", err)
	}
	os.Stdout.Write(append(b, '\n'))
}

type verdict struct {
	Viol    *Viol  `json:"viol"`
	Hash    string `json:"hash"`
	Trouble string `json:"trouble,omitempty"`
	Steps   int64  `json:"steps"`
	Switch  int    `json:"switches"`
	Case    *Case  `json:"case,omitempty"`
}

// cmdReplay executes the case in a file; -pin also prints it with the schedule
// of this execution.
func cmdReplay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	pinned := fs.Bool("pin", false, "")
	search := fs.Int("search", 0, "schedules to try")
	class := fs.String("class", "", "class of violation to search for")
	seconds := fs.Float64("seconds", 5, "")
	progress := fs.String("progress", "", "file to write to while there is progress")
	fs.Parse(args)
	pulseOf(*progress)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fatal("%v", err)
	}
	var f struct {
		Case *Case `json:"case"`
	}
	if err := json.Unmarshal(b, &f); err != nil || f.Case == nil {
		fatal("%s: not a replay file: %v", fs.Arg(0), err)
	}
	res := execCase(f.Case)
	begin, r := time.Now(), newR(f.Case.Seed, "search")
	for i := 0; i < *search && !res.Restart && res.Trouble == "" && (res.Viol == nil || res.Viol.Class != *class); i++ {
		if time.Since(begin).Seconds() > *seconds {
			break
		}
		f.Case.Sched = otherSched(r, i)
		res = execCase(f.Case)
		if gcNow() {
			runtime.GC()
		}
	}
	v := verdict{Viol: res.Viol, Hash: fmt.Sprintf("%016x", res.Hash), Trouble: res.Trouble, Steps: res.Steps, Switch: res.Switch}
	if *pinned {
		v.Case = pin(f.Case, res)
	} else if *search > 0 {
		v.Case = f.Case
	}
	emit(v)
}

// otherSched gives schedules to try while a case is simplified, beginning with
// those that switch rarely.
func otherSched(r *R, i int) Sched {
	s := Sched{Seed: r.u64()}
	switch {
	case i == 0:
		s.Mode = simrt.ModeSerial
	case i%4 == 3:
		s.Mode = simrt.ModeUniform
		s.Mean = r.pickInt(1, 3, 10, 100, 1000)
	default:
		s.Mode = simrt.ModePCT
		s.Depth = r.in(1, 1+i/8)
		if s.Depth > 4 {
			s.Depth = 4
		}
		s.Horizon = int64(r.pickInt(100, 1000, 3000, 10000, 100000))
	}
	return s
}

func cmdHashes(args []string) {
	fs := flag.NewFlagSet("hashes", flag.ExitOnError)
	id := fs.String("prop", "", "")
	base := fs.Uint64("base", 1, "")
	list := fs.String("indexes", "", "")
	fs.Parse(args)
	out := map[string]string{}
	for _, s := range strings.Split(*list, ",") {
		i, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			fatal("%v", err)
		}
		res := execCase(genCase(*id, *base, i))
		out[s] = fmt.Sprintf("%016x", res.Hash)
		if gcNow() {
			runtime.GC()
		}
		if res.Restart {
			break
		}
	}
	emit(out)
}

func cmdGen(args []string) {
	fs := flag.NewFlagSet("gen", flag.ExitOnError)
	id := fs.String("prop", "", "")
	base := fs.Uint64("base", 1, "")
	index := fs.Int64("index", 0, "")
	fs.Parse(args)
	emit(map[string]interface{}{"case": genCase(*id, *base, *index)})
}

func main() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(2 << 30)
	debug.SetMaxStack(256 << 20)
	runtime.GC() // the language runtime starts its own goroutines now
	syscall.Sim = kern.Kernel{}
	if len(os.Args) < 2 {
		fatal("no command")
	}
	cmd, args := os.Args[1], os.Args[2:]
	switch cmd {
	case "run":
		cmdRun(args)
	case "replay":
		cmdReplay(args)
	case "hashes":
		cmdHashes(args)
	case "gen":
		cmdGen(args)
	case "info":
		emit(map[string]interface{}{"packages1": simrt.Resets(1), "packages2": simrt.Resets(2), "race": raceBuild})
	default:
		fatal("unknown command %s", cmd)
	}
}
