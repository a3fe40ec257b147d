package main

import (
	"bytes"
	"flag"
	"fmt"
	"log"
	"os"
	"path"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"syscall"

	"github.com/mmcloughlin/ssarules/ast"
	main1 "github.com/mmcloughlin/ssarules/cmd/ssarules"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	main2 "github.com/mmcloughlin/ssarules/sim2/cmd/ssarules"
	main3 "github.com/mmcloughlin/ssarules/sim3/cmd/ssarules"
	"github.com/mmcloughlin/ssarules/smt2"

	"verif.local/sim/kern"
	"verif.local/sim/simrt"
)

// CLI is a scenario for the command.
type CLI struct {
	Files []File `json:"files"`
	Runs  []Run  `json:"runs"`
}

// File is put into the file system.
type File struct {
	Path string `json:"path"`
	Dir  bool   `json:"dir,omitempty"`
	T    int    `json:"t"` // text, or -1: Raw
	Raw  string `json:"raw,omitempty"`
	Mode uint32 `json:"mode,omitempty"`
	Age  int64  `json:"age,omitempty"`  // nanoseconds since it was last changed
	As   string `json:"as,omitempty"`   // pipe, nosize
	Link string `json:"link,omitempty"` // symbolic link to there
}

// Stale is what an earlier program left under the name of a script of a run:
// something that resembles the script.
type Stale struct {
	I   int    `json:"i"`   // which script
	How string `json:"how"` // see resemble
	Age int64  `json:"age,omitempty"`
}

// Run is one run of the command.
type Run struct {
	Put    []File        `json:"put,omitempty"` // changes made before it
	Cwd    string        `json:"cwd"`
	OutDir string        `json:"outdir"` // as given; empty: flag absent
	Form   int           `json:"form"`   // spelling of the flag
	Inputs []string      `json:"inputs"`
	Faults []*kern.Fault `json:"faults,omitempty"`
	Cap    int64         `json:"cap"`             // free bytes, -1 unlimited
	Power  uint64        `json:"power,omitempty"` // lose power afterwards
	Gap    int64         `json:"gap,omitempty"`   // nanoseconds the clock moves before it
	FDs    int           `json:"fds,omitempty"`   // limit on open descriptors
	Swap   []Swap        `json:"swap,omitempty"`  // files replaced while it runs
	Stale  []Stale       `json:"stale,omitempty"`
	Probe  bool          `json:"probe,omitempty"` // someone else has files under the names of its temporary files
}

// Swap replaces a file, atomically, after the At-th system call of the run.
type Swap struct {
	At   int    `json:"at"`
	Path string `json:"path"`
	T    int    `json:"t"`
}

func (r *Run) args() []string {
	a := []string{"ssarules"}
	if r.OutDir != "" {
		switch r.Form {
		case 0:
			a = append(a, "-outdir", r.OutDir)
		case 1:
			a = append(a, "-outdir="+r.OutDir)
		case 3:
			a = append(a, "--outdir="+r.OutDir)
		case 4:
			a = append(a, "-outdir", "/w/in", "-outdir", r.OutDir)
		default:
			a = append(a, "--outdir", r.OutDir)
		}
	} else if r.Form == 3 {
		a = append(a, "-outdir=")
	} else if r.Form == 4 {
		a = append(a, "-outdir", "")
	}
	if len(r.Inputs) > 0 && strings.HasPrefix(r.Inputs[0], "-") && r.Inputs[0] != "-" || r.Form == 3 {
		a = append(a, "--")
	}
	return append(a, r.Inputs...)
}

// expect is what a run must do, computed without running the command.
type expect struct {
	inputs  []string // absolute
	out     string   // absolute output directory
	accept  bool     // every input exists and is acceptable
	why     string
	badPath string            // input that cannot be accepted, if one
	scripts map[string][]byte // absolute path to content
	names   map[string]string // absolute path to the spelling the tool uses
	order   []string
	blocked string // a script that cannot be created as things are
	untrans int
}

func hasFeature(v ast.Value) bool {
	s, ok := v.(*ast.SExpr)
	if !ok {
		return false
	}
	if s.Binding != "" || s.Type != "" || s.Aux != nil || s.AuxInt != nil || s.Ellipsis || s.Trailing {
		return true
	}
	for _, a := range s.Args {
		if hasFeature(a) {
			return true
		}
	}
	return false
}

// translated is what one input contributes to a run.
type translated struct {
	malformed, mismatch bool
	scripts             [][]byte // nil: cannot be translated
}

// Computed before in this case.
var (
	textMemo = map[string]*translated{}
	ruleMemo = map[uint64]*translated{}
)

func forget() {
	textMemo, ruleMemo = map[string]*translated{}, map[uint64]*translated{}
}

// translation works rule by rule, each in the state of a fresh process.
func translation(text string) *translated {
	if t, ok := textMemo[text]; ok {
		return t
	}
	t := &translated{}
	textMemo[text] = t
	var f *ast.File
	pristine(refRand, func() {
		var err error
		if f, err = parse.String(text); err != nil {
			t.malformed = true
		}
	})
	if t.malformed {
		return t
	}
	for _, x := range f.Rules {
		if x.Condition != nil || x.Block != "" || hasFeature(x.Match) || hasFeature(x.Result) {
			continue
		}
		key := fp(x)
		u, ok := ruleMemo[key]
		if !ok {
			u = &translated{}
			ruleMemo[key] = u
			one := &ast.File{Rules: []*ast.Rule{x}}
			pristine(refRand, func() {
				u.mismatch = pass.ExpandAlternates(one) != nil
			})
			for _, y := range one.Rules {
				if u.mismatch {
					break
				}
				pristine(refRand, func() {
					b, err := smt2.Generate(y)
					if err != nil {
						b = nil
					} else if b == nil {
						b = []byte{}
					}
					u.scripts = append(u.scripts, b)
				})
			}
		}
		if u.mismatch {
			t.mismatch = true
			return t
		}
		t.scripts = append(t.scripts, u.scripts...)
	}
	return t
}

// expectation is computed with the library, rule by rule, each in the state of
// a fresh process.
func expectation(m *kern.Machine, r *Run) *expect { return expectWith(m, r, nil) }

// expectWith is expectation with the contents of some inputs given: by the
// place in the command line at which they are listed; nil is a missing file.
func expectWith(m *kern.Machine, r *Run, given map[int]*string) *expect {
	p := m.NewProc(0, 0, r.Cwd)
	e := &expect{out: p.Abs(r.OutDir), scripts: map[string][]byte{}, names: map[string]string{}, accept: true}
	if r.OutDir == "" {
		e.out = r.Cwd
	}
	var all []*translated
	for i, in := range r.Inputs {
		abs := p.Abs(in)
		e.inputs = append(e.inputs, abs)
		n := m.Lookup(abs)
		if in == "" {
			n = nil
		}
		if s, ok := given[i]; ok && s == nil {
			n = nil
		} else if ok {
			n = &kern.Node{Mode: 0o644, Data: []byte(*s)}
		}
		bad := func(why string) {
			if e.accept {
				e.accept, e.why, e.badPath = false, why+" "+in, in
			}
		}
		switch {
		case n == nil:
			bad("missing input")
			continue
		case n.Dir:
			bad("directory as input")
			continue
		case n.Mode&0o400 == 0:
			bad("unreadable input")
			continue
		}
		t := translation(string(n.Data))
		if t.malformed {
			bad("malformed input")
		}
		all = append(all, t)
	}
	if !e.accept {
		return e
	}
	i := 0
	for _, t := range all {
		if t.mismatch {
			e.accept, e.why = false, "alternates that cannot be expanded"
			return e
		}
		for _, b := range t.scripts {
			name := fmt.Sprintf("%04d.smt2", i)
			i++
			if b == nil {
				e.untrans++
				continue
			}
			abs := path.Join(e.out, name)
			e.scripts[abs] = b
			e.names[abs] = path.Join(r.OutDir, name)
			e.order = append(e.order, abs)
		}
	}
	e.block(m)
	return e
}

// block finds a script that cannot be created as things are.
func (e *expect) block(m *kern.Machine) {
	e.blocked = ""
	dir := m.Lookup(e.out)
	for _, s := range e.order {
		switch n := m.Lookup(s); {
		case dir == nil || !dir.Dir:
			e.blocked = "no output directory"
		case dir.Mode&0o200 == 0:
			e.blocked = "output directory not writable"
		case n != nil && n.Dir:
			e.blocked = "a directory in place of " + s
		case n != nil && n.Mode&0o200 == 0:
			e.blocked = "read-only " + s
		}
		if e.blocked != "" {
			return
		}
	}
}

var resemblances = []string{"same", "same-size", "prefix", "longer", "other", "empty", "no-newline", "one-byte"}

// resemble makes a content that resembles a script.
func (e *expect) resemble(i int, how string) string {
	s := string(e.scripts[e.order[i]])
	switch how {
	case "same-size":
		return strings.Repeat("?", len(s))
	case "one-byte":
		if k := len(s) * 2 / 3; k < len(s) {
			return s[:k] + "#" + s[k+1:]
		}
	case "prefix":
		return s[:len(s)/2]
	case "longer":
		return s + "; the rest of a longer script\n"
	case "other":
		return string(e.scripts[e.order[(i+1)%len(e.order)]])
	case "empty":
		return ""
	case "no-newline":
		return strings.TrimSuffix(s, "\n")
	}
	return s
}

// prepare puts the files in place that a run finds, and says what the run must
// do.
func prepare(c *Case, m *kern.Machine, r *Run) *expect {
	if m.Now += r.Gap; m.Now < 0 {
		m.Now = 0
	}
	put(c, m, r.Put)
	e := expectation(m, r)
	for _, st := range r.Stale {
		if len(e.order) == 0 {
			continue
		}
		i := st.I % len(e.order)
		s := e.order[i]
		if n := m.Lookup(s); n != nil && (n.Dir || n.Mode&0o200 == 0) {
			continue
		}
		if d := m.Lookup(e.out); d == nil || !d.Dir {
			continue
		}
		input := false
		for _, in := range e.inputs {
			input = input || in == s
		}
		if input {
			continue
		}
		m.Put(s, []byte(e.resemble(i, st.How)), 0o644)
		m.Lookup(s).Mtime -= st.Age
	}
	e.block(m)
	return e
}

// proc is one execution of the command.
type proc struct {
	p     *kern.Proc
	inst  int
	panic string
}

func put(c *Case, m *kern.Machine, fs []File) {
	for _, f := range fs {
		mode := f.Mode
		if mode == 0 {
			mode = 0o644
		}
		if !m.Room(f.Path, f.Dir) {
			continue
		}
		if f.Link != "" {
			m.PutLink(f.Path, f.Link)
			continue
		}
		if f.Dir {
			d := m.PutDir(f.Path)
			if f.Mode != 0 {
				d.Mode = f.Mode
			}
			d.Mtime = m.Now - f.Age
			continue
		}
		s := f.Raw
		if f.T >= 0 && f.T < len(c.Texts) {
			s = c.Texts[f.T].String()
		}
		m.Put(f.Path, []byte(s), mode)
		n := m.Lookup(f.Path)
		n.Mtime = m.Now - f.Age
		n.Pipe, n.NoSize = f.As == "pipe", f.As == "nosize"
	}
}

var keepStd []*os.File

// boot starts a process: fresh package state, command line, log.
func boot(m *kern.Machine, inst int, r *Run, e *expect, rand uint64) *proc {
	p := m.NewProc(inst, int32(inst), r.Cwd)
	for _, in := range e.inputs {
		p.In[in] = true
	}
	p.OutDir = e.out
	p.Faults = cloneFaults(r.Faults)
	p.MaxFDs = r.FDs
	kern.Table[inst] = p
	setEnv(rand)
	surroundings(rand, false)
	runtime.SimEpoch = m.Now
	runtime.SimSetClock(m.Now)
	pr := &proc{p: p, inst: inst}
	quiet(rand, func() {
		kern.Table[0] = p.M.NewProc(0, 0, "/")
		args := r.args()
		os.Args = args
		simrt.Reset(inst)
		log.SetPrefix("")
		log.SetFlags(log.LstdFlags)
		log.SetOutput(os.Stderr)
		simrt.SetProc(int32(inst), flag.CommandLine, args)
	})
	return pr
}

func (pr *proc) main() {
	defer func() {
		if e := recover(); e != nil {
			pr.panic = fmt.Sprint(e)
			pr.p.Stderr = append(pr.p.Stderr, []byte("panic: "+pr.panic+"\n")...)
			if !pr.p.Exited && !pr.p.Crashed {
				pr.p.Exited, pr.p.Code = true, 2
				simrt.Kill(pr.p.Group)
			}
			return
		}
		pr.p.Finish()
	}()
	switch pr.inst {
	case 1:
		main1.SimMain()
	case 2:
		main2.SimMain()
	default:
		main3.SimMain()
	}
}

// restoreStd replaces standard streams the program has closed.
func restoreStd(p *kern.Proc) {
	if p.StdioClosed {
		keepStd = append(keepStd, os.Stdin, os.Stdout, os.Stderr)
		os.Stdin = os.NewFile(0, "/dev/stdin")
		os.Stdout = os.NewFile(1, "/dev/stdout")
		os.Stderr = os.NewFile(2, "/dev/stderr")
	}
}

// execute runs the command alone to its end.
func execute(c *Case, res *Result, m *kern.Machine, r *Run, e *expect, max int64, hook func(p *kern.Proc, ev *kern.Event)) (*proc, simrt.Outcome) {
	m.Cap = r.Cap
	pr := boot(m, 1, r, e, c.Rand)
	m.OnCall = nil
	if hook != nil {
		m.OnCall = func(p *kern.Proc, ev *kern.Event) {
			unsim(func() { hook(p, ev) })
		}
	}
	cfg := c.Sched.config()
	for _, in := range e.inputs {
		if n := m.Lookup(in); n != nil {
			max += int64(len(n.Data)) * 2000
		}
	}
	cfg.MaxSteps = max
	o := runTasks(c, res, cfg, pr.main)
	m.OnCall = nil
	m.Now = runtime.SimClock()
	restoreStd(pr.p)
	res.faults(pr.p)
	res.mix(m.Hash)
	res.mixs(string(pr.p.Stderr))
	res.mix(uint64(pr.p.Code))
	return pr, o
}

func (pr *proc) status() string {
	switch {
	case pr.p.Crashed:
		return "killed"
	case !pr.p.Exited:
		return "not ended"
	case pr.p.Code == 0:
		return "success"
	}
	return fmt.Sprintf("failure (exit status %d)", pr.p.Code)
}

func tail(b []byte) string {
	s := string(b)
	if len(s) > 800 {
		s = "..." + s[len(s)-800:]
	}
	return fmt.Sprintf("%q", s)
}

// complete reports which expected scripts are missing or wrong.
func incomplete(m *kern.Machine, e *expect) string {
	for _, s := range e.order {
		n := m.Lookup(s)
		if n == nil || n.Dir {
			return s + " is missing"
		}
		if !bytes.Equal(n.Data, e.scripts[s]) {
			return fmt.Sprintf("%s holds %q instead of %q", s, clip(string(n.Data), 600), clip(string(e.scripts[s]), 600))
		}
	}
	return ""
}

// hard lists the faults that fired and must make the run fail.
func hardFaults(p *kern.Proc) (fs []*kern.Fault) {
	for _, f := range p.Faults {
		if f.Failed > 0 && (kern.Errno(f.Kind) != 0 || f.Kind == "lossy") && f.Class != "stderr" {
			fs = append(fs, f)
		}
	}
	return fs
}

var numbered = regexp.MustCompile(`[^\s:"']*[0-9]{4,}\.smt2`)

// progress marks a line that does not say that a script has been written: it
// says that one will be, or that one could not be.
var progress = regexp.MustCompile(`(?i)\b(writing|generating|creating|opening|starting|preparing|translating|processing|trying|will|about to|going to|next|error|fail\w*|cannot|can't|could not|unable|skip\w*|not written|permission|denied|no such|no space)\b`)

// ---- generation

func genStale(r *R, g *gen, out string, scripts int) []File {
	var fs []File
	for i, n := 0, r.n(5); i < n; i++ {
		switch r.n(6) {
		case 0:
			fs = append(fs, File{Path: out + "/" + r.pick("notes.txt", "0000.smt2.bak", "README", "tmp", "0001.smt2~", ".keep", "0000.smt2.tmp", "9999.smt2", "12345.smt2", "x.smt2"), T: -1, Raw: "keep me\n"})
		case 1:
			fs = append(fs, File{Path: out + "/sub/" + r.pick("0000.smt2", "a"), T: -1, Raw: "nested\n"})
		default: // under a script's name, possibly longer than the script
			raw := r.pick("", "stale\n", "(set-info :smt-lib-version 2.6)\n(set-logic QF_BV)\n", strings.Repeat("old content, longer than any script\n", r.in(1, 60)))
			fs = append(fs, File{Path: out + "/" + fmt.Sprintf("%04d.smt2", r.n(scripts+3)), T: -1, Raw: raw})
		}
	}
	return fs
}

// decoy puts an acceptable file where a name, taken for something other than
// exactly that name, might lead.
func decoy(r *R, g *gen, c *Case, name string) []File {
	dir, base := path.Split(name)
	to := ""
	switch r.n(9) {
	case 0:
		to = strings.TrimSpace(base)
	case 1:
		to = base + r.pick(".rules", ".gz", ".bak", "~", ".orig", ".txt")
	case 2:
		to = strings.TrimSuffix(base, path.Ext(base))
	case 3:
		to = strings.ToLower(base)
	case 4:
		to = strings.NewReplacer("[", "", "]", "", "*", "x", "?", "y").Replace(base)
	case 5:
		to = strings.NewReplacer("%20", " ", "%25", "%", "%d", "0").Replace(base)
	case 6:
		to = strings.TrimLeft(base, "@-~$+")
	case 7:
		if i := strings.IndexAny(base, ",;=#: "); i >= 0 {
			to = base[:i]
		}
	case 8:
		dir, to = "/w/", base
	}
	if to == "" || to == base && dir != "/w/" || dir+to == name {
		return nil
	}
	for _, f := range c.CLI.Files {
		if f.Path == dir+to || strings.HasPrefix(f.Path, dir+to+"/") {
			return nil
		}
	}
	c.Texts = append(c.Texts, g.join(g.toolRules(r.in(1, 3))))
	return []File{{Path: dir + to, T: len(c.Texts) - 1}}
}

// genCLI fills in a scenario for the command.
func genCLI(c *Case, r *R, prop string) {
	g := newGen(r)
	cli := &CLI{}
	c.CLI = cli
	c.Sched = genLone(r)
	cwd := r.pick("/w", "/", "/w/deep")
	outAbs, outArg := "/w/out", "/w/out"
	switch r.n(6) {
	case 0: // current directory
		outAbs, outArg = cwd, ""
		if cwd == "/" {
			cwd, outAbs = "/w", "/w"
		}
	case 1:
		outArg = r.pick("/w/out/", "/w/./out", "/w/in/../out")
	case 2:
		if cwd == "/w" {
			outArg = r.pick("out", "./out")
		}
	}
	if outAbs == "/w/out" && outArg == outAbs && (prop == "C01" || prop == "C02" || prop == "C04") && r.p(12) {
		// A directory with an odd name, or one reached through a link.
		name := r.pick("out 1", "100%d", "o%20ut", "out[1]", "-out", "0000.smt2", "%s", "$HOME", "~", "o*t", "out.d", "é", "out;x", "o'u\"t")
		switch {
		case r.p(25):
			cli.Files = append(cli.Files, File{Path: "/w/out", Dir: true}, File{Path: "/w/" + name, Link: r.pick("/w/out", "out", "./in/../out")})
			outArg = "/w/" + name
		default:
			outAbs, outArg = "/w/"+name, "/w/"+name
		}
		if cwd == "/w" && r.p(60) {
			outArg = name
		}
	}
	cli.Files = append(cli.Files, File{Path: "/w/in", Dir: true}, File{Path: outAbs, Dir: true}, File{Path: cwd, Dir: true})
	age := func() int64 {
		return int64(r.pickInt(0, 0, 1, 1000, 1_000_000, -1000)) * int64(r.pickInt(1, 3600, 1_000_000)) * 1000
	}
	nameOf := func() string {
		k := len(c.Texts)
		if r.p(70) {
			return fmt.Sprintf("/w/in/r%d.rules", k)
		}
		if r.p(40) {
			return "/w/in/" + strings.ReplaceAll(r.pick("r[#].rules", "*#.rules", "r?#", " r# ", "r#.rules ", "R#.RULES", "r#.rules.gz", "r#", "r%20#.rules", "r#.rules~", "r#.", "http:#", "@r#.rules", "r#,s.rules", "r#;s", "~r#", "$r#", "{r#,s}", "r#\\r", "r'#\"", strings.Repeat("long", 50)+"#", "r#.tar", "#.json", "r#=x"), "#", fmt.Sprint(k))
		}
		switch r.n(9) {
		case 0:
			return fmt.Sprintf("/w/in/r %d.rules", k)
		case 1:
			return fmt.Sprintf("/w/in/100%%d-%d.rules", k)
		case 2:
			return fmt.Sprintf("/w/in/s%d/generic.rules", k)
		case 3:
			return fmt.Sprintf("/w/in/z%02d", 99-k)
		case 4:
			return fmt.Sprintf("/w/in/.r%d", k)
		case 5:
			return fmt.Sprintf("%s/in%d.rules", strings.TrimSuffix(outAbs, "/"), k)
		case 6:
			return fmt.Sprintf("/w/in/%04d.smt2", k)
		case 7:
			if prop == "C01" || prop == "C04" { // under the name of a script
				return fmt.Sprintf("%s/%04d.smt2", strings.TrimSuffix(outAbs, "/"), k)
			}
		}
		return fmt.Sprintf("/w/in/é%d.rules", k)
	}
	used := map[string]bool{}
	newInputs := func(bad bool) []string {
		var ins []string
		n := r.in(1, 3)
		if r.p(4) {
			n = 0
		}
		if r.p(4) {
			n = r.in(5, 20)
		}
		badAt := -1
		if bad && n > 0 {
			badAt = r.n(n)
		}
		for i := 0; i < n; i++ {
			name := nameOf()
			rules := g.toolRules(r.in(0, 5))
			t := g.join(rules)
			f := File{Path: name, T: len(c.Texts), Age: age()}
			if r.p(8) { // more than one read's worth
				t = append(t, Piece{S: "// filler filler\n", N: r.pickInt(30, 31, 60, 250)}, Piece{S: g.translatable()}, Piece{S: "\n"})
			}
			switch {
			case r.p(2): // many scripts
				k := r.pickInt(17, 17, 20, 20, 33, 65)
				if r.p(10) {
					k = r.pickInt(129, 257)
				}
				t = append(t, Piece{S: r.pick(g.translatable(), "(Neg8 x) => x", "(Neg8 x) => x") + "\n", N: k})
			case r.p(6): // equal rules
				t = append(t, Piece{S: g.translatable() + "\n", N: r.in(2, 4)})
			case r.p(2): // one long line
				t = append(t, Piece{S: "//"}, Piece{S: r.pick("c", "=>(", "\xc3\xa9"), N: r.pickInt(4090, 30000, 66000)}, Piece{S: "\n" + g.translatable() + "\n"})
			case r.p(6):
				t = g.odd(t)
			case r.n(150) == 0: // one long rule
				t = append(t, Piece{S: "(Neg8 "}, Piece{S: "v", N: r.pickInt(250, 1030, 4090, 4100, 9000, 66000)}, Piece{S: ") => x\n(Com8 y) => z\n"})
			case r.n(1500) == 0:
				t = append(t, Piece{S: "(Nop x) => x\n", N: r.pickInt(99, 255, 511, 999, 1023)}, Piece{S: "(Neg8 x) => x\n", N: 3})
			case r.n(20000) == 0: // more than four digits
				t = append(t, Piece{S: "(Nop x) => x\n", N: 9999}, Piece{S: "(Neg8 x) => x\n", N: 3})
			}
			if prop == "C01" && r.p(3) || prop != "C07" && r.p(2) {
				f.As = "nosize"
				if prop == "C01" && r.p(50) {
					f.As = "pipe"
				}
			}
			if i == badAt {
				switch r.n(6) {
				case 0:
					f.Path = ""
				case 1:
					t = append(t, Piece{S: g.mismatch() + "\n"})
				case 2:
					f.Mode = 0o200
				case 3:
					f.Dir, f.As = true, ""
				default:
					t = Text{{S: g.malform(t.String() + "(Neg8 x) => x\n")}}
				}
			}
			c.Texts = append(c.Texts, t)
			if f.Path != "" {
				cli.Files = append(cli.Files, f)
			}
			if r.p(4) && f.Path != "" && !f.Dir && f.As == "" { // reached through a link
				link := fmt.Sprintf("/w/in/link%d", len(c.Texts))
				cli.Files = append(cli.Files, File{Path: link, Link: r.pick(f.Path, path.Base(f.Path), strings.TrimPrefix(f.Path, "/"))})
				name = link
			}
			if r.p(6) { // others with similar names
				for k := 0; k < 3; k++ {
					cli.Files = append(cli.Files, decoy(r, g, c, name)...)
				}
			}
			if r.p(20) && cwd == "/w" {
				name = strings.TrimPrefix(name, "/w/")
			} else if r.p(5) {
				name = strings.Replace(name, "/w/", r.pick("/w//", "/w/./", "//w/", "/w/in/../", "/../w/"), 1)
			} else if r.p(4) && f.As == "" && f.Path == name && (prop == "C01" || prop == "C02") {
				// What seems to be the same path is not.
				switch {
				case i == badAt:
					name += r.pick("/", "/.", "/./", "/../"+path.Base(name))
				case path.Dir(name) == "/w/in":
					cli.Files = append(cli.Files, File{Path: "/w/in/deep/er", Dir: true}, File{Path: "/w/deep", Link: r.pick("/w/in/deep", "in/deep", "/w/in/deep/")})
					if r.p(50) {
						cli.Files = append(cli.Files, File{Path: "/w/" + path.Base(name), T: -1, Raw: "(Neg16 x) => (Com16 x)\n"})
					}
					name = "/w/deep/" + r.pick("../", "er/../../", "./../") + path.Base(name)
				}
			}
			if r.p(5) && cwd == "/w" && f.As == "" && f.Mode == 0 { // as if it were something else
				name = r.pick("-", fmt.Sprintf("-x%d", len(c.Texts)), "--", "-h", "-outdir", "-outdir=/w/out2", fmt.Sprintf("@%d", len(c.Texts)), fmt.Sprintf("~%d", len(c.Texts)), fmt.Sprintf("%d", len(c.Texts)), "string", "+1")
				if f.Path != "" && !used[name] {
					f.Path = "/w/" + name
					cli.Files = append(cli.Files, f)
				}
				used[name] = true
			} else if i == badAt && f.Path == "" && r.p(15) {
				name = ""
			}
			ins = append(ins, name)
			if r.p(6) && f.As != "pipe" {
				ins = append(ins, name)
			}
		}
		if len(ins) > 1 && r.p(15) { // not in the order in which they were made
			i, j := r.n(len(ins)), r.n(len(ins))
			ins[i], ins[j] = ins[j], ins[i]
		}
		return ins
	}
	stales := func() []Stale {
		var ss []Stale
		if r.p(65) {
			return nil
		}
		for i, n := 0, r.in(1, 3); i < n; i++ {
			ss = append(ss, Stale{I: r.n(8), How: resemblances[r.n(len(resemblances))], Age: age()})
		}
		return ss
	}
	newRun := func(bad bool) Run {
		run := Run{Cwd: cwd, OutDir: outArg, Form: r.n(5), Inputs: newInputs(bad), Cap: -1, Stale: stales()}
		if r.p(40) {
			run.Gap = age()
		}
		return run
	}
	scripts := 8
	cli.Files = append(cli.Files, genStale(r, g, outAbs, scripts)...)
	if r.p(30) {
		cli.Files = append(cli.Files, File{Path: "/w/other.txt", T: -1, Raw: "unrelated\n"}, File{Path: "/w/0000.smt2", T: -1, Raw: "unrelated too\n"})
	}
	crash := func(any int) *kern.Fault {
		if r.p(10) {
			any *= 10
		}
		f := &kern.Fault{Call: "any", Nth: 1 + r.n(any), Kind: r.pick("crash-before", "crash-after")}
		switch r.n(6) {
		case 0, 1:
			f = &kern.Fault{Call: "write", Class: "out", Nth: r.in(1, 6), Kind: r.pick("crash-mid", "crash-before", "crash-after"), Arg: r.n(120)}
		case 2:
			f = &kern.Fault{Call: r.pick("open", "close"), Class: "out", Nth: r.in(1, 6), Kind: r.pick("crash-before", "crash-after")}
		case 3:
			f = &kern.Fault{Call: r.pick("open", "read", "read", "close"), Class: "in", Nth: r.in(1, 6), Kind: r.pick("crash-before", "crash-after")}
		case 4:
			f = &kern.Fault{Call: "write", Class: "stderr", Nth: r.in(1, 12), Kind: r.pick("crash-mid", "crash-before", "crash-after"), Arg: r.n(30)}
		}
		if r.p(20) { // told to end: it may do so in its own way
			f.Kind, f.Arg = r.pick("SIGINT", "SIGTERM", "SIGHUP"), 0
		}
		return f
	}
	benign := func() []*kern.Fault {
		var fs []*kern.Fault
		for i, n := 0, r.n(4); i < n; i++ {
			f := &kern.Fault{Call: r.pick("read", "write", "write", "open"), Class: r.pick("in", "out", "out"), Nth: r.in(1, 6), Kind: r.pick("EINTR", "short"), Arg: r.in(1, 60)}
			if r.p(12) {
				fs = append(fs, &kern.Fault{Call: r.pick("any", "open", "read", "write", "close"), Nth: r.in(1, 20), Kind: "slow", Arg: r.pickInt(1, 100, 2000, 61_000, 4_000_000), Perm: r.p(20)})
				continue
			}
			if f.Kind == "EINTR" {
				f.Arg = r.in(1, 3)
			} else if r.p(30) {
				f.Perm, f.Nth = true, 1
			}
			if f.Call == "open" {
				f.Kind, f.Arg, f.Perm = "EINTR", r.in(1, 3), false
			}
			fs = append(fs, f)
		}
		return fs
	}
	iofault := func() *kern.Fault {
		f := &kern.Fault{Class: r.pick("in", "out", "out"), Nth: r.in(1, 5), Perm: r.p(35)}
		switch f.Class {
		case "in":
			f.Call = r.pick("open", "read", "read", "close")
			f.Kind = r.errno(f.Call)
		default:
			f.Call = r.pick("open", "write", "write", "close", "close", "rename")
			f.Kind = r.errno(f.Call)
			switch f.Call {
			case "open":
				f.Kind = r.errno("create")
			case "write":
				f.Arg = r.pickInt(0, 0, 1, 10, 40, 100)
			case "close":
				if r.p(60) {
					f.Kind, f.Arg, f.Perm = "lossy", r.pickInt(0, 5, 50, 1000), r.p(20)
				}
			}
		}
		return f
	}
	diskcap := func() int64 { return int64(r.pickInt(0, 1, 30, 100, 150, 300, 500, 900)) }
	stderrFaults := func() []*kern.Fault {
		var fs []*kern.Fault
		for i, n := 0, r.in(1, 3); i < n; i++ {
			f := &kern.Fault{Call: "write", Class: "stderr", Nth: r.in(1, 12), Kind: r.pick("EIO", "ENOSPC", "EINTR", "short", "EBADF", "EFBIG"), Arg: r.n(25), Perm: r.p(45)}
			if f.Kind == "EINTR" {
				f.Perm, f.Arg = false, r.in(1, 3)
			}
			fs = append(fs, f)
		}
		return fs
	}
	switch prop {
	case "C01":
		run := newRun(r.p(25))
		switch r.n(8) {
		case 0, 1: // healthy
			run.Faults = benign()
		case 2:
			run.Cap = diskcap()
			run.Faults = benign()
		case 3:
			run.OutDir = r.pick("/w/missing", "/w/missing/deeper", "/w/out/notes.txt")
		case 4:
			p := fmt.Sprintf("%s/%04d.smt2", outAbs, r.n(5))
			if r.p(50) {
				cli.Files = append(cli.Files, File{Path: p + "/inside", T: -1, Raw: "x"})
				for i := range cli.Files { // not also a file
					if cli.Files[i].Path == p {
						cli.Files[i].Path += ".was"
					}
				}
			} else {
				cli.Files = append(cli.Files, File{Path: p, T: -1, Raw: "locked", Mode: 0o400})
			}
		case 5:
			if r.p(30) {
				f := crash(40)
				f.Kind, f.Arg = r.pick("SIGINT", "SIGTERM", "SIGHUP"), 0
				run.Faults = append(run.Faults, f)
				break
			}
			if r.p(30) {
				cli.Files = append(cli.Files, File{Path: outAbs, Dir: true, Mode: 0o555})
				break
			}
			fallthrough
		default:
			for i, n := 0, r.in(1, 2); i < n; i++ {
				run.Faults = append(run.Faults, iofault())
			}
			run.Faults = append(run.Faults, benign()...)
			if r.n(400) == 0 { // as many failures as an exit status can hold
				k := len(c.Texts)
				c.Texts = append(c.Texts, Text{{S: "(Neg8 x) => x\n", N: 256}})
				cli.Files = append(cli.Files, File{Path: "/w/in/256.rules", T: k})
				run.Inputs = []string{"/w/in/256.rules"}
				run.Faults = []*kern.Fault{{Call: r.pick("write", "open", "close"), Class: "out", Nth: 1, Kind: "EIO", Perm: true}}
			}
		}
		if r.p(4) {
			f := anyFault(r, r.pick("in", "out", "out"))
			f.Nth = r.in(1, 16)
			run.Faults = append(run.Faults, f)
		}
		cli.Runs = []Run{run}
	case "C02":
		run := newRun(r.p(55))
		if r.p(8) {
			run.OutDir = r.pick("/w/missing", "/w/missing/deeper", "/w/out/new")
		}
		if r.p(12) {
			for i := range cli.Files {
				if cli.Files[i].Path == outAbs && cli.Files[i].Dir {
					cli.Files[i].Mode = uint32(r.pickInt(0o700, 0o775, 0o555, 0o711))
				}
			}
		}
		switch r.n(4) {
		case 0:
			run.Faults = append(run.Faults, crash(25))
		case 1, 2:
			f := iofault()
			if f.Class == "out" && r.p(70) {
				f = &kern.Fault{Call: r.pick("open", "read", "read", "close"), Class: "in", Nth: r.in(1, 8), Kind: "EIO", Perm: r.p(50)}
			}
			run.Faults = append(run.Faults, f)
		}
		run.Faults = append(run.Faults, benign()...)
		cli.Runs = []Run{run}
	case "C03":
		for i, n := 0, r.in(1, 3); i < n; i++ {
			run := newRun(r.p(8))
			switch r.n(6) {
			case 0:
				run.Faults = []*kern.Fault{iofault()}
			case 1:
				run.Cap = diskcap()
			default:
				run.Faults = []*kern.Fault{crash(60)}
			}
			if r.p(35) {
				run.Power = r.u64() | 1
			}
			cli.Runs = append(cli.Runs, run)
		}
		last := newRun(false)
		if r.p(60) {
			last.Inputs = cli.Runs[r.n(len(cli.Runs))].Inputs
		}
		cli.Runs = append(cli.Runs, last)
	case "C04":
		for i, n := 0, r.in(1, 2); i < n; i++ {
			run := newRun(r.p(20))
			switch r.n(6) {
			case 0:
				run.Faults = []*kern.Fault{iofault()}
			case 1:
				run.Cap = diskcap()
			case 2, 3:
				run.Faults = []*kern.Fault{crash(60)}
				if r.p(25) {
					run.Power = r.u64() | 1
				}
			}
			run.Faults = append(run.Faults, benign()...)
			run.Probe = r.p(30)
			cli.Runs = append(cli.Runs, run)
		}
	case "C05":
		run := newRun(r.p(5))
		switch r.n(6) {
		case 0:
			run.Faults = []*kern.Fault{iofault()}
		case 1:
			run.Cap = diskcap()
		case 2, 3, 4:
			run.Faults = []*kern.Fault{crash(80)}
		}
		run.Faults = append(run.Faults, benign()...)
		cli.Runs = []Run{run}
	case "C06":
		run := newRun(r.p(15))
		if r.p(30) {
			run.Faults = []*kern.Fault{iofault()}
		}
		if r.p(15) {
			run.Cap = diskcap()
		}
		if run.Cap >= 0 || len(run.Faults) > 0 {
			// Which operation meets a fault may depend on the schedule.
			c.Sched = Sched{Mode: simrt.ModeSerial}
		}
		with := run
		with.Faults = append(stderrFaults(), cloneFaults(run.Faults)...)
		cli.Runs = []Run{run, with}
	case "C07":
		a := newRun(r.p(10))
		a.Faults = benign()
		b := a
		b.Faults = benign()
		if r.p(55) { // different directories
			dir := r.pick("/w/out2", "/w/out2", outAbs+"/sub2")
			cli.Files = append(cli.Files, File{Path: dir, Dir: true})
			cli.Files = append(cli.Files, genStale(r, g, dir, scripts)...)
			b.OutDir, b.Form = dir, r.n(5)
			if r.p(60) {
				b.Inputs = newInputs(r.p(15))
			}
			if r.p(15) {
				b.Faults = append([]*kern.Fault{crash(60)}, b.Faults...)
			} else if r.p(15) {
				b.Faults = append([]*kern.Fault{iofault()}, b.Faults...)
			}
		}
		cli.Runs = []Run{a, b}
		if r.p(20) { // a third one
			d := a
			d.Faults = benign()
			if b.OutDir != a.OutDir {
				switch r.n(4) {
				case 0: // like the second
					d = b
					d.Faults = benign()
				case 1:
					dir := r.pick("/w/out3", outAbs+"/sub3")
					cli.Files = append(cli.Files, File{Path: dir, Dir: true})
					cli.Files = append(cli.Files, genStale(r, g, dir, scripts)...)
					d.OutDir, d.Form = dir, r.n(5)
				}
			}
			if r.p(10) {
				d.Faults = append([]*kern.Fault{crash(60)}, d.Faults...)
			}
			cli.Runs = append(cli.Runs, d)
		}
		c.Sched = genSched(r)
		if c.Sched.Mode == simrt.ModeUniform && r.p(50) {
			c.Sched.Mean = r.pickInt(300, 3000, 10000)
		}
	case "C08":
		run := newRun(r.p(10))
		for i, n := 0, r.in(1, 3); i < n && len(run.Inputs) > 0; i++ {
			sw := Swap{At: r.in(1, 6), Path: run.Inputs[r.n(len(run.Inputs))], T: len(c.Texts)}
			switch r.n(5) {
			case 0:
				sw.At = r.in(1, 60)
			case 1, 2:
				sw.At = r.in(1, 6*len(run.Inputs))
			}
			old := sw.Path
			if !strings.HasPrefix(old, "/") {
				old = "/w/" + old
			}
			var t Text
			for _, f := range cli.Files {
				if f.Path == old && f.T >= 0 && f.T < len(c.Texts) {
					t = c.Texts[f.T]
				}
			}
			switch r.n(8) {
			case 0:
				sw.T = -1 // removed
			case 1:
				t = Text{{S: g.malform(t.String() + "(Neg8 x) => x\n")}}
			case 2, 3:
				t = g.sibling(t)
			case 4:
				t = append(append(Text(nil), t...), Piece{S: g.translatable() + "\n", N: r.in(1, 60)})
			case 5: // shorter
				t = append(Text(nil), t[:len(t)/2]...)
				if len(t) > 0 {
					t = append(t, Piece{S: "\n"})
				}
			default:
				t = g.join(g.toolRules(r.in(0, 5)))
			}
			if sw.T >= 0 {
				c.Texts = append(c.Texts, t)
			}
			run.Swap = append(run.Swap, sw)
		}
		run.Faults = benign()
		cli.Runs = []Run{run}
	case "L08":
		run := newRun(false)
		run.Inputs, run.Faults, run.FDs = nil, benign(), 64
		links, again := r.p(25), r.p(10)
		for i, n := 0, r.pickInt(1, 70, 150); i < n; i++ {
			name := fmt.Sprintf("/w/in/many%d", i)
			if i == 0 {
				n := r.pickInt(1, 1, 70, 130)
				if again {
					n = r.in(1, 3)
				}
				c.Texts = append(c.Texts, Text{{S: g.translatable() + "\n", N: n}})
			} else if i < 4 {
				c.Texts = append(c.Texts, g.join(g.toolRules(r.in(0, 2))))
			}
			if i > 0 && again {
				name = "/w/in/many0"
			} else {
				cli.Files = append(cli.Files, File{Path: name, T: len(c.Texts) - 1})
				if links {
					cli.Files = append(cli.Files, File{Path: name + ".l", Link: r.pick(name, path.Base(name))})
					name += ".l"
				}
			}
			run.Inputs = append(run.Inputs, name)
		}
		if r.p(20) {
			for i := 0; i < 140; i++ {
				run.Stale = append(run.Stale, Stale{I: i, How: resemblances[r.n(len(resemblances))], Age: age()})
			}
		}
		cli.Runs = []Run{run}
	case "L07":
		run := newRun(r.p(10))
		f := iofault()
		f.Perm = true
		if r.p(25) {
			f = &kern.Fault{Call: "write", Class: "stderr", Nth: r.in(1, 8), Kind: r.pick("EIO", "ENOSPC"), Perm: true}
		}
		run.Faults = append(append(run.Faults, f), benign()...)
		if r.p(25) {
			run.Cap = diskcap()
			if r.p(60) {
				run.Faults = nil
			}
		}
		cli.Runs = []Run{run}
	}
}

// ---- execution

func execCLI(c *Case) *Result {
	res := newResult()
	m := kern.NewMachine()
	_, m.Now = env(c.Rand)
	put(c, m, c.CLI.Files)
	switch c.Prop {
	case "C08":
		return execC08(c, res, m)
	case "C03":
		return execC03(c, res, m)
	case "C06":
		return execC06(c, res, m)
	case "C07":
		return execC07(c, res, m)
	}
	for i := range c.CLI.Runs {
		r := &c.CLI.Runs[i]
		e := prepare(c, m, r)
		if r.Probe {
			squat(c, res, m, r, e)
		}
		ck := &checker{c: c, res: res, m: m, r: r, e: e}
		ck.before()
		var max int64 = maxSteps
		if c.Prop == "L07" {
			max = 300_000 + 40*healthySteps(c, m, r, e)
		}
		pr, o := execute(c, res, m, r, e, max, ck.hook)
		ck.pr = pr
		if res.Viol == nil {
			res.Viol = stuck(o, "the command")
		}
		if res.Viol == nil && c.Prop == "L07" {
			res.Viol = overslept(runtime.SimEpoch, "the command")
		}
		if res.Viol == nil && !pr.p.Crashed && !pr.p.Exited {
			res.Trouble = "run neither ended nor was killed"
		}
		if res.Viol == nil {
			ck.after()
		}
		res.probe("success", pr.p.Exited && pr.p.Code == 0)
		res.probe("failure", pr.p.Exited && pr.p.Code != 0)
		res.probe("killed", pr.p.Crashed)
		res.probe("unacceptable-input", !e.accept)
		res.probe("untranslatable-rule", e.untrans > 0)
		res.probe("scripts", len(e.order) > 0)
		if res.Viol != nil {
			return res
		}
		if r.Power != 0 {
			res.Faults["power-loss"]++
			pw := newR(r.Power, "power")
			unsim(func() { m.PowerLoss(pw.n) })
		}
	}
	return res
}

func healthySteps(c *Case, m *kern.Machine, r *Run, e *expect) int64 {
	h := *r
	h.Faults, h.Cap = nil, -1
	tmp := newResult()
	mm := m.Clone()
	cc := *c
	cc.Sched = Sched{Mode: simrt.ModeSerial}
	_, o := execute(&cc, tmp, mm, &h, e, maxSteps, nil)
	return o.Steps
}

// checker holds the invariants of one run.
type checker struct {
	c    *Case
	res  *Result
	m    *kern.Machine
	r    *Run
	e    *expect
	pr   *proc
	prev map[string][]byte
	line int // bytes of diagnostics already examined
	// announced scripts; late: named in a line while incomplete.
	announced map[string]bool
	late      map[string]string
	muts      int
}

func (k *checker) before() {
	k.prev = k.m.Files()
	k.announced, k.late = map[string]bool{}, map[string]string{}
}

func (k *checker) fail(class, format string, args ...interface{}) {
	if k.res.Viol == nil {
		k.res.Viol = viol(class, format, args...)
	}
}

func (k *checker) allRead(p *kern.Proc) string {
	for _, in := range k.e.inputs {
		cv := p.Read[in]
		if cv == nil || cv.Opened == 0 {
			return in + " has not been opened"
		}
		if !cv.Full {
			return fmt.Sprintf("%s has been read up to byte %d of %d", in, cv.Done, cv.Size)
		}
	}
	return ""
}

// hook runs after every system call.
func (k *checker) hook(p *kern.Proc, ev *kern.Event) {
	if ev.Mut {
		k.muts++
	}
	switch k.c.Prop {
	case "C02":
		if ev.Mut {
			if !k.e.accept {
				k.fail("early-change", "%s of %s changed the file system in a run that must not (%s)", ev.Call, ev.Path, k.e.why)
			} else if s := k.allRead(p); s != "" {
				k.fail("early-change", "%s of %s changed the file system although %s", ev.Call, ev.Path, s)
			}
		}
	case "C04":
		if ev.Mut {
			k.untouched(fmt.Sprintf("after %s of %s", ev.Call, ev.Path))
		}
	case "C05":
		if ev.Call == "write" && ev.Class == "stderr" {
			k.examine(p)
		}
		if ev.Mut {
			for s := range k.announced {
				n := k.m.Lookup(s)
				if n == nil || !bytes.Equal(n.Data, k.e.scripts[s]) {
					k.fail("announced-lost", "%s was announced as written but no longer is after %s of %s", s, ev.Call, ev.Path)
				}
			}
		}
	}
}

// untouched checks that files which are not this run's scripts are as before.
func (k *checker) untouched(when string) {
	var names []string
	for p := range k.prev {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range names {
		if _, mine := k.e.scripts[p]; mine {
			continue
		}
		n := k.m.Entry(p)
		dir := strings.HasSuffix(p, "/")
		if n == nil || n.Dir != dir {
			k.fail("foreign-removed", "%s: %s is gone", when, p)
		} else if !dir && !bytes.Equal(n.Data, k.prev[p]) {
			k.fail("foreign-changed", "%s: %s holds %q instead of %q", when, p, clip(string(n.Data), 300), clip(string(k.prev[p]), 300))
		}
	}
}

// examine looks at the complete lines of the diagnostics.
func (k *checker) examine(p *kern.Proc) {
	for {
		rest := p.Stderr[k.line:]
		i := bytes.IndexByte(rest, '\n')
		if i < 0 {
			return
		}
		line := string(rest[:i])
		k.line += i + 1
		// A later line: what the previous ones said while incomplete was an
		// announcement, not the final message of a failing run.
		if len(k.late) > 0 {
			for s, l := range k.late {
				k.fail("announced-early", "%q names %s, which was not complete then, and the run went on", l, s)
			}
			return
		}
		for _, tok := range numbered.FindAllString(line, -1) {
			abs := p.Abs(tok)
			if path.Dir(abs) != k.e.out {
				continue
			}
			if progress.MatchString(line) {
				continue
			}
			want, mine := k.e.scripts[abs]
			n := k.m.Lookup(abs)
			if mine && n != nil && bytes.Equal(n.Data, want) {
				k.announced[abs] = true
				k.res.probe("announced", true)
				continue
			}
			k.late[abs] = line
		}
	}
}

func (k *checker) after() {
	p, e := k.pr.p, k.e
	switch k.c.Prop {
	case "C01":
		k.truth()
	case "C02":
		if !p.Crashed && p.Code != 0 {
			for _, f := range hardFaults(p) {
				if f.Class == "in" && k.muts > 0 {
					k.fail("early-change", "loading failed (%s %s), the run failed, but it changed the file system", f.Call, f.Kind)
				}
			}
		}
		k.res.probe("loading-failed", k.muts == 0 && (p.Crashed || p.Code != 0))
	case "C04":
		k.untouched("at the end")
		if !p.Crashed && !p.Signalled {
			now := k.m.Files()
			for _, f := range kern.SortedKeys(now) {
				if _, ok := k.prev[f]; ok {
					continue
				}
				if _, ok := e.scripts[f]; !ok {
					k.fail("left-behind", "the run (%s) left %s, which is not one of its scripts", k.pr.status(), f)
				}
			}
		}
	case "C05":
		k.examine(p)
		if len(k.late) > 0 && (p.Crashed || p.Code == 0) {
			for s, l := range k.late {
				k.fail("announced-early", "%q names %s, which was not complete then; the run ended in %s", l, s, k.pr.status())
			}
		}
		if len(k.late) > 0 && !p.Signalled && len(hardFaults(p)) == 0 && p.Counts["write:disk-full"] == 0 && e.accept && e.blocked == "" {
			for s, l := range k.late {
				k.fail("announced-early", "%q names %s, which was not complete then, though nothing had failed", l, s)
			}
		}
	}
}

// truth is C01.
func (k *checker) truth() {
	p, e := k.pr.p, k.e
	hard := hardFaults(p)
	full := p.Counts["write:disk-full"] > 0
	if p.Crashed {
		return
	}
	if p.Code == 0 {
		if !e.accept {
			k.fail("false-success", "success is reported in spite of %s", e.why)
			return
		}
		if s := k.allRead(p); s != "" {
			k.fail("false-success", "success is reported although %s", s)
			return
		}
		if s := incomplete(k.m, e); s != "" {
			k.fail("false-success", "success is reported although %s (diagnostics: %s)", s, tail(p.Stderr))
			return
		}
		for _, s := range e.order {
			if b := e.scripts[s]; !whole(string(b)) {
				k.fail("false-success", "success is reported although %s is not a complete script: %q", s, clip(string(b), 600))
				return
			}
		}
		for _, f := range hard {
			if f.Call != "any" && k.concerned(f) && (f.Call == "rename" || !k.recovered(f)) {
				k.fail("false-success", "success is reported although %s of an %sput failed (%s)", f.Call, f.Class, f.Kind)
				return
			}
		}
		return
	}
	if p.Signalled {
		return
	}
	if e.accept && e.blocked == "" && len(hard) == 0 && !full {
		k.fail("false-failure", "%s although nothing failed (diagnostics: %s)", k.pr.status(), tail(p.Stderr))
		return
	}
	if k.pr.panic != "" {
		k.fail("no-message", "the run does not report a failure but crashes: %s", clip(k.pr.panic, 300))
		return
	}
	// A message.
	msg := string(p.Stderr)
	if strings.TrimSpace(msg) == "" {
		k.fail("no-message", "%s without any message", k.pr.status())
		return
	}
	if e.accept && len(hard)+btoi(full) > 0 && e.blocked == "" {
		ok := full && strings.Contains(msg, syscall.ENOSPC.Error())
		for _, f := range hard {
			en := kern.Errno(f.Kind)
			if f.Kind == "lossy" {
				en = syscall.EIO
			}
			ok = ok || strings.Contains(msg, en.Error())
		}
		lines := strings.Split(strings.TrimSpace(msg), "\n")
		last := lines[len(lines)-1]
		for _, in := range k.r.Inputs {
			ok = ok || strings.Contains(last, in)
		}
		ok = ok || numbered.MatchString(last)
		if !ok {
			k.fail("no-message", "%s, but the diagnostics name neither the cause nor the file: %s", k.pr.status(), tail(p.Stderr))
		}
	}
}

// whole: the script states a logic and what it claims, and asks for the answer.
func whole(s string) bool {
	for _, part := range []string{"(set-logic ", "(assert (not (= ", "(check-sat)", "(exit)"} {
		i := strings.Index(s, part)
		if i < 0 {
			return false
		}
		s = s[i+len(part):]
	}
	return strings.TrimSpace(s) == ""
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// concerned: the fault hit an input or something the run writes, rather than a
// directory that is listed or a file of others that is looked at.
func (k *checker) concerned(f *kern.Fault) bool {
	if f.Class != "out" {
		return true
	}
	for _, abs := range f.Paths {
		if _, ok := k.e.scripts[abs]; ok {
			return true
		}
		n := k.m.Lookup(abs)
		if _, ok := k.prev[abs]; !ok && !(n != nil && n.Dir) {
			return true
		}
	}
	return false
}

// recovered: the operation that failed once was repeated with success. A run
// that succeeded has read all inputs and completed all scripts (checked
// before), so only a fault after which that could no longer happen counts:
// one that persisted, or a failing close.
func (k *checker) recovered(f *kern.Fault) bool {
	if f.Call == "close" {
		return false
	}
	return !f.Perm
}

func execC03(c *Case, res *Result, m *kern.Machine) *Result {
	disturbed := 0
	// What would be in the final run's way had there been no other runs.
	alone := m.Clone()
	for i := range c.CLI.Runs {
		r := &c.CLI.Runs[i]
		ea := prepare(c, alone, r)
		e := prepare(c, m, r)
		last := i == len(c.CLI.Runs)-1
		if last && (!e.accept || ea.blocked != "") {
			res.probe("final-run-not-possible", true)
			return res
		}
		pr, o := execute(c, res, m, r, e, maxSteps, nil)
		if res.Viol = stuck(o, "the command"); res.Viol != nil {
			return res
		}
		if !last {
			if pr.p.Crashed || pr.p.Code != 0 {
				disturbed++
			}
			res.probe("killed", pr.p.Crashed)
			res.probe("left-incomplete", incomplete(m, e) != "")
			if r.Power != 0 {
				res.Faults["power-loss"]++
				pw := newR(r.Power, "power")
				unsim(func() { m.PowerLoss(pw.n) })
			} else {
				m.Settle()
			}
			continue
		}
		if pr.p.Crashed || pr.p.Code != 0 {
			res.Viol = viol("not-repaired", "after %d disturbed runs an undisturbed one ends in %s: %s", disturbed, pr.status(), tail(pr.p.Stderr))
			return res
		}
		if s := incomplete(m, e); s != "" {
			res.Viol = viol("not-repaired", "after %d disturbed runs an undisturbed one succeeds, but %s", disturbed, s)
			return res
		}
	}
	return res
}

func execC06(c *Case, res *Result, m *kern.Machine) *Result {
	a := &c.CLI.Runs[0]
	with := *a // the same, but for what happens to the diagnostics
	with.Faults = nil
	for _, f := range c.CLI.Runs[1].Faults {
		if f.Class == "stderr" {
			with.Faults = append(with.Faults, f)
		}
	}
	with.Faults = append(with.Faults, a.Faults...)
	b := &with
	ea := prepare(c, m, a)
	m2 := m.Clone()
	pa, o := execute(c, res, m, a, ea, maxSteps, nil)
	if res.Viol = stuck(o, "the command"); res.Viol != nil {
		return res
	}
	eb := expectation(m2, b)
	pb, o := execute(c, res, m2, b, eb, maxSteps, nil)
	if res.Viol = stuck(o, "the command, losing diagnostics,"); res.Viol != nil {
		return res
	}
	lost := 0
	for k, n := range pb.p.Counts {
		if strings.HasPrefix(k, "write:") {
			lost += n
		}
	}
	res.probe("diagnostics-disturbed", len(pb.p.Stderr) < len(pa.p.Stderr))
	if pa.p.Crashed || pb.p.Crashed {
		res.Trouble = "killed without a kill"
		return res
	}
	if pa.p.Code != pb.p.Code {
		res.Viol = viol("status", "exit status %d with all messages written, %d when writing them fails (diagnostics written: %s)", pa.p.Code, pb.p.Code, tail(pb.p.Stderr))
		return res
	}
	fa, fb := m.Files(), m2.Files()
	for _, n := range kern.SortedKeys(fa) {
		g, ok := fb[n]
		if !ok || !bytes.Equal(fa[n], g) {
			res.Viol = viol("files", "%s holds %q when all messages are written, but %q (present: %v) when writing them fails", n, clip(string(fa[n]), 400), clip(string(g), 400), ok)
			return res
		}
	}
	for _, n := range kern.SortedKeys(fb) {
		if _, ok := fa[n]; !ok {
			res.Viol = viol("files", "%s exists only when writing the messages fails", n)
			return res
		}
	}
	return res
}

// clean: nothing happens to the run that a program need not survive.
func clean(r *Run) bool {
	for _, f := range r.Faults {
		if f.Kind != "EINTR" && f.Kind != "short" && f.Kind != "slow" {
			return false
		}
	}
	return true
}

func execC07(c *Case, res *Result, m *kern.Machine) *Result {
	rs := c.CLI.Runs
	// Each alone, on its own copy.
	type lone struct {
		code  int
		files map[string][]byte
		e     *expect
	}
	var lones []lone
	for i := range rs {
		prepare(c, m, &rs[i])
	}
	for i := range rs {
		mm := m.Clone()
		r := rs[i]
		e := expectation(mm, &r)
		l := lone{e: e}
		if clean(&r) {
			cfg := *c
			cfg.Sched = Sched{Mode: simrt.ModeSerial}
			pr, o := execute(&cfg, res, mm, &r, e, maxSteps, nil)
			if res.Viol = stuck(o, "the command"); res.Viol != nil {
				return res
			}
			l.code, l.files = pr.p.Code, mm.Files()
		}
		lones = append(lones, l)
	}
	m.Cap = -1
	var prs []*proc
	var fs []func()
	for i := range rs {
		prs = append(prs, boot(m, i+1, &rs[i], lones[i].e, c.Rand))
		fs = append(fs, prs[i].main)
	}
	o := runTasks(c, res, c.Sched.config(), fs...)
	res.mix(m.Hash)
	for _, pr := range prs {
		restoreStd(pr.p)
		res.faults(pr.p)
		res.mixs(string(pr.p.Stderr))
	}
	if res.Viol = stuck(o, "a set of simultaneous runs"); res.Viol != nil {
		return res
	}
	same := lones[0].e.out == lones[1].e.out
	// A run that is disturbed may leave its own directory in any state.
	spoilt := func(i int) bool {
		for k := range rs {
			if k != i && !clean(&rs[k]) && lones[k].e.out == lones[i].e.out {
				return true
			}
		}
		return false
	}
	now := m.Files()
	for i, pr := range prs {
		// A run that is killed or meets a failing disk is judged by the
		// other properties; here it must only not disturb the other one.
		if !clean(&rs[i]) {
			continue
		}
		if pr.p.Code != lones[i].code || pr.p.Crashed {
			res.Viol = viol("status", "run %d alone: exit status %d; with the other run: %s, diagnostics %s", i+1, lones[i].code, pr.status(), tail(pr.p.Stderr))
			return res
		}
		if spoilt(i) {
			continue
		}
		dir := strings.TrimSuffix(lones[i].e.out, "/") + "/"
		mine := func(n string) bool {
			for k := range rs {
				if other := strings.TrimSuffix(lones[k].e.out, "/") + "/"; strings.HasPrefix(n, other) && len(other) > len(dir) {
					return false
				}
			}
			return strings.HasPrefix(n, dir)
		}
		for _, n := range kern.SortedKeys(lones[i].files) {
			if !mine(n) {
				continue
			}
			g, ok := now[n]
			if !ok || !bytes.Equal(g, lones[i].files[n]) {
				res.Viol = viol("files", "%s: a lone run %d leaves %q; with the other run it is %q (present: %v)", n, i+1, clip(string(lones[i].files[n]), 400), clip(string(g), 400), ok)
				return res
			}
		}
		for _, n := range kern.SortedKeys(now) {
			if mine(n) {
				if _, ok := lones[i].files[n]; !ok {
					res.Viol = viol("files", "%s: not left by a lone run %d", n, i+1)
					return res
				}
			}
		}
	}
	res.probe("interleaved", o.Switches > 2)
	res.probe("three-runs", len(rs) > 2)
	res.probe("same-directory", same)
	return res
}

// squat gives someone else's files the names this run would use for its
// temporary ones.
func squat(c *Case, res *Result, m *kern.Machine, r *Run, e *expect) {
	h := *r
	h.Faults, h.Cap = nil, -1
	mm := m.Clone()
	cc := *c
	cc.Sched = Sched{Mode: simrt.ModeSerial}
	was := mm.Files()
	made := map[string][]byte{}
	execute(&cc, newResult(), mm, &h, e, maxSteps, func(p *kern.Proc, ev *kern.Event) {
		if !ev.Mut {
			return
		}
		for f := range mm.Files() {
			if _, ok := was[f]; !ok && !strings.HasSuffix(f, "/") {
				if _, mine := e.scripts[f]; !mine {
					made[f] = nil
				}
			}
		}
	})
	for _, f := range kern.SortedKeys(made) {
		if n := m.Lookup(f); n == nil && m.Lookup(path.Dir(f)) != nil {
			m.Put(f, []byte("someone else's\n"), 0o644)
			res.probe("temporary-name-taken", true)
		}
	}
}

// execC08: inputs are replaced while the run goes on. Whatever it does must be
// what it does when each listed input is one of its versions.
func execC08(c *Case, res *Result, m *kern.Machine) *Result {
	r := &c.CLI.Runs[0]
	e := prepare(c, m, r)
	p := m.NewProc(0, 0, r.Cwd)
	// The versions of each input listed.
	versions := make([][]*string, len(r.Inputs))
	combos := 1
	for i, in := range r.Inputs {
		abs := m.Real(p.Abs(in), true)
		var vs []*string
		if n := m.Lookup(abs); n != nil && !n.Dir && n.Mode&0o400 != 0 {
			s := string(n.Data)
			vs = append(vs, &s)
		} else {
			vs = append(vs, nil)
		}
		for _, sw := range r.Swap {
			if m.Real(p.Abs(sw.Path), true) != abs || sw.Path == "" || !m.Room(abs, false) {
				continue
			}
			if sw.T < 0 || sw.T >= len(c.Texts) {
				vs = append(vs, nil)
			} else {
				s := c.Texts[sw.T].String()
				vs = append(vs, &s)
			}
		}
		versions[i] = vs
		combos *= len(vs)
	}
	if combos > 64 {
		res.probe("too-many-versions", true)
		return res
	}
	var exps []*expect
	for k := 0; k < combos; k++ {
		given := map[int]*string{}
		x := k
		for i, vs := range versions {
			given[i] = vs[x%len(vs)]
			x /= len(vs)
		}
		exps = append(exps, expectWith(m, r, given))
	}
	before := m.Files()
	calls, done := 0, 0
	pr, o := execute(c, res, m, r, e, maxSteps, func(p *kern.Proc, ev *kern.Event) {
		calls++
		for _, sw := range r.Swap {
			if sw.At != calls {
				continue
			}
			abs := m.Real(p.Abs(sw.Path), true)
			if sw.Path == "" || !m.Room(abs, false) {
				continue
			}
			if sw.T < 0 || sw.T >= len(c.Texts) {
				m.Remove(abs)
			} else {
				m.Put(abs, []byte(c.Texts[sw.T].String()), 0o644)
			}
			if p.OpenPath(abs) {
				res.probe("replaced-while-open", true)
			}
			done++
			res.Faults["input:replaced"]++
		}
	})
	if res.Viol = stuck(o, "the command"); res.Viol != nil {
		return res
	}
	if pr.p.Crashed || !pr.p.Exited {
		res.Trouble = "run neither ended nor was killed"
		return res
	}
	res.probe("replaced", done > 0)
	if pr.p.Code != 0 {
		for _, e := range exps {
			if !e.accept || e.blocked != "" {
				return res
			}
		}
		res.Viol = viol("false-failure", "%s, though every version of every input is acceptable (diagnostics: %s)", pr.status(), tail(pr.p.Stderr))
		return res
	}
	now := m.Files()
	why := ""
	for k, e := range exps {
		if !e.accept {
			why += fmt.Sprintf("\nversions %d: %s", k, e.why)
			continue
		}
		s := incomplete(m, e)
		for _, f := range kern.SortedKeys(now) {
			if _, mine := e.scripts[f]; s != "" || mine || path.Dir(f) != e.out {
				continue
			}
			if was, ok := before[f]; (!ok || !bytes.Equal(was, now[f])) && !pathIn(r, p, f) {
				s = f + " is not a script of these versions"
			}
		}
		if s == "" {
			return res
		}
		why += fmt.Sprintf("\nversions %d: %s", k, clip(s, 500))
	}
	res.Viol = viol("mixture", "inputs were replaced during the run; it succeeds, but what it leaves corresponds to no choice of versions:%s", why)
	return res
}

func pathIn(r *Run, p *kern.Proc, f string) bool {
	for _, in := range r.Inputs {
		if p.M.Real(p.Abs(in), true) == f {
			return true
		}
	}
	return false
}
