package main

import (
	"bytes"
	"fmt"
	goast "go/ast"
	"os"
	"path"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"

	"verif.local/sim/kern"
	"verif.local/sim/simrt"
)

const maxSteps = 60_000_000

// runTasks runs one function per task under the case's schedule.
func runTasks(c *Case, res *Result, cfg simrt.Config, fs ...func()) simrt.Outcome {
	groups := make([]int32, len(fs))
	for i := range fs {
		groups[i] = int32(i + 1)
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = c.allowance()
	}
	if i := len(res.Scheds); cfg.Mode == simrt.ModeReplay && i < len(c.Sched.Segs) {
		cfg.Replay = c.Sched.Segs[i]
	}
	o := simrt.Run(cfg, fs, groups)
	res.ran(o)
	return o
}

// allowance is more steps than anything in the case can need that ends.
func (c *Case) allowance() int64 {
	uses, size, churns := 1, 0, 0
	for _, t := range c.Texts {
		for _, p := range t {
			size += len(p.S) * max(p.N, 1)
		}
	}
	for _, ops := range c.Tasks {
		uses += len(ops)
		for _, op := range ops {
			if op.K == "churn" { // some thousand calls
				churns++
			}
		}
	}
	if c.CLI != nil {
		for _, r := range c.CLI.Runs {
			uses += len(r.Inputs)
		}
	}
	return maxSteps*int64(1+4*churns) + int64(uses)*int64(size)*2000
}

// overslept: to wait for years is not to end, either.
func overslept(since int64, what string) *Viol {
	if d := time.Duration(runtime.SimClock() - since); d > 400*24*time.Hour {
		return viol("hang", "%s took %v of simulated time", what, d)
	}
	return nil
}

func stuck(o simrt.Outcome, what string) *Viol {
	if o.Hung {
		return viol("hang", "%s did not end within %d scheduling points", what, o.Steps)
	}
	if o.Deadlock {
		return viol("deadlock", "%s is blocked for ever", what)
	}
	return nil
}

// machines for tasks 1..n: one each, so that callers share nothing but what
// the library shares.
func taskProcs(n int) []*kern.Proc {
	var ps []*kern.Proc
	for i := 0; i < n; i++ {
		p := machine(i+1, int32(i+1))
		kern.Table[i+1] = p
		ps = append(ps, p)
	}
	return ps
}

func (r *Result) out(o Out) {
	r.mixs(o.Kind)
	r.mixs(o.Err)
	r.mix(o.Val)
}

// ---- generation helpers

func newGen(r *R) *gen { return &gen{r: r} }

// libText is a text for library properties; rules lists the pieces that are
// rules if the text is certainly valid.
func libText(r *R, g *gen, max int) Text {
	t := g.join(g.libRules(r.in(0, max)))
	if r.p(25) {
		return Text{{S: g.malform(t.String())}}
	}
	if r.p(12) {
		return g.odd(t)
	}
	return t
}

func genDelivery(r *R, size int) *Delivery {
	d := &Delivery{FailAt: -1, Join: r.p(50), Scratch: r.p(40)}
	switch r.n(6) {
	case 0:
		d.Chunks = []int{1}
	case 1: // whatever the buffer holds
	default:
		for i, n := 0, r.in(1, 6); i < n; i++ {
			k := r.pickInt(1, 2, 3, 7, 16, 64, 511, 512, 513, 4096)
			if r.p(25) {
				k = 0
			}
			d.Chunks = append(d.Chunks, k)
		}
		d.Chunks = append(d.Chunks, r.in(1, 1+size))
		if r.p(15) {
			z := make([]int, r.in(2, 30))
			if r.p(8) {
				z = make([]int, r.in(31, 90)) // more than 100 in a row is no progress
			}
			d.Chunks = append(d.Chunks, z...)
		}
	}
	return d
}

// anyFault fails calls of whatever kind.
func anyFault(r *R, class string) *kern.Fault {
	return &kern.Fault{Call: "any", Class: class, Nth: r.in(1, 9), Kind: r.pick("EIO", "EIO", "ENOMEM", "EPERM", "EROFS", "EINVAL"), Perm: r.p(40)}
}

func benignFileFaults(r *R) []*kern.Fault {
	var fs []*kern.Fault
	for i, n := 0, r.in(1, 4); i < n; i++ {
		switch r.n(4) {
		case 0:
			fs = append(fs, &kern.Fault{Call: r.pick("open", "read", "read"), Class: "in", Nth: r.in(1, 4), Kind: "EINTR", Arg: r.in(1, 4)})
		case 1:
			fs = append(fs, &kern.Fault{Call: "read", Class: "in", Nth: 1, Kind: "short", Arg: r.pickInt(1, 1, 3, 17, 512), Perm: true})
		default:
			fs = append(fs, &kern.Fault{Call: "read", Class: "in", Nth: r.in(1, 5), Kind: "short", Arg: r.pickInt(1, 2, 5, 33, 500, 511, 512)})
		}
	}
	return fs
}

// ---- L01

func genL01(c *Case, r *R) {
	g := newGen(r)
	kind := r.n(20)
	switch {
	case kind < 9: // valid, checked against its rules one by one
		c.Kind = "valid"
		n := r.in(0, 8)
		var t Text
		for i := 0; i < n; i++ {
			if r.p(30) {
				t = append(t, Piece{S: g.between()})
			}
			c.Rules = append(c.Rules, len(t))
			t = append(t, Piece{S: g.rule()}, Piece{S: "\n"})
			if r.p(10) { // push later text past a buffer boundary
				t = append(t, Piece{S: r.pick("\n", " ", "// padding padding\n", "\r\n", "\t\n"), N: r.pickInt(100, 400, 505, 512, 1000, 4090)})
			}
		}
		if n > 0 && r.p(25) {
			t = t[:c.Rules[n-1]+1] // no newline at the end
			if r.p(40) {
				t = append(t, Piece{S: r.pick(" ", "\r", "\n\n", "\r\n", "\t")})
			}
		}
		c.Texts = []Text{t}
	case kind == 9 && r.p(20): // large
		c.Kind = "valid"
		var t Text
		huge := r.p(6)
		for i, n := 0, r.in(2, 3); i < n; i++ {
			c.Rules = append(c.Rules, len(t))
			t = append(t, Piece{S: g.rule()}, Piece{S: "\n"})
			long := Piece{S: r.pick("\n", "\n", " ", "\r\n"), N: r.pickInt(4096, 20000, 33000, 66000, 66000, 70000)}
			if r.p(40) { // one long line, mostly a comment
				t = append(t, Piece{S: "//"})
				long.S = r.pick("c", "=", "\xc3\xa9", "(x) ")
			}
			if huge && i == 0 {
				long.N = r.pickInt(270_000, 530_000, 1_050_000, 1_050_000, 1_050_000, 2_100_000, 4_200_000) / len(long.S)
			}
			t = append(t, long, Piece{S: "\n"})
		}
		c.Rules = append(c.Rules, len(t))
		t = append(t, Piece{S: "(Neg8 x) => y"}, Piece{S: "\n"})
		if r.p(40) {
			c.Kind = "badtail"
			t = append(t, Piece{S: r.pick(")", "\x00", "=> x\n", "(Add8 x\n")})
		}
		c.Texts = []Text{t}
	default:
		c.Kind = "any"
		c.Texts = []Text{libText(r, g, 6)}
	}
	size := len(c.Texts[0].String())
	ops := []Op{{K: "string"}}
	for i, n := 0, r.in(1, 3); i < n; i++ {
		op := Op{K: "reader", D: genDelivery(r, size)}
		present(r, &op, false)
		ops = append(ops, op)
	}
	for i, n := 0, r.in(0, 2); i < n; i++ {
		ops = append(ops, fileOp(r, benignFileFaults(r)))
	}
	if r.p(20) {
		ops = append(ops, fileOp(r, nil))
	}
	if size > 2<<20 { // takes long
		ops = ops[1:2]
	}
	c.Tasks = [][]Op{ops}
	c.Sched = genLone(r)
}

func execL01(c *Case) *Result {
	res := newResult()
	text := c.Texts[0].String()
	var ref Out
	var want []*ast.Rule
	perRule := ""
	pristine(refRand, func() {
		w := newWorld(c, nil)
		ref = w.do(&Op{K: "string"})
		if c.Kind == "valid" || c.Kind == "badtail" {
			for _, i := range c.Rules {
				f, err := parse.String(c.Texts[0][i].S)
				if err != nil || len(f.Rules) != 1 {
					perRule = "no" // not a rule of the language after all
					return
				}
				want = append(want, f.Rules...)
			}
		}
	})
	fresh(c.Rand)
	if perRule == "" {
		switch c.Kind {
		case "valid":
			exp := &ast.File{Rules: want}
			if ref.Kind != "ok" || fp(exp) != ref.Val {
				res.Viol = viol("whole-text", "text of %d bytes with %d rules: its rules parsed one by one: %s\nparsed at once: %s", len(text), len(want), show(exp), ref)
				return res
			}
		case "badtail":
			if ref.Kind == "ok" {
				res.Viol = viol("whole-text", "a text of %d bytes ending in %q is accepted: %s", len(text), c.Texts[0][len(c.Texts[0])-1].S, ref)
				return res
			}
		}
	}
	ps := taskProcs(1)
	w := newWorld(c, nil)
	w.proc = ps[0]
	outs := make([]Out, len(c.Tasks[0]))
	empties := 0
	cfg := c.Sched.config()
	cfg.MaxSteps = maxSteps + int64(len(text)*len(outs))*2000
	o := runTasks(c, res, cfg, func() {
		for i := range c.Tasks[0] {
			outs[i] = w.do(&c.Tasks[0][i])
			if w.r != nil {
				empties += w.r.Empty
			}
		}
	})
	res.faults(ps[0])
	res.Faults["reader:empty-read"] += empties
	if res.Viol = stuck(o, "parsing"); res.Viol != nil {
		return res
	}
	for i, op := range c.Tasks[0] {
		res.out(outs[i])
		if op.K == "reader" {
			res.Faults["reader:fragmented"]++
		}
		if !outs[i].eq(ref) {
			res.Viol = viol("delivery", "call %d (%s) of a text of %d bytes\nwhole text: %s\nthis delivery: %s", i, op.K, len(text), ref, outs[i])
			return res
		}
	}
	res.probe("accepted", ref.Kind == "ok")
	res.probe("rejected", ref.Kind != "ok")
	res.probe("larger-than-64k", len(text) > 65536)
	res.probe("larger-than-512", len(text) > 512)
	return res
}

// ---- L02

func genL02(c *Case, r *R) {
	g := newGen(r)
	c.Kind = "fail"
	t := libText(r, g, 5)
	if r.p(12) {
		t = append(t, Piece{S: r.pick("\n", "// filler\n"), N: r.pickInt(60, 500, 2000)})
	}
	c.Texts = []Text{t}
	size := len(t.String())
	var ops []Op
	for i, n := 0, r.in(1, 4); i < n; i++ {
		if r.p(60) {
			d := genDelivery(r, size)
			d.FailAt = r.in(0, size)
			if r.p(35) { // where a prefix is a text in itself
				at := 0
				for _, p := range t {
					n := p.N
					if n == 0 {
						n = 1
					}
					at += len(p.S) * n
					if r.p(40) {
						break
					}
				}
				d.FailAt = at
			}
			if r.p(20) {
				d.FailAt = size
			}
			if r.p(10) {
				d.FailAt = 0
			}
			d.Err = readErrNames[r.n(len(readErrNames))]
			d.With = r.p(50)
			d.Once = r.p(40)
			op := Op{K: "reader", D: d}
			present(r, &op, true)
			ops = append(ops, op)
			continue
		}
		var fs []*kern.Fault
		if r.p(50) {
			fs = append(fs, benignFileFaults(r)...)
		}
		f := &kern.Fault{Class: "in", Kind: r.errno("read"), Perm: r.p(50)}
		switch r.n(5) {
		case 0:
			f.Call, f.Nth, f.Kind = "open", 1, r.errno("open")
		case 1:
			f.Call, f.Nth, f.Perm = "close", 1, false
			f.Kind = r.errno("close")
		default:
			f.Call, f.Nth = "read", r.in(1, 4)
			if r.p(50) { // fail only after some data got through
				fs = append(fs, &kern.Fault{Call: "read", Class: "in", Nth: 1, Kind: "short", Arg: r.in(1, 1+size)})
				f.Nth = r.in(1, 2)
			}
		}
		// The failing fault goes first: the kernel applies one fault per call.
		fs = append([]*kern.Fault{f}, fs...)
		if f.Call == "read" && r.p(20) {
			fs = append([]*kern.Fault{{Call: "close", Class: "in", Nth: 1, Kind: "EIO"}}, fs...)
		}
		op := fileOp(r, fs)
		if r.p(20) {
			op.T = -1 // nothing but the failure
		}
		ops = append(ops, op)
	}
	if r.p(10) {
		ops = append(ops, Op{K: "dirfile"})
	}
	if r.p(25) {
		ops = append(ops, Op{K: "nofile", X: r.u64(), Name: r.n(len(fileNames))})
	}
	c.Tasks = [][]Op{ops}
	c.Sched = genLone(r)
}

func execL02(c *Case) *Result {
	res := newResult()
	fresh(c.Rand)
	ps := taskProcs(1)
	p := ps[0]
	w := newWorld(c, nil)
	w.proc = p
	ops := c.Tasks[0]
	outs := make([]Out, len(ops))
	fired := make([][]error, len(ops))
	cause := make([]string, len(ops))
	o := runTasks(c, res, c.Sched.config(), func() {
		for i := range ops {
			op := &ops[i]
			if op.K == "dirfile" {
				p.M.PutDir("/in/d")
				outs[i] = parsed(parse.File("/in/d"))
				fired[i] = []error{syscall.EISDIR}
				cause[i] = "is a directory"
				continue
			}
			if op.K == "nofile" {
				name, err := missing(p, op)
				outs[i] = parsed(parse.File(name))
				fired[i] = []error{err}
				cause[i] = fmt.Sprintf("%q cannot be opened: %v", name, err)
				continue
			}
			outs[i] = w.do(op)
			if op.K == "reader" {
				cause[i] = op.D.Err
				if w.r.failed > 0 {
					fired[i] = []error{errNamed(op.D.Err)}
					res.Faults[fmt.Sprintf("reader:%s", op.D.Err)]++
				}
			} else {
				for _, f := range p.Faults {
					if e := kern.Errno(f.Kind); e != 0 {
						cause[i] += f.Call + " " + f.Kind + " "
						if f.Failed > 0 {
							fired[i] = append(fired[i], e)
						}
					}
				}
			}
		}
	})
	res.faults(p)
	if res.Viol = stuck(o, "parsing"); res.Viol != nil {
		return res
	}
	for i, op := range ops {
		out := outs[i]
		res.out(out)
		if len(fired[i]) == 0 {
			if op.K == "reader" && out.Kind == "ok" {
				res.Viol = viol("not-read", "call %d: rules returned although the reader never reached the end of the input: %s", i, out)
				return res
			}
			res.probe("fault-not-reached", true)
			continue
		}
		res.probe("fault-reached", true)
		if out.Kind != "error" {
			res.Viol = viol("swallowed", "call %d (%s): the source failed (%s) but the outcome is: %s", i, op.K, cause[i], out)
			return res
		}
		found := false
		for _, e := range fired[i] {
			found = found || isErr(out.err, e)
		}
		if !found {
			res.Viol = viol("cause-lost", "call %d (%s): the source failed (%s); the error returned is %q (%T), from which that cause cannot be recovered", i, op.K, cause[i], out.Err, out.err)
			return res
		}
	}
	return res
}

// missing makes sure that a file cannot be opened, but that others with similar
// names can; some of them may have been read before.
func missing(p *kern.Proc, op *Op) (string, error) {
	m := p.M
	p.Faults = nil
	base := fileNames[op.Name%len(fileNames)]
	name := "/in/" + base
	const text = "(Neg8 x) => x\n"
	for k, to := range []string{base + ".rules", base + ".gz", base + "~", "../" + base, strings.TrimSuffix(base, path.Ext(base)), strings.TrimSpace(base + "x"), strings.ToUpper(base), "rules/" + base, "generic.rules"} {
		if op.X>>8>>k&1 == 1 && to != base {
			m.Put("/in/"+to, []byte(text), 0o644)
		}
	}
	m.Remove(name)
	switch op.X % 8 {
	case 0:
		return "", syscall.ENOENT
	case 1:
		return "/in/none/" + base, syscall.ENOENT
	case 2:
		m.Put("/in/plain", []byte(text), 0o644)
		return "/in/plain/" + base, syscall.ENOTDIR
	case 3:
		m.PutLink(name, "gone")
	case 4:
		m.PutLink(name, base)
		return name, syscall.ELOOP
	case 5:
		m.Put(name, []byte(text), 0o200)
		return name, syscall.EACCES
	}
	return name, syscall.ENOENT
}

// ---- L03

func genWriterFault(r *R, size int) *Writer {
	w := &Writer{FailAt: r.in(0, size), Err: writeErrNames[r.n(len(writeErrNames))], Partial: r.p(60), All: r.p(15), Once: r.p(50)}
	if r.p(10) {
		w.FailAt = 0
	}
	if r.p(10) && size > 0 {
		w.FailAt = size - 1
	}
	if r.p(10) && size > 20 {
		w.FailAt = size - 1 - r.n(20)
	}
	return w
}

func genL03(c *Case, r *R) {
	g := newGen(r)
	c.Kind = "fail"
	c.Texts = []Text{g.join(g.libRules(r.in(1, 4)))}
	large := false
	if r.p(6) { // more than a buffer's worth of output
		c.Texts[0] = append(c.Texts[0], Piece{S: g.rule() + "\n", N: r.pickInt(20, 70, 130, 300)})
	} else if r.p(2) {
		n := r.pickInt(33_000, 66_000, 100_000, 140_000)
		if r.p(15) {
			n = r.pickInt(270_000, 530_000, 1_050_000)
		}
		large = true
		c.Texts[0] = append(c.Texts[0], Piece{S: "(Neg8 x) => "}, Piece{S: "long_nam", N: n / 8}, Piece{S: "\n(Com8 x) => y\n"})
	}
	ops := []Op{{K: "load"}}
	if r.p(25) && !large {
		ops = append(ops, Op{K: "expand"})
	}
	if r.p(20) && !large {
		ops = append(ops, Op{K: "poison", X: r.u64()})
	}
	// Sizes of the complete outputs, so that failures land inside them.
	sizes := map[string]int{}
	size := func(op Op) int {
		key := fmt.Sprint(op.K, op.R, op.X>>40)
		if n, ok := sizes[key]; ok {
			return n
		}
		n := 0
		pristine(refRand, func() {
			w := newWorld(c, nil)
			for i := range ops {
				if s := ops[i].K; s == "load" || s == "expand" || s == "poison" {
					w.do(&ops[i])
				}
			}
			h := op
			h.W, h.Cap, h.Faults = nil, 0, nil
			w.do(&h)
			if w.w != nil {
				n = len(w.w.got)
			}
		})
		sizes[key] = n
		return n
	}
	for i, n := 0, r.in(1, 5); i < n; i++ {
		op := Op{K: r.pick("fprint", "fprint", "fprint", "fdump", "fdump"), R: r.n(5), X: r.u64()}
		if large {
			op.R = 0
		}
		n := size(op)
		switch r.n(12) {
		case 0:
			op.W = &Writer{FailAt: -1, As: writerKinds[r.n(len(writerKinds))]}
			if r.p(60) {
				op.W.As = healthyKinds[r.n(len(healthyKinds))]
			}
		case 10, 11: // a file
			op.W = &Writer{FailAt: -1, As: "file"}
			if r.p(10) {
				op.W.As = r.pick("closed", "rdonly")
			} else if r.p(50) {
				op.Cap = 1 + int64(r.in(0, n+1))
			}
			for k, m := 0, r.in(0, 2); k < m; k++ {
				f := &kern.Fault{Call: "write", Nth: r.in(1, 1+n/4), Kind: r.pick("EINTR", "short", "short", r.errno("write"), r.errno("write"), "EPIPE"), Arg: r.pickInt(1, 1, 2, 5)}
				if f.Kind == "short" {
					f.Perm = r.p(30)
				} else if kern.Errno(f.Kind) != 0 {
					f.Perm, f.Arg = r.p(50), r.pickInt(0, 0, 1, 2)
				}
				op.Faults = append(op.Faults, f)
			}
		case 1, 2, 3: // standard output
			if op.K == "fprint" {
				op.K = "print"
			} else {
				op.K = "aprint"
			}
			if r.p(8) {
				op.W = &Writer{FailAt: -1, As: "closed"}
				break
			}
			for k, m := 0, r.in(1, 3); k < m; k++ {
				switch r.n(4) {
				case 0:
					op.Faults = append(op.Faults, &kern.Fault{Call: "write", Class: "stdout", Nth: r.in(1, 6), Kind: "EINTR", Arg: r.in(1, 3)})
				case 1:
					op.Faults = append(op.Faults, &kern.Fault{Call: "write", Class: "stdout", Nth: r.in(1, 6), Kind: "short", Arg: r.in(1, 5), Perm: r.p(30)})
				default:
					op.Faults = append([]*kern.Fault{{Call: "write", Class: "stdout", Nth: r.in(1, 1+n/2), Kind: r.errno("write"), Arg: r.pickInt(0, 0, 1, 2), Perm: r.p(50)}}, op.Faults...)
				}
			}
		default:
			op.W = genWriterFault(r, n)
			op.W.As = writerKinds[r.n(len(writerKinds))]
			if r.p(8) {
				op.W.Slow = int64(r.pickInt(1_000, 1_000_000, 1_000_000_000)) * int64(r.in(1, 90))
			}
		}
		ops = append(ops, op)
	}
	c.Tasks = [][]Op{ops}
	c.Sched = genLone(r)
}

// poison puts a node the printer does not know into a tree.
func poison(f *ast.File, r *R) {
	if f == nil || len(f.Rules) == 0 {
		return
	}
	x := f.Rules[r.n(len(f.Rules))]
	bad := &ast.Expr{Expr: &goast.BinaryExpr{X: &goast.Ident{Name: "a"}, Y: &goast.IndexExpr{X: &goast.Ident{Name: "b"}, Index: &goast.Ident{Name: "i"}}}}
	switch r.n(3) {
	case 0:
		x.Condition = bad
	case 1:
		x.Result = bad
	default:
		if s, ok := x.Match.(*ast.SExpr); ok {
			s.Aux = bad
		}
	}
}

func execL03(c *Case) *Result {
	res := newResult()
	ops := c.Tasks[0]
	// Complete outputs and outcomes, without faults.
	type complete struct {
		out Out
		got []byte
	}
	refs := make([]complete, len(ops))
	loaded := false
	pristine(refRand, func() {
		w := newWorld(c, nil)
		for i := range ops {
			h := ops[i]
			switch h.K {
			case "print":
				h.K = "fprint"
			case "aprint":
				h.K = "fdump"
			}
			h.W, h.Faults, h.Cap = nil, nil, 0
			o := w.do(&h)
			refs[i].out = o
			if w.w != nil {
				refs[i].got = w.w.got
			}
			loaded = w.own[0] != nil
			if h.K == "fprint" || h.K == "fdump" {
				b := w.do(&Op{K: map[string]string{"fprint": "bytes", "fdump": "dump"}[h.K], S: h.S, R: h.R, X: h.X})
				if b.Kind != o.Kind || b.Err != o.Err || b.Kind == "ok" && w.own[0] != nil {
					var v interface{} = string(refs[i].got)
					if h.K == "fprint" {
						v = refs[i].got
					}
					if b.Kind != o.Kind || b.Err != o.Err || w.own[0] != nil && b.Val != fp(v) {
						res.Viol = viol("in-memory", "call %d: %s gives %s, the in-memory form %s", i, h.K, o, b)
					}
				}
			}
		}
	})
	if res.Viol != nil {
		return res
	}
	fresh(c.Rand)
	ps := taskProcs(1)
	p := ps[0]
	w := newWorld(c, nil)
	w.proc = p
	var stdoutFailed error
	stdoutAfter := 0
	p.M.OnCall = func(q *kern.Proc, ev *kern.Event) {
		if ev.Call == "write" && (ev.Class == "stdout" || ev.Path == "/out") {
			if stdoutFailed != nil {
				stdoutAfter++
			} else if ev.Err != nil && ev.Err != syscall.EINTR {
				stdoutFailed = ev.Err
			}
		}
	}
	o := runTasks(c, res, c.Sched.config(), func() {
		for i := range ops {
			op := &ops[i]
			stdoutFailed, stdoutAfter = nil, 0
			at := len(p.Stdout)
			out := w.do(op)
			res.out(out)
			if res.Viol != nil || !loaded {
				continue
			}
			ref := refs[i]
			var failed error
			after := 0
			var got []byte
			switch op.K {
			case "fprint", "fdump":
				if op.W.file() {
					got = append(got, p.M.Lookup("/out").Data...)
					failed, after = stdoutFailed, stdoutAfter
					res.probe("file", true)
					break
				}
				got = w.w.got
				if w.w.failed > 0 {
					failed, after = errNamed(op.W.Err), w.w.after
					res.Faults["writer:"+op.W.Err]++
				}
			case "print", "aprint":
				got = p.Stdout[at:]
				failed, after = stdoutFailed, stdoutAfter
			default:
				continue
			}
			if op.W != nil && op.W.As == "closed" && len(ref.got) > 0 {
				failed, after = os.ErrClosed, 0
				res.Faults["writer:closed"]++
			}
			if failed == nil {
				res.probe("complete", true)
				if out.Kind != ref.out.Kind || out.Err != ref.out.Err {
					res.Viol = viol("healthy-result", "call %d (%s): the destination accepted everything, but the outcome is %s instead of %s", i, op.K, out, ref.out)
				} else if !bytes.Equal(got, ref.got) {
					res.Viol = viol("healthy-output", "call %d (%s): the destination accepted everything; it holds %q, the complete output is %q", i, op.K, clip(string(got), 900), clip(string(ref.got), 900))
				}
				continue
			}
			res.probe("failed", true)
			res.probe("failed-after-64k", len(got) > 1<<16)
			res.probe("failed-after-1m", len(got) > 1<<20)
			res.probe("failed-with-internal-error-later", ref.out.Kind == "error")
			switch {
			case out.Kind != "error":
				res.Viol = viol("unreported", "call %d (%s): the destination failed (%v) after %d of %d bytes, but the outcome is %s", i, op.K, failed, len(got), len(ref.got), out)
			case !isErr(out.err, failed):
				res.Viol = viol("wrong-error", "call %d (%s): the destination first failed with %q, the error returned is %q", i, op.K, failed, out.Err)
			case after > 0:
				res.Viol = viol("wrote-after-failure", "call %d (%s): %d more writes after the destination had failed (%v)", i, op.K, after, failed)
			case !bytes.HasPrefix(ref.got, got):
				res.Viol = viol("not-a-prefix", "call %d (%s): the destination accepted %q, not a prefix of %q", i, op.K, clip(string(got), 900), clip(string(ref.got), 900))
			}
		}
	})
	res.faults(p)
	if v := stuck(o, "printing"); v != nil {
		res.Viol = v
	}
	return res
}

// ---- L04

var readOps = []string{"fprint", "bytes", "bytes", "dump", "fdump", "inspect", "walk", "contains", "has", "generate", "generate", "generate", "bytes"}

func genReadOp(r *R, slot int) Op {
	op := Op{K: readOps[r.n(len(readOps))], S: slot, R: r.n(6), X: r.u64()}
	if op.K == "fprint" || op.K == "fdump" {
		op.W = &Writer{FailAt: -1}
		if r.p(20) {
			op.W.As = healthyKinds[r.n(len(healthyKinds))]
		} else if r.p(15) {
			op.W = &Writer{FailAt: r.n(120), Err: "sim", Partial: r.p(50), Once: r.p(50)}
		}
		op.W.Nest = r.p(8)
	}
	if op.K == "inspect" || op.K == "walk" {
		op.Nest = r.p(8)
	}
	return op
}

func genL04(c *Case, r *R) {
	g := newGen(r)
	c.Kind = "callers"
	nt := r.in(1, 3)
	for i := 0; i < nt; i++ {
		t := libText(r, g, 3)
		if i > 0 && r.p(25) {
			t = g.sibling(c.Texts[r.n(i)])
		}
		c.Texts = append(c.Texts, t)
	}
	for i, n := 0, r.in(0, 2); i < n; i++ {
		c.Texts = append(c.Texts, g.join(g.libRules(r.in(1, 3))))
		c.Shared = append(c.Shared, Slot{T: len(c.Texts) - 1})
	}
	callers := r.in(2, 4)
	if r.p(8) {
		callers = r.pickInt(5, 6, 7, 8, 9, 9, 10, 17)
	}
	same := r.p(35) // all callers do the same
	for k := 0; k < callers; k++ {
		if same && k > 0 {
			c.Tasks = append(c.Tasks, append([]Op(nil), c.Tasks[0]...))
			continue
		}
		var ops []Op
		loaded := map[int]bool{}
		for i, n := 0, r.in(1, 6); i < n; i++ {
			if len(c.Shared) > 0 && r.p(45) {
				ops = append(ops, genReadOp(r, -1-r.n(len(c.Shared))))
				continue
			}
			slot := r.n(2)
			switch {
			case !loaded[slot] || r.p(20):
				loaded[slot] = true
				ops = append(ops, Op{K: "load", S: slot, T: r.n(nt)})
			case r.p(30):
				ops = append(ops, Op{K: "expand", S: slot})
			case r.p(15):
				ops = append(ops, Op{K: "reader", T: r.n(nt), D: genDelivery(r, 100)})
			case r.p(6):
				ops = append(ops, Op{K: "file", T: r.n(nt), Faults: benignFileFaults(r)})
			default:
				ops = append(ops, genReadOp(r, slot))
			}
		}
		c.Tasks = append(c.Tasks, ops)
	}
	c.Sched = genSched(r)
}

func loadShared(c *Case) []*ast.File {
	var fs []*ast.File
	for _, s := range c.Shared {
		f, err := parse.String(c.Texts[s.T].String())
		if err != nil {
			f = nil
		}
		fs = append(fs, f)
	}
	return fs
}

func execL04(c *Case) *Result {
	res := newResult()
	n := len(c.Tasks)
	refs := make([][]Out, n)
	for k := range c.Tasks {
		pristine(refRand, func() {
			w := newWorld(c, loadShared(c))
			w.proc = kern.Table[0]
			for i := range c.Tasks[k] {
				refs[k] = append(refs[k], w.do(&c.Tasks[k][i]))
			}
		})
	}
	var shared []*ast.File
	pristine(c.Rand, func() { shared = loadShared(c) })
	ps := taskProcs(n)
	outs := make([][]Out, n)
	failedWrites := make([]int, n)
	var fs []func()
	for k := range c.Tasks {
		k := k
		w := newWorld(c, shared)
		w.proc = ps[k]
		outs[k] = make([]Out, len(c.Tasks[k]))
		fs = append(fs, func() {
			for i := range c.Tasks[k] {
				outs[k][i] = w.do(&c.Tasks[k][i])
				if w.w != nil && w.w.failed > 0 {
					failedWrites[k]++
				}
			}
		})
	}
	races := raceErrors()
	o := runTasks(c, res, c.Sched.config(), fs...)
	for k, p := range ps {
		res.faults(p)
		if failedWrites[k] > 0 {
			res.Faults["writer:sim"] += failedWrites[k]
		}
	}
	if raceErrors() != races {
		res.Viol = viol("race", "the race detector reported %d data race(s) in this run", raceErrors()-races)
		return res
	}
	if res.Viol = stuck(o, "a set of concurrent calls"); res.Viol != nil {
		return res
	}
	for k := range outs {
		for i := range outs[k] {
			res.out(outs[k][i])
			if !outs[k][i].eq(refs[k][i]) {
				res.Viol = viol("interference", "caller %d, call %d (%s)\nalone: %s\nwith the others: %s", k+1, i, c.Tasks[k][i].K, refs[k][i], outs[k][i])
				return res
			}
		}
	}
	res.probe("switched-often", o.Switches > 20)
	res.probe("shared-tree", len(c.Shared) > 0)
	return res
}

// ---- L05

func genL05(c *Case, r *R) {
	g := newGen(r)
	c.Kind = "history"
	nt := r.in(1, 4)
	for i := 0; i < nt; i++ {
		if i > 0 && r.p(30) {
			c.Texts = append(c.Texts, g.sibling(c.Texts[r.n(i)]))
		} else if r.p(45) { // errors that list what was expected
			t := g.join(g.libRules(r.in(0, 2)))
			c.Texts = append(c.Texts, Text{{S: g.malform(t.String())}})
		} else {
			c.Texts = append(c.Texts, libText(r, g, 4))
		}
	}
	var ops []Op
	loaded := map[int]bool{}
	for i, n := 0, r.in(3, 14); i < n; i++ {
		slot := r.n(3)
		switch {
		case r.p(12) && len(ops) > 0 && !ops[len(ops)-1].stateful():
			ops = append(ops, ops[len(ops)-1]) // again
		case !loaded[slot] || r.p(15):
			loaded[slot] = true
			ops = append(ops, Op{K: "load", S: slot, T: r.n(nt)})
		case r.p(15):
			ops = append(ops, Op{K: "expand", S: slot})
		case r.p(10):
			op := genReadOp(r, slot)
			if r.p(50) { // the same call before and after
				ops = append(ops, op)
			}
			ops = append(ops, Op{K: "mutate", S: slot, X: r.u64()})
			if r.p(70) {
				ops = append(ops, op)
			}
		case r.p(6): // what cannot be printed
			ops = append(ops, Op{K: "poison", S: slot, X: r.u64()},
				Op{K: r.pick("bytes", "bytes", "fprint", "generate"), S: slot, R: r.n(6), X: r.u64(), W: &Writer{FailAt: -1}})
		case r.p(10):
			ops = append(ops, Op{K: "scribble", X: r.u64()})
		case r.p(3):
			ops = append(ops, Op{K: "churn", X: r.u64() >> 1})
		case r.p(4):
			ops = append(ops, Op{K: "sleep", X: uint64(r.pickInt(1, 1000, 1_000_000)) * uint64(r.pickInt(1, 60, 1_000_000)) * 1000})
		case r.p(15):
			ops = append(ops, Op{K: r.pick("string", "string", "reader", "reader"), T: r.n(nt), Name: r.n(2) * r.n(len(sourceNames))})
		case r.p(15): // few names, so that the file is often another one
			ops = append(ops, Op{K: "file", Name: r.n(2), T: r.n(nt)})
		case r.p(20): // aborted reads
			d := genDelivery(r, 60)
			d.FailAt = r.n(1 + len(c.Texts[0].String()))
			d.Err = r.pick("panic", "sim", "unexpected", "closed")
			d.With = r.p(30)
			d.Nest = r.p(10)
			ops = append(ops, Op{K: "reader", T: r.n(nt), D: d})
		case r.p(20): // aborted writes
			ops = append(ops, Op{K: r.pick("fprint", "fdump"), S: slot, R: r.n(5), X: r.u64(),
				W: &Writer{FailAt: r.n(100), Err: r.pick("panic", "panic", "sim", "shortwrite"), Partial: r.p(50), Once: r.p(50), Nest: r.p(10)}})
		case r.p(12):
			ops = append(ops, Op{K: r.pick("inspect", "contains", "walk"), S: slot, R: r.n(5), X: r.u64(), Panic: r.in(1, 8)})
		default:
			ops = append(ops, genReadOp(r, slot))
		}
	}
	c.Tasks = [][]Op{ops}
	c.Sched = genLone(r)
}

func execL05(c *Case) *Result {
	res := newResult()
	ops := c.Tasks[0]
	// The outcome of each call on its own: a fresh process in which the tree
	// it works on is first brought to the same state.
	refs := make([]Out, len(ops))
	for i := range ops {
		if ops[i].K == "scribble" {
			continue
		}
		pristine(refRand^uint64(i+1)*0x9e37, func() {
			w := newWorld(c, nil)
			w.proc = kern.Table[0]
			if ops[i].K != "string" && ops[i].K != "reader" && ops[i].K != "file" {
				start := -1
				for j := 0; j < i; j++ {
					if ops[j].K == "load" && ops[j].S == ops[i].S {
						start = j
					}
				}
				if start >= 0 && ops[i].K != "load" {
					for j := start; j < i; j++ {
						if ops[j].stateful() && ops[j].S == ops[i].S {
							w.do(&ops[j])
						}
					}
				}
			}
			refs[i] = w.do(&ops[i])
		})
	}
	pristine(c.Rand, func() {})
	ps := taskProcs(1)
	w := newWorld(c, nil)
	w.proc = ps[0]
	outs := make([]Out, len(ops))
	o := runTasks(c, res, c.Sched.config(), func() {
		for i := range ops {
			op := &ops[i]
			if op.K == "scribble" {
				kept := w.rets[:0]
				for _, t := range w.rets {
					if b, ok := t.v.([]byte); ok && t.fam < 0 {
						for k := range b[:cap(b)] {
							b[:cap(b)][k] ^= 0x15
						}
						continue
					}
					kept = append(kept, t)
				}
				w.rets = kept
				continue
			}
			fam := -1
			if op.stateful() {
				fam = op.S
				kept := w.rets[:0]
				for _, t := range w.rets {
					if t.fam != fam {
						kept = append(kept, t)
					}
				}
				w.rets = kept
			}
			outs[i] = w.do(op)
			if v := outs[i].ret; v != nil && op.K != "mutate" && op.K != "poison" && op.K != "fprint" && op.K != "fdump" {
				w.rets = append(w.rets, retained{i, v, fp(v), fam})
			}
			for _, t := range w.rets {
				if fp(t.v) != t.fp && res.Viol == nil {
					res.Viol = viol("altered", "the result of call %d (%s) was altered by call %d (%s): now %s", t.op, ops[t.op].K, i, op.K, show(t.v))
				}
			}
			// Failed writes are part of the outcome.
			switch outs[i].Kind {
			case "panic":
				res.Faults["callback:panic"]++
			}
			if w.r != nil && w.r.failed > 0 {
				res.Faults["reader:"+op.D.Err]++
			}
			if w.w != nil && w.w.failed > 0 {
				res.Faults["writer:"+op.W.Err]++
			}
		}
	})
	res.faults(ps[0])
	if v := stuck(o, "a sequence of calls"); v != nil {
		res.Viol = v
		return res
	}
	for i := range ops {
		res.out(outs[i])
		if outs[i].Kind == "drift" {
			res.Viol = viol("drift", "%s", outs[i].Err)
			return res
		}
		if ops[i].K != "scribble" && !outs[i].eq(refs[i]) {
			res.Viol = viol("history", "call %d (%s)\non its own, in a fresh process: %s\nafter the calls before it: %s", i, ops[i].K, refs[i], outs[i])
			return res
		}
		res.probe("error-outcome", outs[i].Kind == "error")
		res.probe("aborted-call", outs[i].Kind == "panic")
	}
	return res
}

// ---- L06

func genL06(c *Case, r *R) {
	g := newGen(r)
	c.Kind = "observe"
	var rs []string
	for i, n := 0, r.in(1, 5); i < n; i++ {
		switch r.n(10) {
		case 0, 1, 2:
			rs = append(rs, g.translatable())
		case 3:
			rs = append(rs, g.untranslatable())
		default:
			rs = append(rs, g.rule())
		}
	}
	if r.p(40) { // the expansion fails, at some rule
		at := r.n(len(rs) + 1)
		rs = append(rs[:at], append([]string{g.mismatch()}, rs[at:]...)...)
	}
	c.Texts = []Text{g.join(rs)}
	var ops []Op
	for i, n := 0, r.in(1, 5); i < n; i++ {
		slot := r.n(3) // 0: the file; 1: another file with the same list; 2: one with part of it
		if r.p(45) {
			ops = append(ops, Op{K: "expand", S: slot, X: r.u64()})
		} else {
			op := genReadOp(r, slot)
			op.Nest = false
			if r.p(10) {
				op.Panic = r.in(1, 5)
			}
			ops = append(ops, op)
		}
	}
	c.Tasks = [][]Op{ops}
	c.Shared = []Slot{{T: r.n(8)}} // how long the partial list is
	if r.p(30) {
		c.Shared = append(c.Shared, Slot{T: r.n(1 << 30)}) // made by the caller
	}
	c.Every = int64(r.pickInt(1, 5, 20, 60, 200))
	c.Sched = genLone(r)
}

type holding struct {
	what string
	rs   []*ast.Rule
	ptrs []*ast.Rule // the elements themselves
	fp   uint64
	raw  *raw
}

func hold(what string, rs []*ast.Rule) *holding {
	return &holding{what, rs, append([]*ast.Rule(nil), rs...), fp(rs), rawOf(rs)}
}

func (h *holding) broken() string {
	if h.raw.same() {
		return ""
	}
	h.raw = rawOf(h.rs) // different memory, perhaps with equal content
	for i := range h.rs {
		if h.rs[i] != h.ptrs[i] {
			return fmt.Sprintf("element %d of %s was replaced", i, h.what)
		}
	}
	if fp(h.rs) != h.fp {
		return fmt.Sprintf("a rule in %s was modified: now %s", h.what, show(h.rs))
	}
	return ""
}

func execL06(c *Case) *Result {
	res := newResult()
	ops := c.Tasks[0]
	var f *ast.File
	pristine(c.Rand, func() {
		g, err := parse.String(c.Texts[0].String())
		if err == nil {
			f = g
		}
	})
	if f == nil || len(f.Rules) == 0 {
		res.probe("not-a-text", true)
		return res
	}
	for _, s := range c.Shared[1:] {
		r := newR(uint64(s.T), "mutate")
		for i := 0; i < 4; i++ {
			mutateOne(f, r)
		}
	}
	k := c.Shared[0].T % len(f.Rules)
	files := []*ast.File{f, {Rules: f.Rules}, {Rules: f.Rules[:k]}}
	held := []*holding{hold("the rule list obtained before", f.Rules)}
	for i, r := range f.Rules {
		held = append(held, hold(fmt.Sprintf("rule %d obtained before", i), []*ast.Rule{r}))
	}
	during := ""
	busy := -1 // file being expanded
	at := 0
	seen := 0
	type header struct {
		n int
		p **ast.Rule
	}
	take := func(fl *ast.File) header {
		h := header{n: len(fl.Rules)}
		if h.n > 0 {
			h.p = &fl.Rules[0]
		}
		return h
	}
	hs := make([]header, len(files))
	look := func() string {
		for i := range held {
			if s := held[i].broken(); s != "" {
				return s
			}
		}
		for i, fl := range files {
			if i != busy && take(fl) != hs[i] {
				return fmt.Sprintf("the rule list of file %d was replaced", i)
			}
		}
		return ""
	}
	for i, fl := range files {
		hs[i] = take(fl)
	}
	cfg := c.Sched.config()
	cfg.Every = c.Every
	cfg.Observe = func() {
		seen++
		if during == "" {
			if s := look(); s != "" {
				during = fmt.Sprintf("during call %d (%s of file %d): %s", at, ops[at].K, ops[at].S, s)
			}
		}
	}
	ps := taskProcs(1)
	w := newWorld(c, nil)
	w.proc = ps[0]
	for i, fl := range files {
		w.own[i] = fl
	}
	after := ""
	o := runTasks(c, res, cfg, func() {
		for i := range ops {
			op := &ops[i]
			if after != "" || during != "" {
				return
			}
			at = i
			var out Out
			if op.K == "expand" {
				busy = op.S
				err := pass.ExpandAlternates(files[op.S])
				out = of(nil, err)
				if err != nil {
					busy = -1
					res.probe("failed-expansion", true)
					res.Faults["input:alternates-that-cannot-be-expanded"]++
				} else {
					hs[op.S] = take(files[op.S])
					res.probe("expansion", true)
				}
				if s := look(); s != "" {
					after = fmt.Sprintf("after call %d (expand of file %d, %s): %s", i, op.S, out, s)
				}
				busy = -1
				if err == nil {
					held = append(held, hold(fmt.Sprintf("the list call %d produced", i), files[op.S].Rules))
				}
			} else {
				out = w.do(op)
				if out.Kind == "panic" {
					res.Faults["callback:panic"]++
				}
				if w.w != nil && w.w.failed > 0 {
					res.Faults["writer:"+op.W.Err]++
				}
				if s := look(); s != "" {
					after = fmt.Sprintf("after call %d (%s of file %d): %s", i, op.K, op.S, s)
				}
			}
			res.out(out)
		}
	})
	res.faults(ps[0])
	res.Probes["looks"] += seen
	switch {
	case during != "":
		res.Viol = viol("seen-changed", "%s", during)
	case after != "":
		res.Viol = viol("changed", "%s", after)
	default:
		res.Viol = stuck(o, "a library call")
	}
	return res
}

// ---- L07 (library part)

func genL07(c *Case, r *R) {
	if r.p(35) {
		c.Kind = "tool"
		genCLI(c, r, "L07")
		return
	}
	g := newGen(r)
	c.Kind = "library"
	c.Texts = []Text{libText(r, g, 4)}
	size := len(c.Texts[0].String())
	ops := []Op{{K: "load"}}
	for i, n := 0, r.in(1, 3); i < n; i++ {
		switch r.n(6) {
		case 0, 1:
			d := genDelivery(r, size)
			d.FailAt = r.in(0, size)
			d.Err = readErrNames[r.n(len(readErrNames))]
			d.With = r.p(30)
			if r.p(30) {
				d.FailAt = -1
			}
			ops = append(ops, Op{K: "reader", D: d})
		case 2:
			call := r.pick("read", "read", "open", "close")
			kind := r.errno(call)
			fs := []*kern.Fault{{Call: call, Class: "in", Nth: r.in(1, 3), Kind: kind, Perm: true}}
			if r.p(40) {
				fs = append(fs, benignFileFaults(r)...)
			}
			if r.p(30) {
				fs = append(fs, &kern.Fault{Call: "read", Class: "in", Nth: 1, Kind: "EINTR", Arg: r.in(1, 40)})
			}
			if r.p(12) {
				fs = append([]*kern.Fault{anyFault(r, "in")}, fs...)
			}
			ops = append(ops, Op{K: "file", Faults: fs})
		case 3:
			op := Op{K: r.pick("print", "aprint"), R: r.n(4), X: r.u64()}
			op.Faults = []*kern.Fault{{Call: "write", Class: "stdout", Nth: r.in(1, 10), Kind: r.pick("EIO", r.errno("write"), "EINTR", "short"), Arg: r.in(0, 20), Perm: true}}
			if op.Faults[0].Kind == "EINTR" {
				op.Faults[0].Perm = false
			}
			ops = append(ops, op)
		default:
			w := genWriterFault(r, 80)
			w.Once = r.p(20)
			ops = append(ops, Op{K: r.pick("fprint", "fdump"), R: r.n(4), X: r.u64(), W: w})
		}
	}
	if r.p(4) { // after much has failed
		ops = append([]Op{{K: "churn", X: r.u64() >> 1}}, ops...)
	}
	c.Tasks = [][]Op{ops}
	c.Sched = genLone(r)
}

func execL07(c *Case) *Result {
	if c.Kind == "tool" {
		return execCLI(c)
	}
	res := newResult()
	ops := c.Tasks[0]
	var healthy int64
	run := func(faults bool) *Viol {
		fresh(c.Rand)
		ps := taskProcs(1)
		w := newWorld(c, nil)
		w.proc = ps[0]
		cfg := c.Sched.config()
		if faults {
			// Ample: every fault of the case, and every chunk of every
			// delivery, may cost as much as the whole healthy run.
			n := int64(4)
			for _, op := range ops {
				for _, f := range op.Faults {
					n += 2 + int64(f.Arg)
				}
			}
			cfg.MaxSteps = 200_000 + healthy*n
		}
		at := 0
		outs := make([]Out, len(ops))
		clock := runtime.SimClock()
		o := runTasks(c, res, cfg, func() {
			for i := range ops {
				at = i
				op := ops[i]
				if !faults {
					op.Faults, op.W = nil, nil
					if op.D != nil {
						d := *op.D
						d.FailAt = -1
						op.D = &d
					}
				}
				outs[i] = w.do(&op)
				if faults && w.r != nil && w.r.failed > 0 {
					res.Faults["reader:"+op.D.Err]++
				}
				if faults && w.w != nil && w.w.failed > 0 {
					res.Faults["writer:"+op.W.Err]++
				}
			}
		})
		if faults {
			res.faults(ps[0])
			for i := range outs {
				res.out(outs[i])
			}
		} else {
			healthy = o.Steps
		}
		if v := stuck(o, fmt.Sprintf("call %d (%s)", at, ops[at].K)); v != nil {
			return v
		}
		return overslept(clock, "the calls")
	}
	if res.Viol = run(false); res.Viol == nil {
		res.Viol = run(true)
	}
	return res
}
