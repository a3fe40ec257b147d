package main

import (
	"fmt"

	"verif.local/sim/kern"
	"verif.local/sim/simrt"
)

// ---- L08

// genLibOps are calls of every kind, most of them disturbed.
func genLibOps(c *Case, r *R, g *gen) []Op {
	c.Texts = []Text{libText(r, g, 4), libText(r, g, 3)}
	if r.p(4) {
		c.Texts[0] = append(c.Texts[0], Piece{S: "// filler\n", N: r.pickInt(60, 500, 2000, 8000)})
	}
	size := len(c.Texts[0].String())
	ops := []Op{{K: "load"}}
	for i, n := 0, r.in(1, 5); i < n; i++ {
		switch r.n(12) {
		case 0, 1, 2:
			d := genDelivery(r, size)
			if r.p(60) {
				d.FailAt = r.in(0, size)
				d.Err = readErrNames[r.n(len(readErrNames))]
				if r.p(10) {
					d.Err = "panic"
				}
				d.With, d.Once = r.p(30), r.p(30)
			}
			op := Op{K: "reader", T: r.n(2), D: d}
			present(r, &op, d.FailAt >= 0)
			ops = append(ops, op)
		case 3, 4, 5:
			fs := benignFileFaults(r)
			if r.p(65) {
				f := &kern.Fault{Call: r.pick("read", "read", "open", "close"), Class: "in", Nth: r.in(1, 3), Perm: r.p(40)}
				f.Kind = r.errno(f.Call)
				if f.Call != "read" {
					f.Nth = 1
				}
				fs = append([]*kern.Fault{f}, fs...)
			}
			if r.p(12) { // whatever call it makes
				fs = append([]*kern.Fault{anyFault(r, r.pick("", "in"))}, fs...)
			}
			op := fileOp(r, fs)
			op.T = r.n(2)
			if r.p(10) {
				op.T = -1
			}
			ops = append(ops, op)
		case 6:
			op := Op{K: r.pick("print", "aprint"), R: r.n(4), X: r.u64()}
			if r.p(70) {
				op.Faults = []*kern.Fault{{Call: "write", Class: "stdout", Nth: r.in(1, 10), Kind: r.pick("EIO", "ENOSPC", "EINTR", "short"), Arg: r.in(0, 20), Perm: r.p(50)}}
				if op.Faults[0].Kind == "EINTR" {
					op.Faults[0].Perm = false
				}
			}
			ops = append(ops, op)
		case 7, 8:
			w := genWriterFault(r, 80)
			w.As = writerKinds[r.n(len(writerKinds))]
			if r.p(10) {
				w.Err = "panic"
			}
			ops = append(ops, Op{K: r.pick("fprint", "fdump"), R: r.n(4), X: r.u64(), W: w})
		case 9:
			ops = append(ops, Op{K: r.pick("inspect", "contains", "walk"), R: r.n(5), X: r.u64(), Panic: r.pickInt(0, 1, 2, 3, 5)})
		case 10:
			ops = append(ops, Op{K: "load"}, Op{K: r.pick("expand", "expand", "poison"), X: r.u64()})
		default:
			ops = append(ops, genReadOp(r, 0))
		}
	}
	return ops
}

func genL08(c *Case, r *R) {
	g := newGen(r)
	c.Sched = genLone(r)
	if r.p(15) {
		c.Kind = "tool"
		genCLI(c, r, "L08")
		return
	}
	c.Kind = "library"
	c.Tasks = [][]Op{genLibOps(c, r, g)}
}

const repeats = 10

func execL08(c *Case) *Result {
	if c.Kind == "tool" {
		return execManyFiles(c)
	}
	res := newResult()
	ops := c.Tasks[0]
	fresh(c.Rand)
	ps := taskProcs(1)
	p := ps[0]
	w := newWorld(c, nil)
	w.proc = p
	what := ""
	left := make([]int, repeats)
	o := runTasks(c, res, c.Sched.config(), func() {
		for k := 0; k < repeats; k++ {
			for i := range ops {
				op := &ops[i]
				out := w.do(op)
				if k == 0 {
					res.out(out)
				}
				simrt.Settle()
				if n := p.OpenFDs(); n > 0 && what == "" {
					what = fmt.Sprintf("call %d (%s, %s) leaves %d files open", i, op.K, clip(out.String(), 300), n)
				}
				if k == 0 {
					res.probe("error-outcome", out.Kind == "error")
					res.probe("aborted-call", out.Kind == "panic")
				}
				p.CloseAll()
			}
			left[k] = simrt.Left()
		}
	})
	res.faults(p)
	if res.Viol = stuck(o, "a library call"); res.Viol != nil {
		return res
	}
	res.mix(uint64(left[repeats-1]))
	switch {
	case what != "":
		res.Viol = viol("files-left-open", "%s", what)
	case left[repeats-1]-left[1] >= repeats-2:
		res.Viol = viol("goroutines-left", "goroutines still there after each of %d repetitions of the same calls: %v", repeats, left)
	}
	return res
}

// execManyFiles: the tool must do with few open files however many it handles.
func execManyFiles(c *Case) *Result {
	res := newResult()
	m := kern.NewMachine()
	_, m.Now = env(c.Rand)
	put(c, m, c.CLI.Files)
	r := &c.CLI.Runs[0]
	e := prepare(c, m, r)
	pr, o := execute(c, res, m, r, e, maxSteps, nil)
	if res.Viol = stuck(o, "the command"); res.Viol != nil {
		return res
	}
	res.probe("peak-above-4", pr.p.FDPeak > 4)
	switch {
	case pr.p.Counts["open:too-many"] > 0 && !(pr.p.Exited && pr.p.Code == 0):
		res.Viol = viol("too-many-open", "with %d inputs and %d scripts the run needs more than %d open files at a time: %s, %s", len(r.Inputs), len(e.order), r.FDs, pr.status(), tail(pr.p.Stderr))
	case e.accept && e.blocked == "" && pr.p.Code != 0:
		res.Viol = viol("false-failure", "%s with %d inputs and %d scripts: %s", pr.status(), len(r.Inputs), len(e.order), tail(pr.p.Stderr))
	case pr.p.Code == 0:
		if s := incomplete(m, e); s != "" {
			res.Viol = viol("false-success", "success with %d inputs and %d scripts, but %s", len(r.Inputs), len(e.order), s)
		}
	}
	return res
}

// ---- L09

func genL09(c *Case, r *R) {
	g := newGen(r)
	c.Kind = "callbacks"
	ops := genLibOps(c, r, g)
	for i := range ops { // files and standard output are not callbacks
		switch ops[i].K {
		case "file", "print", "aprint":
			ops[i] = Op{K: r.pick("inspect", "contains", "walk", "fprint", "fdump"), R: r.n(5), X: r.u64(), W: &Writer{FailAt: -1, As: writerKinds[r.n(len(writerKinds))]}}
			if r.p(30) {
				ops[i].W.As = healthyKinds[r.n(len(healthyKinds))]
			}
			if r.p(8) {
				ops[i].W.As = "file"
			}
			if r.p(25) {
				ops[i].Panic = r.in(1, 8)
			}
		case "reader":
			if d := ops[i].D; d.As == "" {
				d.As = r.pick("", "closer", "chatty", "seeker", "nop", "writerto")
			}
		}
	}
	c.Tasks = [][]Op{ops}
	c.Sched = genLone(r)
}

func execL09(c *Case) *Result {
	res := newResult()
	ops := c.Tasks[0]
	fresh(c.Rand)
	ps := taskProcs(1)
	w := newWorld(c, nil)
	w.proc = ps[0]
	type use struct {
		at   int
		what string
		g    *guard
	}
	var uses []use
	o := runTasks(c, res, c.Sched.config(), func() {
		for i := range ops {
			op := &ops[i]
			out := w.do(op)
			res.out(out)
			for _, u := range []use{{i, "destination", nil}, {i, "reader", nil}, {i, "visitor", w.v}, {i, "source", w.src}, {i, "file", w.dst}} {
				switch {
				case u.what == "destination" && w.w != nil:
					u.g = &w.w.guard
				case u.what == "reader" && w.r != nil:
					u.g = &w.r.guard
				}
				if u.what == "reader" && w.r != nil && w.r.moved {
					w.r.repositioned = true
				}
				if u.g != nil {
					u.g.over = true
					uses = append(uses, u)
				}
			}
			res.probe("error-outcome", out.Kind == "error")
			res.probe("aborted-call", out.Kind == "panic")
			if w.r != nil && w.r.failed > 0 {
				res.Faults["reader:"+op.D.Err]++
			}
			if w.w != nil && w.w.failed > 0 {
				res.Faults["writer:"+op.W.Err]++
			}
		}
		simrt.Settle()
	})
	res.faults(ps[0])
	if res.Viol = stuck(o, "a library call"); res.Viol != nil {
		return res
	}
	for _, u := range uses {
		if s := u.g.abused(); s != "" {
			res.Viol = viol("callback", "the %s of call %d (%s) %s", u.what, u.at, ops[u.at].K, s)
			return res
		}
	}
	res.probe("callbacks", len(uses) > 0)
	return res
}
