package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	goast "go/ast"
	"io"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/printer"
	"github.com/mmcloughlin/ssarules/rules"
	"github.com/mmcloughlin/ssarules/smt2"

	"verif.local/sim/kern"
	"verif.local/sim/simrt"
)

// Slot is a tree some operations work on: text T parsed, then the steps.
type Slot struct {
	T int `json:"t"`
}

// Op is one library call.
type Op struct {
	K      string        `json:"k"`
	T      int           `json:"t,omitempty"`     // text
	S      int           `json:"s,omitempty"`     // slot: >=0 own, <0 shared (-1 is shared 0)
	R      int           `json:"r,omitempty"`     // which rule; 0 the whole file
	X      uint64        `json:"x,omitempty"`     // further choices
	D      *Delivery     `json:"d,omitempty"`     // reader, or file when Faults
	W      *Writer       `json:"w,omitempty"`     // destination
	Panic  int           `json:"panic,omitempty"` // visitor panics at this call
	Nest   bool          `json:"nest,omitempty"`  // callback calls the library itself
	Name   int           `json:"name,omitempty"`  // of the source, in sourceNames
	Faults []*kern.Fault `json:"faults,omitempty"`
	Cap    int64         `json:"cap,omitempty"` // free bytes on the disk, plus one
}

// Delivery is how a reader hands out a text.
type Delivery struct {
	Chunks  []int  `json:"chunks"`            // cyclic; 0 is an empty read
	Join    bool   `json:"join,omitempty"`    // end of input with the last bytes
	FailAt  int    `json:"failat"`            // byte offset, -1 never
	Err     string `json:"err,omitempty"`     // error name, or panic
	With    bool   `json:"with,omitempty"`    // error together with data
	Scratch bool   `json:"scratch,omitempty"` // scribbles over the rest of the buffer
	Once    bool   `json:"once,omitempty"`    // works again after failing
	Nest    bool   `json:"nest,omitempty"`
	As      string `json:"as,omitempty"`   // see sources.go
	Slow    int64  `json:"slow,omitempty"` // nanoseconds each read takes
}

// Writer is how a destination behaves.
type Writer struct {
	FailAt  int    `json:"failat"` // byte offset, -1 never
	Err     string `json:"err,omitempty"`
	Partial bool   `json:"partial,omitempty"` // accept the bytes before the offset
	All     bool   `json:"all,omitempty"`     // accept everything, still report the error
	Once    bool   `json:"once,omitempty"`    // works again after failing
	Nest    bool   `json:"nest,omitempty"`
	As      string `json:"as,omitempty"` // see sources.go
	Slow    int64  `json:"slow,omitempty"`
}

// file: the destination is a simulated file.
func (w *Writer) file() bool {
	return w != nil && (w.As == "file" || w.As == "closed" || w.As == "rdonly")
}

// simErr is an error no library knows.
type simErr struct{ s string }

func (e *simErr) Error() string { return e.s }

var namedErrs = map[string]error{
	"sim":        &simErr{"simulated failure"},
	"eof-wrap":   fmt.Errorf("connection lost: %w", io.EOF),
	"unexpected": io.ErrUnexpectedEOF,
	"closedpipe": io.ErrClosedPipe,
	"noprogress": io.ErrNoProgress,
	"shortbuf":   io.ErrShortBuffer,
	"shortwrite": io.ErrShortWrite,
	"deadline":   os.ErrDeadlineExceeded,
	"eintr":      syscall.EINTR,
	"eagain":     syscall.EAGAIN,
	"enospc":     syscall.ENOSPC,
	"epipe":      syscall.EPIPE,
	"patherr":    &os.PathError{Op: "read", Path: "p", Err: syscall.EIO},
	"closed":     os.ErrClosed,
	"eof":        io.EOF,
	"invalid":    os.ErrInvalid,
	"notexist":   os.ErrNotExist,
	"exist":      os.ErrExist,
	"permission": os.ErrPermission,
	"nodeadline": os.ErrNoDeadline,
	"canceled":   context.Canceled,
	"expired":    context.DeadlineExceeded,
	"toolong":    bufio.ErrTooLong,
	"shortbufio": bufio.ErrBufferFull,
	"connreset":  &os.SyscallError{Syscall: "read", Err: syscall.ECONNRESET},
	"joined":     errors.Join(io.EOF, &simErr{"simulated failure, joined"}),
	"badutf":     &simErr{"simulated \xff failure: %d\n"},
	"empty":      &simErr{""},
	"eof-text":   &simErr{"EOF"},
	"processed":  os.ErrProcessDone,
}

var readErrNames = []string{"sim", "sim", "eof-wrap", "unexpected", "closedpipe", "noprogress", "shortbuf", "deadline", "eintr", "eagain", "patherr", "closed",
	"invalid", "notexist", "exist", "permission", "nodeadline", "canceled", "expired", "toolong", "connreset", "joined", "badutf", "empty", "eof-text", "processed"}
var writeErrNames = []string{"sim", "sim", "shortwrite", "closedpipe", "deadline", "eintr", "enospc", "epipe", "closed", "eof", "unexpected",
	"eof-wrap", "noprogress", "shortbuf", "eagain", "invalid", "notexist", "permission", "canceled", "expired", "shortbufio", "connreset", "joined", "badutf", "empty", "eof-text"}

func errNamed(name string) error {
	if e, ok := namedErrs[name]; ok {
		return e
	}
	return namedErrs["sim"]
}

type simPanic struct{ what string }

type reader struct {
	guard
	text   string
	d      *Delivery
	off, i int
	failed int
	Reads  int
	Empty  int
	moved  bool  // see seeker
	at     int64 // where it has been moved to
}

func (r *reader) Read(b []byte) (int, error) {
	r.enter()
	defer r.leave()
	r.Reads++
	if r.d.Slow > 0 {
		simrt.Elapse(r.d.Slow)
	}
	if r.d.Nest {
		nested(r.Reads)
	}
	if len(b) == 0 {
		return 0, nil
	}
	fail := r.d.FailAt >= 0 && r.off >= r.d.FailAt && (r.failed == 0 || !r.d.Once)
	if fail && !r.d.With {
		return 0, r.fail()
	}
	want := len(b)
	if len(r.d.Chunks) > 0 {
		want = r.d.Chunks[r.i%len(r.d.Chunks)]
		r.i++
		if want == 0 {
			r.Empty++
			return 0, nil
		}
	}
	if want > len(b) {
		want = len(b)
	}
	if r.d.FailAt > r.off && want > r.d.FailAt-r.off && (r.failed == 0 || !r.d.Once) {
		want = r.d.FailAt - r.off
	}
	n := copy(b[:want], r.text[r.off:])
	r.off += n
	if r.d.Scratch {
		for k := n; k < len(b) && k < n+600; k++ {
			b[k] = "(=>x) \n/_"[k%9]
		}
	}
	if r.d.FailAt >= 0 && r.off >= r.d.FailAt && r.d.With && (r.failed == 0 || !r.d.Once) {
		return n, r.fail()
	}
	pending := r.d.FailAt >= 0 && r.off >= r.d.FailAt && (r.failed == 0 || !r.d.Once)
	if r.off == len(r.text) && !pending && (n == 0 || r.d.Join) {
		return n, io.EOF
	}
	return n, nil
}

func (r *reader) fail() error {
	r.failed++
	if r.d.Err == "panic" {
		panic(simPanic{"reader"})
	}
	return errNamed(r.d.Err)
}

type writer struct {
	guard
	w      *Writer
	got    []byte
	failed int
	after  int // calls after the first failure
	calls  int
	held   func() []byte // see settle
}

func (w *writer) Write(b []byte) (int, error) {
	w.enter()
	defer w.leave()
	w.calls++
	if w.w.Slow > 0 {
		simrt.Elapse(w.w.Slow)
	}
	if w.failed > 0 {
		w.after++
	}
	if w.w.Nest {
		nested(w.calls)
	}
	if w.w.FailAt >= 0 && len(w.got)+len(b) > w.w.FailAt && (w.failed == 0 || !w.w.Once) {
		w.failed++
		if w.w.Err == "panic" {
			panic(simPanic{"writer"})
		}
		n := 0
		if w.w.All {
			n = len(b)
		} else if w.w.Partial {
			n = w.w.FailAt - len(w.got)
			if n < 0 {
				n = 0
			}
		}
		w.got = append(w.got, b[:n]...)
		return n, errNamed(w.w.Err)
	}
	w.got = append(w.got, b...)
	return len(b), nil
}

// nested makes library calls from inside a callback.
func nested(k int) {
	if k != 1 && k != 2 && k != 3 && k != 7 && k != 30 {
		return
	}
	f, err := parse.String("(Add(8|16) x (Neg(8|16) y)) => (Sub(8|16) x y)")
	if (k == 3 || k == 7) && err == nil {
		_ = ast.Contains(f, func(n ast.Node) bool { return n == ast.Variable("y") })
		_ = rules.HasBinding(f.Rules[0])
		_, _ = ast.Dump(f)
		return
	}
	if err == nil {
		if k%2 == 0 {
			_, _ = printer.Bytes(f)
		} else {
			_ = pass.ExpandAlternates(f)
			for _, r := range f.Rules {
				_, _ = smt2.Generate(r)
			}
		}
	}
}

// Out is the observable outcome of a call.
type Out struct {
	Kind string // ok error panic
	Err  string
	Val  uint64
	Text string
	ret  interface{} // what was returned, if anything
	err  error
}

func (o Out) eq(p Out) bool { return o.Kind == p.Kind && o.Err == p.Err && o.Val == p.Val }

func (o Out) String() string {
	switch o.Kind {
	case "ok":
		return "ok " + clip(o.Text, 700)
	}
	return o.Kind + " " + clip(o.Err, 700)
}

// world is what the operations of one task can reach.
type world struct {
	c      *Case
	own    map[int]*ast.File
	shared []*ast.File
	proc   *kern.Proc
	n      int // trace labels for files
	w      *writer
	f      *os.File // destination, if a file
	r      *reader
	v      *guard // of the visitor
	src    *guard // of a source of the standard library
	dst    *guard // of a destination that is a file
	rets   []retained
}

type retained struct {
	op  int
	v   interface{}
	fp  uint64
	fam int
}

func newWorld(c *Case, shared []*ast.File) *world {
	return &world{c: c, own: map[int]*ast.File{}, shared: shared}
}

func (w *world) file(s int) *ast.File {
	if s < 0 {
		if -1-s < len(w.shared) {
			return w.shared[-1-s]
		}
		return nil
	}
	return w.own[s]
}

// node picks what an operation works on.
func (w *world) node(op *Op) ast.Node {
	f := w.file(op.S)
	if f == nil {
		return nil
	}
	if op.R == 0 || len(f.Rules) == 0 {
		return f
	}
	r := f.Rules[(op.R-1)%len(f.Rules)]
	x := op.X >> 40
	var v ast.Value
	switch x % 6 {
	case 1:
		v = r.Match
	case 2:
		if s, ok := r.Match.(*ast.SExpr); ok {
			return s.Op
		}
		return r
	case 3:
		v = r.Result
	case 4:
		if r.Condition != nil {
			return r.Condition
		}
		return r
	default:
		return r
	}
	for x /= 6; ; x /= 8 { // further down
		s, ok := v.(*ast.SExpr)
		if !ok || x%8 < 2 {
			return v
		}
		switch {
		case x%8 == 2:
			if p, ok := s.Op.(ast.OpcodeParts); ok && len(p) > 0 {
				return p[len(p)-1]
			}
			return s.Op
		case x%8 == 3 && s.AuxInt != nil:
			return s.AuxInt
		case x%8 == 4 && s.Aux != nil:
			return s.Aux
		}
		if len(s.Args) == 0 {
			return v
		}
		v = s.Args[int(x/64)%len(s.Args)]
	}
}

// tourist is a visitor of its own type, which changes as it goes.
type tourist struct {
	guard
	x       uint64
	k       int
	panicAt int
	nest    bool
	trace   []string
}

type second struct{ *tourist }

func (s second) Visit(n ast.Node) ast.Visitor {
	s.tourist.trace = append(s.tourist.trace, "second")
	s.tourist.Visit(n)
	return s
}

func (t *tourist) Visit(n ast.Node) ast.Visitor {
	t.enter()
	defer t.leave()
	t.k++
	if t.panicAt > 0 && t.k == t.panicAt {
		panic(simPanic{"visitor"})
	}
	if t.nest {
		nested(t.k)
	}
	t.trace = append(t.trace, fmt.Sprintf("%T", n))
	t.x = t.x*6364136223846793005 + 1442695040888963407
	switch t.x >> 60 {
	case 0:
		return nil
	case 1, 2:
		return second{t}
	}
	return t
}

func (w *world) rule(op *Op) *ast.Rule {
	f := w.file(op.S)
	if f == nil || len(f.Rules) == 0 {
		return nil
	}
	return f.Rules[op.R%len(f.Rules)]
}

func okv(v interface{}) Out { return Out{Kind: "ok", Val: fp(v), Text: show(v), ret: v} }

func of(v interface{}, err error) Out {
	if err != nil {
		o := Out{Kind: "error", Err: err.Error(), err: err}
		return o
	}
	return okv(v)
}

func parsed(f *ast.File, err error) Out {
	if err != nil && f != nil {
		return Out{Kind: "error", Err: "both a result and an error: " + err.Error(), err: err}
	}
	return of(f, err)
}

// do performs one call and returns what the caller can observe of it.
func (w *world) do(op *Op) (out Out) {
	defer func() {
		if w.f != nil {
			w.proc.Faults = nil
			if err := w.f.Close(); errors.Is(err, os.ErrClosed) {
				w.dst.closed++
			}
			w.f = nil
		}
		w.w.settle()
	}()
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(simPanic); ok {
				out = Out{Kind: "panic", Err: fmt.Sprintf("%T", e)}
				return
			}
			out = Out{Kind: "panic", Err: fmt.Sprint(e)}
		}
	}()
	w.w, w.r, w.v, w.src, w.dst = nil, nil, nil, nil, nil
	text := func() string {
		if op.T >= 0 && op.T < len(w.c.Texts) {
			return w.c.Texts[op.T].String()
		}
		return ""
	}
	dst := func() io.Writer {
		wr := op.W
		if wr == nil {
			wr = &Writer{FailAt: -1}
		}
		if wr.file() {
			w.proc.Faults, w.proc.M.Cap = nil, -1
			f, err := os.Create("/out")
			if err == nil && wr.As == "rdonly" {
				f.Close()
				f, err = os.Open("/out")
			}
			if err != nil {
				panic("harness: no destination: " + err.Error())
			}
			w.f, w.dst = f, &guard{}
			w.proc.Faults = cloneFaults(op.Faults)
			if op.Cap > 0 {
				w.proc.M.Cap = op.Cap - 1
			}
			if wr.As == "closed" {
				f.Close()
			}
			return f
		}
		w.w = &writer{w: wr}
		return w.w.as()
	}
	wrote := func(err error) Out {
		w.w.settle()
		var got []byte
		if w.f != nil {
			got = append(got, w.proc.M.Lookup("/out").Data...)
		} else {
			got = w.w.got
		}
		o := of(got, err)
		if err != nil {
			o.Val, o.Text = fp(got), string(got)
		}
		return o
	}
	switch op.K {
	case "string":
		return parsed(parse.String(text()))
	case "reader":
		rd, done, err := w.source(op, text())
		if err != nil {
			panic("harness: no source: " + err.Error())
		}
		f, err := parse.Reader(op.name(), rd)
		if w.src != nil {
			w.src.ok = err == nil && len(f.Rules) > 0
		}
		done()
		o := parsed(f, err)
		o.Err = rename(o.Err, op.name())
		return o
	case "file":
		// Few names, so that they are met again with another content.
		name := "/in/" + fileNames[op.Name%len(fileNames)]
		w.putSource(name, text(), op.D)
		w.proc.In[name] = true
		w.proc.Faults = cloneFaults(op.Faults)
		o := parsed(parse.File(name))
		o.Err = rename(o.Err, name)
		return o
	case "load": // parse into an own slot
		f, err := parse.String(text())
		delete(w.own, op.S)
		if err == nil {
			w.own[op.S] = f
		}
		return parsed(f, err)
	case "expand":
		f := w.file(op.S)
		if f == nil {
			return okv(nil)
		}
		if err := pass.ExpandAlternates(f); err != nil {
			o := of(nil, err)
			o.Val = fp(f)
			return o
		}
		return okv(f)
	case "sleep":
		time.Sleep(time.Duration(op.X))
		return okv(nil)
	case "churn":
		if s := churn(op.X); s != "" {
			return Out{Kind: "drift", Err: s}
		}
		return okv(nil)
	case "poison":
		poison(w.file(op.S), newR(op.X, "poison"))
		return okv(nil)
	case "mutate":
		f := w.file(op.S)
		if f != nil {
			mutate(f, newR(op.X, "mutate"))
		}
		return okv(nil)
	}
	n := w.node(op)
	if n == nil {
		return okv(nil)
	}
	switch op.K {
	case "fprint":
		return wrote(printer.Fprint(dst(), n))
	case "fdump":
		return wrote(ast.Fprint(dst(), n))
	case "bytes":
		return of(printer.Bytes(n))
	case "dump":
		s, err := ast.Dump(n)
		return of(s, err)
	case "print", "aprint":
		w.proc.Faults = cloneFaults(op.Faults)
		at := len(w.proc.Stdout)
		var err error
		if op.W != nil && op.W.As == "closed" {
			out := os.Stdout
			defer func() { os.Stdout = out }()
			os.Stdout = os.NewFile(99, "/dev/stdout")
			os.Stdout.Close()
		}
		if op.K == "print" {
			err = printer.Print(n)
		} else {
			err = ast.Print(n)
		}
		got := w.proc.Stdout[at:]
		o := of(append([]byte(nil), got...), err)
		if err != nil {
			o.Val, o.Text = fp(got), string(got)
		}
		return o
	case "walk":
		t := &tourist{x: op.X, panicAt: op.Panic, nest: op.Nest}
		w.v = &t.guard
		ast.Walk(t, n)
		return okv(t.trace)
	case "inspect":
		w.v = &guard{}
		v := w.v
		var trace []string
		k := 0
		x := op.X
		ast.Inspect(n, func(m ast.Node) bool {
			v.enter()
			defer v.leave()
			k++
			if op.Panic > 0 && k == op.Panic {
				panic(simPanic{"visitor"})
			}
			if op.Nest {
				nested(k)
			}
			trace = append(trace, fmt.Sprintf("%T", m))
			x = x*6364136223846793005 + 1442695040888963407
			return op.X&1 == 0 || x>>60 != 0
		})
		return okv(trace)
	case "contains":
		k := 0
		w.v = &guard{}
		v := w.v
		b := ast.Contains(n, func(m ast.Node) bool {
			v.enter()
			defer v.leave()
			k++
			if op.Panic > 0 && k == op.Panic {
				panic(simPanic{"visitor"})
			}
			x, ok := m.(ast.Variable)
			return ok && x == ast.Variable([]string{"x", "y", "z", "c"}[op.X%4])
		})
		return okv(b)
	case "has":
		r := w.rule(op)
		if r == nil {
			return okv(nil)
		}
		return okv([]bool{rules.HasBinding(r), rules.HasType(r), rules.HasAux(r), rules.HasAuxInt(r), rules.HasEllipsis(r), rules.HasTrailing(r)})
	case "generate":
		r := w.rule(op)
		if r == nil {
			return okv(nil)
		}
		return of(smt2.Generate(r))
	}
	panic("harness: unknown operation " + op.K)
}

// churn makes many small calls with different arguments that all have the same
// structure, so that each outcome follows from the first. It returns the first
// that does not.
func churn(x uint64) string {
	n := []int{40, 130, 260, 520, 1030}[x%5]
	kind := x >> 8
	if kind>>16%3 == 0 {
		return abort(x, n)
	}
	first := ""
	for i := 0; i < n; i++ {
		v := fmt.Sprintf("v%04d", i)
		switch kind >> 4 % 4 {
		case 1:
			v = fmt.Sprintf("%c%cv%c%c", 'a'+i%26, 'z'-i/26%26, '0'+i%10, 'A'+i/7%26)
		case 2:
			v = fmt.Sprintf("w%04d", i*7919%9973)
		}
		var s string
		switch kind % 10 {
		case 6, 7:
			s = "(Neg8 {f(1)} [c-1] x y) && c > 1 && d < 2 => @b (Op(8|16) x <t> (Neg16 y:(Neg32 z)) ...)\n"
			old := []string{"f", "1)", "c-", "1]", "x y", "y)", "c >", "> 1", "d", "2", "@b", "Op", "8|", "16|", "x <", "t>", "Neg16", "y:", "Neg32", "z", "Neg8"}[kind>>24%21]
			w := strings.Trim(old, ">|)]-:@ <y")
			if w == "" {
				w = "y"
			}
			s = strings.Replace(s, old, strings.Replace(old, w, v, 1), 1)
		case 0:
			s = "(Neg8 " + v + ") => " + v
		case 1:
			s = "(Op" + v + " x) && " + v + " => @" + v + " (Op" + v + " <" + v + "> x)"
		case 2:
			s = "(Neg(8|16|" + v + ") x) => x"
		case 3:
			s = v + ":(Neg8 {" + v + "} [" + v + "] x) => x"
		case 4:
			s = "(Neg8 x) => @" + v + " x"
		default:
			s = "(Neg8 " + v
		}
		got := ""
		f, err := parse.String(s)
		if err != nil {
			got = err.Error()
		} else {
			var b []byte
			switch kind >> 8 % 6 {
			case 0:
				b, err = printer.Bytes(f)
			case 4, 5: // piece by piece
				for _, r := range f.Rules {
					ast.Inspect(r, func(n ast.Node) bool {
						var c []byte
						switch n.(type) {
						case *ast.Rule, ast.Value, ast.Op:
							c, err = printer.Bytes(n)
						}
						b = append(append(b, c...), '\n')
						if s, ok := n.(*ast.SExpr); ok {
							for _, x := range []*ast.Expr{s.Aux, s.AuxInt} {
								if x != nil {
									c, err = printer.Bytes(x)
									b = append(append(b, c...), '\n')
								}
							}
						}
						return true
					})
					if r.Condition != nil {
						c, e := printer.Bytes(r.Condition)
						b, err = append(b, c...), e
					}
				}
			case 1:
				err = pass.ExpandAlternates(f)
				d, _ := ast.Dump(f)
				b = []byte(d)
			case 2:
				b, err = smt2.Generate(f.Rules[0])
			case 3:
				d, e := ast.Dump(f)
				b, err = []byte(d), e
			}
			got = fmt.Sprint(string(b), err)
		}
		got = strings.ReplaceAll(got, v, "NAME_")
		if i == 0 {
			first = got
		} else if got != first {
			return fmt.Sprintf("call %d of many with equal structure (%s): with NAME_ for the name that differs, the outcome of the first is %s, of this one %s", i, s, clip(first, 500), clip(got, 500))
		}
	}
	return ""
}

// abort makes many calls of one kind that fail or are aborted by their caller,
// each in the same way. It returns the first whose outcome is not that of the
// first.
func abort(x uint64, n int) string {
	const text = "(Neg(8|16) x:(Foo <t> [c] {s} y)) && c > 1 => (Bar [c+1] y)\n(Neg8 x) => x\n"
	kind, at := x>>8&0xff, int(x>>32%12)
	f, _ := parse.String(text)
	if f == nil {
		return ""
	}
	odd, _ := parse.String("(Neg8 x) => x\n(Neg(8|16) x) => (Foo(1|2|3) x)\n")
	if odd == nil {
		return ""
	}
	one := func(i int) (out string) {
		defer func() {
			if e := recover(); e != nil {
				out = fmt.Sprintf("panic: %T", e)
				if _, ok := e.(simPanic); !ok {
					out = fmt.Sprintf("panic: %v", e)
				}
			}
		}()
		var err error
		wr := &Writer{FailAt: at, Err: "sim", Partial: x>>20&1 == 0}
		if x>>21&3 == 0 {
			wr.Err = "panic"
		}
		rd := &Delivery{FailAt: at, Err: "sim", Chunks: []int{5}}
		if x>>21&3 == 0 {
			rd.Err = "panic"
		}
		k := 0
		visit := func(ast.Node) bool {
			if k++; k > at%6 {
				panic(simPanic{"visitor"})
			}
			return true
		}
		switch kind % 12 {
		case 0:
			err = printer.Fprint((&writer{w: wr}).as(), f)
		case 1:
			err = ast.Fprint((&writer{w: wr}).as(), f)
		case 2, 3:
			_, err = parse.Reader("name", &reader{text: text, d: rd})
		case 4:
			ast.Inspect(f, visit)
		case 5:
			ast.Contains(f, visit)
		case 6:
			_, err = parse.File("/nowhere")
		case 7:
			_, err = parse.String("(Neg8 x")
		case 8:
			err = pass.ExpandAlternates(odd)
		case 9:
			if g, _ := parse.String([]string{"(Neg8 (Foo y)) => y", "(Add8 x (Neg8 (Com16 (Or8 x 3)))) => x", "(Add8 x) => x", "x => x", "(Neg8 x:(Neg8 x)) => x", text}[x>>24%6]); g != nil {
				_, err = smt2.Generate(g.Rules[0])
			}
		case 10:
			_, err = printer.Bytes(&ast.Rule{Match: ast.Variable("x"), Result: nil})
		default:
			_, err = parse.File("/")
		}
		return fmt.Sprint(err)
	}
	first := ""
	for i := 0; i < n; i++ {
		got := one(i)
		if i == 0 {
			first = got
		} else if got != first {
			return fmt.Sprintf("call %d of many equal ones that fail: the outcome of the first is %s, of this one %s", i, clip(first, 500), clip(got, 500))
		}
	}
	return ""
}

// stateful reports whether op changes the slot it works on.
func (op *Op) stateful() bool {
	return op.K == "load" || op.K == "expand" || op.K == "mutate" || op.K == "poison"
}

// mutate changes a tree the way a caller owning it may.
func mutate(f *ast.File, r *R) {
	if r.p(55) {
		mutateOne(f, r)
		return
	}
	var walk func(v ast.Value) ast.Value
	walk = func(v ast.Value) ast.Value {
		switch s := v.(type) {
		case *ast.SExpr:
			switch r.n(6) {
			case 0:
				s.Op = ast.Opcode("Mutated")
			case 1:
				s.Binding = "mutated"
			case 2:
				s.Args = append(s.Args[:len(s.Args):len(s.Args)], ast.Variable("mutated"))
			case 3:
				s.Trailing, s.Ellipsis = !s.Trailing, !s.Ellipsis
			case 4:
				s.AuxInt = &ast.Expr{Expr: &goast.Ident{Name: "mutated"}}
			}
			switch o := s.Op.(type) {
			case ast.OpcodeParts:
				for _, p := range o {
					if a, ok := p.(ast.OpcodeAlt); ok {
						for i := range a {
							a[i] += "Mut"
						}
					}
				}
			}
			for _, e := range []*ast.Expr{s.AuxInt, s.Aux} {
				if e != nil {
					walk(e)
				}
			}
			for i := range s.Args {
				s.Args[i] = walk(s.Args[i])
			}
		case *ast.Expr:
			goast.Inspect(s.Expr, func(n goast.Node) bool {
				switch e := n.(type) {
				case *goast.Ident:
					e.Name += "Mut"
				case *goast.BasicLit:
					e.Value += "0"
				}
				return true
			})
		case ast.Variable:
			return s + "Mut"
		}
		return v
	}
	for _, x := range f.Rules {
		x.Match = walk(x.Match)
		x.Result = walk(x.Result)
		if x.Condition != nil {
			walk(x.Condition)
		}
		x.Block += "mut"
	}
	if len(f.Rules) > 1 && r.p(50) {
		i := r.n(len(f.Rules))
		f.Rules[0], f.Rules[i] = f.Rules[i], f.Rules[0]
	}
}

// mutateOne makes one small change somewhere in a tree.
func mutateOne(f *ast.File, r *R) {
	var all []func()
	var walk func(v ast.Value)
	expr := func(e *ast.Expr) {
		if e == nil {
			return
		}
		all = append(all, func() { e.Expr = &goast.Ident{Name: "other"} }, func() { e.Expr = &goast.ParenExpr{X: e.Expr} })
		goast.Inspect(e.Expr, func(n goast.Node) bool {
			switch e := n.(type) {
			case *goast.Ident:
				all = append(all, func() { e.Name = flip(e.Name) })
			case *goast.BasicLit:
				all = append(all, func() { e.Value = flip(e.Value) })
			}
			return true
		})
	}
	walk = func(v ast.Value) {
		switch s := v.(type) {
		case *ast.SExpr:
			switch o := s.Op.(type) {
			case ast.Opcode:
				all = append(all, func() { s.Op = ast.Opcode(flip(string(o))) })
			case ast.OpcodeParts:
				for i, p := range o {
					i := i
					switch p := p.(type) {
					case ast.Opcode:
						all = append(all, func() { o[i] = ast.Opcode(flip(string(p))) })
					case ast.OpcodeAlt:
						for k := range p {
							k := k
							all = append(all, func() { p[k] = ast.Opcode(flip(string(p[k]))) })
						}
					}
				}
			}
			all = append(all,
				func() { s.Binding = "b" },
				func() { s.Type = "t" },
				func() { s.Ellipsis = !s.Ellipsis },
				func() { s.Trailing = !s.Trailing },
				func() { s.Aux, s.AuxInt = s.AuxInt, s.Aux },
				func() { s.Args = append([]ast.Value{}, s.Args...) },
				func() { s.Args = append(make([]ast.Value, 0, len(s.Args)+4), s.Args...) },
				func() { s.Binding = " b" },
				func() { s.Type = ast.Type([]string{" ", "\t", " t", "*t ", "T"}[len(all)%5]) },
				func() { s.Op = ast.Opcode([]string{"", " ", " Neg8", "Neg8 ", "neg8", "(8)"}[len(all)%6]) },
				func() { s.Args = append(s.Args, ast.Variable("")) },
				func() { s.Args = append(s.Args, ast.Variable(" x")) },
				func() { s.Args = append(s.Args, ast.Variable("_")) })
			expr(s.AuxInt)
			expr(s.Aux)
			for i := range s.Args {
				i := i
				if x, ok := s.Args[i].(ast.Variable); ok {
					all = append(all, func() { s.Args[i] = ast.Variable(flip(string(x))) })
				}
				if i > 0 {
					all = append(all, func() { s.Args[0], s.Args[i] = s.Args[i], s.Args[0] })
				}
				walk(s.Args[i])
			}
		case *ast.Expr:
			expr(s)
		}
	}
	for _, x := range f.Rules {
		x := x
		walk(x.Match)
		walk(x.Result)
		if x.Condition != nil {
			expr(x.Condition)
		}
		all = append(all, func() { x.Block = "b" }, func() { x.Block = " b \n" }, func() { x.Block = "\n" }, func() { x.Match, x.Result = x.Result, x.Match })
	}
	if len(all) > 0 {
		all[r.n(len(all))]()
	}
}

// flip changes a string without changing its length.
func flip(s string) string {
	if s == "" {
		return "x"
	}
	b := []byte(s)
	switch c := &b[len(b)-1]; {
	case *c >= '0' && *c <= '9':
		*c = '0' + (*c-'0'+3)%10
	case *c == 'x':
		*c = 'y'
	default:
		*c = 'x'
	}
	return string(b)
}

func cloneFaults(fs []*kern.Fault) []*kern.Fault {
	var out []*kern.Fault
	for _, f := range fs {
		g := kern.Fault{Call: f.Call, Class: f.Class, Path: f.Path, Nth: f.Nth, Kind: f.Kind, Arg: f.Arg, Perm: f.Perm}
		out = append(out, &g)
	}
	return out
}

func isErr(err, cause error) bool { return err != nil && errors.Is(err, cause) }
