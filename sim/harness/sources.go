package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"strings"

	"verif.local/sim/kern"
	"verif.local/sim/simrt"
)

// guard notices when a callback is used by two at a time, or after the call it
// was given to has ended.
type guard struct {
	busy, over    bool
	ok            bool // the call has succeeded
	overlap, late int
	closed        int
	repositioned  bool
}

func (g *guard) enter() {
	if g.busy {
		g.overlap++
	}
	if g.over {
		g.late++
	}
	g.busy = true
	simrt.Point()
}

func (g *guard) leave() { g.busy = false }

func (g *guard) abused() string {
	switch {
	case g.late > 0:
		return fmt.Sprintf("was used %d times after the call had ended", g.late)
	case g.overlap > 0:
		return "was used while an earlier use of it was still going on"
	case g.closed > 0:
		return "was closed"
	case g.repositioned:
		return "was repositioned"
	}
	return ""
}

// Sources present a reader in other ways: with more methods, or wrapped.

// chatty has methods whose names other readers use for other things: nothing
// may be concluded from them.
type chatty struct {
	*reader
	n int
}

func (c chatty) Len() int                                  { return c.n }
func (c chatty) Size() int64                               { return int64(c.n) }
func (c chatty) Seek(off int64, whence int) (int64, error) { return 0, errors.New("cannot seek") }
func (c chatty) Stat() (os.FileInfo, error)                { return nil, errors.New("cannot stat") }
func (c chatty) Name() string                              { return "/in/not-this-file" }
func (c chatty) Close() error                              { c.closed++; return nil }
func (c chatty) Reset(s string)                            { c.closed++ }
func (c chatty) ReadAt(b []byte, off int64) (int, error)   { return 0, errors.New("cannot read there") }
func (c chatty) String() string                            { return "(Neg8 x) => x" }
func (c chatty) Bytes() []byte                             { return []byte("(Neg8 x) => x") }
func (c chatty) Peek(n int) ([]byte, error)                { return nil, bufio.ErrBufferFull }
func (c chatty) Buffered() int                             { return 0 }

// closer only adds Close.
type closer struct{ *reader }

func (c closer) Close() error { c.closed++; return nil }

// seeker can be repositioned; it stands after the text before.
type seeker struct {
	*reader
	before string
}

func (s seeker) Seek(off int64, whence int) (int64, error) {
	k := len(s.before)
	at := int64(k + s.off)
	if s.moved {
		at = s.at
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += at
	case io.SeekEnd:
		off += int64(k + len(s.text))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	s.moved, s.at = off != int64(k+s.off), off
	return off, nil
}

func (s seeker) Read(b []byte) (int, error) {
	if !s.moved {
		return s.reader.Read(b)
	}
	s.repositioned = true
	all := s.before + s.text
	if s.at >= int64(len(all)) {
		return 0, io.EOF
	}
	n := copy(b, all[s.at:])
	s.at += int64(n)
	return n, nil
}

func (s seeker) ReadAt(b []byte, off int64) (int, error) {
	all := s.before + s.text
	if off >= int64(len(all)) {
		return 0, io.EOF
	}
	n := copy(b, all[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (s seeker) Size() int64 { return int64(len(s.before) + len(s.text)) }
func (s seeker) Len() int    { return len(s.text) - s.off }

// writerTo is a reader that can also write itself.
type writerTo struct{ *reader }

func (w writerTo) WriteTo(dst io.Writer) (int64, error) {
	var total int64
	b := make([]byte, 97)
	for {
		n, err := w.reader.Read(b)
		if n > 0 {
			m, werr := dst.Write(b[:n])
			total += int64(m)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

// byteReader is a reader that also reads bytes and runes.
type byteReader struct{ *bufio.Reader }

// wholeKinds deliver a text as it is, failures are not possible.
var wholeKinds = []string{"bytes", "strings", "buffer", "section", "osfile", "osfile", "iopipe", "iopipe"}

// streamKinds present a reader that may fragment and fail.
var streamKinds = []string{"", "", "", "", "bufio", "bufio16", "multi", "tee", "chatty", "seeker", "closer", "writerto", "byte", "nop"}

// source presents the text; done is called when the call has returned, before
// its result is examined.
func (w *world) source(op *Op, text string) (r io.Reader, done func(), err error) {
	d := op.D
	if d == nil {
		d = &Delivery{FailAt: -1}
	}
	done = func() {}
	switch d.As {
	case "bytes", "strings", "buffer", "section", "osfile", "iopipe":
		w.src = &guard{}
	}
	src := w.src
	// A source that stands at its beginning again has been reset.
	reset := func(left int) {
		if left == len(text) && len(strings.TrimSpace(text)) > 0 {
			src.repositioned = src.ok
		}
	}
	switch d.As {
	case "bytes", "section":
		b := []byte(text)
		done = func() {
			for i := range b {
				b[i] ^= 0x13
			}
		}
		if d.As == "section" {
			c := append([]byte("(=> "), b...)
			return io.NewSectionReader(bytes.NewReader(append(c, "@@@"...)), 4, int64(len(b))), func() {}, nil
		}
		br := bytes.NewReader(b)
		scrub := done
		return br, func() { reset(br.Len()); scrub() }, nil
	case "strings":
		sr := strings.NewReader(text)
		return sr, func() { reset(sr.Len()) }, nil
	case "iopipe":
		pr, pw := io.Pipe()
		simrt.Spawn()
		go func() {
			simrt.Point()
			for at, n := 0, 0; at < len(text); at += n {
				n = min(len(text)-at, 1+int(op.X>>8%700))
				if _, err := pw.Write([]byte(text[at : at+n])); err != nil {
					return
				}
			}
			pw.Close()
		}()
		return pr, func() {
			// An end that has not been closed says so.
			var b [1]byte
			if _, err := pr.Read(b[:]); err == io.ErrClosedPipe {
				src.closed++
			}
			pr.Close()
		}, nil
	case "buffer":
		b := append(make([]byte, 0, len(text)+700), "=>("...)
		buf := bytes.NewBuffer(append(b, text...))
		buf.Next(3)
		return buf, func() {
			buf.Reset()
			junk := bytes.Repeat([]byte("(Junk y)"), len(text)/8+80)
			buf.Write(junk[:min(len(junk), buf.Cap())])
		}, nil
	case "osfile": // from the middle of a file
		skip := "(Skipped x) => => x\n"
		w.n++
		name := fmt.Sprintf("/in/os%d", w.n)
		w.proc.M.Put(name, []byte(skip+text), 0o644)
		w.proc.In[name] = true
		w.proc.Faults = nil
		f, err := os.Open(name)
		if err != nil {
			return nil, nil, err
		}
		if _, err := f.Seek(int64(len(skip)), io.SeekStart); err != nil {
			return nil, nil, err
		}
		w.proc.Faults = cloneFaults(op.Faults)
		return f, func() {
			w.proc.Faults = nil
			if at, err := f.Seek(0, io.SeekCurrent); err == nil && at <= int64(len(skip)) {
				reset(len(text))
			}
			if err := f.Close(); errors.Is(err, os.ErrClosed) {
				src.closed++
			}
		}, nil
	}
	w.r = &reader{text: text, d: d}
	switch d.As {
	case "bufio":
		return bufio.NewReader(w.r), done, nil
	case "bufio16":
		return bufio.NewReaderSize(w.r, 16), done, nil
	case "byte":
		return byteReader{bufio.NewReaderSize(w.r, 40)}, done, nil
	case "multi":
		k := len(text) / 3
		if d.FailAt >= 0 && d.FailAt < k {
			k = d.FailAt
		}
		e := *d
		if e.FailAt >= 0 {
			e.FailAt -= k
		}
		w.r = &reader{text: text[k:], d: &e}
		return io.MultiReader(strings.NewReader(text[:k/2]), strings.NewReader(""), strings.NewReader(text[k/2:k]), w.r), done, nil
	case "tee":
		return io.TeeReader(w.r, io.Discard), done, nil
	case "limit":
		if op.X>>5%3 == 0 { // the limit lies behind the end
			return io.LimitReader(w.r, int64(len(text))+1+int64(op.X>>8%5000)), done, nil
		}
		w.r.text += "(=> more"
		return io.LimitReader(w.r, int64(len(text))), done, nil
	case "chatty":
		return chatty{w.r, []int{0, 1, len(text) / 2, len(text) + 5}[op.X%4]}, done, nil
	case "seeker":
		return seeker{w.r, []string{"", "", "(=> ", "(Neg8 x) => x\n"}[op.X%4]}, done, nil
	case "closer":
		return closer{w.r}, done, nil
	case "writerto":
		return writerTo{w.r}, done, nil
	case "nop":
		return io.NopCloser(w.r), done, nil
	}
	return w.r, done, nil
}

// Destinations with more methods.

type stringWriter struct{ *writer }

func (s stringWriter) WriteString(x string) (int, error) { return s.Write([]byte(x)) }

type richWriter struct{ *writer }

func (s richWriter) WriteString(x string) (int, error) { return s.Write([]byte(x)) }
func (s richWriter) WriteByte(c byte) error {
	_, err := s.Write([]byte{c})
	return err
}
func (s richWriter) WriteRune(c rune) (int, error) { return s.Write([]byte(string(c))) }
func (s richWriter) Close() error                  { s.closed++; return nil }
func (s richWriter) Reset()                        { s.closed++ }
func (s richWriter) Truncate(n int)                { s.closed++ }
func (s richWriter) Len() int                      { return 3 }
func (s richWriter) Name() string                  { return "/dev/stdout" }
func (s richWriter) Fd() uintptr                   { return 1 }

// writerKinds are the forms of a destination; "file" is a file of the
// simulated system.
var writerKinds = []string{"", "", "", "string", "rich"}

func (w *writer) as() io.Writer {
	switch w.w.As {
	case "buffer": // with unread content
		b := bytes.NewBufferString("...(=> before\n")
		b.Next(3)
		w.held = func() []byte { return b.Bytes() }
		return b
	case "builder":
		b := &strings.Builder{}
		b.WriteString(heldBefore)
		w.held = func() []byte { return []byte(b.String()) }
		return b
	case "bufio":
		var sink bytes.Buffer
		b := bufio.NewWriterSize(&sink, 64)
		b.WriteString(heldBefore)
		w.held = func() []byte {
			b.Flush()
			return sink.Bytes()
		}
		return b
	case "string":
		return stringWriter{w}
	case "rich":
		return richWriter{w}
	}
	return w
}

const heldBefore = "(=> before\n"

// settle takes over what a destination of the standard library holds.
func (w *writer) settle() {
	if w == nil || w.held == nil {
		return
	}
	b := w.held()
	w.held = nil
	if !bytes.HasPrefix(b, []byte(heldBefore)) {
		w.repositioned = true
		w.got = append(w.got, b...)
		return
	}
	w.got = append(w.got, b[len(heldBefore):]...)
}

// healthyKinds cannot fail.
var healthyKinds = []string{"buffer", "buffer", "builder", "bufio"}

// present chooses how a delivery's text is presented.
func present(r *R, op *Op, mayFail bool) {
	op.X, op.Name = r.u64(), 0
	if r.p(30) {
		op.Name = r.n(len(sourceNames))
	}
	switch {
	case r.p(45):
	case !mayFail && r.p(40):
		op.D.As = wholeKinds[r.n(len(wholeKinds))]
		if op.D.As == "osfile" {
			op.Faults = benignFileFaults(r)
		}
	case !mayFail && r.p(12):
		op.D.As = "limit"
	default:
		op.D.As = streamKinds[r.n(len(streamKinds))]
	}
	if r.p(8) {
		op.D.Slow = int64(r.pickInt(1_000, 1_000_000, 1_000_000_000)) * int64(r.in(1, 90))
	}
}

// fileOp is a file to parse: an ordinary one, or one whose size says nothing.
func fileOp(r *R, faults []*kern.Fault) Op {
	op := Op{K: "file", Faults: faults, Name: r.n(len(fileNames))}
	if r.p(25) {
		op.D = &Delivery{FailAt: -1, As: r.pick("pipe", "nosize", "link")}
	}
	return op
}

// names of files, without the directory.
var fileNames = []string{"f", "g.rules", "100%d.rules", "a b", "-"}

// names of sources; errors begin with them.
var sourceNames = []string{"string", "rules/generic.rules", "a b.rules", "100%d.rules", "-", "é.rules", "x:1:2 (3)", "rules.gz", "http://host/x.txt?a=b", "x.json", "%s%n%!", "C:\\r.rules", "string:", "/in/f1"}

func (op *Op) name() string { return sourceNames[op.Name%len(sourceNames)] }

// rename replaces the source's name at the beginning of each error.
func rename(s, name string) string {
	if name == "string" {
		return s
	}
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, name+":") {
			lines[i] = "string:" + l[len(name)+1:]
		}
	}
	return strings.Join(lines, "\n")
}

// putSource makes the text the content of a file.
func (w *world) putSource(name, text string, d *Delivery) {
	m := w.proc.M
	m.Remove(name)
	if d != nil && d.As == "link" {
		m.PutLink(name, "elsewhere/"+path.Base(name))
	}
	m.Put(name, []byte(text), 0o644)
	w.proc.In[w.proc.Abs(name)] = true
	if d != nil {
		n := m.Lookup(name)
		n.Pipe, n.NoSize = d.As == "pipe", d.As == "nosize"
	}
}
