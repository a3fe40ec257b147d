package main

import (
	"fmt"
	"strings"
)

// Text is a rule text; repetition keeps large ones small in replay files.
type Text []Piece

// Piece is S repeated N times (0 means once).
type Piece struct {
	S string `json:"s"`
	N int    `json:"n,omitempty"`
}

func (t Text) String() string {
	var sb strings.Builder
	for _, p := range t {
		n := p.N
		if n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			sb.WriteString(p.S)
		}
	}
	return sb.String()
}

// gen produces rule texts covering the language's features.
type gen struct {
	r     *R
	alts  int  // number of alternatives used in the current rule
	plain bool // stay within the features a translation accepts
	mis   bool // let one group of alternatives differ in size
	depth int

	alternate int // number of alternative operations in what is written now
}

var widths = []string{"8", "16", "32", "64"}

func (g *gen) ws() string {
	switch g.r.n(12) {
	case 0:
		return "  "
	case 1:
		return "\t"
	case 2:
		return "\n"
	case 3:
		if g.r.p(30) {
			return " // " + g.r.pick("note", "x => y", "(Add8 x y)", "é") + "\n\t"
		}
		return " \n "
	}
	return " "
}

func (g *gen) opt() string {
	if g.r.p(15) {
		return g.ws()
	}
	return ""
}

func (g *gen) variable() string {
	if g.r.p(4) {
		return g.r.pick("nil", "true", "x_", "x__", "n0", "a", "string", strings.Repeat("v", 70))
	}
	return g.r.pick("x", "y", "z", "w", "ptr", "mem", "c", "x1", "yVal", "a_b")
}

func (g *gen) call(d int) string {
	var args []string
	for i, n := 0, g.r.in(1, 3); i < n; i++ {
		if d > 0 && g.r.p(30) {
			args = append(args, g.call(d-1))
		} else if g.r.p(20) {
			args = append(args, "_")
		} else {
			args = append(args, g.variable())
		}
	}
	return g.r.pick("f", "makeJumpTableSym", "logRule", "g2") + "(" + strings.Join(args, g.r.pick(",", ", ")) + ")"
}

// goexpr produces a Go expression of the supported kinds.
func (g *gen) goexpr(d int) string {
	if d <= 0 {
		return g.r.pick("x", "c", "1", "0xff", "int64(c)", "true", "`s`", "'q'", "config.BigEndian", "\"a b\"")
	}
	switch g.r.n(9) {
	case 0:
		return "(" + g.goexpr(d-1) + ")"
	case 1:
		return g.r.pick("!", "-", "^", "&", "*") + g.r.pick("x", "y", "f(x)")
	case 2, 3:
		return g.goexpr(d-1) + g.r.pick("+", " * ", " && ", " || ", " == ", " != ", "<<", ">>", " < ", " >= ", "&", "|", "%") + g.goexpr(d-1)
	case 4:
		return g.r.pick("f", "is32Bit", "canMergeLoad", "a.b.c") + "(" + g.goexpr(d-1) + ")"
	case 5:
		return g.r.pick("f", "symIsRO") + "()"
	case 6:
		return g.r.pick("x.Uses", "config.PtrSize", "a.b.c", "f(x).y", "t.(x)", "x[1]", "func(){}", "[]int{1}")
	case 7:
		return "f(" + g.goexpr(d-1) + ", " + g.goexpr(0) + ")"
	}
	return g.goexpr(0)
}

// safeexpr avoids the constructs the parser refuses, and closing brackets.
func (g *gen) safeexpr(d int) string {
	for i := 0; i < 20; i++ {
		e := g.goexpr(d)
		if !strings.ContainsAny(e, "]}") && !strings.Contains(e, "(x)") && !strings.Contains(e, ".(") && !strings.Contains(e, "=>") {
			return e
		}
	}
	return "c"
}

func (g *gen) opname() string {
	switch g.r.n(10) {
	case 0:
		return g.r.pick("Const64", "Load", "Store", "MOVQstore", "ADDQconst", "Less8U", "Mul32", "Div64u", "Phi", "NoOp", "_x", "0")
	case 1:
		return g.r.pick("AndB", "OrB", "EqB", "NeqB", "Not")
	case 2:
		return g.r.pick("Neg", "Com") + widths[g.r.n(4)]
	}
	return g.r.pick("Add", "Sub", "And", "Or", "Xor") + widths[g.r.n(4)]
}

func (g *gen) altop() string {
	n := g.alts
	if g.mis && g.r.p(60) {
		n += g.r.in(1, 2)
		g.mis = false
	}
	var parts []string
	for i := 0; i < n; i++ {
		parts = append(parts, g.r.pick("8", "16", "32", "64", "Ptr", "F", "a", "Z9"))
	}
	s := g.r.pick("Add", "Sub", "Xor", "Mul", "") + "(" + strings.Join(parts, "|") + ")"
	if g.r.p(20) {
		s += g.r.pick("U", "const")
	}
	if g.r.p(10) {
		parts[0] = "y"
		s += "(" + strings.Join(parts, "|") + ")"
	}
	return s
}

func (g *gen) sexpr(d int) string {
	var sb strings.Builder
	if g.r.p(10) {
		sb.WriteString(g.variable() + ":")
	}
	sb.WriteString("(" + g.opt())
	if g.alts > 1 && g.r.p(50) {
		sb.WriteString(g.altop())
	} else {
		sb.WriteString(g.opname())
	}
	if g.r.p(15) {
		sb.WriteString(g.ws() + "<" + g.r.pick("t", "typ.UInt64", "fe.TypeBool()", "typ.Int64 ") + ">")
	}
	if g.r.p(15) {
		sb.WriteString(g.ws() + "[" + g.safeexpr(g.r.n(3)) + "]")
	}
	if g.r.p(12) {
		sb.WriteString(g.ws() + "{" + g.safeexpr(g.r.n(2)) + "}")
	}
	n := g.r.n(4)
	if g.r.p(2) {
		n = g.r.pickInt(5, 9, 17, 33)
	}
	for i := 0; i < n; i++ {
		if i < 4 {
			sb.WriteString(g.ws() + g.value(d-1))
		} else {
			sb.WriteString(" " + g.value(0))
		}
	}
	if g.r.p(8) {
		sb.WriteString(g.ws() + "...")
	}
	if g.r.p(5) {
		sb.WriteString(g.ws() + "___")
	}
	sb.WriteString(g.opt() + ")")
	return sb.String()
}

func (g *gen) value(d int) string {
	if d > 0 && g.r.p(55) {
		return g.sexpr(d)
	}
	switch g.r.n(8) {
	case 0:
		return "_"
	case 1:
		return g.call(1)
	}
	return g.variable()
}

func (g *gen) pickAlts() {
	g.alts = 1
	if g.r.p(35) {
		g.alts = g.r.in(2, 4)
		if g.r.p(4) {
			g.alts = g.r.pickInt(5, 8, 9, 16, 17, 33)
		}
	}
}

// rule is any rule of the language.
func (g *gen) rule() string {
	g.pickAlts()
	var sb strings.Builder
	sb.WriteString(g.sexpr(g.r.in(1, 3)))
	if g.r.p(30) {
		sb.WriteString(g.r.pick(" && ", "\n\t&& ") + g.safeexpr(g.r.in(0, 3)))
	}
	sb.WriteString(g.r.pick(" => ", "=>", " =>\n\t"))
	if g.r.p(8) {
		sb.WriteString("@" + g.r.pick("x.Block", "b", "y.Block") + " ")
	}
	sb.WriteString(g.value(g.r.in(0, 2)))
	return sb.String()
}

// mismatch is a parsable rule whose alternatives cannot be expanded.
func (g *gen) mismatch() string {
	a := g.r.pick("(Add(8|16) x y)", "(Sub(8|16) (Neg(8|16) x) y)", "(X(1|2) y)")
	b := g.r.pick("(Add(8|16|32) x y)", "(And(a|b|c) x)", "(Or(1|2|3|4) x y)")
	if g.r.p(30) {
		return "(Add8 " + a + " " + b + ") => x"
	}
	return a + " => " + b
}

// term is an expression over the translatable operations of one width.
func (g *gen) term(w string, d int) string {
	if d <= 0 || g.r.p(25) {
		return g.r.pick("x", "y", "z")
	}
	if g.alternate > 0 && g.r.p(60) { // alternatives that are not widths
		ops := []string{"Add", "Sub", "And", "Or", "Xor"}
		if w == "B" {
			ops = []string{"And", "Or", "Eq", "Neq"}
		}
		k := g.r.n(len(ops))
		s := ops[k]
		for i := 1; i < g.alternate; i++ {
			s += "|" + ops[(k+i)%len(ops)]
		}
		return "((" + s + ")" + w + " " + g.term(w, d-1) + " " + g.term(w, d-1) + ")"
	}
	if w == "B" {
		switch g.r.n(3) {
		case 0:
			return "(Not " + g.term(w, d-1) + ")"
		}
		return "(" + g.r.pick("AndB", "OrB", "EqB", "NeqB") + " " + g.term(w, d-1) + " " + g.term(w, d-1) + ")"
	}
	if g.r.p(25) {
		return "(" + g.r.pick("Neg", "Com") + w + " " + g.term(w, d-1) + ")"
	}
	return "(" + g.r.pick("Add", "Sub", "And", "Or", "Xor") + w + " " + g.term(w, d-1) + " " + g.term(w, d-1) + ")"
}

// translatable is a simple rule whose translation succeeds.
func (g *gen) translatable() string {
	w := g.r.pick("8", "16", "32", "64", "B")
	if w != "B" && g.r.p(30) {
		n := g.r.in(2, 4)
		w = "(" + strings.Join(widths[:n], "|") + ")"
	}
	left, right := 0, 0
	if w[0] != '(' && g.r.p(12) {
		n := g.r.in(2, 4)
		switch g.r.n(3) {
		case 0:
			left = n
		case 1:
			right = n
		default:
			left, right = n, n
		}
	}
	defer func() { g.alternate = 0 }()
	g.alternate = left
	lhs := g.term(w, g.r.in(1, 3))
	for !strings.HasPrefix(lhs, "(") {
		lhs = g.term(w, 2)
	}
	g.alternate = right
	return lhs + " => " + g.term(w, g.r.n(3))
}

// untranslatable is a simple rule whose translation fails.
func (g *gen) untranslatable() string {
	return g.r.pick(
		"(Mul32 x y) => (Mul32 y x)", "(Add8 x) => x", "(Div(8|16) x y) => x", "(Add8 x (Add16 y z)) => x",
		"x => y", "(Neg8 x) => (Neg16 x)", "(Not f(x)) => x", "(Unknown) => z", "(Add(8|16|Ptr) x y) => (Add(8|16|Ptr) y x)",
		"(Eq64 x y) => (Eq64 y x)", "(Add64 x y) => (Sub64 x f(y))")
}

// nonsimple is a rule the tool leaves out.
func (g *gen) nonsimple() string {
	return g.r.pick(
		"(Add8 x y) && f(x) => y", "(Add8 x y) => @b.Kind x", "a:(Neg8 x) => x", "(Neg8 <t> x) => x",
		"(Neg8 {s} x) => x", "(Neg8 [c] x) => x", "(Neg8 ...) => (Com8 ...)", "(Neg8 x ___) => x",
		"(Neg8 x) => b:(Com8 x)", "(Neg8 (Com8 [1] x)) => x", "(Neg8 x) => (Com8 (Com8 <t> x))",
		"(Add(8|16) (Neg8 [c] x) y) => (Add(8|16|32) x y)", "(Neg(8|16) x) && c => (Com(8|16) x)", "(Com8 x) => (Neg8 x ...)",
		"(Com8 x) => (Neg8 {d} x)", "(Com8 (Neg8 x ___)) => x")
}

func (g *gen) between() string {
	switch g.r.n(8) {
	case 0:
		return "\n// " + g.r.pick("comment", "(Add8 x y) => x", "=>", strings.Repeat("c", g.r.n(40))) + "\n"
	case 1:
		return "\n\n"
	case 2:
		return "\n\t \r\n"
	}
	return "\n"
}

// toolRules is a text for the command, as a list of rules.
func (g *gen) toolRules(n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		switch k := g.r.n(20); {
		case k < 12:
			out = append(out, g.translatable())
		case k < 15:
			out = append(out, g.untranslatable())
		default:
			out = append(out, g.nonsimple())
		}
	}
	return out
}

func (g *gen) libRules(n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		switch k := g.r.n(20); {
		case k < 11:
			out = append(out, g.rule())
		case k < 16:
			out = append(out, g.translatable())
		case k < 18:
			out = append(out, g.untranslatable())
		case k < 19:
			out = append(out, g.nonsimple())
		default:
			out = append(out, g.mismatch())
		}
	}
	return out
}

func (g *gen) join(rules []string) Text {
	var t Text
	if g.r.p(20) {
		t = append(t, Piece{S: strings.TrimLeft(g.between(), "")})
	}
	for _, r := range rules {
		t = append(t, Piece{S: r}, Piece{S: g.between()})
	}
	return t
}

// odd gives a text features that editors and other systems leave behind.
func (g *gen) odd(t Text) Text {
	var u Text
	switch g.r.n(8) {
	case 0, 1: // line ends of another system
		for _, p := range t {
			u = append(u, Piece{strings.ReplaceAll(p.S, "\n", "\r\n"), p.N})
		}
		return u
	case 2:
		for _, p := range t {
			u = append(u, Piece{strings.ReplaceAll(p.S, "\n", "\r"), p.N})
		}
		return u
	case 3:
		return append(Text{{S: g.r.pick("\ufeff", "\xff\xfe", "#!/usr/bin/ssarules\n", "\x1f\x8b")}}, t...)
	case 4:
		return append(append(u, t...), Piece{S: g.r.pick("\x1a", "\x00", "\f", "\x00\x00\x00", "\u00a0", "\u2028", "\n\\")})
	case 5: // odd characters where layout may be
		k := 0
		if len(t) > 0 {
			k = g.r.n(len(t))
		}
		u = append(append(u, t[:k]...), Piece{S: g.r.pick("\f", "\v", "\u00a0", "\u2003", "\x00", "\r", "\ufeff", "\x7f")})
		return append(u, t[k:]...)
	case 6: // in a comment
		c := "// " + g.r.pick("\xff\xfe", "\u00e9\u2028", "\x00", "\xc3", "\xf0\x9f\x98\x80", "\r", "\ufffd", "%d %s \\n") + "\n"
		return append(Text{{S: c}}, t...)
	}
	// much of the same
	return append(append(u, t...), Piece{S: "(Neg8 x) => " + strings.Repeat(g.r.pick("y", "long_name"), g.r.in(1, 90)) + "\n", N: g.r.in(1, 4)})
}

// sibling is a text that differs from t in one place, of the same length if
// possible: what a cache with too short a key confuses.
func (g *gen) sibling(t Text) Text {
	u := append(Text(nil), t...)
	swap := []string{"Add", "Sub", "Sub", "Add", "And", "Xor", "Xor", "And", "x", "y", "y", "z", "z", "x", "8", "9", "64", "16", "32", "64", " => ", " =>\t", "Neg", "Com", "Com", "Neg", "c", "w", "1", "7"}
	for try := 0; try < 20; try++ {
		if len(u) == 0 {
			break
		}
		i, k := g.r.n(len(u)), g.r.n(len(swap)/2)*2
		n := strings.Count(u[i].S, swap[k])
		if n == 0 {
			continue
		}
		at, rest := g.r.n(n), u[i].S
		pos := 0
		for j := 0; ; j++ {
			q := strings.Index(rest[pos:], swap[k])
			pos += q
			if j == at {
				break
			}
			pos += len(swap[k])
		}
		u[i].S = rest[:pos] + swap[k+1] + rest[pos+len(swap[k]):]
		return u
	}
	return append(u, Piece{S: " "})
}

// malform breaks a text in one place.
func (g *gen) malform(s string) string {
	b := []byte(s)
	at := g.r.n(len(b) + 1)
	switch g.r.n(9) {
	case 0:
		return string(b[:at])
	case 1:
		if at < len(b) {
			return string(b[:at]) + string(b[at+1:])
		}
		return s + "("
	case 2:
		return string(b[:at]) + g.r.pick("(", ")", "=>", "&&", "[", "]", "@", "\x00", "\xff", "|", ":", "é", "\xe2\x80", "\"", "...", "___") + string(b[at:])
	case 3:
		return s + g.r.pick("// no newline", "(Add8 x y)", "=>", "x", "(Add8 x y) => ", ")", "(Add8 x y) && => z", "\xff")
	case 4:
		return strings.Replace(s, "=>", "->", 1)
	case 5:
		return s + "\n(Add8 [" + g.r.pick("1+", ")", "x[1", "func(){", "\"", "a..b", "0x") + "] x) => y\n"
	case 6:
		return s + "\n(Add8 {" + g.r.pick("1 1", "*", "a.", "t.(x)", "x[1:2]", "&&") + "} x) => y\n"
	case 7:
		return s + "\n(Add8 x) && " + g.r.pick("x y", "(", ") ==", "a.(b)", "[1]int{}", "f(", "'ab'") + " => y\n"
	}
	return s + fmt.Sprintf("\n(Add8(a|) x) => %s(\n", g.variable())
}
