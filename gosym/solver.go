package main

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

// Solver drives one SMT solver process over a pipe. Definitions are global,
// assertions live on a push/pop stack.
type Solver struct {
	c       *Ctx
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	gen     uint32
	nDefs   int
	timeout int // ms

	ints     bool // linear integer encoding
	Queries  int64
	Time     time.Duration
	Unknowns int64
	log      io.Writer
	bin      []string
	SatN     int64
	UnsatN   int64
	WU       int64
	Slowest  time.Duration
}

func NewSolver(c *Ctx, bin []string, timeoutMs int, ints bool) (*Solver, error) {
	s := &Solver{c: c, bin: bin, timeout: timeoutMs, ints: ints}
	if p := os.Getenv("GOSYM_SMTLOG"); p != "" {
		f, err := os.CreateTemp(p, "smt*.smt2")
		if err == nil {
			s.log = f
		}
	}
	return s, s.start()
}

func (s *Solver) start() error {
	s.gen++
	s.nDefs = 0
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if strings.Contains(s.bin[0], "z3") {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
	}
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) Restart() error {
	s.Close()
	return s.start()
}

func (s *Solver) send(x string) {
	s.in.WriteString(x)
	if s.log != nil {
		io.WriteString(s.log, x)
	}
}

func (s *Solver) Push() { s.send("(push 1)\n") }
func (s *Solver) Pop()  { s.send("(pop 1)\n") }

func (s *Solver) Assert(t *Term) {
	var r string
	if s.ints {
		r = s.iref(t)
	} else {
		r = s.ref(t)
	}
	s.send("(assert " + r + ")\n")
}

// AssertRange constrains a variable to its declared range or domain.
func (s *Solver) AssertRange(v *Term) {
	if v.sort != SInt {
		return
	}
	if s.ints {
		s.intRange(v)
		return
	}
	w := bitsFor(v.lo, v.hi)
	n := s.ref(v)
	if v.dom != nil {
		var b strings.Builder
		b.WriteString("(assert (or")
		for _, r := range v.dom.rs {
			if r[0] == r[1] {
				fmt.Fprintf(&b, " (= %s %s)", n, bvlit(r[0], w))
			} else {
				fmt.Fprintf(&b, " (and (bvsle %s %s) (bvsle %s %s))", bvlit(r[0], w), n, n, bvlit(r[1], w))
			}
		}
		b.WriteString(" false))\n")
		s.send(b.String())
		return
	}
	l, h := typeRange(w, true)
	if v.lo != l {
		s.send(fmt.Sprintf("(assert (bvsle %s %s))\n", bvlit(v.lo, w), n))
	}
	if v.hi != h {
		s.send(fmt.Sprintf("(assert (bvsle %s %s))\n", n, bvlit(v.hi, w)))
	}
}

func (s *Solver) Check() SatResult {
	t0 := time.Now()
	s.send("(check-sat)\n")
	s.in.Flush()
	line, err := s.out.ReadString('\n')
	d := time.Since(t0)
	s.Time += d
	if d > s.Slowest {
		s.Slowest = d
	}
	s.Queries++
	line = strings.TrimSpace(line)
	if err == nil {
		switch line {
		case "sat":
			s.SatN++
			return Sat
		case "unsat":
			s.UnsatN++
			return Unsat
		}
	}
	if line != "unknown" && line != "timeout" {
		fmt.Fprintf(os.Stderr, "solver said %q (%v)\n", line, err)
		panic(solverDied{line})
	}
	s.Unknowns++
	return Unknown
}

type solverDied struct{ msg string }

// Values asks for the values of variables after a sat answer.
func (s *Solver) Values(vars []*Term) map[string]uint64 {
	m := make(map[string]uint64, len(vars))
	if len(vars) == 0 {
		return m
	}
	var b strings.Builder
	b.WriteString("(get-value (")
	for _, v := range vars {
		if s.ints {
			b.WriteString(s.iref(v))
			b.WriteByte(' ')
			continue
		}
		b.WriteString(s.ref(v))
		b.WriteByte(' ')
	}
	b.WriteString("))\n")
	s.send(b.String())
	s.in.Flush()
	txt := s.readSexp()
	toks := tokenize(txt)
	pos := 0
	var parse func() any
	parse = func() any {
		t := toks[pos]
		pos++
		if t == "(" {
			var l []any
			for toks[pos] != ")" {
				l = append(l, parse())
			}
			pos++
			return l
		}
		return t
	}
	root, ok := parse().([]any)
	if !ok || len(root) != len(vars) {
		panic(solverDied{"bad get-value: " + txt})
	}
	for i, v := range vars {
		pr := root[i].([]any)
		m[v.name] = parseVal(pr[1], v)
	}
	return m
}

func parseVal(x any, v *Term) uint64 {
	bv := func(s string) (uint64, int) {
		if strings.HasPrefix(s, "#x") {
			n, _ := strconv.ParseUint(s[2:], 16, 64)
			return n, 4 * (len(s) - 2)
		}
		if strings.HasPrefix(s, "#b") {
			n, _ := strconv.ParseUint(s[2:], 2, 64)
			return n, len(s) - 2
		}
		panic(solverDied{"bad value " + s})
	}
	if v.sort == SFloat {
		switch y := x.(type) {
		case []any:
			if y[0] == "fp" {
				a, _ := bv(y[1].(string))
				e, _ := bv(y[2].(string))
				m, _ := bv(y[3].(string))
				return a<<63 | e<<52 | m
			}
			if y[0] == "_" {
				switch y[1] {
				case "+zero":
					return 0
				case "-zero":
					return 1 << 63
				case "+oo":
					return math.Float64bits(math.Inf(1))
				case "-oo":
					return math.Float64bits(math.Inf(-1))
				case "NaN":
					return math.Float64bits(math.NaN())
				}
			}
		}
		panic(solverDied{fmt.Sprint("bad float ", x)})
	}
	if l, ok := x.([]any); ok && len(l) == 2 && l[0] == "-" {
		n, _ := strconv.ParseUint(l[1].(string), 10, 64)
		return -n
	}
	if y, ok := x.(string); ok && y[0] >= '0' && y[0] <= '9' {
		n, _ := strconv.ParseUint(y, 10, 64)
		return n
	}
	if l, ok := x.([]any); ok && len(l) == 3 && l[0] == "_" { // (_ bvN w)
		n, _ := strconv.ParseUint(strings.TrimPrefix(l[1].(string), "bv"), 10, 64)
		w, _ := strconv.Atoi(l[2].(string))
		return wrapConst(n, w, true)
	}
	n, w := bv(x.(string))
	return wrapConst(n, w, true)
}

func (s *Solver) readSexp() string {
	var b strings.Builder
	depth := 0
	started := false
	for {
		line, err := s.out.ReadString('\n')
		b.WriteString(line)
		for i := 0; i < len(line); i++ {
			switch line[i] {
			case '(':
				depth++
				started = true
			case ')':
				depth--
			}
		}
		if err != nil || (started && depth <= 0) {
			return b.String()
		}
		if !started && strings.TrimSpace(line) != "" {
			return b.String()
		}
	}
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		switch ch := s[i]; {
		case ch == '(' || ch == ')':
			out = append(out, string(ch))
			i++
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		case ch == '|':
			j := strings.IndexByte(s[i+1:], '|')
			out = append(out, s[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

func bvlit(v int64, w int) string {
	u := uint64(v)
	if w < 64 {
		u &= 1<<w - 1
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, u)
	}
	return fmt.Sprintf("#b%0*b", w, u)
}

func (t *Term) pw() int { return bitsFor(t.lo, t.hi) }

// adj converts expression e of width w to width W (signed).
func adj(e string, w, W int) string {
	switch {
	case w == W:
		return e
	case w < W:
		return fmt.Sprintf("((_ sign_extend %d) %s)", W-w, e)
	}
	return fmt.Sprintf("((_ extract %d 0) %s)", W-1, e)
}

func (s *Solver) at(t *Term, W int) string {
	if t.isConst() {
		return bvlit(t.ci(), W)
	}
	return adj(s.ref(t), t.pw(), W)
}

// ref returns a name or literal for t at its own width, defining it if new.
func (s *Solver) ref(t *Term) string {
	if t.sg == s.gen && t.smt != "" {
		return t.smt
	}
	var e string
	w := 0
	if t.sort == SInt {
		w = t.pw()
	}
	switch t.op {
	case OConst:
		switch t.sort {
		case SInt:
			e = bvlit(t.ci(), w)
		case SBool:
			e = "false"
			if t.n != 0 {
				e = "true"
			}
		case SFloat:
			e = fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.n)
		}
		t.smt, t.sg = e, s.gen
		return e
	case OVar:
		nm := fmt.Sprintf("|%s.%d|", t.name, t.id)
		if t.sort == SFloat {
			s.send("(declare-const " + nm + " (_ FloatingPoint 11 53))\n")
		} else {
			s.send(fmt.Sprintf("(declare-const %s (_ BitVec %d))\n", nm, w))
		}
		t.smt, t.sg = nm, s.gen
		return nm
	case OLin:
		parts := make([]string, 0, len(t.lin)+1)
		for _, l := range t.lin {
			x := s.at(l.t, w)
			switch {
			case l.c == 1:
			case l.c == -1:
				x = "(bvneg " + x + ")"
			default:
				x = "(bvmul " + bvlit(l.c, w) + " " + x + ")"
			}
			parts = append(parts, x)
		}
		if t.n != 0 {
			parts = append(parts, bvlit(t.ci(), w))
		}
		e = parts[0]
		for _, p := range parts[1:] {
			e = "(bvadd " + e + " " + p + ")"
		}
	case OMul:
		e = "(bvmul " + s.at(t.a, w) + " " + s.at(t.b, w) + ")"
	case OSDiv, OSRem:
		W := max(t.a.pw(), t.b.pw(), w)
		if W < 64 {
			W++
		}
		o := "bvsdiv"
		if t.op == OSRem {
			o = "bvsrem"
		}
		e = adj(fmt.Sprintf("(%s %s %s)", o, s.at(t.a, W), s.at(t.b, W)), W, w)
	case OUDiv:
		e = adj(fmt.Sprintf("(bvudiv %s %s)", s.at(t.a, 64), s.at(t.b, 64)), 64, w)
	case OURem:
		e = adj(fmt.Sprintf("(bvurem %s %s)", s.at(t.a, 64), s.at(t.b, 64)), 64, w)
	case OAnd, OOr, OXor:
		W := max(t.a.pw(), t.b.pw(), w)
		o := map[Op]string{OAnd: "bvand", OOr: "bvor", OXor: "bvxor"}[t.op]
		e = adj(fmt.Sprintf("(%s %s %s)", o, s.at(t.a, W), s.at(t.b, W)), W, w)
	case OShl:
		e = adj(fmt.Sprintf("(bvshl %s %s)", s.at(t.a, 64), s.at(t.b, 64)), 64, w)
	case OLshr:
		e = adj(fmt.Sprintf("(bvlshr %s %s)", s.at(t.a, 64), s.at(t.b, 64)), 64, w)
	case OAshr:
		W := max(t.a.pw(), t.b.pw(), w)
		if t.b.isConst() {
			W = max(t.a.pw(), w)
			sh := min(t.b.ci(), int64(W-1))
			e = adj(fmt.Sprintf("(bvashr %s %s)", s.at(t.a, W), bvlit(sh, W)), W, w)
			break
		}
		e = adj(fmt.Sprintf("(bvashr %s %s)", s.at(t.a, 64), s.at(t.b, 64)), 64, w)
		_ = W
	case OWrap:
		bw := int(t.n >> 1)
		x := s.at(t.a, bw)
		if t.n&1 == 1 {
			e = adj(x, bw, w)
		} else {
			e = adj("(concat #b0 "+x+")", bw+1, w)
		}
	case OIte:
		switch t.sort {
		case SInt:
			e = fmt.Sprintf("(ite %s %s %s)", s.ref(t.a), s.at(t.b, w), s.at(t.c, w))
		default:
			e = fmt.Sprintf("(ite %s %s %s)", s.ref(t.a), s.ref(t.b), s.ref(t.c))
		}
	case OEqZ:
		// write a linear equation with a constant as var = const where possible
		e = fmt.Sprintf("(= %s %s)", s.ref(t.a), bvlit(0, t.a.pw()))
		if t.a.op == OLin && len(t.a.lin) == 1 && (t.a.lin[0].c == 1 || t.a.lin[0].c == -1) {
			v := -t.a.ci()
			if t.a.lin[0].c == -1 {
				v = t.a.ci()
			}
			at := t.a.lin[0].t
			if v >= at.lo && v <= at.hi {
				e = fmt.Sprintf("(= %s %s)", s.ref(at), bvlit(v, at.pw()))
			}
		}
	case OPos:
		e = fmt.Sprintf("(bvsgt %s %s)", s.ref(t.a), bvlit(0, t.a.pw()))
	case OLt:
		W := max(t.a.pw(), t.b.pw())
		e = fmt.Sprintf("(bvslt %s %s)", s.at(t.a, W), s.at(t.b, W))
	case OULt:
		e = fmt.Sprintf("(bvult %s %s)", s.at(t.a, 64), s.at(t.b, 64))
	case ONot:
		e = "(not " + s.ref(t.a) + ")"
	case OBAnd:
		e = "(and " + s.ref(t.a) + " " + s.ref(t.b) + ")"
	case OBOr:
		e = "(or " + s.ref(t.a) + " " + s.ref(t.b) + ")"
	case OItoF:
		e = fmt.Sprintf("((_ to_fp 11 53) RNE %s)", s.ref(t.a))
	case ODy:
		e = fmt.Sprintf("(fp.mul RNE ((_ to_fp 11 53) RNE %s) ((_ to_fp 11 53) #x%016x))", s.at(t.a, 64), math.Float64bits(math.Ldexp(1, int(-int64(t.n)))))
	case OUItoF:
		e = fmt.Sprintf("((_ to_fp_unsigned 11 53) RNE %s)", s.at(t.a, 64))
	case OFtoI:
		a := s.ref(t.a)
		e = fmt.Sprintf("(ite (and (fp.geq %s ((_ to_fp 11 53) #xc3e0000000000000)) (fp.lt %s ((_ to_fp 11 53) #x43e0000000000000))) ((_ fp.to_sbv 64) RTZ %s) #x8000000000000000)", a, a, a)
	case OFAdd:
		e = "(fp.add RNE " + s.ref(t.a) + " " + s.ref(t.b) + ")"
	case OFSub:
		e = "(fp.sub RNE " + s.ref(t.a) + " " + s.ref(t.b) + ")"
	case OFMul:
		e = "(fp.mul RNE " + s.ref(t.a) + " " + s.ref(t.b) + ")"
	case OFDiv:
		e = "(fp.div RNE " + s.ref(t.a) + " " + s.ref(t.b) + ")"
	case OFNeg:
		e = "(fp.neg " + s.ref(t.a) + ")"
	case OFAbs:
		e = "(fp.abs " + s.ref(t.a) + ")"
	case OFRound:
		m := []string{"RNA", "RTN", "RTP", "RTZ"}[t.n]
		e = "(fp.roundToIntegral " + m + " " + s.ref(t.a) + ")"
	case OFLt:
		e = "(fp.lt " + s.ref(t.a) + " " + s.ref(t.b) + ")"
	case OFLe:
		e = "(fp.leq " + s.ref(t.a) + " " + s.ref(t.b) + ")"
	case OFEq:
		e = "(fp.eq " + s.ref(t.a) + " " + s.ref(t.b) + ")"
	default:
		panic(fmt.Sprintf("lower op %d", t.op))
	}
	nm := fmt.Sprintf("t%d", t.id)
	srt := "Bool"
	switch t.sort {
	case SInt:
		srt = fmt.Sprintf("(_ BitVec %d)", w)
	case SFloat:
		srt = "(_ FloatingPoint 11 53)"
	}
	s.send("(define-fun " + nm + " () " + srt + " " + e + ")\n")
	s.nDefs++
	t.smt, t.sg = nm, s.gen
	return nm
}
