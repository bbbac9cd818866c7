package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/bits"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type inconclusive string

func (e inconclusive) Error() string { return string(e) }

var opName = map[Op]string{
	OMul: "bvmul", OSDiv: "bvsdiv", OSRem: "bvsrem", OUDiv: "bvudiv", OURem: "bvurem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OIte: "ite", OEq: "=", OULt: "bvult", OSLt: "bvslt", OBAnd: "and", OBOr: "or", OBNot: "not",
}

type printer struct {
	done   map[int32]bool
	buf    *bytes.Buffer
	bounds bytes.Buffer // range constraints of newly declared variables
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func varName(t *Term) string { return "|" + t.name + "|" }

// pw is the width a term is printed with: the narrowest signed width that
// holds its interval.
func pw(t *Term) uint8 {
	if t.w == 0 || t.op == OVar {
		return t.w
	}
	n := uint8(max(bitlenS(t.lo), bitlenS(t.hi)))
	return min(n, t.w)
}

func bitlenS(v int64) int {
	if v < 0 {
		v = ^v
	}
	return bits.Len64(uint64(v)) + 1
}

func bvc(v uint64, w uint8) string {
	return "(_ bv" + strconv.FormatUint(v&mask(w), 10) + " " + strconv.Itoa(int(w)) + ")"
}

// ref is the name of t at its own print width.
func (p *printer) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.c != 0 {
				return "true"
			}
			return "false"
		}
		return bvc(t.c, t.w)
	case OVar:
		return varName(t)
	}
	return "t" + strconv.Itoa(int(t.id))
}

func resize(s string, from, to uint8) string {
	switch {
	case from == to:
		return s
	case from < to:
		return fmt.Sprintf("((_ sign_extend %d) %s)", to-from, s)
	}
	return fmt.Sprintf("((_ extract %d 0) %s)", to-1, s)
}

// refW is t's value modulo 2^n (sign-extended if n exceeds its width).
func (p *printer) refW(t *Term, n uint8) string {
	if t.w == 0 {
		return p.ref(t)
	}
	if t.op == OConst {
		return bvc(uint64(t.sval()), n)
	}
	return resize(p.ref(t), pw(t), n)
}

// declare emits definitions of everything t needs, iteratively.
func (p *printer) declare(root *Term) {
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{root, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		t := f.t
		if t.op == OConst || p.done[t.id] {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(t.args) {
			a := t.args[f.i]
			f.i++
			if a.op != OConst && !p.done[a.id] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		p.done[t.id] = true
		st = st[:len(st)-1]
		if t.op == OVar {
			fmt.Fprintf(p.buf, "(declare-const %s %s)\n", varName(t), sortName(t.w))
			if t.w > 0 {
				if t.lo > minS(t.w) {
					fmt.Fprintf(&p.bounds, "(assert (bvsge %s %s))\n", varName(t), p.ref(mkConst(t.w, uint64(t.lo))))
				}
				if t.hi < maxS(t.w) {
					fmt.Fprintf(&p.bounds, "(assert (bvsle %s %s))\n", varName(t), p.ref(mkConst(t.w, uint64(t.hi))))
				}
			}
			continue
		}
		fmt.Fprintf(p.buf, "(define-fun t%d () %s ", t.id, sortName(pw(t)))
		p.body(t)
		p.buf.WriteString(")\n")
	}
}

func (p *printer) body(t *Term) {
	b := p.buf
	w := pw(t)
	bin := func(op string, q uint8) {
		r := fmt.Sprintf("(%s %s %s)", op, p.refW(t.args[0], q), p.refW(t.args[1], q))
		if t.w != 0 {
			r = resize(r, q, w)
		}
		b.WriteString(r)
	}
	wide := func(extra uint8) uint8 {
		return min(max(pw(t.args[0]), pw(t.args[1]))+extra, t.args[0].w)
	}
	nonneg := func() bool { return t.args[0].lo >= 0 && t.args[1].lo >= 0 }
	switch t.op {
	case OLin:
		n := 0
		var parts []string
		if t.c&mask(w) != 0 {
			parts = append(parts, bvc(t.c, w))
		}
		for i, a := range t.args {
			k := t.coefs[i] & mask(w)
			r := p.refW(a, w)
			switch {
			case k == 0:
				continue
			case k == 1:
				parts = append(parts, r)
			case k == mask(w):
				parts = append(parts, "(bvneg "+r+")")
			case isPow2(k):
				parts = append(parts, fmt.Sprintf("(bvshl %s %s)", r, bvc(uint64(bits.TrailingZeros64(k)), w)))
			default:
				parts = append(parts, fmt.Sprintf("(bvmul %s %s)", bvc(k, w), r))
			}
			n++
		}
		switch len(parts) {
		case 0:
			b.WriteString(bvc(0, w))
		case 1:
			b.WriteString(parts[0])
		default:
			b.WriteString("(bvadd " + strings.Join(parts, " ") + ")")
		}
	case OMul, OAnd, OOr, OXor:
		bin(opName[t.op], w)
	case OIte:
		fmt.Fprintf(b, "(ite %s %s %s)", p.ref(t.args[0]), p.refW(t.args[1], w), p.refW(t.args[2], w))
	case OShl:
		q := t.w
		if t.args[1].lo >= 0 {
			q = max(w, pw(t.args[1]))
		}
		bin("bvshl", q)
	case OAShr:
		q := t.w
		if t.args[1].lo >= 0 {
			q = wide(0)
		}
		bin("bvashr", q)
	case OLShr:
		bin("bvlshr", t.w)
	case OZExt:
		a := t.args[0]
		r := p.refW(a, a.w)
		if w > a.w {
			fmt.Fprintf(b, "((_ zero_extend %d) %s)", w-a.w, r)
		} else {
			b.WriteString(resize(r, a.w, w))
		}
	case OSExt, OTrunc:
		b.WriteString(p.refW(t.args[0], w))
	case OSDiv, OSRem:
		bin(opName[t.op], wide(1))
	case OUDiv, OURem:
		q := t.w
		if nonneg() {
			q = wide(0)
		}
		bin(opName[t.op], q)
	case OEq:
		if t.args[0].w == 0 {
			bin("=", 0)
		} else {
			bin("=", wide(0))
		}
	case OSLt:
		bin("bvslt", wide(0))
	case OULt:
		q := t.args[0].w
		if nonneg() {
			q = wide(0)
		}
		bin("bvult", q)
	default:
		b.WriteString("(" + opName[t.op])
		for _, a := range t.args {
			b.WriteString(" " + p.ref(a))
		}
		b.WriteString(")")
	}
}

// ---------- incremental solver ----------

type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	p     *printer
	stack []*Term
	dead  bool
}

func newSolver() *Solver {
	s := &Solver{}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-memory:6000")
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(inconclusive("cannot start z3: " + err.Error()))
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	s.p = &printer{done: map[int32]bool{}, buf: &bytes.Buffer{}}
	s.stack = nil
	s.dead = false
	io.WriteString(s.in, "(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n")
}

func (s *Solver) kill() {
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.dead = true
}

type Res int

const (
	Unknown Res = iota
	Sat
	Unsat
)

var stats struct {
	incQueries, incUnknown int
	vcQueries              int
	modelHits              int
	solverTime             time.Duration
	vcUnsat, vcSat, vcUnk  int
	trivially              int
	asserts                int
	instrs                 int64
	merges, forks          int
	reach                  map[string]bool
	funcs                  map[string]bool
	loopMax                int
	concretized            int
}

var slowLog = os.Getenv("VK_SLOW") != ""
var curWhere = func() string { return "?" }

// check decides sat(pc and extra) with a soft time limit.
func (s *Solver) check(pc []*Term, extra *Term, ms int) (Res, *Model) {
	if s.dead {
		s.start()
	}
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		stats.solverTime += d
		if slowLog && d > 500*time.Millisecond {
			fmt.Fprintf(os.Stderr, "slow query %.1fs at %s\n", d.Seconds(), curWhere())
		}
	}()
	stats.incQueries++
	b := s.p.buf
	b.Reset()
	for _, t := range pc {
		s.p.declare(t)
	}
	s.p.declare(extra)
	if s.p.bounds.Len() > 0 {
		// range constraints live at the base level
		if len(s.stack) > 0 {
			fmt.Fprintf(b, "(pop %d)\n", len(s.stack))
			s.stack = nil
		}
		b.Write(s.p.bounds.Bytes())
		s.p.bounds.Reset()
	}
	// synchronise the assertion stack with pc
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		fmt.Fprintf(b, "(pop %d)\n", d)
		s.stack = s.stack[:n:n]
	}
	for _, t := range pc[n:] {
		fmt.Fprintf(b, "(push 1)\n(assert %s)\n", s.p.ref(t))
		s.stack = append(s.stack, t)
	}
	fmt.Fprintf(b, "(set-option :timeout %d)\n(push 1)\n(assert %s)\n(check-sat)\n(echo \"@\")\n", ms, s.p.ref(extra))
	if _, err := s.in.Write(b.Bytes()); err != nil {
		s.kill()
		return Unknown, nil
	}
	res := Unknown
	timer := time.AfterFunc(time.Duration(ms)*time.Millisecond*2+5*time.Second, func() { s.cmd.Process.Kill() })
	defer timer.Stop()
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.kill()
			stats.incUnknown++
			return Unknown, nil
		}
		l = strings.TrimSpace(l)
		if l == "@" {
			break
		}
		switch {
		case l == "sat":
			res = Sat
		case l == "unsat":
			res = Unsat
		case strings.HasPrefix(l, "(error"):
			panic(inconclusive("z3: " + l))
		}
	}
	var m *Model
	if res == Sat {
		m = s.getModel()
	}
	if _, err := io.WriteString(s.in, "(pop 1)\n"); err != nil {
		s.kill()
	}
	if res == Unknown {
		stats.incUnknown++
	}
	return res, m
}

func (s *Solver) getModel() *Model {
	b := &bytes.Buffer{}
	var vs []*Term
	for _, v := range allVars {
		if s.p.done[v.id] {
			vs = append(vs, v)
		}
	}
	m := newModel(map[string]uint64{})
	if len(vs) == 0 {
		return m
	}
	b.WriteString("(get-value (")
	for _, v := range vs {
		b.WriteString(" " + varName(v))
	}
	b.WriteString("))\n(echo \"@\")\n")
	s.in.Write(b.Bytes())
	var sb strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.kill()
			return nil
		}
		if strings.TrimSpace(l) == "@" {
			break
		}
		sb.WriteString(l)
	}
	parseValues(sb.String(), m.vals)
	return m
}

// parseValues reads ((|a| #x00) (|b| true) ...) or define-fun style output.
func parseValues(out string, vals map[string]uint64) {
	i := 0
	for {
		j := strings.IndexByte(out[i:], '|')
		if j < 0 {
			return
		}
		i += j + 1
		k := strings.IndexByte(out[i:], '|')
		if k < 0 {
			return
		}
		name := out[i : i+k]
		i += k + 1
		rest := out[i:]
		// value is the next token starting with # or true/false
		e := strings.IndexByte(rest, '|')
		if e < 0 {
			e = len(rest)
		}
		seg := rest[:e]
		if h := strings.Index(seg, "#x"); h >= 0 {
			t := tok(seg[h+2:])
			v, _ := strconv.ParseUint(t, 16, 64)
			vals[name] = v
		} else if h := strings.Index(seg, "#b"); h >= 0 {
			t := tok(seg[h+2:])
			v, _ := strconv.ParseUint(t, 2, 64)
			vals[name] = v
		} else if h := strings.Index(seg, "(_ bv"); h >= 0 {
			t := tok(seg[h+5:])
			v, _ := strconv.ParseUint(t, 10, 64)
			vals[name] = v
		} else if strings.Contains(seg, "true") {
			vals[name] = 1
		} else if strings.Contains(seg, "false") {
			vals[name] = 0
		}
	}
}

func tok(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] == ' ' || s[i] == ')' || s[i] == '\n' || s[i] == '\r' || s[i] == '\t' {
			return s[:i]
		}
	}
	return s
}

// ---------- one-shot portfolio for verification conditions ----------

type VC struct {
	pc   []*Term
	bad  *Term
	kind string
	msg  string
	pos  string
	text string
	vars []*Term
	res  Res
	who  string
	m    *Model
	dur  time.Duration
}

// render produces the SMT-LIB text; must run on the engine goroutine.
func (v *VC) render() {
	b := &bytes.Buffer{}
	p := &printer{done: map[int32]bool{}, buf: b}
	b.WriteString("(set-logic QF_BV)\n(set-option :produce-models true)\n")
	// only conjuncts of pc that share variables (transitively) with bad matter,
	// but keeping all is simpler and always sound.
	for _, t := range v.pc {
		p.declare(t)
	}
	p.declare(v.bad)
	b.Write(p.bounds.Bytes())
	for _, t := range v.pc {
		fmt.Fprintf(b, "(assert %s)\n", p.ref(t))
	}
	fmt.Fprintf(b, "(assert %s)\n(check-sat)\n", p.ref(v.bad))
	for _, x := range allVars {
		if p.done[x.id] {
			v.vars = append(v.vars, x)
		}
	}
	if len(v.vars) > 0 {
		b.WriteString("(get-value (")
		for _, x := range v.vars {
			b.WriteString(" " + varName(x))
		}
		b.WriteString("))\n")
	}
	v.text = b.String()
}

var portfolio = [][]string{
	{"z3", "-smt2", "-memory:5000"},
	{"cvc5", "--lang=smt2", "--bv-solver=bitblast"},
	{"z3-new", "-smt2", "-memory:5000"},
}

func (v *VC) solve(dir string, n int, limit time.Duration) {
	f := filepath.Join(dir, fmt.Sprintf("vc%d.smt2", n))
	os.WriteFile(f, []byte(v.text), 0o644)
	defer os.Remove(f)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	type ans struct {
		r   Res
		out string
		who string
	}
	ch := make(chan ans, len(portfolio))
	t0 := time.Now()
	for _, c := range portfolio {
		c := c
		go func() {
			cmd := exec.CommandContext(ctx, c[0], append(append([]string{}, c[1:]...), f)...)
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			out, _ := cmd.Output()
			s := string(out)
			switch {
			case strings.HasPrefix(s, "unsat"):
				ch <- ans{Unsat, s, c[0]}
			case strings.HasPrefix(s, "sat"):
				ch <- ans{Sat, s, c[0]}
			default:
				ch <- ans{Unknown, s, c[0]}
			}
		}()
	}
	for range portfolio {
		a := <-ch
		if a.r != Unknown {
			cancel()
			v.res = a.r
			v.who = a.who
			v.dur = time.Since(t0)
			if a.r == Sat {
				v.m = newModel(map[string]uint64{})
				parseValues(a.out[3:], v.m.vals)
			}
			return
		}
	}
	v.res = Unknown
	v.dur = time.Since(t0)
}
