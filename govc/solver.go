package main

// Solver: one z3 process per worker, driven incrementally. The path condition
// is kept as a stack of asserted literals synchronised with the state's PC.

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type scope struct {
	lit     *Term
	bounded []*Term
}

type Solver struct {
	c        *Ctx
	cmd      *exec.Cmd
	in       io.WriteCloser
	w        *bufio.Writer
	out      *bufio.Reader
	stack    []scope
	bounded  map[*Term]bool
	declared map[string]bool
	decls    []string
	queries  int
	dur      time.Duration
	timeout  int // ms
	dead     bool
	backup   int // queries decided by the second back end
}

var slowMS, _ = strconv.Atoi(os.Getenv("GOVC_SLOW"))

var z3Path = "z3-new"

func newSolver(c *Ctx) *Solver {
	s := &Solver{c: c, timeout: 10000}
	s.start()
	return s
}

func (s *Solver) start() {
	s.bounded = map[*Term]bool{}
	s.declared = map[string]bool{}
	s.decls = nil
	s.stack = nil
	s.cmd = exec.Command(z3Path, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.w, s.out = in, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	s.raw("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	s.raw(fmt.Sprintf("(set-option :timeout %d)\n(set-option :memory_max_size 3000)\n", s.timeout))
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.close()
	s.start()
}

func (s *Solver) raw(x string) {
	s.w.WriteString(x)
}

func (s *Solver) readLine() (string, error) {
	s.w.Flush()
	for {
		l, err := s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if l != "" || err != nil {
			return l, err
		}
	}
}

// readSexp reads one balanced s-expression.
func (s *Solver) readSexp() (string, error) {
	s.w.Flush()
	var sb strings.Builder
	depth := 0
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		switch b {
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		case '\n':
			if depth == 0 && strings.TrimSpace(sb.String()) != "" {
				return sb.String(), nil
			}
		}
	}
}

func smtBig(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

var quoter = strings.NewReplacer("|", "!", "\\", "/")

func quote(n string) string { return "|" + quoter.Replace(n) + "|" }

// printer prints a DAG with let bindings for shared inner nodes.
type printer struct {
	uses map[*Term]int
	name map[*Term]string
}

func (s *Solver) prep(t *Term, uses map[*Term]int, order *[]*Term) {
	uses[t]++
	if uses[t] > 1 {
		return
	}
	for _, a := range t.args {
		s.prep(a, uses, order)
	}
	switch t.op {
	case OVar:
		s.decl(t.name, 0, false)
	case OBVar:
		s.decl(t.name, 0, true)
	case OSel:
		s.decl(t.name, 1, false)
	case OUF:
		s.decl(t.name, len(t.args), false)
	case OUFB:
		s.decl(t.name, len(t.args), true)
	}
	*order = append(*order, t)
}

func (s *Solver) decl(name string, n int, b bool) {
	if s.declared[name] {
		return
	}
	s.declared[name] = true
	r := "Int"
	if b {
		r = "Bool"
	}
	d := fmt.Sprintf("(declare-fun %s (%s) %s)\n", quote(name), strings.TrimSpace(strings.Repeat("Int ", n)), r)
	s.decls = append(s.decls, d)
	s.raw(d)
}

func node(t *Term, p func(*Term) string) string {
	ap := func(op string) string {
		var sb strings.Builder
		sb.WriteString("(" + op)
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(p(a))
		}
		sb.WriteByte(')')
		return sb.String()
	}
	switch t.op {
	case OConst:
		return smtBig(t.k)
	case OVar, OBVar:
		return quote(t.name)
	case OLin:
		var sb strings.Builder
		sb.WriteString("(+")
		n := 0
		if t.k.Sign() != 0 {
			sb.WriteString(" " + smtBig(t.k))
			n++
		}
		for i, a := range t.args {
			n++
			if t.coefs[i].Cmp(big1) == 0 {
				sb.WriteString(" " + p(a))
			} else {
				sb.WriteString(" (* " + smtBig(t.coefs[i]) + " " + p(a) + ")")
			}
		}
		sb.WriteByte(')')
		if n == 1 {
			x := sb.String()
			return x[3 : len(x)-1]
		}
		return sb.String()
	case OMul:
		return ap("*")
	case ODiv:
		return "(div " + p(t.args[0]) + " " + t.k.String() + ")"
	case OMod:
		return "(mod " + p(t.args[0]) + " " + t.k.String() + ")"
	case OIte:
		return ap("ite")
	case OSel, OUF, OUFB:
		if len(t.args) == 0 {
			return quote(t.name)
		}
		return ap(quote(t.name))
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OEq0:
		return "(= " + p(t.args[0]) + " 0)"
	case OLe0:
		return "(<= " + p(t.args[0]) + " 0)"
	case ONot:
		return ap("not")
	case OAnd:
		return ap("and")
	case OOr:
		return ap("or")
	}
	panic("node")
}

// str renders t with lets, declaring what it uses; newTerms receives the
// atoms whose bounds have to be asserted.
func (s *Solver) str(t *Term) (string, []*Term) {
	uses := map[*Term]int{}
	var order []*Term
	s.prep(t, uses, &order)
	var bnd []*Term
	names := map[*Term]string{}
	var lets strings.Builder
	nl := 0
	p := func(x *Term) string { return names[x] }
	for _, x := range order {
		switch x.op {
		case OVar, OSel, OUF, OMul:
			if (x.lo != nil || x.hi != nil) && !s.bounded[x] {
				bnd = append(bnd, x)
			}
		}
		body := node(x, p)
		if len(x.args) > 0 && uses[x] > 1 {
			nm := fmt.Sprintf("$%d", x.id)
			fmt.Fprintf(&lets, "(let ((%s %s)) ", nm, body)
			nl++
			names[x] = nm
		} else {
			names[x] = body
		}
	}
	return lets.String() + names[t] + strings.Repeat(")", nl), bnd
}

func (s *Solver) assertBounds(ts []*Term, sc *scope) {
	for _, t := range ts {
		if s.bounded[t] {
			continue
		}
		s.bounded[t] = true
		if sc != nil {
			sc.bounded = append(sc.bounded, t)
		}
		x, _ := s.str(t)
		if t.lo != nil && t.hi != nil {
			s.raw(fmt.Sprintf("(assert (and (<= %s %s) (<= %s %s)))\n", smtBig(t.lo), x, x, smtBig(t.hi)))
		} else if t.lo != nil {
			s.raw(fmt.Sprintf("(assert (<= %s %s))\n", smtBig(t.lo), x))
		} else {
			s.raw(fmt.Sprintf("(assert (<= %s %s))\n", x, smtBig(t.hi)))
		}
	}
}

func (s *Solver) push(l *Term) {
	s.raw("(push 1)\n")
	s.stack = append(s.stack, scope{lit: l})
	sc := &s.stack[len(s.stack)-1]
	x, b := s.str(l)
	s.assertBounds(b, sc)
	s.raw("(assert " + x + ")\n")
}

func (s *Solver) pop(n int) {
	if n == 0 {
		return
	}
	s.raw(fmt.Sprintf("(pop %d)\n", n))
	for i := 0; i < n; i++ {
		sc := s.stack[len(s.stack)-1]
		for _, t := range sc.bounded {
			delete(s.bounded, t)
		}
		s.stack = s.stack[:len(s.stack)-1]
	}
}

// PC is the path condition: a persistent stack.
type PC struct {
	lit  *Term
	prev *PC
	n    int
}

func (p *PC) push(l *Term) *PC {
	n := 1
	if p != nil {
		n = p.n + 1
	}
	return &PC{l, p, n}
}

func (p *PC) list() []*Term {
	if p == nil {
		return nil
	}
	r := make([]*Term, p.n)
	for q := p; q != nil; q = q.prev {
		r[q.n-1] = q.lit
	}
	return r
}

func (s *Solver) sync(pc *PC) {
	l := pc.list()
	i := 0
	for i < len(l) && i < len(s.stack) && s.stack[i].lit == l[i] {
		i++
	}
	s.pop(len(s.stack) - i)
	for ; i < len(l); i++ {
		s.push(l[i])
	}
}

// check returns "sat", "unsat" or "unknown" for pc and extra.
func (s *Solver) check(pc *PC, extra *Term) string {
	return s.checkT(pc, extra, s.timeout)
}

func (s *Solver) checkT(pc *PC, extra *Term, ms int) string {
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	s.queries++
	for try := 0; try < 2; try++ {
		if s.cmd == nil {
			s.start()
		}
		s.sync(pc)
		if ms != s.timeout {
			s.raw(fmt.Sprintf("(set-option :timeout %d)\n", ms))
		}
		if extra != nil {
			s.push(extra)
		}
		s.raw("(check-sat)\n")
		r, err := s.readLine()
		for err == nil && strings.HasPrefix(r, "(error") {
			return "unknown: " + r
		}
		if err != nil {
			s.restart()
			continue
		}
		if slowMS > 0 && time.Since(t0) > time.Duration(slowMS)*time.Millisecond {
			fmt.Printf("SLOW %.1fs %s: %s\n", time.Since(t0).Seconds(), r, extra)
			os.WriteFile(fmt.Sprintf("/tmp/slow%d.smt2", s.queries), []byte(s.script(pc, extra)), 0644)
		}
		if ms != s.timeout {
			s.raw(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
		}
		if extra != nil && r != "sat" {
			s.pop(1)
		} else if extra != nil {
			// keep the scope for getModel; it is popped by the next sync
			// unless the literal becomes part of the path condition.
		}
		return r
	}
	return "unknown"
}

// script renders a stand-alone SMT-LIB query.
func (s *Solver) script(pc *PC, extra *Term) string {
	var sb strings.Builder
	n := &Solver{c: s.c, bounded: map[*Term]bool{}, declared: map[string]bool{}}
	var body strings.Builder
	n.w = bufio.NewWriter(&body)
	lits := pc.list()
	if extra != nil {
		lits = append(lits, extra)
	}
	for _, l := range lits {
		x, b := n.str(l)
		n.assertBounds(b, nil)
		n.raw("(assert " + x + ")\n")
	}
	n.w.Flush()
	sb.WriteString("(set-logic ALL)\n")
	sb.WriteString(body.String())
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

// second asks the other back end about an undecided query.
func (s *Solver) second(pc *PC, extra *Term, ms int) string {
	cmd := exec.Command("cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms))
	cmd.Stdin = strings.NewReader(s.script(pc, extra))
	out, _ := cmd.Output()
	r := strings.TrimSpace(string(out))
	if r == "unsat" || r == "sat" {
		s.backup++
		return r
	}
	return "unknown"
}

// values evaluates terms in the current model (after a sat answer).
func (s *Solver) values(ts []*Term) ([]*big.Int, error) {
	if len(ts) == 0 {
		return nil, nil
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, t := range ts {
		x, _ := s.str(t)
		sb.WriteString(x)
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	s.raw(sb.String())
	x, err := s.readSexp()
	if err != nil {
		return nil, err
	}
	if strings.HasPrefix(strings.TrimSpace(x), "(error") {
		return nil, fmt.Errorf("z3: %s", x)
	}
	e, _ := parseSexp(x, 0)
	var r []*big.Int
	for _, p := range e.list {
		v := p.list[len(p.list)-1]
		k := new(big.Int)
		switch {
		case v.list != nil && len(v.list) == 2 && v.list[0].atom == "-":
			k.SetString(v.list[1].atom, 10)
			k.Neg(k)
		case v.atom == "true":
			k.SetInt64(1)
		case v.atom == "false":
		default:
			k.SetString(v.atom, 10)
		}
		r = append(r, k)
	}
	if len(r) != len(ts) {
		return nil, fmt.Errorf("z3: bad get-value answer")
	}
	return r, nil
}

type sexp struct {
	atom string
	list []*sexp
}

func parseSexp(x string, i int) (*sexp, int) {
	for i < len(x) && (x[i] == ' ' || x[i] == '\n' || x[i] == '\r' || x[i] == '\t') {
		i++
	}
	if x[i] == '(' {
		e := &sexp{list: []*sexp{}}
		i++
		for {
			for i < len(x) && (x[i] == ' ' || x[i] == '\n' || x[i] == '\r' || x[i] == '\t') {
				i++
			}
			if x[i] == ')' {
				return e, i + 1
			}
			var c *sexp
			c, i = parseSexp(x, i)
			e.list = append(e.list, c)
		}
	}
	j := i
	if x[i] == '|' {
		j = i + 1
		for x[j] != '|' {
			j++
		}
		return &sexp{atom: x[i : j+1]}, j + 1
	}
	for j < len(x) && x[j] != ' ' && x[j] != ')' && x[j] != '(' && x[j] != '\n' && x[j] != '\t' {
		j++
	}
	return &sexp{atom: x[i:j]}, j
}
