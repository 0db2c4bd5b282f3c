package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---- SMT-LIB printing ----

type printer struct {
	sb    strings.Builder
	names map[*Expr]string
	refs  map[*Expr]int
	vars  []*Expr
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func (p *printer) count(x *Expr) {
	if x.op == OConst {
		return
	}
	p.refs[x]++
	if p.refs[x] > 1 {
		return
	}
	if x.op == OVar {
		p.vars = append(p.vars, x)
		return
	}
	for _, y := range [3]*Expr{x.a, x.b, x.c} {
		if y != nil {
			p.count(y)
		}
	}
}

func (p *printer) lit(x *Expr) string {
	if x.w == 0 {
		if x.k == 1 {
			return "true"
		}
		return "false"
	}
	return "(_ bv" + strconv.FormatUint(x.k, 10) + " " + strconv.Itoa(int(x.w)) + ")"
}

func (p *printer) str(x *Expr) string {
	switch x.op {
	case OConst:
		return p.lit(x)
	case OVar:
		return "v" + strconv.FormatUint(x.k, 10)
	}
	if n, ok := p.names[x]; ok {
		return n
	}
	var body string
	switch x.op {
	case OZext:
		body = "((_ zero_extend " + strconv.Itoa(int(x.w-x.a.w)) + ") " + p.str(x.a) + ")"
	case OSext:
		body = "((_ sign_extend " + strconv.Itoa(int(x.w-x.a.w)) + ") " + p.str(x.a) + ")"
	case OExtract:
		body = "((_ extract " + strconv.Itoa(int(x.k)+int(x.w)-1) + " " + strconv.Itoa(int(x.k)) + ") " + p.str(x.a) + ")"
	default:
		body = "(" + opNames[x.op] + " " + p.str(x.a)
		if x.b != nil {
			body += " " + p.str(x.b)
		}
		if x.c != nil {
			body += " " + p.str(x.c)
		}
		body += ")"
	}
	if p.refs[x] > 1 {
		n := "e" + strconv.Itoa(len(p.names))
		p.names[x] = n
		p.sb.WriteString("(define-fun " + n + " () " + sortName(x.w) + " " + body + ")\n")
		return n
	}
	return body
}

func smtQuery(cs []*Expr) (string, []*Expr) {
	p := &printer{names: map[*Expr]string{}, refs: map[*Expr]int{}}
	for _, c := range cs {
		p.count(c)
	}
	var out strings.Builder
	for _, v := range p.vars {
		out.WriteString("(declare-const v" + strconv.FormatUint(v.k, 10) + " " + sortName(v.w) + ")\n")
	}
	var asserts strings.Builder
	for _, c := range cs {
		asserts.WriteString("(assert " + p.str(c) + ")\n")
	}
	out.WriteString(p.sb.String())
	out.WriteString(asserts.String())
	return out.String(), p.vars
}

// ---- solver process ----

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Proc is one interactive SMT solver process.
type Proc struct {
	bin     string
	args    []string
	prelude string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	n       int
}

func (p *Proc) start() error {
	p.cmd = exec.Command(p.bin, p.args...)
	in, err := p.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := p.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := p.cmd.Start(); err != nil {
		return err
	}
	p.in = in
	p.out = bufio.NewReaderSize(out, 1<<16)
	p.n = 0
	_, err = io.WriteString(in, p.prelude)
	return err
}

func (p *Proc) stop() {
	if p.cmd != nil {
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
		p.cmd = nil
	}
}

func newZ3(bin string, timeoutMS int) *Proc {
	return &Proc{bin: bin, args: []string{"-in"}, prelude: fmt.Sprintf("(set-option :timeout %d)\n(set-option :produce-models true)\n", timeoutMS)}
}

func newCVC5(timeoutMS int) *Proc {
	return &Proc{bin: "cvc5", args: []string{"--incremental", "--produce-models", "--tlimit-per=" + strconv.Itoa(timeoutMS), "--lang=smt2"}, prelude: "(set-logic QF_BV)\n"}
}

// check runs one query; on Sat the model values for vars are returned.
func (p *Proc) check(text string, vars []*Expr, wantModel bool) (Result, []uint64, error) {
	if p.cmd == nil || p.n > 4000 {
		p.stop()
		if err := p.start(); err != nil {
			return Unknown, nil, err
		}
	}
	p.n++
	if _, err := io.WriteString(p.in, "(push 1)\n"+text+"(check-sat)\n"); err != nil {
		p.stop()
		return Unknown, nil, err
	}
	line, err := p.out.ReadString('\n')
	if err != nil {
		p.stop()
		return Unknown, nil, err
	}
	line = strings.TrimSpace(line)
	var vals []uint64
	res := Unknown
	switch line {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
	default:
		// an error line: never trust this query
		p.stop()
		return Unknown, nil, fmt.Errorf("solver said %q", line)
	}
	if res == Sat && wantModel && len(vars) > 0 {
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString("v" + strconv.FormatUint(v.k, 10) + " ")
		}
		sb.WriteString("))\n")
		if _, err := io.WriteString(p.in, sb.String()); err != nil {
			p.stop()
			return Unknown, nil, err
		}
		s, err := p.readSexp()
		if err != nil {
			p.stop()
			return Unknown, nil, err
		}
		vals, err = parseValues(s, len(vars))
		if err != nil {
			p.stop()
			return Unknown, nil, err
		}
	}
	if _, err := io.WriteString(p.in, "(pop 1)\n"); err != nil {
		p.stop()
	}
	return res, vals, nil
}

func (p *Proc) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	seen := false
	for {
		b, err := p.out.ReadByte()
		if err != nil {
			return "", err
		}
		if b == '(' {
			depth++
			seen = true
		}
		if b == ')' {
			depth--
		}
		if seen {
			sb.WriteByte(b)
		}
		if seen && depth == 0 {
			// consume rest of line
			p.out.ReadString('\n')
			return sb.String(), nil
		}
	}
}

// parseValues reads ((v0 #x01) (v1 true) ...) in order.
func parseValues(s string, n int) ([]uint64, error) {
	toks := []string{}
	cur := strings.Builder{}
	fl := func() {
		if cur.Len() > 0 {
			toks = append(toks, cur.String())
			cur.Reset()
		}
	}
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', ')', ' ', '\n', '\t', '\r':
			fl()
		default:
			cur.WriteByte(s[i])
		}
	}
	fl()
	out := make([]uint64, 0, n)
	i := 0
	for i < len(toks) {
		if !strings.HasPrefix(toks[i], "v") {
			return nil, fmt.Errorf("bad get-value answer %q", s)
		}
		i++
		if i >= len(toks) {
			return nil, fmt.Errorf("bad get-value answer %q", s)
		}
		t := toks[i]
		i++
		var v uint64
		var err error
		switch {
		case t == "true":
			v = 1
		case t == "false":
			v = 0
		case strings.HasPrefix(t, "#x"):
			v, err = strconv.ParseUint(t[2:], 16, 64)
		case strings.HasPrefix(t, "#b"):
			v, err = strconv.ParseUint(t[2:], 2, 64)
		case t == "_":
			if i+1 < len(toks) && strings.HasPrefix(toks[i], "bv") {
				v, err = strconv.ParseUint(toks[i][2:], 10, 64)
				i += 2
			} else {
				err = fmt.Errorf("bad value")
			}
		default:
			err = fmt.Errorf("bad value %q", t)
		}
		if err != nil {
			return nil, err
		}
		out = append(out, v)
	}
	if len(out) != n {
		return nil, fmt.Errorf("get-value count %d != %d", len(out), n)
	}
	return out, nil
}

// ---- query layer ----

type qres struct {
	res  Result
	vars []uint16
	vals []uint64
}

type qshard struct {
	mu sync.Mutex
	m  map[[2]uint64]*qres
}

// Stats are shared by all workers.
type Stats struct {
	queries, sat, unsat, unknown, cacheHits, domainHits, modelHits int64
	asserts, assertQueries                                         int64
	crossChecked, crossDisagree                                    int64
	solverNS                                                       int64
	maxQueryNS                                                     int64
	errors                                                         int64
	audits, auditsDone                                             int64
}

type SolverShared struct {
	shards  [64]qshard
	stats   Stats
	timeout int
	// past the deadline no further query is started: the answer is unknown
	deadline atomic.Int64
	second   bool
	rawLog   sync.Map
	audited  sync.Map
}

func newSolverShared(timeoutMS int) *SolverShared {
	s := &SolverShared{timeout: timeoutMS}
	for i := range s.shards {
		s.shards[i].m = map[[2]uint64]*qres{}
	}
	return s
}

// Solver belongs to one worker.
type Solver struct {
	sh   *SolverShared
	main *Proc
	alt  *Proc
	xchk *Proc
	eb   *EB
}

func newSolver(sh *SolverShared, eb *EB) *Solver {
	return &Solver{sh: sh, eb: eb, main: newZ3("z3", sh.timeout), alt: newZ3("z3-new", sh.timeout*2), xchk: newCVC5(sh.timeout)}
}

func (s *Solver) close() {
	s.main.stop()
	s.alt.stop()
	s.xchk.stop()
}

var slowDir = os.Getenv("VERIF_SLOW")

// Check decides the conjunction; base supplies values for variables outside of it.
func (s *Solver) Check(cs []*Expr) (Result, []*Expr, []uint64) {
	st := &s.sh.stats
	var key [2]uint64
	for _, c := range cs {
		key[0] += mix(c.h[0], 11)
		key[1] += mix(c.h[1], 13)
	}
	sh := &s.sh.shards[key[0]&63]
	sh.mu.Lock()
	r := sh.m[key]
	sh.mu.Unlock()
	if r != nil {
		atomic.AddInt64(&st.cacheHits, 1)
		vs := make([]*Expr, len(r.vars))
		for i, v := range r.vars {
			vs[i] = &Expr{op: OVar, k: uint64(v)}
		}
		return r.res, vs, r.vals
	}
	t0 := time.Now()
	late := func() bool { d := s.sh.deadline.Load(); return d != 0 && time.Now().UnixNano() > d }
	if late() {
		return Unknown, nil, nil
	}
	text, vars := smtQuery(cs)
	res, vals, err := s.main.check(text, vars, true)
	if err != nil {
		atomic.AddInt64(&st.errors, 1)
	}
	if err != nil || res == Unknown && !late() {
		res, vals, err = s.alt.check(text, vars, true)
		if err != nil {
			atomic.AddInt64(&st.errors, 1)
			res = Unknown
		}
	}
	d := int64(time.Since(t0))
	atomic.AddInt64(&st.solverNS, d)
	for {
		m := atomic.LoadInt64(&st.maxQueryNS)
		if d <= m || atomic.CompareAndSwapInt64(&st.maxQueryNS, m, d) {
			break
		}
	}
	if slowDir != "" && d > 2e9 {
		os.WriteFile(slowDir+"/q"+strconv.Itoa(int(d/1e6))+".smt2", []byte("(set-logic QF_BV)\n"+text+"(check-sat)\n"), 0o644)
	}
	n := atomic.AddInt64(&st.queries, 1)
	switch res {
	case Sat:
		atomic.AddInt64(&st.sat, 1)
	case Unsat:
		atomic.AddInt64(&st.unsat, 1)
	default:
		atomic.AddInt64(&st.unknown, 1)
	}
	// a second solver answers a sample of the queries
	every := int64(200)
	if s.sh.second {
		every = 20
	}
	if res != Unknown && n%every == 7 {
		r2, _, err2 := s.xchk.check(text, vars, false)
		if err2 == nil && r2 != Unknown {
			atomic.AddInt64(&st.crossChecked, 1)
			if r2 != res {
				atomic.AddInt64(&st.crossDisagree, 1)
				res = Unknown
			}
		}
	}
	r = &qres{res: res, vals: vals}
	for _, v := range vars {
		r.vars = append(r.vars, uint16(v.k))
	}
	if res == Sat {
		// never trust a model that does not satisfy the query
		mx := 0
		for _, v := range vars {
			if int(v.k) >= mx {
				mx = int(v.k) + 1
			}
		}
		model := make([]uint64, mx)
		for i, v := range vars {
			model[v.k] = vals[i]
		}
		for _, c := range cs {
			if s.eb.Eval(c, model) != 1 {
				atomic.AddInt64(&st.errors, 1)
				r.res = Unknown
				break
			}
		}
	}
	sh.mu.Lock()
	sh.m[key] = r
	sh.mu.Unlock()
	return r.res, vars, vals
}
