package main

// z3 over a pipe, incremental with push/pop kept in step with the path condition.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Solver struct {
	tc      *TermCtx
	bin     []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inC     io.WriteCloser
	out     *bufio.Reader
	stack   []*Term
	epoch   uint32
	decl    map[string]bool
	ndef    int
	timeout int

	Queries, Sat, Unsat, Unknown int
	Time                         time.Duration
	log                          io.Writer
}

var solverEpoch uint32

func newSolver(tc *TermCtx, bin []string, timeoutMs int) *Solver {
	s := &Solver{tc: tc, bin: bin, timeout: timeoutMs}
	if f := os.Getenv("GOSYM_SMTLOG"); f != "" {
		s.log, _ = os.OpenFile(f, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	}
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		fatalf("cannot start solver %v: %v", s.bin, err)
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.epoch = s.nextEpoch()
	s.decl = map[string]bool{}
	s.stack = nil
	s.ndef = 0
	s.send("(set-option :print-success false)")
	if strings.Contains(s.bin[0], "z3") {
		s.send("(set-option :global-declarations true)")
		s.send(fmt.Sprintf("(set-option :timeout %d)", s.timeout))
	} else {
		s.send("(set-option :global-declarations true)")
	}
	s.send("(set-logic QF_BV)")
}

func (s *Solver) nextEpoch() uint32 {
	s.epochSeq()
	return s.epoch
}
func (s *Solver) epochSeq() { s.epoch++ }

func (s *Solver) close() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(l string) {
	if s.log != nil {
		fmt.Fprintln(s.log, l)
	}
	s.in.WriteString(l)
	s.in.WriteByte('\n')
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return constName(t)
	case OVar:
		n := varName(t)
		if !s.decl[n] {
			s.decl[n] = true
			s.send("(declare-const " + n + " " + sortName(t.w) + ")")
		}
		return n
	}
	if t.emit == s.epoch {
		return "t" + strconv.Itoa(int(t.id))
	}
	// iterative post-order to avoid deep recursion
	type fr struct {
		t *Term
		k int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.emit == s.epoch {
			st = st[:len(st)-1]
			continue
		}
		var ch *Term
		switch f.k {
		case 0:
			ch = f.t.a
		case 1:
			ch = f.t.b
		case 2:
			ch = f.t.c
		}
		if f.k < 3 {
			f.k++
			if ch != nil && ch.op != OConst && ch.op != OVar && ch.emit != s.epoch {
				st = append(st, fr{ch, 0})
			}
			continue
		}
		s.define(f.t)
		st = st[:len(st)-1]
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (s *Solver) atom(t *Term) string {
	if t.op == OConst || t.op == OVar {
		return s.ref(t)
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (s *Solver) define(t *Term) {
	var e string
	switch t.op {
	case OExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", int(t.val)+int(t.w)-1, t.val, s.atom(t.a))
	case OZext:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, s.atom(t.a))
	case OSext:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, s.atom(t.a))
	default:
		e = "(" + opNames[t.op] + " " + s.atom(t.a)
		if t.b != nil {
			e += " " + s.atom(t.b)
		}
		if t.c != nil {
			e += " " + s.atom(t.c)
		}
		e += ")"
	}
	s.send("(define-fun t" + strconv.Itoa(int(t.id)) + " () " + sortName(t.w) + " " + e + ")")
	t.emit = s.epoch
	s.ndef++
}

// check decides pc ∧ extra. On sat it returns a model for the variables 0..nvars-1.
func (s *Solver) check(pc []*Term, extra *Term, nvars int) (res string, model []uint64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	if s.cmd == nil || s.ndef > 200000 {
		s.close()
		s.start()
	}
	s.Queries++
	// sync assertion stack
	k := 0
	for k < len(s.stack) && k < len(pc) && s.stack[k] == pc[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		s.send(fmt.Sprintf("(pop %d)", n))
		s.stack = s.stack[:k]
	}
	for ; k < len(pc); k++ {
		r := s.ref(pc[k])
		s.send("(push 1)")
		s.send("(assert " + r + ")")
		s.stack = append(s.stack, pc[k])
	}
	pushed := false
	if extra != nil && extra != s.tc.True {
		r := s.ref(extra)
		s.send("(push 1)")
		s.send("(assert " + r + ")")
		pushed = true
	}
	s.send("(check-sat)")
	s.in.Flush()
	res = s.readLine()
	switch res {
	case "sat":
		s.Sat++
		model = make([]uint64, nvars)
		var names []string
		var idx []int
		for i := 0; i < nvars && i < len(s.tc.vars); i++ {
			vi := s.tc.vars[i]
			if vi == nil || !s.decl[varName(vi.t)] {
				continue
			}
			names = append(names, varName(vi.t))
			idx = append(idx, i)
		}
		if len(names) > 0 {
			s.send("(get-value (" + strings.Join(names, " ") + "))")
			s.in.Flush()
			txt := s.readSexp()
			vals := parseValues(txt)
			if len(vals) != len(names) {
				fatalf("solver get-value: %d values for %d names: %s", len(vals), len(names), txt)
			}
			for j, v := range vals {
				model[idx[j]] = v
			}
		}
	case "unsat":
		s.Unsat++
	default:
		s.Unknown++
		if res != "unknown" && res != "timeout" {
			fmt.Fprintf(os.Stderr, "gosym: solver said %q\n", res)
			s.close()
			return "unknown", nil
		}
		res = "unknown"
	}
	if pushed {
		s.send("(pop 1)")
	}
	return
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "eof"
	}
	return strings.TrimSpace(l)
}

func (s *Solver) readSexp() string {
	depth := 0
	var sb strings.Builder
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return sb.String()
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
		}
		if depth > 0 || c == ')' {
			sb.WriteByte(c)
		}
		if depth == 0 && sb.Len() > 0 {
			s.out.ReadString('\n')
			return sb.String()
		}
	}
}

func parseValues(txt string) []uint64 {
	var out []uint64
	// pairs (name value); value is #x.. #b.. (_ bvN w) true false
	txt = strings.ReplaceAll(txt, "(_ bv", "#d")
	for _, f := range strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt)) {
		switch {
		case strings.HasPrefix(f, "#x"):
			v, _ := strconv.ParseUint(f[2:], 16, 64)
			out = append(out, v)
		case strings.HasPrefix(f, "#b"):
			v, _ := strconv.ParseUint(f[2:], 2, 64)
			out = append(out, v)
		case strings.HasPrefix(f, "#d"):
			v, _ := strconv.ParseUint(f[2:], 10, 64)
			out = append(out, v)
		case f == "true":
			out = append(out, 1)
		case f == "false":
			out = append(out, 0)
		}
	}
	return out
}

// oneShot decides pc ∧ extra in a fresh process, without touching term marks.
func (s *Solver) oneShot(pc []*Term, extra *Term) string {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	var sb strings.Builder
	sb.WriteString("(set-logic QF_BV)\n")
	seen := map[uint32]bool{}
	var name func(t *Term) string
	name = func(t *Term) string {
		switch t.op {
		case OConst:
			return constName(t)
		case OVar:
			return varName(t)
		}
		return "t" + strconv.Itoa(int(t.id))
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || t.op == OConst || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OVar {
			sb.WriteString("(declare-const " + varName(t) + " " + sortName(t.w) + ")\n")
			return
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
		var e string
		switch t.op {
		case OExtract:
			e = fmt.Sprintf("((_ extract %d %d) %s)", int(t.val)+int(t.w)-1, t.val, name(t.a))
		case OZext:
			e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, name(t.a))
		case OSext:
			e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, name(t.a))
		default:
			e = "(" + opNames[t.op] + " " + name(t.a)
			if t.b != nil {
				e += " " + name(t.b)
			}
			if t.c != nil {
				e += " " + name(t.c)
			}
			e += ")"
		}
		sb.WriteString("(define-fun t" + strconv.Itoa(int(t.id)) + " () " + sortName(t.w) + " " + e + ")\n")
	}
	for _, t := range append(append([]*Term(nil), pc...), extra) {
		walk(t)
		sb.WriteString("(assert " + name(t) + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	cmd := exec.Command(s.bin[0], s.bin[1:]...)
	cmd.Stdin = strings.NewReader(sb.String())
	out, _ := cmd.Output()
	s.Queries++
	return strings.TrimSpace(string(out))
}
