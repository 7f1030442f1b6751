package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

// Solver is one incremental SMT process owned by one worker.
type Solver struct {
	t       *TermTable
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	defB    map[*Term]bool // declared/defined bit-vector version
	defF    map[*Term]bool // declared/defined FP version
	ndef    int
	Queries int
	Time    time.Duration
	MaxTime time.Duration
	cache   map[string]cacheEnt
	Cached  int
	Timeout int // ms
	Unknown int
	Errors  []string
	bin     string
	usesFP  bool

	// abstraction: hard operations become free constants
	abs      bool
	absB     map[*Term]bool
	absF     map[*Term]bool
	hardMemo map[*Term]bool
	fresh    []*Term // constants introduced while defining the current query
	Guessed  int     // decided by a guessed model
	Absd     int     // decided by the abstraction
	rng      uint64
}

type cacheEnt struct {
	r SatResult
	m map[int32]uint64
}

func NewSolver(t *TermTable, timeoutMs int) *Solver {
	return &Solver{t: t, Timeout: timeoutMs, cache: map[string]cacheEnt{}, bin: "z3-new"}
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2", "-memory:3000")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(abortAll{"cannot start solver: " + err.Error()})
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defB = map[*Term]bool{}
	s.defF = map[*Term]bool{}
	s.absB = map[*Term]bool{}
	s.absF = map[*Term]bool{}
	s.ndef = 0
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.Timeout)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func fpSort(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func isFPOp(o Op) bool {
	switch o {
	case OFAdd, OFSub, OFMul, OFDiv, OFSqrt, OFRound, OS2F, OU2F, OF2F:
		return true
	}
	return false
}

func hasFP(x *Term) bool {
	if isFPOp(x.op) {
		return true
	}
	if x.op == OIte {
		return hasFP(x.a[1]) || hasFP(x.a[2])
	}
	return false
}

func bvc(w uint8, c uint64) string {
	if w == 0 {
		if c == 1 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, c)
	}
	return fmt.Sprintf("#b%0*b", w, c)
}

// fref gives an expression of FloatingPoint sort.
func (s *Solver) fref(x *Term) string {
	pre, done := "f", s.defF
	if s.abs {
		pre, done = "g", s.absF
	}
	if x.op == OIte && hasFP(x) {
		n := fmt.Sprintf("%s%d", pre, x.id)
		if !done[x] {
			c, a, b := s.ref(x.a[0]), s.fref(x.a[1]), s.fref(x.a[2])
			s.def(n, fmt.Sprintf("(_ FloatingPoint %s)", fpSort(x.w)), fmt.Sprintf("(ite %s %s %s)", c, a, b))
			done[x] = true
		}
		return n
	}
	if !isFPOp(x.op) || s.abs && hardOp(x) {
		return fmt.Sprintf("((_ to_fp %s) %s)", fpSort(x.w), s.ref(x))
	}
	n := fmt.Sprintf("%s%d", pre, x.id)
	if done[x] {
		return n
	}
	s.usesFP = true
	var e string
	switch x.op {
	case OFAdd:
		e = fmt.Sprintf("(fp.add RNE %s %s)", s.fref(x.a[0]), s.fref(x.a[1]))
	case OFSub:
		e = fmt.Sprintf("(fp.sub RNE %s %s)", s.fref(x.a[0]), s.fref(x.a[1]))
	case OFMul:
		e = fmt.Sprintf("(fp.mul RNE %s %s)", s.fref(x.a[0]), s.fref(x.a[1]))
	case OFDiv:
		e = fmt.Sprintf("(fp.div RNE %s %s)", s.fref(x.a[0]), s.fref(x.a[1]))
	case OFSqrt:
		e = fmt.Sprintf("(fp.sqrt RNE %s)", s.fref(x.a[0]))
	case OFRound:
		e = fmt.Sprintf("(fp.roundToIntegral %s %s)", []string{"RNE", "RNA", "RTP", "RTN", "RTZ"}[x.c], s.fref(x.a[0]))
	case OS2F:
		e = fmt.Sprintf("((_ to_fp %s) RNE %s)", fpSort(x.w), s.ref(x.a[0]))
	case OU2F:
		e = fmt.Sprintf("((_ to_fp_unsigned %s) RNE %s)", fpSort(x.w), s.ref(x.a[0]))
	case OF2F:
		e = fmt.Sprintf("((_ to_fp %s) RNE %s)", fpSort(x.w), s.fref(x.a[0]))
	}
	s.def(n, fmt.Sprintf("(_ FloatingPoint %s)", fpSort(x.w)), e)
	done[x] = true
	return n
}

func (s *Solver) def(n, sort, e string) {
	fmt.Fprintf(s.in, "(define-fun %s () %s %s)\n", n, sort, e)
	s.ndef++
}

var binNames = map[Op]string{OAnd: "and", OOr: "or", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat", ONot: "not", OBNot: "bvnot", ONeg: "bvneg"}

func (s *Solver) ref(x *Term) string {
	switch x.op {
	case OConst:
		return bvc(x.w, x.c)
	case OVar:
		if !s.defB[x] {
			sort := "Bool"
			if x.w > 0 {
				sort = fmt.Sprintf("(_ BitVec %d)", x.w)
			}
			fmt.Fprintf(s.in, "(declare-const %s %s)\n", x.name, sort)
			s.defB[x] = true
		}
		return x.name
	}
	pre, done := "t", s.defB
	if s.abs {
		pre, done = "a", s.absB
	}
	n := fmt.Sprintf("%s%d", pre, x.id)
	if done[x] {
		return n
	}
	if s.abs && hardOp(x) {
		fmt.Fprintf(s.in, "(declare-const %s (_ BitVec %d))\n", n, x.w)
		done[x] = true
		s.axioms(n, x)
		return n
	}
	sort := "Bool"
	if x.w > 0 {
		sort = fmt.Sprintf("(_ BitVec %d)", x.w)
	}
	var e string
	switch x.op {
	case OIte:
		if x.w >= 32 && hasFP(x) {
			e = fmt.Sprintf("(fp.to_ieee_bv %s)", s.fref(x))
		} else {
			a, b, c := s.ref(x.a[0]), s.ref(x.a[1]), s.ref(x.a[2])
			e = fmt.Sprintf("(ite %s %s %s)", a, b, c)
		}
	case OExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", x.c>>8, x.c&0xff, s.ref(x.a[0]))
	case OZext:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", x.w-x.a[0].w, s.ref(x.a[0]))
	case OSext:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", x.w-x.a[0].w, s.ref(x.a[0]))
	case OFLt:
		e = fmt.Sprintf("(fp.lt %s %s)", s.fref(x.a[0]), s.fref(x.a[1]))
	case OFLe:
		e = fmt.Sprintf("(fp.leq %s %s)", s.fref(x.a[0]), s.fref(x.a[1]))
	case OFEq:
		e = fmt.Sprintf("(fp.eq %s %s)", s.fref(x.a[0]), s.fref(x.a[1]))
	case OFIsNaN:
		e = fmt.Sprintf("(fp.isNaN %s)", s.fref(x.a[0]))
	case OF2S:
		e = fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", x.w, s.fref(x.a[0]))
	case OF2U:
		e = fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", x.w, s.fref(x.a[0]))
	default:
		if isFPOp(x.op) {
			e = fmt.Sprintf("(fp.to_ieee_bv %s)", s.fref(x))
		} else {
			var as []string
			for i := 0; i < int(x.n); i++ {
				as = append(as, s.ref(x.a[i]))
			}
			e = "(" + binNames[x.op] + " " + strings.Join(as, " ") + ")"
		}
	}
	s.def(n, sort, e)
	done[x] = true
	return n
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides the conjunction of cs; on Sat the model covers all variables
// in their support.
func (s *Solver) Check(cs []*Term) (SatResult, map[int32]uint64) {
	ids := make([]int, 0, len(cs))
	seen := map[*Term]bool{}
	var terms []*Term
	for _, c := range cs {
		if c.isC() {
			if c.c == 0 {
				return Unsat, nil
			}
			continue
		}
		if !seen[c] {
			seen[c] = true
			terms = append(terms, c)
			ids = append(ids, int(c.id))
		}
	}
	sort.Ints(ids)
	var kb strings.Builder
	for _, i := range ids {
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(' ')
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		s.Cached++
		return e.r, e.m
	}
	r, m := Unknown, map[int32]uint64(nil)
	if s.anyHard(terms) {
		s.abs = true
		u := s.Unknown
		r, _ = s.check1(terms)
		s.Unknown = u
		s.abs = false
		if r == Unsat {
			s.Absd++
		} else {
			r = Unknown
			if g := s.guess(terms); g != nil {
				r, m = Sat, g
				s.Guessed++
			}
		}
	}
	if r == Unknown {
		r, m = s.check1(terms)
	}
	if r == Sat {
		// cross-check the model with our own evaluator
		mx := int32(0)
		for k := range m {
			if k > mx {
				mx = k
			}
		}
		mod := make([]uint64, mx+1)
		for k, v := range m {
			mod[k] = v
		}
		for _, c := range terms {
			if s.t.Eval(c, mod) != 1 {
				s.Errors = append(s.Errors, "solver model rejected by evaluator")
				r = Unknown
				s.Unknown++
				break
			}
		}
	}
	s.cache[key] = cacheEnt{r, m}
	return r, m
}

func (s *Solver) check1(terms []*Term) (SatResult, map[int32]uint64) {
	if s.cmd == nil || s.ndef > 60000 {
		s.Close()
		s.start()
	}
	start := time.Now()
	defer func() {
		d := time.Since(start)
		s.Time += d
		if d > time.Second && os.Getenv("VZ_SLOW") != "" {
			fmt.Fprintf(os.Stderr, "SLOW %.1fs abs=%v", d.Seconds(), s.abs)
			for _, c := range terms {
				fmt.Fprintf(os.Stderr, "  %s", trunc(c.show(7), 300))
			}
			fmt.Fprintln(os.Stderr)
		}
		if d > s.MaxTime {
			s.MaxTime = d
		}
		s.Queries++
	}()
	var refs []string
	vars := map[int32]*Term{}
	for _, c := range terms {
		refs = append(refs, s.ref(c))
		collectVars(c, vars, map[*Term]bool{})
	}
	to := s.Timeout
	if s.abs && to > 3000 {
		to = 3000
	}
	fmt.Fprintf(s.in, "(push)\n(set-option :timeout %d)\n", to)
	for _, r := range refs {
		fmt.Fprintf(s.in, "(assert %s)\n", r)
	}
	fmt.Fprintf(s.in, "(check-sat)\n")
	s.in.Flush()
	type res struct {
		l   string
		err error
	}
	ch := make(chan res, 1)
	go func() { l, err := s.readLine(); ch <- res{l, err} }()
	var l string
	select {
	case r := <-ch:
		if r.err != nil {
			s.Errors = append(s.Errors, "solver died")
			s.Close()
			s.Unknown++
			return Unknown, nil
		}
		l = r.l
	case <-time.After(time.Duration(s.Timeout)*time.Millisecond*2 + 5*time.Second):
		s.Close()
		<-ch
		s.Unknown++
		return Unknown, nil
	}
	switch {
	case l == "unsat":
		fmt.Fprintf(s.in, "(pop)\n")
		return Unsat, nil
	case l == "sat":
		m := map[int32]uint64{}
		if len(vars) > 0 {
			var b strings.Builder
			var vs []*Term
			for _, v := range vars {
				vs = append(vs, v)
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i].idx < vs[j].idx })
			b.WriteString("(get-value (")
			for _, v := range vs {
				b.WriteString(v.name + " ")
			}
			b.WriteString("))\n")
			fmt.Fprint(s.in, b.String())
			s.in.Flush()
			txt, err := s.readSexp()
			if err != nil {
				s.Close()
				s.Unknown++
				return Unknown, nil
			}
			parseModel(txt, vars, m)
		}
		fmt.Fprintf(s.in, "(pop)\n")
		return Sat, m
	case strings.HasPrefix(l, "(error"):
		s.Errors = append(s.Errors, l)
		s.Close()
		s.Unknown++
		return Unknown, nil
	default:
		fmt.Fprintf(s.in, "(pop)\n")
		s.Unknown++
		return Unknown, nil
	}
}

func collectVars(x *Term, m map[int32]*Term, seen map[*Term]bool) {
	if x.op == OVar {
		m[x.idx] = x
		return
	}
	if x.n == 0 || seen[x] {
		return
	}
	seen[x] = true
	for i := 0; i < int(x.n); i++ {
		collectVars(x.a[i], m, seen)
	}
}

func (s *Solver) readSexp() (string, error) {
	var b strings.Builder
	depth := 0
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
		}
		b.WriteByte(c)
		if started && depth == 0 {
			// consume rest of line
			for {
				c, err := s.out.ReadByte()
				if err == io.EOF || c == '\n' {
					break
				}
				if err != nil {
					break
				}
			}
			return b.String(), nil
		}
	}
}

func parseModel(txt string, vars map[int32]*Term, m map[int32]uint64) {
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt))
	by := map[string]int32{}
	for i, v := range vars {
		by[v.name] = i
	}
	for i := 0; i+1 < len(f); i += 2 {
		idx, ok := by[f[i]]
		if !ok {
			continue
		}
		v := f[i+1]
		switch {
		case v == "true":
			m[idx] = 1
		case v == "false":
			m[idx] = 0
		case strings.HasPrefix(v, "#x"):
			m[idx], _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			m[idx], _ = strconv.ParseUint(v[2:], 2, 64)
		}
	}
}
