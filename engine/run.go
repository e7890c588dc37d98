package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Decision is one recorded nondeterministic step of a path; a path is identified by its decisions.
type Decision struct {
	k    byte // b branch, c choose, z concretised value, x concretise to a value not in excl
	v    int64
	excl []int64
}

// Input is one symbolic or chosen harness input, in call order.
type Input struct {
	Kind  string `json:"kind"`
	Label string `json:"label"`
	Val   string `json:"val"`
	t     *Term
	scale float64
}

type pendingAssert struct {
	neg    *Term
	strong *Term
	label  string
}

type Violation struct {
	Harness string  `json:"harness"`
	Label   string  `json:"label"`
	Msg     string  `json:"message"`
	Inputs  []Input `json:"inputs"`
	Orders  bool    `json:"map_order_dependent"`
	Trace   string  `json:"-"`
	kind    string
	Replay  string `json:"replay_output,omitempty"`
}

type Run struct {
	itokens   []*Term
	inErrorf  bool
	pcSet     map[int]bool // ids of the path constraints
	ex        *Explorer
	w         *Worker
	tm        *TermMgr
	pc        []*Term
	prefix    []Decision
	pos       int
	trace     []Decision
	inputs    []Input
	pend      []pendingAssert
	steps     int64
	depth     int
	globals   map[*ssa.Global]*Value
	inited    map[*ssa.Package]int
	model     map[int]interface{} // var id -> *big.Rat | uint64 | bool
	mapBud    int
	orders    bool
	uncert    bool
	tokens    []*Term // float tokens in texts
	tokIdx    map[string]int
	fmtVars   map[string][]Value
	fmtGroups []fmtGroup
	fmtOf     map[int]int
	fmtAx     map[[2]int]bool
	fs        map[string]Value // virtual files: path -> string value
	natives   map[string]interface{}
	inGo      int
	curFr     *frame
	labels    map[string]int
	aux       map[string]interface{}
	inHar     int
}

type Worker struct {
	ex      *Explorer
	s       *Solver
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]int
	rng     *rand.Rand
	fcache  map[*ssa.Function]*cfunc
	mcache  map[methKey]*ssa.Function
}

type Explorer struct {
	prog        *Program
	har         *ssa.Function
	name        string
	mapBud      int
	mu          sync.Mutex
	cond        *sync.Cond
	stack       [][]Decision // pending paths that end in another outcome of a branch
	choices     [][]Decision // pending paths that end in another value of a Choose
	rng         *rand.Rand
	active      int
	paths       int64
	feas        int64
	aborted     int64
	stop        bool
	deadline    time.Time
	maxPaths    int64
	timedOut    bool
	unsup       map[string]int
	viols       []Violation
	violKeys    map[string]bool
	asserts     int64
	trivial     int64
	discharged  int64
	normalForm  int64
	inconcl     map[string]int
	uncert      int64
	labels      map[string]int
	maxSteps    int64
	totSteps    int64
	maxViol     int
	confirm     func(v *Violation) bool // native replay, called under no lock
	seed        int64
	assertMs    int
	notReplayed []Violation
	nDecisions  int64
	samples     [][]Input
	sampleN     int64
}

func (r *Run) addPC(t *Term) {
	if t.isConst() {
		if !t.b {
			panic(pathAbort{"false constraint"})
		}
		return
	}
	r.pc = append(r.pc, t)
	if r.pcSet == nil {
		r.pcSet = map[int]bool{}
	}
	r.pcSet[t.id] = true
	r.tm.LearnFact(t)
	if r.model != nil {
		if v, ok := r.evalBool(t, r.model); !ok || !v {
			// reciprocal variables can be computed
			r.model = nil
		}
	}
}

// slice returns the path constraints connected to the given terms by shared variables.
func (r *Run) slice(ts ...*Term) []*Term {
	vars := map[int]bool{}
	for _, t := range ts {
		for _, v := range r.tm.Vars(t) {
			vars[v.id] = true
		}
	}
	used := make([]bool, len(r.pc))
	for changed := true; changed; {
		changed = false
		for i, t := range r.pc {
			if used[i] {
				continue
			}
			for _, v := range r.tm.Vars(t) {
				if vars[v.id] {
					used[i] = true
					changed = true
					for _, u := range r.tm.Vars(t) {
						vars[u.id] = true
					}
					break
				}
			}
		}
	}
	var out []*Term
	for i, t := range r.pc {
		if used[i] {
			out = append(out, t)
		}
	}
	return append(out, ts...)
}

func (r *Run) varsOf(ts []*Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	for _, t := range ts {
		for _, v := range r.tm.Vars(t) {
			if !seen[v.id] {
				seen[v.id] = true
				out = append(out, v)
			}
		}
	}
	return out
}

const branchMs = 3000

// feasible asks whether PC and t can hold together; updates the model when it can.
func (r *Run) feasible(t *Term) SatRes {
	if t.isConst() {
		if t.b {
			return Sat
		}
		return Unsat
	}
	if r.model != nil {
		if v, ok := r.evalBool(t, r.model); ok && v {
			return Sat
		}
	}
	q := r.slice(t)
	want := r.varsOf(q)
	res, m := r.w.s.Query(r.tm, q, branchMs, want)
	if res == Sat {
		r.mergeModel(m, want)
	}
	return res
}

func (r *Run) mergeModel(m map[int]string, vars []*Term) map[int]interface{} {
	nm := map[int]interface{}{}
	for k, v := range r.model {
		nm[k] = v
	}
	for _, v := range vars {
		s, ok := m[v.id]
		if !ok {
			continue
		}
		if x, ok := parseVal(s, v); ok {
			nm[v.id] = x
		}
	}
	// keep only when it satisfies the path constraints exactly (irrational values are truncated)
	for _, t := range r.pc {
		if v, ok := r.evalBool(t, nm); !ok || !v {
			r.model = nil
			return nm
		}
	}
	r.lastModel(nm)
	return nm
}

func (r *Run) lastModel(m map[int]interface{}) { r.aux["lastmodel"] = m }

func parseVal(s string, v *Term) (interface{}, bool) {
	switch v.sort {
	case SBool:
		return s == "true", true
	case SBV:
		return parseBV(s)
	case SReal:
		return parseReal(s)
	}
	return nil, false
}

// Branch decides a symbolic condition, forking when both sides are possible.
func (r *Run) Branch(c *Term) bool {
	if c.isConst() {
		return c.b
	}
	if r.pcSet[c.id] {
		return true
	}
	if r.pcSet[r.tm.Not(c).id] {
		return false
	}
	if r.pos < len(r.prefix) {
		d := r.prefix[r.pos]
		if d.k != 'b' {
			panic(unsupported{fmt.Sprintf("replay divergence: expected %c got branch", d.k)})
		}
		r.pos++
		r.trace = append(r.trace, d)
		b := d.v == 1
		if b {
			r.addPC(c)
		} else {
			r.addPC(r.tm.Not(c))
		}
		return b
	}
	nc := r.tm.Not(c)
	var st, sf SatRes
	var mt, mf map[int]interface{}
	r.aux["lastmodel"] = nil
	if r.model != nil {
		if v, ok := r.evalBool(c, r.model); ok {
			if v {
				st, mt = Sat, r.model
			} else {
				sf, mf = Sat, r.model
			}
		}
	}
	if mt == nil {
		old := r.model
		r.aux["lastmodel"] = nil
		st = r.feasible(c)
		if m, ok := r.aux["lastmodel"].(map[int]interface{}); ok {
			mt = m
		}
		r.model = old
	}
	if mf == nil {
		if st == Unsat {
			sf = Sat // PC itself is satisfiable or unknown
			mf = r.model
		} else {
			old := r.model
			r.aux["lastmodel"] = nil
			sf = r.feasible(nc)
			if m, ok := r.aux["lastmodel"].(map[int]interface{}); ok {
				mf = m
			}
			r.model = old
		}
	}
	if st == Unknown || sf == Unknown {
		r.uncert = true
	}
	take := st != Unsat
	if st != Unsat && sf != Unsat {
		alt := append(append([]Decision(nil), r.trace...), Decision{k: 'b', v: 0})
		r.ex.push(alt)
	}
	d := Decision{k: 'b', v: 0}
	if take {
		d.v = 1
	}
	r.trace = append(r.trace, d)
	if take {
		r.model = mt
		r.addPC(c)
	} else {
		r.model = mf
		r.addPC(nc)
	}
	return take
}

// Choose forks over 0..n-1.
func (r *Run) Choose(n int) int {
	if n <= 0 {
		panic(pathAbort{"empty choice"})
	}
	if n == 1 {
		return 0
	}
	if r.pos < len(r.prefix) {
		d := r.prefix[r.pos]
		if d.k != 'c' {
			panic(unsupported{fmt.Sprintf("replay divergence: expected %c got choose", d.k)})
		}
		r.pos++
		r.trace = append(r.trace, d)
		return int(d.v)
	}
	for i := n - 1; i >= 1; i-- {
		alt := append(append([]Decision(nil), r.trace...), Decision{k: 'c', v: int64(i)})
		r.ex.push(alt)
	}
	r.trace = append(r.trace, Decision{k: 'c', v: 0})
	return 0
}

// Concretize turns a symbolic integer into a concrete one, forking over all feasible values.
func (r *Run) Concretize(t *Term, ti tinfo) int64 {
	if t.isConst() {
		return norm(int64(t.bv), ti)
	}
	return r.concLoop(func(v int64) *Term { return r.tm.Eq(t, r.tm.BV(t.w, uint64(v))) },
		func(m map[int]interface{}) (int64, bool) {
			x, ok := r.eval(t, m)
			if !ok {
				return 0, false
			}
			return norm(int64(x.(uint64)), ti), true
		})
}

// FloorConc turns a symbolic real into the integer it truncates to (towards zero), forking over all feasible values.
func (r *Run) TruncConc(t *Term) int64 {
	return r.concLoop(func(v int64) *Term {
		lo, hi := big.NewRat(v, 1), big.NewRat(v+1, 1)
		switch {
		case v > 0:
			return r.tm.And(r.tm.ROp(OpRLe, r.tm.Rat(lo), t), r.tm.ROp(OpRLt, t, r.tm.Rat(hi)))
		case v < 0:
			return r.tm.And(r.tm.ROp(OpRLe, t, r.tm.Rat(lo)), r.tm.ROp(OpRLt, r.tm.Rat(big.NewRat(v-1, 1)), t))
		}
		return r.tm.And(r.tm.ROp(OpRLt, r.tm.Rat(big.NewRat(-1, 1)), t), r.tm.ROp(OpRLt, t, r.tm.Rat(hi)))
	}, func(m map[int]interface{}) (int64, bool) {
		x, ok := r.eval(t, m)
		if !ok {
			return 0, false
		}
		q := x.(*big.Rat)
		i := new(big.Int).Quo(q.Num(), q.Denom())
		return i.Int64(), i.IsInt64()
	})
}

func (r *Run) concLoop(eqT func(int64) *Term, pick func(map[int]interface{}) (int64, bool)) int64 {
	var excl []int64
	if r.pos < len(r.prefix) {
		d := r.prefix[r.pos]
		if d.k == 'z' {
			r.pos++
			r.trace = append(r.trace, d)
			r.addPC(eqT(d.v))
			return d.v
		}
		if d.k != 'x' {
			panic(unsupported{fmt.Sprintf("replay divergence: expected %c got concretise", d.k)})
		}
		r.pos++
		excl = d.excl
	}
	if len(excl) > 400 {
		panic(unsupported{"too many values to concretise"})
	}
	m := r.model
	bad := func(v int64) bool {
		for _, e := range excl {
			if e == v {
				return true
			}
		}
		return false
	}
	var v int64
	found := false
	if m != nil {
		if x, ok := pick(m); ok && !bad(x) {
			v, found = x, true
		}
	}
	if !found {
		var conj *Term = r.tm.True
		for _, e := range excl {
			conj = r.tm.And(conj, r.tm.Not(eqT(e)))
		}
		// make the variables of the expression part of the query
		probe := eqT(0)
		taut := r.tm.mk(&Term{op: OpOr, sort: SBool, a: []*Term{probe, r.tm.Not(probe)}}, "")
		q := r.slice(taut)
		if conj != r.tm.True {
			q = r.slice(conj, taut)
		}
		want := r.varsOf(q)
		res, mm := r.w.s.Query(r.tm, q, branchMs*2, want)
		switch res {
		case Unsat:
			panic(pathAbort{"no further value"})
		case Unknown:
			panic(unsupported{"solver unknown while concretising"})
		}
		nm := r.mergeModel(mm, want)
		x, ok := pick(nm)
		if ok {
			// the printed model is rounded: a value just below or above may be meant
			ok = !bad(x)
			for _, c := range []int64{x + 1, x - 1} {
				if ok || bad(c) {
					continue
				}
				if res, _ := r.w.s.Query(r.tm, r.slice(eqT(c)), branchMs*2, nil); res == Sat {
					x, ok = c, true
				}
			}
		}
		if !ok {
			panic(unsupported{"cannot evaluate model while concretising"})
		}
		v = x
		r.model = nil
		if lm, ok := r.aux["lastmodel"].(map[int]interface{}); ok {
			r.model = lm
		}
	}
	alt := append(append([]Decision(nil), r.trace...), Decision{k: 'x', excl: append(append([]int64(nil), excl...), v)})
	r.ex.push(alt)
	r.trace = append(r.trace, Decision{k: 'z', v: v})
	r.addPC(eqT(v))
	return v
}

// Assume restricts the path.
func (r *Run) Assume(c Value) {
	r.flush()
	switch x := c.(type) {
	case bool:
		if !x {
			panic(pathAbort{"assume"})
		}
	case *Term:
		if r.pos >= len(r.prefix) {
			old := r.model
			r.aux["lastmodel"] = nil
			res := r.feasible(x)
			if res == Unsat {
				panic(pathAbort{"assume"})
			}
			r.model = old
			if m, ok := r.aux["lastmodel"].(map[int]interface{}); ok {
				r.model = m
			}
		}
		r.addPC(x)
	}
}

func (r *Run) assertTerm(t, strong *Term, label string) {
	r.ex.mu.Lock()
	r.ex.asserts++
	r.ex.mu.Unlock()
	if t.isConst() && t.b {
		r.ex.mu.Lock()
		r.ex.trivial++
		r.ex.mu.Unlock()
		return
	}
	r.digitAxioms(t)
	r.pend = append(r.pend, pendingAssert{neg: r.tm.Not(t), strong: strong, label: label})
	if len(r.pend) >= 64 {
		r.flush()
	}
}

// flush decides the pending assertions under the current path condition.
func (r *Run) flush() {
	if len(r.pend) == 0 {
		return
	}
	p := r.pend
	r.pend = nil
	if r.pos < len(r.prefix) {
		return // decided by the path this one was forked from
	}
	ex := r.ex
	ms := ex.assertMs
	undecided := p
	if len(p) > 1 {
		or := r.tm.False
		for _, a := range p {
			or = r.tm.Or(or, a.neg)
		}
		// most equalities hold for all values, so first without the path condition
		res, _ := r.w.s.Query(r.tm, []*Term{or}, 1500, nil)
		if res != Unsat {
			res, _ = r.w.s.Query(r.tm, r.slice(or), 2500, nil)
		}
		if res == Unsat {
			ex.mu.Lock()
			ex.discharged += int64(len(p))
			ex.mu.Unlock()
			return
		}
	}
	for _, a := range undecided {
		res := r.decide(a, ms)
		ex.mu.Lock()
		switch res {
		case Unsat:
			ex.discharged++
		case Unknown:
			ex.inconcl[a.label]++
		}
		stop := ex.stop
		ex.mu.Unlock()
		if stop {
			return
		}
	}
}

// decide one assertion: unsat means it holds on this path.
func (r *Run) decide(a pendingAssert, ms int) SatRes {
	if a.neg.isConst() {
		if !a.neg.b {
			return Unsat
		}
		r.violation("assert", a.label, "assertion fails", nil)
		return Sat
	}
	res, _ := r.w.s.Query(r.tm, []*Term{a.neg}, 1500, nil)
	if res == Unsat {
		return Unsat
	}
	c := a.neg
	if res == Unknown {
		// the same with the real expressions multiplied out
		c = r.canon(a.neg)
		if c.isConst() && !c.b {
			r.ex.mu.Lock()
			r.ex.normalForm++
			r.ex.mu.Unlock()
			return Unsat
		}
	}
	res, _ = r.w.s.Query(r.tm, r.slice(c), ms, nil)
	if res == Unsat {
		return Unsat
	}
	if r.violation("assert", a.label, "assertion fails", &a) {
		return Sat
	}
	return Unknown
}

// canon rewrites real comparisons to comparisons of canonical polynomials with zero.
func (r *Run) canon(t *Term) *Term {
	tm := r.tm
	switch t.op {
	case OpNot:
		return tm.Not(r.canon(t.a[0]))
	case OpAnd:
		return tm.And(r.canon(t.a[0]), r.canon(t.a[1]))
	case OpOr:
		return tm.Or(r.canon(t.a[0]), r.canon(t.a[1]))
	case OpRLt, OpRLe:
		return tm.RealCmp(t.op, t.a[0], t.a[1])
	case OpEq:
		if t.a[0].sort == SReal {
			return tm.RealCmp(OpEq, t.a[0], t.a[1])
		}
	}
	return t
}

// niceConstraints keeps the model values of inputs in a range where native replay is conclusive.
func (r *Run) nice(level int) []*Term {
	var out []*Term
	for _, in := range r.inputs {
		if in.t == nil || in.t.sort != SReal {
			continue
		}
		hi := big.NewRat(100, 1)
		lo := big.NewRat(1, 50)
		if level > 0 {
			hi = big.NewRat(1000, 1)
			lo = big.NewRat(1, 10000)
		}
		if s, ok := r.tm.sign[in.t.id]; ok {
			_ = s
			if s == 1 {
				out = append(out, r.tm.ROp(OpRLe, r.tm.Rat(lo), in.t))
			}
			out = append(out, r.tm.ROp(OpRLe, in.t, r.tm.Rat(hi)))
		} else {
			out = append(out, r.tm.ROp(OpRLe, in.t, r.tm.Rat(hi)), r.tm.ROp(OpRLe, r.tm.Rat(new(big.Rat).Neg(hi)), in.t))
		}
	}
	return out
}

// nearby moves the real values of a counterexample slightly (or far, when they are large): the solver likes to answer
// with values on the border of the failing region, where rounding decides what the native run does.
func (r *Run) nearby(cands []map[int]interface{}) []map[int]interface{} {
	if len(cands) == 0 {
		return nil
	}
	base := cands[len(cands)-1]
	var out []map[int]interface{}
	for _, f := range []func(x *big.Rat) *big.Rat{
		func(x *big.Rat) *big.Rat { return new(big.Rat).Mul(x, big.NewRat(2, 1)) },
		func(x *big.Rat) *big.Rat { return new(big.Rat).Mul(x, big.NewRat(1, 2)) },
		func(x *big.Rat) *big.Rat { return new(big.Rat).Add(x, big.NewRat(1, 1024)) },
		func(x *big.Rat) *big.Rat { return new(big.Rat).Sub(x, big.NewRat(1, 1024)) },
		func(x *big.Rat) *big.Rat { return new(big.Rat).Mul(x, big.NewRat(11, 10)) },
	} {
		m := map[int]interface{}{}
		diff := false
		for k, v := range base {
			if x, ok := v.(*big.Rat); ok {
				v = f(x)
				diff = true
			}
			m[k] = v
		}
		if diff {
			out = append(out, m)
		}
	}
	return out
}

// violation builds a concrete counterexample for the current path (and the negated assertion) and has it replayed.
func (r *Run) violation(kind, label, msg string, a *pendingAssert) bool {
	ex := r.ex
	ex.mu.Lock()
	if ex.stop || ex.violKeys[label] && kind != "retry" {
		n := ex.violKeys[label]
		ex.mu.Unlock()
		return n
	}
	ex.mu.Unlock()
	var cands []map[int]interface{}
	all := func(extra []*Term) []*Term {
		out := append([]*Term(nil), r.pc...)
		return append(out, extra...)
	}
	try := func(extra []*Term, ms int) bool {
		q := all(extra)
		want := r.varsOf(q)
		for _, in := range r.inputs {
			if in.t != nil {
				want = append(want, in.t)
			}
		}
		want = dedupTerms(want)
		if len(want) == 0 {
			cands = append(cands, map[int]interface{}{})
			return true
		}
		res, m := r.w.s.Query(r.tm, q, ms, want)
		if res != Sat {
			return false
		}
		nm := map[int]interface{}{}
		for _, v := range want {
			if s, ok := m[v.id]; ok {
				if x, ok := parseVal(s, v); ok {
					nm[v.id] = x
				}
			}
		}
		cands = append(cands, nm)
		return true
	}
	random := func(t *Term, n int) {
		if m := r.randomWitness(t, n); m != nil {
			cands = append(cands, m)
		}
	}
	if a != nil {
		if a.strong != nil {
			random(a.strong, 200)
			if len(cands) == 0 {
				try(append(r.nice(0), a.strong), 5000)
			}
		}
		if len(cands) == 0 {
			random(a.neg, 300)
		}
		if len(cands) == 0 {
			try(append(r.nice(1), a.neg), 5000)
		}
		if len(cands) == 0 {
			try([]*Term{a.neg}, 10000)
		}
	} else {
		random(r.tm.True, 200)
		if len(cands) == 0 {
			_ = try(r.nice(0), 5000) || try(nil, 10000)
		}
	}
	if len(cands) == 0 {
		return false
	}
	cands = append(cands, r.nearby(cands)...)
	for _, m := range cands {
		v := Violation{Harness: ex.name, Label: label, Msg: msg, kind: kind, Orders: r.orders}
		for _, in := range r.inputs {
			v.Inputs = append(v.Inputs, r.inputValue(in, m))
		}
		ok := true
		if ex.confirm != nil {
			ok = ex.confirm(&v)
		}
		ex.mu.Lock()
		if ok {
			if !ex.violKeys[label] {
				ex.violKeys[label] = true
				ex.viols = append(ex.viols, v)
				if len(ex.viols) >= ex.maxViol {
					ex.stop = true
					ex.cond.Broadcast()
				}
			}
			ex.mu.Unlock()
			return true
		}
		if len(ex.notReplayed) < 20 {
			ex.notReplayed = append(ex.notReplayed, v)
		}
		ex.mu.Unlock()
	}
	return false
}

func dedupTerms(ts []*Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	for _, t := range ts {
		if !seen[t.id] {
			seen[t.id] = true
			out = append(out, t)
		}
	}
	return out
}

// randomWitness looks for an assignment satisfying the path condition and t by evaluation (only used to obtain
// counterexamples once the solver has not shown unsatisfiability).
func (r *Run) randomWitness(t *Term, n int) map[int]interface{} {
	reals := 0
	for _, in := range r.inputs {
		if in.t != nil && in.t.sort == SReal {
			reals++
		}
	}
	if reals == 0 {
		return nil
	}
	base := r.model
	for i := 0; i < n; i++ {
		m := map[int]interface{}{}
		for _, in := range r.inputs {
			if in.t == nil {
				continue
			}
			if in.t.sort != SReal {
				if base != nil {
					if v, ok := base[in.t.id]; ok {
						m[in.t.id] = v
						continue
					}
				}
				switch in.t.sort {
				case SBV:
					m[in.t.id] = uint64(r.w.rng.Intn(4))
				case SBool:
					m[in.t.id] = r.w.rng.Intn(2) == 0
				}
				continue
			}
			k := int64(1 + r.w.rng.Intn(19))
			x := big.NewRat(k, 20)
			if in.scale > 0 {
				x = big.NewRat(k, int64(20/in.scale))
			} else if _, signed := r.tm.sign[in.t.id]; !signed {
				x = big.NewRat(int64(r.w.rng.Intn(41)-20), 2)
			}
			m[in.t.id] = x
		}
		ok := true
		for _, c := range r.pc {
			if v, k := r.evalBool(c, m); !k || !v {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		if v, k := r.evalBool(t, m); k && v {
			return m
		}
	}
	return nil
}

// ---- evaluation of terms under an assignment

func (r *Run) evalBool(t *Term, m map[int]interface{}) (bool, bool) {
	x, ok := r.eval(t, m)
	if !ok {
		return false, false
	}
	b, ok := x.(bool)
	return b, ok
}

func (r *Run) eval(t *Term, m map[int]interface{}) (interface{}, bool) {
	memo := map[int]interface{}{}
	return r.evalM(t, m, memo)
}

func (r *Run) evalM(t *Term, m map[int]interface{}, memo map[int]interface{}) (interface{}, bool) {
	switch t.op {
	case OpConst:
		switch t.sort {
		case SBool:
			return t.b, true
		case SBV:
			return t.bv, true
		default:
			return t.rat, true
		}
	case OpVar:
		if v, ok := m[t.id]; ok {
			return v, true
		}
		if d, ok := r.tm.invDef[t.id]; ok {
			x, ok := r.evalM(d, m, memo)
			if !ok || x.(*big.Rat).Sign() == 0 {
				return nil, false
			}
			v := new(big.Rat).Inv(x.(*big.Rat))
			m[t.id] = v
			return v, true
		}
		if d, ok := r.tm.narDef[t.id]; ok {
			x, ok := r.evalM(d, m, memo)
			if !ok {
				return nil, false
			}
			v := ratOf32(x.(*big.Rat))
			m[t.id] = v
			return v, true
		}
		return nil, false
	}
	if v, ok := memo[t.id]; ok {
		return v, true
	}
	args := make([]interface{}, len(t.a))
	for i, a := range t.a {
		v, ok := r.evalM(a, m, memo)
		if !ok {
			return nil, false
		}
		args[i] = v
	}
	var res interface{}
	switch t.op {
	case OpNot:
		res = !args[0].(bool)
	case OpAnd:
		res = args[0].(bool) && args[1].(bool)
	case OpOr:
		res = args[0].(bool) || args[1].(bool)
	case OpIte:
		if args[0].(bool) {
			res = args[1]
		} else {
			res = args[2]
		}
	case OpEq:
		switch t.a[0].sort {
		case SReal:
			res = args[0].(*big.Rat).Cmp(args[1].(*big.Rat)) == 0
		default:
			res = args[0] == args[1]
		}
	case OpRAdd:
		res = new(big.Rat).Add(args[0].(*big.Rat), args[1].(*big.Rat))
	case OpRSub:
		res = new(big.Rat).Sub(args[0].(*big.Rat), args[1].(*big.Rat))
	case OpRMul:
		res = new(big.Rat).Mul(args[0].(*big.Rat), args[1].(*big.Rat))
	case OpRLt:
		res = args[0].(*big.Rat).Cmp(args[1].(*big.Rat)) < 0
	case OpRLe:
		res = args[0].(*big.Rat).Cmp(args[1].(*big.Rat)) <= 0
	case OpBV2Real:
		res = new(big.Rat).SetInt64(sx(args[0].(uint64), t.a[0].w))
	case OpUBV2Real:
		res = new(big.Rat).SetInt(new(big.Int).SetUint64(args[0].(uint64)))
	default:
		// bit-vector operation: fold constants
		var f *Term
		switch t.op {
		case OpTrunc, OpZext:
			f = r.tm.Resize(r.tm.BV(t.a[0].w, args[0].(uint64)), t.w, false)
		case OpSext:
			f = r.tm.Resize(r.tm.BV(t.a[0].w, args[0].(uint64)), t.w, true)
		case OpBNot, OpNeg:
			f = r.tm.BVUn(t.op, r.tm.BV(t.a[0].w, args[0].(uint64)))
		default:
			f = r.tm.BVOp(t.op, r.tm.BV(t.a[0].w, args[0].(uint64)), r.tm.BV(t.a[1].w, args[1].(uint64)))
		}
		if !f.isConst() {
			return nil, false
		}
		if f.sort == SBool {
			res = f.b
		} else {
			res = f.bv
		}
	}
	memo[t.id] = res
	return res, true
}

// ---- explorer

func (e *Explorer) push(p []Decision) {
	e.mu.Lock()
	if n := len(p); n > 0 && p[n-1].k == 'c' {
		e.choices = append(e.choices, p)
	} else {
		e.stack = append(e.stack, p)
	}
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Explorer) pop() ([]Decision, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return nil, false
		}
		if time.Now().After(e.deadline) || e.maxPaths > 0 && e.paths >= e.maxPaths {
			if len(e.stack)+len(e.choices) > 0 || e.active > 0 {
				e.timedOut = true
			}
			e.stop = true
			e.cond.Broadcast()
			return nil, false
		}
		if len(e.stack)+len(e.choices) > 0 {
			p := e.next()
			e.active++
			e.paths++
			return p, true
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return nil, false
		}
		e.cond.Wait()
	}
}

// next takes a pending path. All are explored in the end; the order matters only when the time runs out, and is then meant
// to have seen all of the configurations a harness chooses from as well as a variety of branches.
func (e *Explorer) next() []Decision {
	take := func(l *[][]Decision, i int) []Decision {
		n := len(*l) - 1
		p := (*l)[i]
		(*l)[i] = (*l)[n]
		(*l)[n] = nil
		*l = (*l)[:n]
		return p
	}
	if len(e.stack) == 0 || len(e.choices) > 0 && e.rng.Intn(3) > 0 {
		return take(&e.choices, e.rng.Intn(len(e.choices)))
	}
	if e.rng.Intn(4) == 0 {
		return take(&e.stack, e.rng.Intn(len(e.stack)))
	}
	return take(&e.stack, len(e.stack)-1)
}

func (e *Explorer) done() {
	e.mu.Lock()
	e.active--
	e.mu.Unlock()
	e.cond.Broadcast()
}

func (e *Explorer) explore(workers []*Worker) {
	e.cond = sync.NewCond(&e.mu)
	e.stack = [][]Decision{nil}
	e.rng = rand.New(rand.NewSource(e.seed*31 + 5))
	tick := time.AfterFunc(time.Until(e.deadline)+10*time.Millisecond, func() { e.cond.Broadcast() })
	defer tick.Stop()
	late.Store(false)
	tock := time.AfterFunc(time.Until(e.deadline)+5*time.Second, func() { late.Store(true) })
	defer func() {
		tock.Stop()
		late.Store(false)
	}()
	var wg sync.WaitGroup
	for _, w := range workers {
		w.ex = e
		w.rng = rand.New(rand.NewSource(e.seed*7919 + 17))
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			for {
				p, ok := e.pop()
				if !ok {
					return
				}
				w.runPath(p)
				e.done()
			}
		}(w)
	}
	wg.Wait()
}

// late is set when the time of the harness is used up; paths under way are then given up.
var late atomic.Bool

type timeUp struct{}

func checkLate() {
	if late.Load() {
		panic(timeUp{})
	}
}

// runPath explores one path; if the time is used up meanwhile, the harness counts as not exhausted.
func (w *Worker) runPath(prefix []Decision) {
	defer func() {
		x := recover()
		if x == nil {
			return
		}
		if _, ok := x.(timeUp); !ok {
			panic(x)
		}
		w.ex.mu.Lock()
		w.ex.timedOut = true
		w.ex.mu.Unlock()
	}()
	w.runPath1(prefix)
}

func (w *Worker) runPath1(prefix []Decision) {
	e := w.ex
	r := &Run{ex: e, w: w, tm: NewTermMgr(), prefix: prefix, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]int{},
		mapBud: e.mapBud, tokIdx: map[string]int{}, fmtVars: map[string][]Value{}, fmtOf: map[int]int{}, fmtAx: map[[2]int]bool{}, fs: map[string]Value{}, labels: map[string]int{},
		aux: map[string]interface{}{}, model: map[int]interface{}{}, natives: map[string]interface{}{}}
	status := "ok"
	func() {
		defer func() {
			x := recover()
			switch y := x.(type) {
			case nil:
			case timeUp:
				panic(y)
			case pathAbort:
				status = "abort"
			case exitPath:
				status = "ok"
			case unsupported:
				status = "unsupported"
				loc := ""
				if r.curFr != nil {
					loc = " in " + r.curFr.cf.fn.String()
					if os.Getenv("VERIF_DEBUG") != "" {
						for f := r.curFr; f != nil; f = f.caller {
							loc += " < " + f.cf.fn.String()
						}
					}
				}
				e.mu.Lock()
				e.unsup[y.msg+loc]++
				e.mu.Unlock()
			case goPanic:
				status = "panic"
				r.flush()
				msg := y.msg
				if os.Getenv("VERIF_DEBUG") != "" {
					msg += " at " + y.pos
				}
				if !r.violation("panic", "panic: "+y.pos, "panic: "+msg+" at "+y.pos, nil) {
					e.mu.Lock()
					e.inconcl["panic: "+y.pos+": "+msg]++
					e.mu.Unlock()
				}
			default:
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "engine panic: %v\n", x)
					if r.curFr != nil {
						fmt.Fprintf(os.Stderr, "  in %s\n", r.curFr.cf.fn)
					}
					if os.Getenv("VERIF_DEBUG") == "2" {
						panic(x)
					}
				}
				status = "unsupported"
				loc := ""
				if r.curFr != nil {
					loc = " in " + r.curFr.cf.fn.String()
				}
				e.mu.Lock()
				e.unsup[fmt.Sprintf("engine: %v%s", x, loc)]++
				e.mu.Unlock()
			}
		}()
		r.call(e.har, nil, nil)
	}()
	if status == "ok" || status == "unsupported" {
		r.flush()
	}
	var sample []Input
	if status == "ok" && len(r.inputs) > 0 {
		e.mu.Lock()
		n := e.sampleN
		take := len(e.samples) < 12 && (n < 3 || n%7 == 0) || n%97 == 0 && len(e.samples) < 40
		e.sampleN++
		e.mu.Unlock()
		if take {
			sample = r.concreteInputs()
		}
	}
	e.mu.Lock()
	if sample != nil {
		e.samples = append(e.samples, sample)
	}
	e.nDecisions += int64(len(r.trace))
	e.totSteps += r.steps
	if status == "ok" {
		e.feas++
		if r.uncert {
			e.uncert++
		}
	} else if status == "abort" {
		e.aborted++
	}
	if status == "ok" || status == "panic" {
		for l := range r.labels {
			e.labels[l]++
		}
	}
	e.mu.Unlock()
}

type exitPath struct{}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (v *Violation) String() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s: %s: %s\n", v.Harness, v.Label, v.Msg)
	for _, in := range v.Inputs {
		fmt.Fprintf(&sb, "  %s %s = %s\n", in.Kind, in.Label, in.Val)
	}
	return sb.String()
}

// concreteInputs returns input values that follow this path, from the current model or the solver.
func (r *Run) concreteInputs() []Input {
	m := r.model
	if m == nil {
		want := r.varsOf(r.pc)
		res, mm := r.w.s.Query(r.tm, r.pc, 2000, want)
		if len(want) > 0 {
			if res != Sat {
				return nil
			}
			m = map[int]interface{}{}
			for _, v := range want {
				if s, ok := mm[v.id]; ok {
					if x, ok := parseVal(s, v); ok {
						m[v.id] = x
					}
				}
			}
		}
	}
	var out []Input
	for _, in := range r.inputs {
		out = append(out, r.inputValue(in, m))
	}
	return out
}

func (r *Run) inputValue(in Input, m map[int]interface{}) Input {
	o := Input{Kind: in.Kind, Label: in.Label, Val: in.Val}
	if in.t != nil {
		x, ok := m[in.t.id]
		if !ok {
			switch in.t.sort {
			case SReal:
				x = big.NewRat(1, 2)
			case SBV:
				x = uint64(0)
			default:
				x = false
			}
		}
		switch y := x.(type) {
		case *big.Rat:
			f, _ := y.Float64()
			o.Val = fmt.Sprintf("%.17g", f)
		case uint64:
			o.Val = fmt.Sprint(sx(y, in.t.w))
			if in.Kind == "byte" {
				o.Val = fmt.Sprint(y & 0xff)
			}
		case bool:
			o.Val = fmt.Sprint(y)
		}
	}
	return o
}
