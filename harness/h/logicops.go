package h

import (
	"github.com/mlange-42/bbn/internal/zzverif/vh"
	"github.com/mlange-42/bbn/logic"
)

func init() {
	All["LogicBool"] = LogicBool
	All["LogicBoolTwice"] = LogicBoolTwice
	All["LogicCount"] = LogicCount
	All["LogicCountOutcomes"] = LogicCountOutcomes
	All["LogicGiven"] = LogicGiven
	All["LogicBits"] = LogicBits
	All["LogicArgs"] = LogicArgs
	All["LogicArgs2"] = LogicArgs2
	All["LogicOutcome"] = LogicOutcome
	All["LogicOutcomeEither"] = LogicOutcomeEither
	All["LogicOutcomeArgs"] = LogicOutcomeArgs
	All["LogicSequence"] = LogicSequence
}

// lop is a boolean operator: its value for parents a and b; half means that both outcomes are equally likely.
type lop struct {
	name  string
	make  func() logic.Factor
	arity int
	val   func(a, b bool) bool
	half  func(a bool) bool
}

func lops() []lop {
	never := func(bool) bool { return false }
	return []lop{
		{"not", logic.Not, 1, func(a, b bool) bool { return !a }, never},
		{"and", logic.And, 2, func(a, b bool) bool { return vh.And(a, b) }, never},
		{"not-and", logic.NotAnd, 2, func(a, b bool) bool { return vh.And(!a, b) }, never},
		{"and-not", logic.AndNot, 2, func(a, b bool) bool { return vh.And(a, !b) }, never},
		{"not-and-not", logic.NotAndNot, 2, func(a, b bool) bool { return vh.And(!a, !b) }, never},
		{"or", logic.Or, 2, func(a, b bool) bool { return vh.Or(a, b) }, never},
		{"not-or", logic.NotOr, 2, func(a, b bool) bool { return vh.Or(!a, b) }, never},
		{"or-not", logic.OrNot, 2, func(a, b bool) bool { return vh.Or(a, !b) }, never},
		{"not-or-not", logic.NotOrNot, 2, func(a, b bool) bool { return vh.Or(!a, !b) }, never},
		{"xor", logic.XOr, 2, func(a, b bool) bool { return a != b }, never},
		{"cond", logic.Cond, 2, func(a, b bool) bool { return vh.Or(!a, b) }, never},
		{"not-cond", logic.NotCond, 2, func(a, b bool) bool { return vh.Or(a, b) }, never},
		{"cond-not", logic.CondNot, 2, func(a, b bool) bool { return vh.Or(!a, !b) }, never},
		{"not-cond-not", logic.NotCondNot, 2, func(a, b bool) bool { return vh.Or(a, !b) }, never},
		{"bicond", logic.BiCond, 2, func(a, b bool) bool { return a == b }, never},
		{"if-then", logic.IfThen, 1, func(a, b bool) bool { return true }, func(a bool) bool { return !a }},
		{"if-not-then", logic.IfNotThen, 1, func(a, b bool) bool { return true }, func(a bool) bool { return a }},
		{"if-then-not", logic.IfThenNot, 1, func(a, b bool) bool { return false }, func(a bool) bool { return !a }},
		{"if-not-then-not", logic.IfNotThenNot, 1, func(a, b bool) bool { return false }, func(a bool) bool { return a }},
		{"equals", logic.Equals, 1, func(a, b bool) bool { return a }, never},
		{"equals-not", logic.EqualsNot, 1, func(a, b bool) bool { return !a }, never},
	}
}

// get obtains an operator by name or by its constructor.
func getOp(name string, mk func() logic.Factor) logic.Factor {
	if vh.Choose("byName", 2) == 1 {
		return mk()
	}
	f, ok := logic.Get(name)
	vh.Assert(ok, "operator is known by name")
	if !ok {
		vh.Stop()
	}
	return f
}

func checkBool(o lop, table []float64) {
	rows := 1 << o.arity
	vh.Assert(len(table) == 2*rows, "one row per combination of the parents")
	if len(table) != 2*rows {
		return
	}
	a := vh.Bool("a")
	b := vh.Bool("b")
	row := vh.Ite(a, 0, 1)
	if o.arity == 2 {
		row = 2*row + vh.Ite(b, 0, 1)
	}
	t := vh.IteF(o.half(a), 0.5, vh.IteF(o.val(a, b), 1, 0))
	vh.EqF(table[2*row], t, "probability of true")
	vh.EqF(table[2*row+1], 1-t, "probability of false")
}

// LogicBool: every boolean operator, for any number of parents and arguments.
func LogicBool() {
	ops := lops()
	o := ops[vh.Choose("op", len(ops))]
	f := getOp(o.name, o.make)
	args := make([]int, vh.Choose("args", 3))
	for i := range args {
		args[i] = vh.Int("arg", -1<<62, 1<<62)
	}
	err := f.SetArgs(args...)
	vh.Assert((err != nil) == (len(args) > 0), "arguments are rejected")
	given := vh.Choose("given", 7)
	if given == 6 {
		given = vh.Int("given", 6, 20)
	}
	table, err := f.Table(given)
	vh.Assert((err == nil) == (given == o.arity), "error exactly for a wrong number of parents")
	if err == nil {
		checkBool(o, table)
		vh.Reach("table")
	} else {
		vh.Assert(len(table) == 0, "no table with an error")
		vh.Reach("error")
	}
}

// LogicBoolTwice: modifying a table does not affect later tables of any operator.
func LogicBoolTwice() {
	ops := lops()
	o := ops[vh.Choose("op", len(ops))]
	f := getOp(o.name, o.make)
	table, err := f.Table(o.arity)
	noErr(err, "table")
	for i := range table {
		table[i] = vh.Real("junk")
	}
	q := ops[vh.Choose("second", len(ops))]
	g := getOp(q.name, q.make)
	t, err := g.Table(q.arity)
	noErr(err, "second table")
	checkBool(q, t)
	vh.Reach("end")
}

// parents returns symbolic true/false values of n parents and the row they stand for.
func parents(n int) ([]bool, int) {
	ps := make([]bool, n)
	row := 0
	for i := range ps {
		ps[i] = vh.Bool("parent")
		row = 2*row + vh.Ite(ps[i], 0, 1)
	}
	return ps, row
}

// arg1 obtains a one-argument operator and sets its argument.
func arg1(name string, mk func(int) logic.Factor, arg int) logic.Factor {
	switch vh.Choose("how", 3) {
	case 0:
		return mk(arg)
	case 1:
		f := mk(vh.Int("other", -1<<62, 1<<62))
		noErr(f.SetArgs(arg), "argument")
		return f
	}
	f, ok := logic.Get(name)
	vh.Assert(ok, "operator is known by name")
	if !ok {
		vh.Stop()
	}
	noErr(f.SetArgs(arg), "argument")
	return f
}

func checkRow(table []float64, row int, isTrue bool) {
	t := vh.IteF(isTrue, 1, 0)
	vh.EqF(table[2*row], t, "probability of true")
	vh.EqF(table[2*row+1], 1-t, "probability of false")
}

// LogicCount: comparing the number of true parents with any integer.
func LogicCount() {
	n := vh.Choose("given", deep(6, 7))
	value := vh.Int("value", -1<<63, 1<<63-1)
	op := vh.Choose("op", 3)
	var f logic.Factor
	switch op {
	case 0:
		f = arg1("count-is", logic.CountIs, value)
	case 1:
		f = arg1("count-less", logic.CountLess, value)
	default:
		f = arg1("count-greater", logic.CountGreater, value)
	}
	table, err := f.Table(n)
	noErr(err, "table")
	vh.Assert(len(table) == 2<<n, "one row per combination of the parents")
	ps, row := parents(n)
	count := 0
	for _, p := range ps {
		count += vh.Ite(p, 1, 0)
	}
	want := count == value
	if op == 1 {
		want = count < value
	} else if op == 2 {
		want = count > value
	}
	checkRow(table, row, want)
	vh.Reach("end")
}

// LogicCountOutcomes: the number of true or false parents as outcome.
func LogicCountOutcomes() {
	n := vh.Choose("given", deep(6, 7))
	which := vh.Choose("op", 2)
	var f logic.Factor
	if which == 0 {
		f = getOp("count-true", logic.CountTrue)
	} else {
		f = getOp("count-false", logic.CountFalse)
	}
	noErr(f.SetArgs(), "no arguments")
	table, err := f.Table(n)
	noErr(err, "table")
	vh.Assert(len(table) == (n+1)<<n, "one row per combination of the parents, one column per count")
	ps, row := parents(n)
	count := 0
	for _, p := range ps {
		count += vh.Ite(p == (which == 0), 1, 0)
	}
	for k := 0; k <= n; k++ {
		vh.EqF(table[row*(n+1)+k], vh.IteF(k == count, 1, 0), "probability of a count")
	}
	vh.Reach("end")
}

// LogicBits: the parents as binary digits.
func LogicBits() {
	n := vh.Choose("given", deep(5, 6))
	f := getOp("bits", logic.Bits)
	noErr(f.SetArgs(), "no arguments")
	table, err := f.Table(n)
	noErr(err, "table")
	vh.Assert(len(table) == 1<<(2*n), "one row per combination, one column per integer")
	ps, row := parents(n)
	value := 0
	for _, p := range ps {
		value = 2*value + vh.Ite(p, 1, 0)
	}
	for k := 0; k < 1<<n; k++ {
		vh.EqF(table[row<<n+k], vh.IteF(k == value, 1, 0), "probability of an integer")
	}
	vh.Reach("end")
}

// LogicGiven: selecting a parent by any index.
func LogicGiven() {
	n := vh.Choose("given", deep(6, 7))
	idx := vh.Int("index", -1<<63, 1<<63-1)
	op := vh.Choose("op", 3)
	var f logic.Factor
	switch op {
	case 0:
		f = arg1("given", logic.Given, idx)
	case 1:
		f = arg1("given-not", logic.GivenNot, idx)
	default:
		f = arg1("given-excl", logic.GivenExcl, idx)
	}
	table, err := f.Table(n)
	valid := vh.And(idx >= 0, idx < n)
	vh.Assert((err == nil) == valid, "error exactly for an index without parent")
	if err != nil {
		vh.Reach("error")
		return
	}
	if !valid {
		return
	}
	vh.Assert(len(table) == 2<<n, "one row per combination of the parents")
	ps, row := parents(n)
	others := false
	for i, p := range ps {
		others = vh.Or(others, vh.And(p, i != idx))
	}
	want := ps[idx]
	if op == 1 {
		want = !want
	} else if op == 2 {
		want = vh.And(want, !others)
	}
	checkRow(table, row, want)
	vh.Reach("table")
}

// LogicArgs: wrong numbers of arguments are rejected.
func LogicArgs() {
	names := []string{"count-is", "count-less", "count-greater", "given", "given-not", "given-excl", "count-true", "count-false", "bits"}
	k := vh.Choose("op", len(names))
	want := 1
	if k >= 6 {
		want = 0
	}
	f, ok := logic.Get(names[k])
	vh.Assert(ok, "operator is known by name")
	args := make([]int, vh.Choose("args", 4))
	for i := range args {
		args[i] = vh.Int("arg", -1<<62, 1<<62)
	}
	err := f.SetArgs(args...)
	vh.Assert((err == nil) == (len(args) == want), "error exactly for a wrong number of arguments")
	vh.Reach("end")
}

// LogicSequence: the operators by name can be used one after another with different arguments.
func LogicSequence() {
	first := vh.Choose("first", 2)
	last := vh.Choose("last", 2)
	at := []string{"given", "count-is"}
	f, ok := logic.Get(at[first])
	vh.Assert(ok, "known")
	noErr(f.SetArgs(vh.Int("arg1", 0, 2)), "argument")
	t1, err := f.Table(3)
	noErr(err, "table")
	keep := append([]float64{}, t1...)
	g, ok := logic.Get(at[last])
	vh.Assert(ok, "known")
	arg := vh.Int("arg2", 0, 1)
	noErr(g.SetArgs(arg), "argument")
	t2, err := g.Table(2)
	noErr(err, "table")
	sameData(t1, keep, "an earlier table does not change")
	vh.Assert(len(t2) == 8, "size")
	ps, row := parents(2)
	want := ps[arg]
	if last == 1 {
		n := 0
		for _, p := range ps {
			n += vh.Ite(p, 1, 0)
		}
		want = n == arg
	}
	checkRow(t2, row, want)
	vh.Reach("end")
}

// LogicOutcome: comparing the parent's outcome with any index.
func LogicOutcome() {
	names := []string{"outcome-is", "outcome-is-not", "outcome-less", "outcome-greater"}
	mks := []func(int, int) logic.Factor{logic.OutcomeIs, logic.OutcomeIsNot, logic.OutcomeLess, logic.OutcomeGreater}
	op := vh.Choose("op", len(names))
	idx := vh.Int("index", -1<<63, 1<<63-1)
	n := vh.Choose("length", 10) - 2
	given := vh.Choose("given", 4)
	var f logic.Factor
	if vh.Choose("byName", 2) == 0 {
		f = mks[op](idx, n)
	} else {
		g, ok := logic.Get(names[op])
		vh.Assert(ok, "operator is known by name")
		noErr(g.SetArgs(idx, n), "arguments")
		f = g
	}
	table, err := f.Table(given)
	if given != 1 {
		vh.Assert(err != nil, "error for a number of parents other than one")
		vh.Reach("parents")
		return
	}
	valid := vh.And(idx >= 0, idx < n)
	if err != nil {
		vh.Assert(!valid, "valid arguments are accepted")
		vh.Reach("error")
		return
	}
	if !valid && !(op >= 2 && idx == n && n > 0) {
		vh.Fail("index without outcome is rejected")
		return
	}
	vh.Assert(len(table) == 2*n, "one row per outcome of the parent")
	o := vh.Int("outcome", 0, n-1)
	want := o == idx
	switch op {
	case 1:
		want = o != idx
	case 2:
		want = o < idx
	case 3:
		want = o >= idx
	}
	checkRow(table, o, want)
	vh.Reach("table")
}

// LogicOutcomeEither: the parent's outcome is among any indices.
func LogicOutcomeEither() {
	idx := make([]int, vh.Choose("indices", 7))
	n := vh.Choose("length", 7) - 1
	if len(idx) > 3 && n < 5 {
		return
	}
	valid := n > 0
	for i := range idx {
		idx[i] = vh.Int("index", -1<<63, 1<<63-1)
		valid = vh.And(valid, vh.And(idx[i] >= 0, idx[i] < n))
	}
	given := vh.Choose("given", 3)
	var f logic.Factor
	if vh.Choose("byName", 2) == 0 {
		f = logic.OutcomeEither(append([]int{}, idx...), n)
	} else {
		g, ok := logic.Get("outcome-either")
		vh.Assert(ok, "operator is known by name")
		err := g.SetArgs(append(append([]int{}, idx...), n)...)
		vh.Assert((err == nil) == (len(idx) > 0), "error exactly without index")
		if err != nil {
			return
		}
		f = g
	}
	table, err := f.Table(given)
	if given != 1 {
		vh.Assert(err != nil, "error for a number of parents other than one")
		return
	}
	if len(idx) == 0 {
		return
	}
	vh.Assert((err == nil) == valid, "error exactly for an index without outcome")
	if err != nil || !valid {
		vh.Reach("error")
		return
	}
	vh.Assert(len(table) == 2*n, "one row per outcome of the parent")
	o := vh.Int("outcome", 0, n-1)
	want := false
	for _, i := range idx {
		want = vh.Or(want, i == o)
	}
	checkRow(table, o, want)
	vh.Reach("table")
}

// LogicOutcomeArgs: wrong numbers of arguments are rejected.
func LogicOutcomeArgs() {
	names := []string{"outcome-is", "outcome-is-not", "outcome-less", "outcome-greater", "outcome-either"}
	k := vh.Choose("op", len(names))
	f, ok := logic.Get(names[k])
	vh.Assert(ok, "operator is known by name")
	args := make([]int, vh.Choose("args", 6))
	for i := range args {
		args[i] = vh.Int("arg", -1<<62, 1<<62)
	}
	err := f.SetArgs(args...)
	want := len(args) == 2
	if k == 4 {
		want = len(args) >= 2
	}
	vh.Assert((err == nil) == want, "error exactly for a wrong number of arguments")
	vh.Reach("end")
}

// LogicArgs2: a rejected argument list is rejected by every operator obtained by name, and unknown names are unknown.
func LogicArgs2() {
	names := []string{"", "foo", "AND", "and ", "nor", "given-", "outcome", "bit", "if", "not-xor", "count"}
	_, ok := logic.Get(names[vh.Choose("name", len(names))])
	vh.Assert(!ok, "unknown operator")
	vh.Reach("end")
}
