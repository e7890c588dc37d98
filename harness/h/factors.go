package h

import (
	"fmt"

	"github.com/mlange-42/bbn/internal/zzverif/vh"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	All["FactorIndex"] = FactorIndex
	All["FactorIndexWide"] = FactorIndexWide
	All["FactorRow"] = FactorRow
	All["FactorProduct"] = FactorProduct
	All["FactorProduct3"] = FactorProduct3
	All["FactorReduce"] = FactorReduce
	All["FactorRearrange"] = FactorRearrange
	All["FactorNormalize"] = FactorNormalize
	All["FactorPolicy"] = FactorPolicy
	All["FactorPolicyTies"] = FactorPolicyTies
	All["FactorBig"] = FactorBig
}

// fvars creates variables with the given numbers of outcomes and ids that are not their positions.
func fvars(vs *ve.Variables, sizes []int) []ve.Variable {
	out := make([]ve.Variable, len(sizes))
	for i, s := range sizes {
		out[i] = vs.AddVariable(10+3*i, ve.ChanceNode, uint16(s))
	}
	return out
}

func sameData(a, b []float64, label string) {
	vh.Assert(len(a) == len(b), label+": length")
	if len(a) != len(b) {
		return
	}
	for i := range a {
		vh.EqF(a[i], b[i], label)
	}
}

func sameVars(a []ve.Variable, b []ve.Variable, label string) {
	ok := len(a) == len(b)
	for i := 0; ok && i < len(a); i++ {
		ok = a[i].Id() == b[i].Id()
	}
	vh.Assert(ok, label)
	if !ok {
		vh.Stop()
	}
}

// FactorIndex: Index, Outcomes and IndexWithNoData for symbolic indices, sizes and positions.
func FactorIndex() {
	n := vh.Choose("n", 4)
	vs := ve.NewVariables()
	sizes := make([]int, n)
	for i := range sizes {
		sizes[i] = 1 + vh.Choose("size", 4)
	}
	vars := fvars(vs, sizes)
	f := vs.CreateFactor(vars, nil)
	vh.Assert(len(f.Data()) == size(sizes), "table length")
	a := make([]int, n)
	b := make([]int, n)
	want := 0
	for i := range a {
		a[i] = vh.Int("a", 0, sizes[i]-1)
		b[i] = vh.Int("b", 0, sizes[i]-1)
		want = want*sizes[i] + a[i]
	}
	pos := f.Index(a)
	vh.Assert(pos >= 0 && pos < len(f.Data()), "index inside the table")
	vh.Assert(pos == want, "row-major order")
	same := true
	for i := range a {
		same = same && a[i] == b[i]
	}
	vh.Assert((f.Index(b) == pos) == same, "distinct combinations, distinct positions")
	back := make([]int, n)
	f.Outcomes(pos, back)
	for i := range a {
		vh.Assert(back[i] == a[i], "Outcomes inverts Index")
	}
	for i := range a {
		vh.Assert(back[i] >= 0 && back[i] < sizes[i], "outcome in range")
	}
	p2, ok := f.IndexWithNoData(a)
	vh.Assert(ok && p2 == pos, "IndexWithNoData agrees without missing data")
	if n > 0 {
		c := append([]int{}, a...)
		c[vh.Choose("missing", n)] = -1
		_, ok = f.IndexWithNoData(c)
		vh.Assert(!ok, "missing data is reported")
	}
	// any position decodes to a combination that encodes to it
	q := vh.Int("pos", 0, len(f.Data())-1)
	f.Outcomes(q, back)
	for i := range back {
		vh.Assert(back[i] >= 0 && back[i] < sizes[i], "decoded outcome in range")
	}
	vh.Assert(f.Index(back) == q, "Index inverts Outcomes")
	vh.Reach("end")
}

// FactorIndexWide: the same for large numbers of outcomes.
func FactorIndexWide() {
	vs := ve.NewVariables()
	shapes := [][]int{{300}, {2, 300}, {300, 2}, {1000, 3}, {3, 257, 2}, {65535}, {255, 256}, {2, 300, 300}, {3, 257, 256}}
	sizes := shapes[vh.Choose("shape", len(shapes))]
	vars := fvars(vs, sizes)
	f := vs.CreateFactor(vars, nil)
	vh.Assert(len(f.Data()) == size(sizes), "table length")
	a := make([]int, len(sizes))
	want := 0
	for i := range a {
		a[i] = vh.Int("a", 0, sizes[i]-1)
		want = want*sizes[i] + a[i]
	}
	vh.Assert(f.Index(a) == want, "row-major order")
	p2, ok := f.IndexWithNoData(a)
	vh.Assert(ok && p2 == want, "IndexWithNoData agrees")
	back := make([]int, len(sizes))
	f.Outcomes(want, back)
	for i := range a {
		vh.Assert(back[i] == a[i], "Outcomes inverts Index")
	}
	row, ln := f.RowIndex(a[:len(a)-1])
	vh.Assert(row+a[len(a)-1] == want && ln == sizes[len(sizes)-1], "RowIndex")
	vh.Reach("end")
}

// FactorRow: Get, Set and Row agree with the layout.
func FactorRow() {
	n := 1 + vh.Choose("n", 3)
	vs := ve.NewVariables()
	sizes := make([]int, n)
	for i := range sizes {
		sizes[i] = 1 + vh.Choose("size", 3)
	}
	vars := fvars(vs, sizes)
	data := realTable("t", size(sizes))
	f := vs.CreateFactor(vars, append([]float64{}, data...))
	idx := symIdx("combination", sizes)
	vh.EqF(f.Get(idx), data[flat(idx, sizes)], "Get")
	for i := range idx {
		idx[i] = 0
	}
	for {
		row := f.Row(idx[:n-1])
		vh.Assert(len(row) == sizes[n-1], "row length")
		for o := range row {
			idx[n-1] = o
			vh.EqF(row[o], data[flat(idx, sizes)], "Row")
		}
		if !next(idx, sizes) {
			break
		}
	}
	at := make([]int, n)
	for i := range at {
		at[i] = vh.Choose("at", sizes[i])
	}
	x := vh.Real("x")
	f.Set(at, x)
	for i := range idx {
		idx[i] = 0
	}
	for {
		want := data[flat(idx, sizes)]
		if flat(idx, sizes) == flat(at, sizes) {
			want = x
		}
		vh.EqF(f.Get(idx), want, "Set changes exactly one entry")
		if !next(idx, sizes) {
			break
		}
	}
	vh.Reach("end")
}

// operand makes a factor over a chosen subset of variables in a chosen order.
func operand(vs *ve.Variables, vars []ve.Variable, sizes []int, label string, orders int) (ve.Factor, []int) {
	var at []int
	for i := range vars {
		if vh.Choose(label+" has", 2) == 0 {
			at = append(at, i)
		}
	}
	k := fact(len(at))
	if k > orders {
		k = orders
	}
	p := perm(len(at), vh.Choose(label+" order", k))
	at = pick(at, p)
	fv := make([]ve.Variable, len(at))
	for i, a := range at {
		fv[i] = vars[a]
	}
	return vs.CreateFactor(fv, realTable(label, size(pick(sizes, at)))), at
}

func checkCombined(f ve.Factor, vars []ve.Variable, sizes []int, ops []ve.Factor, ats [][]int, sum bool, label string) {
	seen := make([]int, len(vars))
	fv := f.Variables()
	var at []int
	for i := range fv {
		for j := range vars {
			if fv[i].Id() == vars[j].Id() {
				seen[j]++
				at = append(at, j)
			}
		}
	}
	ok := len(at) == len(fv)
	for j := range vars {
		in := 0
		for _, a := range ats {
			for _, x := range a {
				if x == j {
					in = 1
				}
			}
		}
		ok = ok && seen[j] == in
	}
	vh.Assert(ok, label+": union of the variables, each once")
	if !ok {
		return
	}
	vh.Assert(len(f.Data()) == size(pick(sizes, at)), label+": table length")
	asg := make([]int, len(vars))
	for {
		want := 1.0
		if sum {
			want = 0
		}
		for k := len(ops) - 1; k >= 0; k-- {
			v := ops[k].Data()[flat(pick(asg, ats[k]), pick(sizes, ats[k]))]
			if sum {
				want += v
			} else {
				want *= v
			}
		}
		// a product is relatively exact, however small it is
		scale := float64(1 << 60)
		if sum {
			scale = 1
		}
		vh.EqF(scale*f.Data()[flat(pick(asg, at), pick(sizes, at))], scale*want, label+": pointwise")
		if !next(asg, sizes) {
			break
		}
	}
}

// FactorProduct: product and sum of one or two factors over any subsets of three variables.
func FactorProduct() {
	vs := ve.NewVariables()
	sizes := [][]int{{2, 3, 2}, {3, 1, 2}}[vh.Choose("sizes", 2)]
	vars := fvars(vs, sizes)
	a, aAt := operand(vs, vars, sizes, "a", 6)
	b, bAt := operand(vs, vars, sizes, "b", 6)
	a0 := append([]float64{}, a.Data()...)
	b0 := append([]float64{}, b.Data()...)
	ops, ats := []ve.Factor{a, b}, [][]int{aAt, bAt}
	p := vs.Product(&a, &b)
	checkCombined(p, vars, sizes, ops, ats, false, "product")
	s := vs.Sum(&a, &b)
	checkCombined(s, vars, sizes, ops, ats, true, "sum")
	p1 := vs.Product(&a)
	checkCombined(p1, vars, sizes, ops[:1], ats[:1], false, "product of one")
	s1 := vs.Sum(&a)
	checkCombined(s1, vars, sizes, ops[:1], ats[:1], true, "sum of one")
	// the results share no data with the operands
	for _, r := range []ve.Factor{p, s, p1, s1} {
		for i := range r.Data() {
			r.Data()[i] = 77
		}
	}
	sameData(a.Data(), a0, "operand unmodified")
	sameData(b.Data(), b0, "operand unmodified")
	sameVars(a.Variables(), pickVars(vars, aAt), "operand variables unmodified")
	vh.Reach("end")
}

func pickVars(vars []ve.Variable, at []int) []ve.Variable {
	out := make([]ve.Variable, len(at))
	for i, a := range at {
		out[i] = vars[a]
	}
	return out
}

// FactorProduct3: three and four operands.
func FactorProduct3() {
	vs := ve.NewVariables()
	sizes := []int{2, 3, 2}
	vars := fvars(vs, sizes)
	var ops []ve.Factor
	var ats [][]int
	var ptr []*ve.Factor
	n := 3 + vh.Choose("operands", 2)
	menu := [][]int{{0}, {1, 0}, {2, 1}, {2, 0}, {}}
	for i := 0; i < n; i++ {
		at := menu[vh.Choose("vars", len(menu))]
		ops = append(ops, vs.CreateFactor(pickVars(vars, at), realTable(fmt.Sprintf("f%d_", i), size(pick(sizes, at)))))
		ats = append(ats, at)
	}
	for i := range ops {
		ptr = append(ptr, &ops[i])
	}
	checkCombined(vs.Product(ptr...), vars, sizes, ops, ats, false, "product")
	checkCombined(vs.Sum(ptr...), vars, sizes, ops, ats, true, "sum")
	vh.Reach("end")
}

// shaped chooses numbers of outcomes for one to three (or four) variables.
func shaped() []int {
	menu := [][]int{{2}, {3}, {1}, {2, 3}, {3, 2}, {1, 2}, {2, 1}, {2, 3, 4}, {4, 2, 3}, {3, 1, 2}, {2, 2, 2}, {2, 3, 2, 2}, {3, 2, 1, 2}}
	return menu[vh.Choose("shape", len(menu))]
}

// symIdx is any outcome combination.
func symIdx(label string, sizes []int) []int {
	out := make([]int, len(sizes))
	for i, s := range sizes {
		out[i] = vh.Int(label, 0, s-1)
	}
	return out
}

// FactorReduce: Restrict, SumOut and Marginal.
func FactorReduce() {
	vs := ve.NewVariables()
	sizes := shaped()
	n := len(sizes)
	vars := fvars(vs, sizes)
	data := realTable("t", size(sizes))
	f := vs.CreateFactor(vars, append([]float64{}, data...))
	k := vh.Choose("variable", n)
	o := vh.Choose("observation", sizes[k])
	var rest []int
	for i := range sizes {
		if i != k {
			rest = append(rest, i)
		}
	}
	r := vs.Restrict(&f, vars[k], o)
	s := vs.SumOut(&f, vars[k])
	m := vs.Marginal(&f, vars[k])
	sameVars(r.Variables(), pickVars(vars, rest), "restrict: remaining variables in order")
	sameVars(s.Variables(), pickVars(vars, rest), "sum out: remaining variables in order")
	sameVars(m.Variables(), []ve.Variable{vars[k]}, "marginal: one variable")
	rs := pick(sizes, rest)
	vh.Assert(len(r.Data()) == size(rs) && len(s.Data()) == size(rs) && len(m.Data()) == sizes[k], "table lengths")
	idx := symIdx("combination", rs)
	full := make([]int, n)
	for i, a := range rest {
		full[a] = idx[i]
	}
	full[k] = o
	vh.EqF(r.Data()[flat(idx, rs)], data[flat(full, sizes)], "restrict keeps the values of the outcome")
	sum := 0.0
	for j := sizes[k] - 1; j >= 0; j-- {
		full[k] = j
		sum += data[flat(full, sizes)]
	}
	vh.EqF(s.Data()[flat(idx, rs)], sum, "sum out")
	marg := make([]float64, sizes[k])
	for i := range full {
		full[i] = 0
	}
	for p := len(data) - 1; p >= 0; p-- {
		q := p
		for i := n - 1; i >= 0; i-- {
			full[i] = q % sizes[i]
			q /= sizes[i]
		}
		marg[full[k]] += data[p]
	}
	sameData(m.Data(), marg, "marginal")
	for _, x := range []ve.Factor{r, s, m} {
		for i := range x.Data() {
			x.Data()[i] = 77
		}
	}
	sameData(f.Data(), data, "operand unmodified")
	sameVars(f.Variables(), vars, "operand variables unmodified")
	vh.Reach("end")
}

// FactorRearrange: every variable order keeps the value of every combination.
func FactorRearrange() {
	vs := ve.NewVariables()
	sizes := shaped()
	n := len(sizes)
	vars := fvars(vs, sizes)
	data := realTable("t", size(sizes))
	f := vs.CreateFactor(vars, append([]float64{}, data...))
	p := perm(n, vh.Choose("order", fact(n)))
	r := vs.Rearrange(&f, pickVars(vars, p))
	sameVars(r.Variables(), pickVars(vars, p), "rearranged variables")
	idx := symIdx("combination", sizes)
	vh.EqF(r.Data()[flat(pick(idx, p), pick(sizes, p))], data[flat(idx, sizes)], "rearranged value")
	for i := range r.Data() {
		r.Data()[i] = 77
	}
	sameData(f.Data(), data, "operand unmodified")
	sameVars(f.Variables(), vars, "operand variables unmodified")
	vh.Reach("end")
}

// FactorNormalize: Normalize, NormalizeFor and Invert.
func FactorNormalize() {
	vs := ve.NewVariables()
	menu := [][]int{{2}, {3}, {2, 3}, {3, 2}, {1, 2}, {2, 1}, {2, 2, 2}, {2, 3, 2}}
	sizes := menu[vh.Choose("shape", len(menu))]
	n := len(sizes)
	vars := fvars(vs, sizes)
	var data []float64
	kind := vh.Choose("values", 2)
	if kind == 0 {
		data = posTable("t", size(sizes))
	} else {
		// zeros in places
		data = posTable("t", size(sizes))
		for i := range data {
			if (i*i+i/2)%3 != 1 {
				data[i] = 0
			}
		}
		data[0] = vh.Real("any") // rows summing to exactly zero, possibly with values of both signs
	}
	f := vs.CreateFactor(vars, append([]float64{}, data...))
	k := vh.Choose("variable", n)
	total := 0.0
	for _, x := range data {
		total += x
	}
	if total != 0 {
		nf := vs.Normalize(&f)
		sameVars(nf.Variables(), vars, "normalise keeps the variables")
		for i := range data {
			vh.EqF(nf.Data()[i], data[i]/total, "normalised value")
		}
		for i := range data {
			nf.Data()[i] = 77
		}
	}
	g := vs.NormalizeFor(&f, vars[k])
	var order []int
	for i := range sizes {
		if i != k {
			order = append(order, i)
		}
	}
	order = append(order, k)
	sameVars(g.Variables(), pickVars(vars, order), "normalised variable is last")
	idx := make([]int, n)
	for {
		row := 0.0
		j := idx[k]
		for o := 0; o < sizes[k]; o++ {
			idx[k] = o
			row += data[flat(idx, sizes)]
		}
		idx[k] = j
		want := data[flat(idx, sizes)]
		if row != 0 {
			want /= row
		}
		vh.EqF(g.Get(pick(idx, order)), want, "row-normalised value")
		if !next(idx, sizes) {
			break
		}
	}
	inv := vs.Invert(&f)
	sameVars(inv.Variables(), vars, "invert keeps the variables")
	for i := range data {
		if data[i] != 0 {
			vh.EqF(inv.Data()[i]*data[i], 1, "reciprocal")
		}
	}
	for i := range data {
		inv.Data()[i] = 77
		g.Data()[i] = 77
	}
	sameData(f.Data(), data, "operand unmodified")
	sameVars(f.Variables(), vars, "operand variables unmodified")
	vh.Reach("end")
}

func checkPolicy(p ve.Factor, sizes []int, k int, vars []ve.Variable, data []float64) {
	n := len(sizes)
	var order []int
	for i := range sizes {
		if i != k {
			order = append(order, i)
		}
	}
	rest := append([]int{}, order...)
	order = append(order, k)
	sameVars(p.Variables(), pickVars(vars, order), "policy variable is last")
	idx := make([]int, len(rest))
	full := make([]int, n)
	for {
		for i, a := range rest {
			full[a] = idx[i]
		}
		row := make([]float64, sizes[k])
		for o := range row {
			full[k] = o
			row[o] = data[flat(full, sizes)]
		}
		best := 0
		isBest := make([]bool, len(row))
		for o := range row {
			isBest[o] = true
			for _, y := range row {
				if row[o] < y {
					isBest[o] = false
				}
			}
			if isBest[o] {
				best++
			}
		}
		for o := range row {
			full[k] = o
			want := 0.0
			if isBest[o] {
				want = 1 / float64(best)
			}
			vh.EqF(p.Get(pick(full, order)), want, "policy value")
		}
		if !next(idx, pick(sizes, rest)) {
			break
		}
	}
}

// FactorPolicy: arbitrary values, the chosen variable at any position.
func FactorPolicy() {
	vs := ve.NewVariables()
	menu := [][]int{{1}, {2}, {3}, {4}, {2, 2}, {2, 3}, {3, 2}, {2, 1, 2}}
	sizes := menu[vh.Choose("shape", len(menu))]
	vars := fvars(vs, sizes)
	data := realTable("t", size(sizes))
	f := vs.CreateFactor(vars, append([]float64{}, data...))
	k := vh.Choose("variable", len(sizes))
	p := vs.Policy(&f, vars[k])
	checkPolicy(p, sizes, k, vars, data)
	for i := range p.Data() {
		p.Data()[i] = 77
	}
	sameData(f.Data(), data, "operand unmodified")
	vh.Reach("end")
}

// FactorPolicyTies: many options, the number and places of the best ones symbolic.
func FactorPolicyTies() {
	vs := ve.NewVariables()
	cols := []int{9, 12, 20}[vh.Choose("options", 3)]
	sizes := []int{2, cols}
	vars := fvars(vs, sizes)
	hi, lo := vh.Real("hi"), vh.Real("lo")
	vh.Assume(hi > lo)
	data := make([]float64, 2*cols)
	pattern := vh.Choose("pattern", 5)
	for i := range data {
		c := i % cols
		best := false
		switch pattern {
		case 0:
			best = true
		case 1:
			best = c%2 == 1
		case 2:
			best = c == cols-1
		case 3:
			best = c > 0
		case 4:
			best = i < cols
		}
		if best {
			data[i] = hi
		} else {
			data[i] = lo
		}
	}
	f := vs.CreateFactor(vars, append([]float64{}, data...))
	p := vs.Policy(&f, vars[1])
	checkPolicy(p, sizes, 1, vars, data)
	vh.Reach("end")
}

// FactorBig: operations with more than 256 outcomes.
func FactorBig() {
	vs := ve.NewVariables()
	sizes := [][]int{{300, 2}, {2, 300}, {257, 3}}[vh.Choose("sizes", 3)]
	vars := fvars(vs, sizes)
	data := make([]float64, size(sizes))
	x, y := vh.Pos("x"), vh.Pos("y")
	for i := range data {
		data[i] = x*float64(i) + y
	}
	f := vs.CreateFactor(vars, append([]float64{}, data...))
	switch vh.Choose("op", 6) {
	case 0:
		m := vs.Marginal(&f, vars[0])
		want := make([]float64, sizes[0])
		for i := range data {
			want[i/sizes[1]] += data[i]
		}
		sameData(m.Data(), want, "marginal")
	case 1:
		r := vs.Rearrange(&f, []ve.Variable{vars[1], vars[0]})
		for i := 0; i < sizes[0]; i++ {
			for j := 0; j < sizes[1]; j++ {
				vh.EqF(r.Get([]int{j, i}), data[i*sizes[1]+j], "rearranged value")
			}
		}
	case 2:
		big := 0
		if sizes[1] > sizes[0] {
			big = 1
		}
		o := []int{sizes[big] - 1, 256, 255, 128, 40, 1, 0}[vh.Choose("observed", 7)]
		r := vs.Restrict(&f, vars[big], o)
		var want []float64
		for i := 0; i < sizes[1-big]; i++ {
			if big == 0 {
				want = append(want, data[o*sizes[1]+i])
			} else {
				want = append(want, data[i*sizes[1]+o])
			}
		}
		sameData(r.Data(), want, "restrict")
	case 3:
		s := vs.SumOut(&f, vars[1])
		want := make([]float64, sizes[0])
		for i := range data {
			want[i/sizes[1]] += data[i]
		}
		sameData(s.Data(), want, "sum out")
	case 4:
		s := vs.SumOut(&f, vars[0])
		want := make([]float64, sizes[1])
		for i := range data {
			want[i%sizes[1]] += data[i]
		}
		sameData(s.Data(), want, "sum out the first")
	case 5:
		a := []float64{x, y, x + y}[:min(3, sizes[1])]
		for len(a) < sizes[1] {
			a = append(a, float64(len(a)))
		}
		g := vs.CreateFactor([]ve.Variable{vars[1]}, append([]float64{}, a...))
		p := vs.Product(&g, &f)
		q := vs.Rearrange(&p, vars)
		for i := range data {
			vh.EqF(q.Data()[i], data[i]*a[i%sizes[1]], "product")
		}
	}
	vh.Reach("end")
}
