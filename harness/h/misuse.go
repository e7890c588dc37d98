package h

import (
	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/zzverif/vh"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	All["MisuseIds"] = MisuseIds
	All["MisuseCreate"] = MisuseCreate
	All["MisuseVariable"] = MisuseVariable
	All["MisuseObservation"] = MisuseObservation
	All["MisuseRearrange"] = MisuseRearrange
	All["MisuseIndices"] = MisuseIndices
	All["MisuseNames"] = MisuseNames
	All["NetRearrange"] = NetRearrange
	All["NetNormalize"] = NetNormalize
}

// MisuseIds: an identifier can be used once.
func MisuseIds() {
	vs := ve.NewVariables()
	k := 1 + vh.Choose("variables", deep(4, 6))
	first := vh.Choose("first", 7)
	ids := make([]int, k)
	for i := range ids {
		ids[i] = []int{5, -3, 5 + 1<<16, 0, 5 - 1<<32, 1 << 40, 5 + 1<<8}[(i+first)%7]
		var v ve.Variable
		t := []ve.NodeType{ve.ChanceNode, ve.DecisionNode, ve.UtilityNode}[i%3]
		msg := vh.Panics(func() { v = vs.AddVariable(ids[i], t, uint16(1+i)) })
		vh.Assert(msg == "", "a new identifier is accepted")
		vh.Assert(v.Id() == ids[i], "the variable has the identifier")
		vh.Assert(v.NodeType() == t, "the variable has the type")
	}
	x := vh.Int("id", -8, 8)
	if c := vh.Choose("far", 7); c > 0 {
		x = []int{5 + 1<<16, 5 - 1<<32, 5 + 1<<32, 1 << 40, 5 + 1<<8, -3 + 1<<16}[c-1]
	}
	msg := vh.Panics(func() { vs.AddVariable(x, ve.ChanceNode, 2) })
	used := false
	for _, id := range ids {
		used = vh.Or(used, id == x)
	}
	vh.Assert(used == (msg != ""), "an identifier in use is refused")
	vh.Reach("end")
}

// MisuseCreate: the number of values is the product of the numbers of outcomes.
func MisuseCreate() {
	vs := ve.NewVariables()
	sizes := shaped()
	if vh.Choose("no variables", 2) == 1 {
		sizes = nil
	}
	vars := fvars(vs, sizes)
	n := vh.Choose("values", size(sizes)+4)
	data := realTable("t", n)
	var f ve.Factor
	msg := vh.Panics(func() { f = vs.CreateFactor(vars, data) })
	vh.Assert((msg == "") == (n == size(sizes)), "a factor has as many values as combinations")
	if msg == "" {
		sameData(f.Data(), data, "values")
		sameVars(f.Variables(), vars, "variables")
	}
	vh.Reach("end")
}

// operation number op for a variable.
func operation(vs *ve.Variables, op int, f *ve.Factor, v ve.Variable) ve.Factor {
	switch op {
	case 0:
		return vs.Restrict(f, v, 0)
	case 1:
		return vs.SumOut(f, v)
	case 2:
		return vs.Marginal(f, v)
	case 3:
		return vs.NormalizeFor(f, v)
	default:
		return vs.Policy(f, v)
	}
}

// MisuseVariable: operations for a variable the factor does not have.
func MisuseVariable() {
	vs := ve.NewVariables()
	sizes := [][]int{{}, {1}, {2}, {2, 3}, {3, 1, 2}, {2, 2, 2, 2}}[vh.Choose("shape", 6)]
	vars := fvars(vs, sizes)
	// the others have 10, 13, 16, 19
	id := []int{0, 11, -10, 10 + 1<<8, 10 + 1<<16, 13 + 1<<16, 16 + 1<<32}[vh.Choose("id", 7)]
	other := vs.AddVariable(id, ve.ChanceNode, uint16([]int{1, 2, 3}[vh.Choose("outcomes", 3)]))
	op := vh.Choose("operation", 5)
	data := make([]float64, size(sizes))
	for i := range data {
		data[i] = float64((i * 7) % 5)
	}
	if op < 4 {
		data = posTable("t", size(sizes))
	}
	f := vs.CreateFactor(vars, append([]float64{}, data...))
	msg := vh.Panics(func() { operation(vs, op, &f, other) })
	vh.Assert(msg != "", "an operation for a variable the factor does not have is refused")
	sameData(f.Data(), data, "operand unmodified")
	sameVars(f.Variables(), vars, "operand variables unmodified")
	for i := range vars {
		msg := vh.Panics(func() { operation(vs, op, &f, vars[i]) })
		vh.Assert(msg == "", "an operation for a variable the factor has is done")
	}
	vh.Reach("end")
}

// MisuseObservation: any observation.
func MisuseObservation() {
	vs := ve.NewVariables()
	sizes := shaped()
	vars := fvars(vs, sizes)
	data := realTable("t", size(sizes))
	f := vs.CreateFactor(vars, append([]float64{}, data...))
	k := vh.Choose("variable", len(sizes))
	var o int
	if c := vh.Choose("far", 9); c > 0 {
		base := []int{1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, -1 << 16, -1 << 32, -1 << 63}[c-1]
		o = base + []int{0, sizes[k] - 1}[vh.Choose("offset", 2)]
	} else {
		o = vh.Int("observation", -12, 12)
	}
	msg := vh.Panics(func() { vs.Restrict(&f, vars[k], o) })
	vh.Assert(vh.And(o >= 0, o < sizes[k]) == (msg == ""), "exactly the outcomes of the variable can be observed")
	sameData(f.Data(), data, "operand unmodified")
	vh.Reach("end")
}

// MisuseRearrange: rearranging to other variables.
func MisuseRearrange() {
	vs := ve.NewVariables()
	sizes := [][]int{{2}, {2, 2}, {2, 3}, {3, 1, 2}, {2, 2, 2}}[vh.Choose("shape", 5)]
	n := len(sizes)
	all := fvars(vs, append(append([]int{}, sizes...), sizes[n-1]))
	vars, other := all[:n], all[n]
	data := realTable("t", size(sizes))
	f := vs.CreateFactor(vars, append([]float64{}, data...))
	to := append([]ve.Variable{}, vars...)
	k := vh.Choose("place", n)
	fault := vh.Choose("fault", 5)
	switch fault {
	case 0: // another variable instead
		to[k] = other
	case 1: // one too many
		to = append(to[:k:k], append([]ve.Variable{other}, to[k:]...)...)
	case 2: // one is missing
		to = append(to[:k:k], to[k+1:]...)
	case 3: // one twice, in addition
		to = append(to, vars[k])
	case 4: // nothing wrong
		to[0], to[k] = to[k], to[0]
	}
	msg := vh.Panics(func() { vs.Rearrange(&f, to) })
	vh.Assert((msg == "") == (fault == 4), "rearranging to other variables is refused")
	sameData(f.Data(), data, "operand unmodified")
	sameVars(f.Variables(), vars, "operand variables unmodified")
	vh.Reach("end")
}

// MisuseIndices: a wrong number of outcomes.
func MisuseIndices() {
	vs := ve.NewVariables()
	sizes := [][]int{{}, {2}, {1}, {2, 3}, {1, 1}, {3, 1, 2}, {2, 2, 2, 2}}[vh.Choose("shape", 7)]
	n := len(sizes)
	vars := fvars(vs, sizes)
	data := realTable("t", size(sizes))
	f := vs.CreateFactor(vars, append([]float64{}, data...))
	m := vh.Choose("indices", n+3)
	idx := make([]int, m)
	for i := range idx {
		if i < n {
			idx[i] = vh.Int("index", 0, sizes[i]-1)
		}
	}
	ok := n == m
	var msg string
	switch vh.Choose("function", 7) {
	case 0:
		msg = vh.Panics(func() { f.Index(idx) })
	case 1:
		msg = vh.Panics(func() { f.IndexWithNoData(idx) })
	case 2:
		msg = vh.Panics(func() { f.Outcomes(0, idx) })
	case 3:
		msg = vh.Panics(func() { f.Get(idx) })
	case 4:
		msg = vh.Panics(func() { f.Set(idx, f.Data()[0]) })
		if msg == "" {
			vh.Stop()
		}
	case 5:
		msg = vh.Panics(func() { f.Row(idx) })
		ok = n == m+1
	case 6:
		msg = vh.Panics(func() { f.RowIndex(idx) })
		ok = n == m+1
	}
	vh.Assert((msg == "") == ok, "a wrong number of outcomes is refused")
	sameData(f.Data(), data, "values unmodified")
	vh.Reach("end")
}

// helperNet: three variables and a utility.
func helperNet() (*rnet, *bbn.Network) {
	n := &rnet{}
	a := n.chance("A", distTable("A", 1, 2), 2)
	b := n.chance("B", []float64{0.5, 0.25, 0.25, 0.25, 0.25, 0.5}, 3, a)
	c := n.chance("C", distTable("C", 2, 2), 2, a)
	n.util("U", b, c)
	k := len(n.nodes)
	return n, n.build(permSome(k, vh.Choose("declaration order", 3)), ident(k))
}

// MisuseNames: names that do not fit.
func MisuseNames() {
	n, net := helperNet()
	_, f, err := net.SolveQuery(nil, []string{"A", "C"}, false)
	noErr(err, "query")
	name := vh.Str("name", 1, 0, 255)
	old := append([]float64{}, f.Data()...)
	var msg string
	fits := vh.Or(name == "A", name == "C")
	switch vh.Choose("function", 4) {
	case 0:
		msg = vh.Panics(func() { net.Marginal(f, name) })
	case 1:
		msg = vh.Panics(func() { net.Rearrange(f, []string{name}) })
	case 2:
		msg = vh.Panics(func() { net.Rearrange(f, []string{"A", name}) })
		fits = name == "C"
	case 3:
		msg = vh.Panics(func() { net.Rearrange(f, []string{name, "A"}) })
		fits = name == "C"
	}
	vh.Assert(fits == (msg == ""), "names of variables the factor does not have are refused")
	sameData(f.Data(), old, "operand unmodified")
	_ = n
	vh.Reach("end")
}

// NetRearrange: rearranging by names, all of them or some.
func NetRearrange() {
	n, net := helperNet()
	ev := none(len(n.nodes))
	query := perm(3, vh.Choose("query", 6))[:1+vh.Choose("variables", 3)]
	if len(query) < 3 && vh.Choose("evidence", 2) == 1 {
		e := 3 - query[0]
		if len(query) == 2 {
			e -= query[1]
		} else {
			e = (query[0] + 1) % 3
		}
		ev[e] = 1
	}
	_, f, err := net.SolveQuery(n.evMap(ev), n.names(query), false)
	noErr(err, "query")
	old := append([]float64{}, f.Data()...)
	to := pick(query, perm(len(query), vh.Choose("order", fact(len(query)))))
	part := to[:1+vh.Choose("part", len(to))]
	g := net.Rearrange(f, n.names(part))
	sizes := n.sizes()
	want := make([]float64, len(old))
	full := to
	if len(part) < len(to) {
		// the others keep their places between the first ones and the last one
		full = nil
		at := map[int]int{}
		for i, v := range net.Variables() {
			at[i] = n.find(v.Name)
		}
		full = append(full, part[:len(part)-1]...)
		for _, v := range f.Variables() {
			i := at[v.Id()]
			in := false
			for _, p := range part {
				in = in || p == i
			}
			if !in {
				full = append(full, i)
			}
		}
		full = append(full, part[len(part)-1])
	}
	n.each(ev, func(asg []int) {
		want[flat(pick(asg, full), pick(sizes, full))] += n.joint(asg)
	})
	sameData(g.Data(), want, "rearranged by name")
	sameData(f.Data(), old, "operand unmodified")
	// marginals by name, normalised
	i := query[vh.Choose("marginal", len(query))]
	m := net.Marginal(f, n.nodes[i].name)
	wm := make([]float64, sizes[i])
	z := 0.0
	n.each(ev, func(asg []int) {
		wm[asg[i]] += n.joint(asg)
		z += n.joint(asg)
	})
	sameData(m.Data(), wm, "marginal by name")
	q := net.Normalize(&m)
	for o := range wm {
		vh.EqF(q.Data()[o], wm[o]/z, "normalised marginal")
	}
	sameData(m.Data(), wm, "operand unmodified")
	vh.Reach("utility")
	vh.Reach("end")
}

// NetNormalize: a utility divided by the probability, for every combination.
func NetNormalize() {
	n, net := helperNet()
	ev := none(len(n.nodes))
	query := perm(3, vh.Choose("query", 6))[:vh.Choose("variables", 3)]
	if vh.Choose("evidence", 2) == 1 {
		e := 0
		for i := range query {
			if query[i] == e {
				e++
			}
		}
		for i := range query {
			if query[i] == e {
				e++
			}
		}
		ev[e] = 1
	}
	name := []string{"", "U"}[vh.Choose("which", 2)]
	_, p, err := net.SolveQuery(n.evMap(ev), n.names(query), false)
	noErr(err, "query")
	u, err := net.SolveUtility(n.evMap(ev), n.names(query), name, false)
	noErr(err, "utility")
	ou, op := append([]float64{}, u.Data()...), append([]float64{}, p.Data()...)
	r := net.NormalizeUtility(u, p)
	if len(query) > 0 {
		r = net.Rearrange(&r, n.names(query))
	}
	sizes := n.sizes()
	want, prob := make([]float64, len(op)), make([]float64, len(op))
	util := n.find("U")
	n.each(ev, func(asg []int) {
		k := flat(pick(asg, query), pick(sizes, query))
		want[k] += n.joint(asg) * n.entry(util, asg)
		prob[k] += n.joint(asg)
	})
	vh.Assert(len(r.Data()) == len(want), "one value per combination")
	if len(r.Data()) != len(want) {
		vh.Stop()
	}
	for k := range want {
		vh.EqF(r.Data()[k], want[k]/prob[k], "conditional expected utility")
	}
	sameData(u.Data(), ou, "utility unmodified")
	sameData(p.Data(), op, "probability unmodified")
	vh.Reach("utility")
	vh.Reach("end")
}
