package h

import (
	"fmt"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/zzverif/vh"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	All["Utility"] = Utility
	All["UtilityTotal"] = UtilityTotal
	All["UtilityOrders"] = UtilityOrders
	All["UtilityTables"] = UtilityTables
	All["Policy1"] = Policy1
	All["Policy1Probs"] = Policy1Probs
	All["Policy1Orders"] = Policy1Orders
	All["Policy1Unused"] = Policy1Unused
	All["Policy1Ties"] = Policy1Ties
	All["Policy2"] = Policy2
	All["Policy2All"] = Policy2All
	All["Policy2Orders"] = Policy2Orders
	All["Policy3"] = Policy3
	All["InForce"] = InForce
	All["InForce2"] = InForce2
	All["InForceOrders"] = InForceOrders
	All["History"] = History
	All["HistoryChance"] = HistoryChance
	All["HistoryOrders"] = HistoryOrders
	All["HistoryTrained"] = HistoryTrained
	All["UtilityWide"] = UtilityWide
	All["UtilityAwkward"] = UtilityAwkward
	All["PolicyAwkward"] = PolicyAwkward
}

// util adds a utility node with arbitrary values.
func (n *rnet) util(name string, parents ...int) int {
	nd := rnode{name: name, kind: ve.UtilityNode, outs: []string{"utility"}, parents: parents}
	r := 1
	for _, p := range parents {
		r *= len(n.nodes[p].outs)
	}
	nd.table = realTable(name, r)
	n.nodes = append(n.nodes, nd)
	return len(n.nodes) - 1
}

// utilOf is the utility of an assignment: of one node, or the weighted total for which < 0.
func (n *rnet) utilOf(asg []int, which, total int) float64 {
	if which >= 0 {
		return n.entry(which, asg)
	}
	s := 0.0
	for i := range n.nodes {
		if n.nodes[i].kind != ve.UtilityNode || i == total {
			continue
		}
		w := 1.0
		if total >= 0 {
			for k, p := range n.nodes[total].parents {
				if p == i {
					w = n.nodes[total].table[k]
				}
			}
		}
		s += w * n.entry(i, asg)
	}
	return s
}

// weightNode adds a total-utility node over the given utility nodes.
func (n *rnet) weightNode(name string, parents ...int) int {
	nd := rnode{name: name, kind: ve.UtilityNode, parents: parents, table: realTable(name, len(parents))}
	for _, p := range parents {
		nd.outs = append(nd.outs, n.nodes[p].name)
	}
	n.nodes = append(n.nodes, nd)
	return len(n.nodes) - 1
}

// eachCore is each without the total-utility node, whose outcomes are no events.
func (n *rnet) eachCore(ev []int, total int, f func(asg []int)) {
	if total < 0 {
		n.each(ev, f)
		return
	}
	e := append([]int{}, ev...)
	e[total] = 0
	n.each(e, f)
}

// weight is the probability weight of an assignment; policies hold tables for decisions, nil ones are left out.
func (n *rnet) weight(asg []int, policies map[int]*rnode) float64 {
	p := n.joint(asg)
	for i := range n.nodes {
		if pol := policies[i]; pol != nil {
			k := 0
			for _, q := range pol.parents {
				k = k*len(n.nodes[q].outs) + asg[q]
			}
			p *= pol.table[k*len(n.nodes[i].outs)+asg[i]]
		}
	}
	return p
}

// utilities sums weight and weight times utility for every combination of the query nodes.
func (n *rnet) utilities(ev, query []int, which, total int, policies map[int]*rnode) ([]float64, []float64) {
	qs := pick(n.sizes(), query)
	u := make([]float64, size(qs))
	m := make([]float64, size(qs))
	n.eachCore(ev, total, func(asg []int) {
		w := n.weight(asg, policies)
		k := flat(pick(asg, query), qs)
		u[k] += w * n.utilOf(asg, which, total)
		m[k] += w
	})
	return u, m
}

func checkUtility(n *rnet, net *bbn.Network, ev, query []int, which, total int, policies map[int]*rnode, ignore bool) {
	name := ""
	if which >= 0 {
		name = n.nodes[which].name
	}
	f, err := net.SolveUtility(n.evMap(ev), n.names(query), name, ignore)
	noErr(err, "utility")
	u, m := n.utilities(ev, query, which, total, policies)
	if len(query) == 0 {
		sameData(f.Data(), u, "expected utility")
	} else {
		g := net.Rearrange(f, n.names(query))
		sameData(g.Data(), u, "expected utility")
	}
	pos := true
	for _, x := range m {
		if !(x > 0) {
			pos = false
		}
	}
	if pos {
		_, pf, err := net.SolveQuery(n.evMap(ev), n.names(query), ignore)
		noErr(err, "query")
		c := net.NormalizeUtility(f, pf)
		if len(query) > 0 {
			c = net.Rearrange(&c, n.names(query))
		}
		vh.Assert(len(c.Data()) == len(u), "conditional utility: length")
		for i := range u {
			vh.EqF(c.Data()[i], u[i]/m[i], "conditional expected utility")
		}
	}
	vh.Reach("utility")
}

func chooseWhich(n *rnet, total int) int {
	var us []int
	for i := range n.nodes {
		if n.nodes[i].kind == ve.UtilityNode && i != total {
			us = append(us, i)
		}
	}
	c := vh.Choose("which utility", len(us)+1)
	if c == len(us) {
		return -1
	}
	return us[c]
}

// chanceEv chooses evidence on at most max of the first k nodes.
func chanceEv(n *rnet, k, max int) []int {
	ev := none(len(n.nodes))
	cnt := 0
	for i := 0; i < k; i++ {
		if cnt < max {
			ev[i] = vh.Choose("evidence", len(n.nodes[i].outs)+1) - 1
			if ev[i] >= 0 {
				cnt++
			}
		}
	}
	return ev
}

// smallQuery chooses no, one or two of the first k nodes without evidence.
func smallQuery(ev []int, k int) []int {
	var free []int
	for i := 0; i < k; i++ {
		if ev[i] < 0 {
			free = append(free, i)
		}
	}
	c := len(free) + 1
	if len(free) > 1 {
		c++
	}
	switch q := vh.Choose("query", c); {
	case q == 0:
		return nil
	case q <= len(free):
		return []int{free[q-1]}
	}
	return []int{free[1], free[0]}
}

// Utility: several utility nodes, no total-utility node.
func Utility() {
	parents := [][][]int{{{}, {0}, {1}}, {{}, {}, {0, 1}}, {{}, {0}, {0}}}[vh.Choose("shape", 3)]
	n := dag([]int{2, 3, 2}, parents, false)
	n.fillDist()
	switch vh.Choose("utilities", 4) {
	case 0:
		n.util("U", 1)
	case 1:
		n.util("U", 2, 0)
		n.util("V", 1)
	case 2:
		n.util("V", 0, 1)
		n.util("U", 1, 0)
		n.util("W", 2)
	case 3:
		n.util("V", 0)
		n.util("U", 0)
	}
	k := len(n.nodes)
	vo := permSome(k, vh.Choose("declaration order", 3))
	net := n.build(vo, permSome(k, vh.Choose("table order", 2)))
	which := chooseWhich(n, -1)
	ev := chanceEv(n, 3, 1)
	query := smallQuery(ev, 3)
	checkUtility(n, net, ev, query, which, -1, nil, false)
}

// UtilityTotal: weights of a total-utility node, declared anywhere, its parents in any order.
func UtilityTotal() {
	parents := [][][]int{{{}, {0}}, {{}, {}}}[vh.Choose("shape", 2)]
	n := dag([]int{2, 3}, parents, false)
	n.fillDist()
	n.util("U", 1)
	n.util("V", 0, 1)
	us := []int{2, 3}
	if vh.Choose("three utilities", 2) == 1 {
		n.util("T", 1, 0)
		us = append(us, 4)
	}
	p := perm(len(us), vh.Choose("order of the parents", fact(len(us))))
	total := n.weightNode("Total", pick(us, p)...)
	k := len(n.nodes)
	vo := permSome(k, vh.Choose("declaration order", 3))
	net := n.build(vo, permSome(k, vh.Choose("table order", 2)))
	vh.Assert(net.TotalUtilityIndex() >= 0 && net.Variables()[net.TotalUtilityIndex()].Name == "Total", "total-utility node reported")
	which := chooseWhich(n, total)
	ev := chanceEv(n, 2, 1)
	query := smallQuery(ev, 2)
	checkUtility(n, net, ev, query, which, total, nil, false)
}

// UtilityOrders: run with different map iteration orders.
func UtilityOrders() {
	n := dag([]int{2, 2}, [][]int{{}, {0}}, false)
	n.fillDist()
	n.util("U", 1)
	n.util("V", 0, 1)
	total := -1
	if vh.Choose("weights", 2) == 1 {
		total = n.weightNode("Total", 3, 2)
	}
	k := len(n.nodes)
	net := n.build(permSome(k, vh.Choose("declaration order", 2)), ident(k))
	which := chooseWhich(n, total)
	ev := none(k)
	if vh.Choose("with evidence", 2) == 1 {
		ev[1] = 1
	}
	checkUtility(n, net, ev, nil, which, total, nil, false)
}

// UtilityTables: unnormalised chance tables do not change utilities.
func UtilityTables() {
	n := dag([]int{2, 2}, [][]int{{}, {0}}, false)
	n.nodes[0].table = posTable("a", 2)
	n.nodes[1].table = posTable("b", 4)
	n.util("U", 1, 0)
	n.util("V", 0)
	net := n.build(permSome(4, vh.Choose("declaration order", 2)), ident(4))
	which := chooseWhich(n, -1)
	ev := chanceEv(n, 2, 1)
	query := smallQuery(ev, 2)
	checkUtility(n.normalised(), net, ev, query, which, -1, nil, false)
}

// awkward names: one the beginning or end of another, differing in case or in spaces only.
var awkward = [][]string{
	{"Cost", "cost", "Cost2", "Total", "Co", "st"},
	{"a", "A", "aa", "a a", "b", "ab"},
	{"x1", "x10", "x", "1", "10", "0"},
	{"Net", "Net ", "N", "et", "Network", "Ne"},
}

// UtilityAwkward: the same with names that are easily confused.
func UtilityAwkward() {
	nm := awkward[vh.Choose("names", len(awkward))]
	n := dag([]int{2, 3}, [][]int{{}, {0}}, false)
	n.nodes[0].name, n.nodes[1].name = nm[4], nm[5]
	n.fillDist()
	us := perm(3, vh.Choose("order of the utilities", 6))
	n.util(nm[us[0]], 1)
	n.util(nm[us[1]], 0, 1)
	n.util(nm[us[2]], 0)
	total := -1
	if vh.Choose("weights", 2) == 1 {
		total = n.weightNode(nm[3], pick([]int{2, 3, 4}, perm(3, vh.Choose("order of the parents", 6)))...)
	}
	k := len(n.nodes)
	net := n.build(permSome(k, vh.Choose("declaration order", 3)), ident(k))
	which := chooseWhich(n, total)
	ev := none(k)
	if vh.Choose("with evidence", 2) == 1 {
		ev[1] = 2
	}
	checkUtility(n, net, ev, smallQuery(ev, 1), which, total, nil, false)
}

// UtilityWide: utility of a parent with more than 256 outcomes, or a table with as many rows.
func UtilityWide() {
	wide := []int{255, 256, 257, 300}[vh.Choose("outcomes", 4)]
	n := &rnet{}
	w := rnode{name: "Wide", kind: ve.ChanceNode, outs: outNames(wide)}
	for i := 0; i < wide; i++ {
		w.table = append(w.table, 1/float64(wide))
	}
	n.nodes = append(n.nodes, w)
	s := n.chance("Small", vh.Dist("s", 2), 2)
	x, y := vh.Real("x"), vh.Real("y")
	u := rnode{name: "U", kind: ve.UtilityNode, outs: []string{"utility"}, parents: []int{0, s}}
	for i := 0; i < 2*wide; i++ {
		u.table = append(u.table, []float64{x, y, 1, -2, 0.5}[(i+i/11)%5])
	}
	n.nodes = append(n.nodes, u)
	n.util("V", s)
	net := n.build(permSome(4, vh.Choose("declaration order", 2)), ident(4))
	ev := none(4)
	var query []int
	switch vh.Choose("request", 4) {
	case 0:
		ev[0] = []int{0, 1, 43, 254, wide - 1}[vh.Choose("observed", 5)]
	case 1:
		query = []int{1}
	case 2:
		query = []int{0}
		ev[1] = 1
	}
	which := chooseWhich(n, -1)
	checkUtility(n, net, ev, query, which, -1, nil, false)
}

// ---- policies

// PolicyAwkward: two decisions with names that are easily confused, solved and in force.
func PolicyAwkward() {
	nm := awkward[vh.Choose("names", len(awkward))]
	p := perm(4, []int{0, 5, 9, 14, 18, 23}[vh.Choose("which name", 6)])
	n := &rnet{}
	d1 := n.decision(nm[p[0]], 2)
	x := n.chance(nm[p[1]], []float64{0.25, 0.75, 0.5, 0.5}, 2, d1)
	d2 := n.decision(nm[p[2]], 2, d1, x)
	u := n.util(nm[p[3]], x, d2)
	v := n.util(nm[4], d1)
	n.nodes[u].table = []float64{1, 2, 0, vh.Real("u")}
	n.nodes[v].table = []float64{0, 0.25}
	total := -1
	if vh.Choose("weights", 2) == 1 {
		total = n.weightNode(nm[5], v, u)
		n.nodes[total].table = []float64{0.5, 2}
	}
	k := len(n.nodes)
	net := n.build(permSome(k, vh.Choose("declaration order", 2)), ident(k))
	ds := []int{d1, d2}
	pol := solved(n, net, vh.Choose("stepwise", 2) == 1, ds...)
	backward(n, ds, total, pol)
	ev := none(k)
	ev[d1] = vh.Choose("evidence", 3) - 1
	checkInForce(n, net, ev, total, pol, vh.Choose("ignore policies", 2) == 1)
}

// decision adds a decision node.
func (n *rnet) decision(name string, outs int, observed ...int) int {
	n.nodes = append(n.nodes, rnode{name: name, kind: ve.DecisionNode, outs: outNames(outs), parents: observed})
	return len(n.nodes) - 1
}

// fixed gives a node the table; rows must sum to one.
func (n *rnet) chance(name string, table []float64, outs int, parents ...int) int {
	n.nodes = append(n.nodes, rnode{name: name, kind: ve.ChanceNode, outs: outNames(outs), parents: parents, table: table})
	return len(n.nodes) - 1
}

// bareDecisions leaves out the entries of decisions that observe nothing, or not.
func (n *rnet) bareDecisions() {
	for i := range n.nodes {
		if n.nodes[i].kind == ve.DecisionNode && len(n.nodes[i].parents) == 0 {
			if vh.Choose("without entry", 2) == 1 {
				n.nodes[i].bare = true
			}
		}
	}
}

func (n *rnet) find(name string) int {
	for i := range n.nodes {
		if n.nodes[i].name == name {
			return i
		}
	}
	return -1
}

// policyNode turns a returned policy into a reference node, checking its form.
func policyNode(n *rnet, d int, f bbn.Factor) *rnode {
	nd := &n.nodes[d]
	vh.Assert(f.For == nd.name, "policy is for the decision")
	p := &rnode{name: nd.name, outs: nd.outs}
	r := 1
	for _, g := range f.Given {
		k := n.find(g)
		ok := false
		for _, q := range nd.parents {
			ok = ok || q == k
		}
		vh.Assert(ok, "policy refers only to observed variables")
		if !ok {
			vh.Stop()
		}
		p.parents = append(p.parents, k)
		r *= len(n.nodes[k].outs)
	}
	vh.Assert(len(f.Table) == r*len(nd.outs), "policy has a row per combination")
	if len(f.Table) != r*len(nd.outs) {
		vh.Stop()
	}
	p.table = f.Table
	for i := 0; i < r; i++ {
		s := 0.0
		for j := range nd.outs {
			x := p.table[i*len(nd.outs)+j]
			vh.LeF(0, x, "policy entry is not negative")
			s += x
		}
		vh.EqF(s, 1, "policy row sums to one")
	}
	return p
}

// eu is the weight and the utility for decision d fixed to option o where the observed nodes have the values obs;
// other decisions follow the policies.
func (n *rnet) eu(d, o int, obs []int, total int, policies map[int]*rnode) (float64, float64) {
	ev := none(len(n.nodes))
	for i, p := range n.nodes[d].parents {
		ev[p] = obs[i]
	}
	ev[d] = o
	u, m := 0.0, 0.0
	n.eachCore(ev, total, func(asg []int) {
		w := n.weight(asg, policies)
		m += w
		u += w * n.utilOf(asg, -1, total)
	})
	return u, m
}

// checkOptimal: for every combination of observations that can occur, the policy of d puts its weight on options
// that are best when the other decisions follow their policies; exact also wants it spread evenly over all of them.
func checkOptimal(n *rnet, d, total int, pol *rnode, others map[int]*rnode, exact bool) {
	nd := &n.nodes[d]
	ps := pick(n.sizes(), nd.parents)
	obs := make([]int, len(ps))
	asg := make([]int, len(n.nodes))
	cols := len(nd.outs)
	for {
		us := make([]float64, cols)
		m := 0.0
		for o := range us {
			us[o], m = n.eu(d, o, obs, total, others)
		}
		if m > 0 {
			for i, p := range nd.parents {
				asg[p] = obs[i]
			}
			k := 0
			for _, q := range pol.parents {
				k = k*len(n.nodes[q].outs) + asg[q]
			}
			row := pol.table[k*cols : (k+1)*cols]
			best, cnt := -1, 0
			for o := range row {
				if row[o] > 0 {
					best = o
					cnt++
				}
			}
			vh.Assert(best >= 0, "policy row has an option")
			if best < 0 {
				vh.Stop()
			}
			for o := range row {
				if row[o] > 0 {
					for o2 := range row {
						if o2 != o {
							vh.LeF(us[o2], us[o], "chosen option is best")
						}
					}
					if exact {
						vh.EqF(row[o]*float64(cnt), 1, "spread evenly")
					}
				} else if exact {
					vh.Assert(us[o] < us[best], "options left out are worse")
				}
			}
		}
		if !next(obs, ps) {
			break
		}
	}
	vh.Reach("policy")
}

// solved solves the policies.
func solved(n *rnet, net *bbn.Network, stepwise bool, decisions ...int) map[int]*rnode {
	res, err := net.SolvePolicies(stepwise)
	noErr(err, "policies")
	vh.Assert(len(res) == len(decisions), "a policy per decision")
	out := map[int]*rnode{}
	for _, d := range decisions {
		f, ok := res[n.nodes[d].name]
		vh.Assert(ok, "a policy for every decision")
		if !ok {
			vh.Stop()
		}
		out[d] = policyNode(n, d, f)
	}
	return out
}

// one builds networks with a single decision over concrete probabilities; utilities are arbitrary.
func one(shape int) (*rnet, int, int) {
	n := &rnet{}
	total := -1
	d := 0
	switch shape {
	case 0: // no observation, D -> C -> U
		d = n.decision("Act", 2)
		c := n.chance("Cold", []float64{0.25, 0.75, 0.5, 0.5}, 2, d)
		n.util("U", c)
	case 1: // forecast network
		w := n.chance("Weather", []float64{0.25, 0.75}, 2)
		f := n.chance("Forecast", []float64{0.75, 0.25, 0.125, 0.875}, 2, w)
		d = n.decision("Umbrella", 2, f)
		n.util("U", w, d)
	case 2: // two observations, three options
		a := n.chance("A", []float64{0.5, 0.5}, 2)
		b := n.chance("B", []float64{0.25, 0.75, 0.5, 0.5}, 2, a)
		d = n.decision("D", 3, b, a)
		n.util("U", d, a)
	case 3: // two utilities, one of them not depending on the decision
		a := n.chance("A", []float64{0.25, 0.25, 0.5}, 3)
		d = n.decision("D", 2)
		n.util("Cost", d)
		n.util("U", a, d)
		n.util("Other", a)
	case 4: // weighted
		a := n.chance("A", []float64{0.5, 0.5}, 2)
		f := n.chance("F", []float64{0.75, 0.25, 0.25, 0.75}, 2, a)
		d = n.decision("D", 2, f)
		u := n.util("U", a, d)
		v := n.util("V", d)
		total = n.weightNode("Total", v, u)
		n.nodes[total].table = []float64{-2, 0.5}
	case 5: // the observation is independent of everything that matters
		a := n.chance("A", []float64{0.5, 0.5}, 2)
		b := n.chance("B", []float64{0.125, 0.875}, 2)
		d = n.decision("D", 2, b)
		n.util("U", a, d)
	case 6: // an observation with an impossible outcome
		a := n.chance("A", []float64{0.5, 0.5}, 2)
		f := n.chance("F", []float64{0.5, 0.5, 0, 0.25, 0.75, 0}, 3, a)
		d = n.decision("D", 2, f)
		n.util("U", a, d)
	case 7: // the decision influences a chance node and is observed with its parent by the utility
		a := n.chance("A", []float64{0.5, 0.5}, 2)
		d = n.decision("D", 2, a)
		c := n.chance("C", []float64{0.5, 0.5, 0.25, 0.75, 1, 0, 0.125, 0.875}, 2, a, d)
		n.util("U", c, a)
		n.util("Cost", d)
	}
	return n, d, total
}

// Policy1: one decision, arbitrary utilities.
func Policy1() {
	n, d, total := one(vh.Choose("shape", 8))
	n.bareDecisions()
	k := len(n.nodes)
	net := n.build(permSome(k, vh.Choose("declaration order", 3)), permSome(k, vh.Choose("table order", 2)))
	pol := solved(n, net, vh.Choose("stepwise", 2) == 1, d)
	checkOptimal(n, d, total, pol[d], nil, true)
}

// Policy1Orders: run with different map iteration orders.
func Policy1Orders() {
	n, d, total := one([]int{1, 3, 4, 7}[vh.Choose("shape", 4)])
	k := len(n.nodes)
	net := n.build(permSome(k, 0), permSome(k, 0))
	pol := solved(n, net, vh.Choose("stepwise", 2) == 1, d)
	checkOptimal(n, d, total, pol[d], nil, true)
}

// Policy1Probs: arbitrary probabilities, concrete utilities.
func Policy1Probs() {
	n := &rnet{}
	w := n.chance("Weather", distTable("w", 1, 2), 2)
	f := n.chance("Forecast", distTable("f", 2, 2), 2, w)
	d := n.decision("Umbrella", 2, f)
	u := n.util("U", w, d)
	n.nodes[u].table = [][]float64{{20, 0, 70, 100}, {-5, 3, 2, -1}}[vh.Choose("utilities", 2)]
	net := n.build(permSome(4, vh.Choose("declaration order", 3)), permSome(4, vh.Choose("table order", 2)))
	pol := solved(n, net, vh.Choose("stepwise", 2) == 1, d)
	checkOptimal(n, d, -1, pol[d], nil, true)
}

// Policy1Unused: decisions that influence nothing.
func Policy1Unused() {
	n := &rnet{}
	a := n.chance("A", distTable("a", 1, 2), 2)
	var d int
	if vh.Choose("observes", 2) == 1 {
		d = n.decision("D", 3, a)
	} else {
		d = n.decision("D", 3)
	}
	if vh.Choose("has utility", 2) == 1 {
		n.util("U", a)
	} else {
		n.chance("C", distTable("c", 3, 2), 2, d)
		n.util("U", a)
	}
	k := len(n.nodes)
	net := n.build(permSome(k, vh.Choose("declaration order", 2)), ident(k))
	pol := solved(n, net, vh.Choose("stepwise", 2) == 1, d)
	checkOptimal(n, d, -1, pol[d], nil, true)
}

// Policy1Ties: many equally good options.
func Policy1Ties() {
	n := &rnet{}
	opts := []int{9, 10}[vh.Choose("options", 2)]
	a := n.chance("A", []float64{0.5, 0.5}, 2)
	d := n.decision("D", opts, a)
	hi, lo := vh.Real("hi"), vh.Real("lo")
	vh.Assume(hi > lo)
	u := rnode{name: "U", kind: ve.UtilityNode, outs: []string{"utility"}, parents: []int{a, d}}
	k := vh.Choose("pattern", 4)
	for i := 0; i < 2; i++ {
		for o := 0; o < opts; o++ {
			best := k == 0 || k == 1 && o%2 == i || k == 2 && o != i || k == 3 && o >= opts-1-i
			if best {
				u.table = append(u.table, hi)
			} else {
				u.table = append(u.table, lo)
			}
		}
	}
	n.nodes = append(n.nodes, u)
	net := n.build(permSome(3, vh.Choose("declaration order", 2)), ident(3))
	pol := solved(n, net, vh.Choose("stepwise", 2) == 1, d)
	checkOptimal(n, d, -1, pol[d], nil, true)
}

// two builds networks with two decisions in sequence.
func two(shape int) (*rnet, []int, int) {
	n := &rnet{}
	total := -1
	var ds []int
	switch shape {
	case 0: // test-and-treat
		h := n.chance("Health", []float64{0.25, 0.75}, 2)
		t := n.decision("Test", 2)
		r := n.chance("Result", []float64{0.75, 0.25, 0.5, 0.5, 0.25, 0.75, 0.5, 0.5}, 2, h, t)
		a := n.decision("Treat", 2, r, t)
		n.util("U", h, a)
		n.util("Cost", t)
		ds = []int{t, a}
	case 1: // the second decision observes only the first
		d1 := n.decision("First", 2)
		d2 := n.decision("Second", 2, d1)
		n.util("U", d1, d2)
		ds = []int{d1, d2}
	case 2: // declared with the later decision's name first, common observation
		a := n.chance("A", []float64{0.5, 0.5}, 2)
		d1 := n.decision("Zfirst", 2, a)
		d2 := n.decision("Alater", 2, a, d1)
		u := n.util("U", d2, a)
		v := n.util("V", d1, d2)
		ds = []int{d1, d2}
		if vh.Choose("weights", 2) == 1 {
			total = n.weightNode("Total", v, u)
			n.nodes[total].table = []float64{0.5, 2}
		}
	case 3: // the first decision influences what the second observes
		d1 := n.decision("D1", 2)
		x := n.chance("X", []float64{0.25, 0.75, 0.5, 0.5}, 2, d1)
		d2 := n.decision("D2", 2, d1, x)
		n.util("U", x, d2)
		n.util("V", d1)
		ds = []int{d1, d2}
	case 4: // three options each
		d1 := n.decision("D1", 3)
		d2 := n.decision("D2", 3, d1)
		u := n.util("U", d1, d2)
		n.nodes[u].table[4], n.nodes[u].table[7], n.nodes[u].table[8] = 2, 2, -1
		ds = []int{d1, d2}
	case 5: // more outcomes than options and the other way round
		d1 := n.decision("D1", 2)
		x := n.chance("X", []float64{0.25, 0.5, 0.25, 0.5, 0, 0.5}, 3, d1)
		d2 := n.decision("D2", 4, x, d1)
		u := n.util("U", d2, x)
		for i, v := range []float64{0, 3, 1, 1, 0, 2, 2, 1, 0, 0, 3, 2.5} {
			if i%5 != 1 {
				n.nodes[u].table[i] = v
			}
		}
		n.util("V", d1)
		ds = []int{d1, d2}
	}
	return n, ds, total
}

// backward: every decision is best given what it observes when the later ones follow their policies.
func backward(n *rnet, ds []int, total int, pol map[int]*rnode) {
	for i := len(ds) - 1; i >= 0; i-- {
		others := map[int]*rnode{}
		for _, d := range ds[i+1:] {
			others[d] = pol[d]
		}
		checkOptimal(n, ds[i], total, pol[ds[i]], others, false)
	}
}

// Policy2: two decisions, arbitrary utilities.
func Policy2() {
	n, ds, total := two(vh.Choose("shape", 6))
	n.bareDecisions()
	k := len(n.nodes)
	net := n.build(permSome(k, vh.Choose("declaration order", 3)), permSome(k, vh.Choose("table order", 2)))
	pol := solved(n, net, vh.Choose("stepwise", 2) == 1, ds...)
	backward(n, ds, total, pol)
}

// Policy2Orders: run with different map iteration orders.
func Policy2Orders() {
	n, ds, total := two([]int{1, 3}[vh.Choose("shape", 2)])
	k := len(n.nodes)
	net := n.build(permSome(k, vh.Choose("declaration order", 2)), permSome(k, 0))
	pol := solved(n, net, vh.Choose("stepwise", 2) == 1, ds...)
	backward(n, ds, total, pol)
}

// value is the expected utility with all decisions following the policies.
func (n *rnet) value(total int, pol map[int]*rnode) float64 {
	u := 0.0
	n.eachCore(none(len(n.nodes)), total, func(asg []int) {
		u += n.weight(asg, pol) * n.utilOf(asg, -1, total)
	})
	return u
}

// Policy2All: no other combination of deterministic policies does better.
func Policy2All() {
	n, ds, total := two([]int{1, 2, 3}[vh.Choose("shape", 3)])
	k := len(n.nodes)
	net := n.build(permSome(k, vh.Choose("declaration order", 2)), permSome(k, 0))
	pol := solved(n, net, vh.Choose("stepwise", 2) == 1, ds...)
	best := n.value(total, pol)
	// all deterministic policies
	sizes := n.sizes()
	var rows []int
	nr := 0
	for _, d := range ds {
		r := size(pick(sizes, n.nodes[d].parents))
		rows = append(rows, r)
		nr += r
	}
	choice := make([]int, nr)
	opts := make([]int, nr)
	for i := range opts {
		opts[i] = 2
	}
	for {
		alt := map[int]*rnode{}
		at := 0
		for i, d := range ds {
			p := &rnode{name: n.nodes[d].name, outs: n.nodes[d].outs, parents: n.nodes[d].parents}
			for r := 0; r < rows[i]; r++ {
				row := make([]float64, 2)
				row[choice[at]] = 1
				at++
				p.table = append(p.table, row...)
			}
			alt[d] = p
		}
		vh.LeF(n.value(total, alt), best, "no other policies do better")
		if !next(choice, opts) {
			break
		}
	}
	vh.Reach("policy")
}

// Policy3: three decisions in sequence.
func Policy3() {
	n := &rnet{}
	d1 := n.decision("Mid", 2)
	x := n.chance("X", []float64{0.25, 0.75, 0.5, 0.5}, 2, d1)
	d2 := n.decision("Zoo", 2, d1)
	var d3 int
	if vh.Choose("observes chance", 2) == 1 {
		d3 = n.decision("Ant", 2, d2, x, d1)
		n.util("U", x, d3)
		v := n.util("V", d2, d1)
		n.nodes[v].table = []float64{0, 2.5, 1, -1}
	} else {
		d3 = n.decision("Ant", 2, d2, d1)
		u := n.util("U", d1, d2, d3)
		for i, x := range []float64{1, 2.5, -1, 2} {
			n.nodes[u].table[(2*i+i/2)%8] = x
		}
	}
	k := len(n.nodes)
	vo := [][]int{ident(k), permSome(k, 1), permSome(k, 2)}[vh.Choose("declaration order", 3)]
	net := n.build(vo, permSome(k, 2))
	ds := []int{d1, d2, d3}
	pol := solved(n, net, vh.Choose("stepwise", 2) == 1, ds...)
	backward(n, ds, -1, pol)
}

// ---- policies in force

// checkPosteriors checks all single posteriors and the utilities for evidence with policies in force.
func checkInForce(n *rnet, net *bbn.Network, ev []int, total int, pol map[int]*rnode, ignore bool) {
	act := map[int]*rnode{}
	for d, p := range pol {
		if ignore && ev[d] >= 0 {
			continue
		}
		act[d] = p
	}
	sizes := n.sizes()
	var query []int
	for i := range n.nodes {
		if n.nodes[i].kind != ve.UtilityNode && ev[i] < 0 {
			query = append(query, i)
		}
	}
	m := make([][]float64, len(n.nodes))
	for i := range m {
		m[i] = make([]float64, sizes[i])
	}
	z := 0.0
	n.eachCore(ev, total, func(asg []int) {
		w := n.weight(asg, act)
		z += w
		for _, q := range query {
			m[q][asg[q]] += w
		}
	})
	vh.Assume(z > 0)
	if len(query) > 0 {
		q := query
		if c := vh.Choose("query", len(query)+1); c < len(query) {
			q = query[c : c+1]
		}
		res, f, err := net.SolveQuery(n.evMap(ev), n.names(q), ignore)
		noErr(err, "query")
		for _, i := range q {
			got := res[n.nodes[i].name]
			vh.Assert(len(got) == sizes[i], "one entry per outcome")
			if len(got) != sizes[i] {
				vh.Stop()
			}
			for o := range got {
				vh.EqF(got[o], m[i][o]/z, "posterior with policies in force")
			}
		}
		sum := 0.0
		for _, x := range f.Data() {
			sum += x
		}
		vh.EqF(sum, z, "probability of the evidence with policies in force")
	}
	_, pf, err := net.SolveQuery(n.evMap(ev), nil, ignore)
	noErr(err, "query of no variables")
	sameData(pf.Data(), []float64{z}, "probability of the evidence with policies in force")
	which := chooseWhich(n, total)
	name := ""
	if which >= 0 {
		name = n.nodes[which].name
	}
	uf, err := net.SolveUtility(n.evMap(ev), nil, name, ignore)
	noErr(err, "utility")
	u := 0.0
	n.eachCore(ev, total, func(asg []int) {
		u += n.weight(asg, act) * n.utilOf(asg, which, total)
	})
	sameData(uf.Data(), []float64{u}, "utility with policies in force")
	vh.Reach("in force")
}

// InForce: one decision.
func InForce() {
	n, d, total := one([]int{0, 1, 3, 4, 5, 7}[vh.Choose("shape", 6)])
	// concrete utilities of the decision's own alternatives keep the number of policies small
	for i := range n.nodes {
		if n.nodes[i].kind == ve.UtilityNode && i != total && vh.Choose("concrete utility", 2) == 1 {
			for j := range n.nodes[i].table {
				n.nodes[i].table[j] = float64((j*7+3)%5) - 1
			}
		}
	}
	k := len(n.nodes)
	net := n.build(permSome(k, vh.Choose("declaration order", 2)), ident(k))
	pol := solved(n, net, false, d)
	ev := none(k)
	for i := range n.nodes {
		if n.nodes[i].kind == ve.UtilityNode {
			continue
		}
		if c := vh.Choose("evidence", 3); c > 0 {
			ev[i] = c - 1
		}
	}
	checkInForce(n, net, ev, total, pol, vh.Choose("ignore policies", 2) == 1)
}

// InForce2: two decisions.
func InForce2() {
	n, ds, total := two(vh.Choose("shape", 6))
	n.bareDecisions()
	for i := range n.nodes {
		if n.nodes[i].kind == ve.UtilityNode && i != total {
			for j := range n.nodes[i].table {
				n.nodes[i].table[j] = float64((j*7+3)%5) - 1
			}
		}
	}
	for i := range n.nodes {
		nd := &n.nodes[i]
		if nd.kind == ve.ChanceNode && i == 0 {
			nd.table = distTable(nd.name, n.rows(i), len(nd.outs))
		}
	}
	k := len(n.nodes)
	net := n.build(permSome(k, vh.Choose("declaration order", 2)), ident(k))
	pol := solved(n, net, vh.Choose("stepwise", 2) == 1, ds...)
	ev := none(k)
	for i := range n.nodes {
		if n.nodes[i].kind == ve.DecisionNode {
			ev[i] = vh.Choose("evidence", 3) - 1
		} else if n.nodes[i].kind == ve.ChanceNode {
			ev[i] = -vh.Choose("chance evidence", 2)
		}
	}
	checkInForce(n, net, ev, total, pol, vh.Choose("ignore policies", 2) == 1)
}

// InForceOrders: run with different map iteration orders.
func InForceOrders() {
	n, ds, total := two([]int{1, 3}[vh.Choose("shape", 2)])
	for i := range n.nodes {
		if n.nodes[i].kind == ve.UtilityNode && i != total {
			for j := range n.nodes[i].table {
				n.nodes[i].table[j] = float64((j*7+3)%5) - 1
			}
		}
	}
	k := len(n.nodes)
	net := n.build(ident(k), ident(k))
	pol := solved(n, net, false, ds...)
	ev := none(k)
	ev[ds[vh.Choose("decision with evidence", 2)]] = vh.Choose("option", 2)
	checkInForce(n, net, ev, total, pol, vh.Choose("ignore policies", 2) == 1)
}

// ---- repeated requests

type snapshot struct {
	vars  []bbn.Variable
	tabs  [][]float64
	outs  [][]string
	gives [][]string
}

func snap(net *bbn.Network) snapshot {
	var s snapshot
	s.vars = append([]bbn.Variable{}, net.Variables()...)
	for _, v := range s.vars {
		s.tabs = append(s.tabs, append([]float64{}, v.Factor.Table...))
		s.outs = append(s.outs, append([]string{}, v.Outcomes...))
		s.gives = append(s.gives, append([]string{}, v.Factor.Given...))
	}
	return s
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (s snapshot) check(net *bbn.Network) {
	vs := net.Variables()
	vh.Assert(len(vs) == len(s.vars), "number of variables unchanged")
	for i, v := range vs {
		o := s.vars[i]
		vh.Assert(v.Name == o.Name && v.NodeType == o.NodeType && v.Position == o.Position && v.Color == o.Color, "variables unchanged")
		vh.Assert(sameStrings(v.Outcomes, s.outs[i]), "outcomes unchanged")
		vh.Assert(v.Factor.For == o.Name && sameStrings(v.Factor.Given, s.gives[i]), "parents unchanged")
		sameData(v.Factor.Table, s.tabs[i], "table unchanged")
	}
}

type request struct {
	kind   int // 0 query, 1 utility, 2 total utility, 3 policies at once, 4 policies stepwise
	ev     []int
	query  []int
	which  int
	ignore bool
}

// answer is the request's answer as one list of numbers.
func (q *request) answer(n *rnet, net *bbn.Network) []float64 {
	var out []float64
	switch q.kind {
	case 0:
		res, f, err := net.SolveQuery(n.evMap(q.ev), n.names(q.query), q.ignore)
		noErr(err, "query")
		for _, i := range q.query {
			out = append(out, res[n.nodes[i].name]...)
		}
		g := net.Rearrange(f, n.names(q.query))
		out = append(out, g.Data()...)
	case 1, 2:
		name := ""
		if q.kind == 1 {
			name = n.nodes[q.which].name
		}
		f, err := net.SolveUtility(n.evMap(q.ev), nil, name, q.ignore)
		noErr(err, "utility")
		out = append(out, f.Data()...)
	default:
		res, err := net.SolvePolicies(q.kind == 4)
		noErr(err, "policies")
		for i := range n.nodes {
			if f, ok := res[n.nodes[i].name]; ok {
				p := policyNode(n, i, f)
				// in the order of the decision's own parents
				ps := pick(n.sizes(), n.nodes[i].parents)
				obs := make([]int, len(ps))
				asg := make([]int, len(n.nodes))
				for {
					for j, x := range n.nodes[i].parents {
						asg[x] = obs[j]
					}
					k := 0
					for _, x := range p.parents {
						k = k*len(n.nodes[x].outs) + asg[x]
					}
					out = append(out, p.table[k*len(p.outs):(k+1)*len(p.outs)]...)
					if !next(obs, ps) {
						break
					}
				}
			}
		}
	}
	return out
}

func runHistory(n *rnet, menu []request, steps int, order int) {
	k := len(n.nodes)
	vo := permSome(k, order)
	net := n.build(vo, ident(k))
	s := snap(net)
	fresh := n.build(vo, ident(k))
	for i := 0; i < steps; i++ {
		q := &menu[vh.Choose("request", len(menu))]
		q.answer(n, net)
		if q.kind >= 3 {
			q.answer(n, fresh)
		}
	}
	s.check(net)
	q := &menu[vh.Choose("last request", len(menu))]
	a := q.answer(n, net)
	b := q.answer(n, fresh)
	sameData(a, b, "same answer as on a fresh network")
	s.check(net)
	vh.Reach("history")
}

// History: sequences of requests on a network with decisions and unnormalised tables.
func History() {
	n := &rnet{}
	w := n.chance("Weather", []float64{1, 3}, 2)
	f := n.chance("Forecast", []float64{4, 1, 2, 6}, 2, w)
	d := n.decision("Umbrella", 2, f)
	u := n.util("U", w, d)
	c := n.util("Cost", d)
	n.nodes[u].table = []float64{20, vh.Real("u"), 70, 100}
	n.nodes[c].table = []float64{-3, 0}
	no := none(5)
	e1, e2, e3 := none(5), none(5), none(5)
	e1[1] = 1
	e2[2] = 0
	e3[0], e3[2] = 1, 1
	menu := []request{
		{kind: 3}, {kind: 4},
		{kind: 0, ev: e1, query: []int{0}},
		{kind: 0, ev: e2, query: []int{0, 1}, ignore: true},
		{kind: 1, ev: no, which: u},
		{kind: 2, ev: e3, ignore: true},
		{kind: 2, ev: e1},
	}
	runHistory(n, menu, vh.Choose("steps", 3), vh.Choose("declaration order", 2))
}

// HistoryChance: the same for chance networks with arbitrary tables.
func HistoryChance() {
	n := dag([]int{2, 3, 2}, [][]int{{}, {0}, {1, 0}}, false)
	for i := range n.nodes {
		n.nodes[i].table = posTable(n.nodes[i].name, n.rows(i)*len(n.nodes[i].outs))
	}
	u := n.util("U", 2, 1)
	e1, e2 := none(4), none(4)
	e1[1] = 2
	e2[2], e2[0] = 0, 1
	menu := []request{
		{kind: 0, ev: none(4), query: []int{2}},
		{kind: 0, ev: e1, query: []int{2, 0}},
		{kind: 0, ev: e2, query: []int{1}},
		{kind: 1, ev: e1, which: u},
		{kind: 2, ev: e2},
	}
	runHistory(n, menu, vh.Choose("steps", 3), vh.Choose("declaration order", 2))
}

// HistoryTrained: the tables change between requests, by training.
func HistoryTrained() {
	n := &rnet{}
	d1 := n.decision("D1", 2)
	x := n.chance("X", []float64{1, 3, 2, 2}, 2, d1)
	d2 := n.decision("D2", 2, x, d1)
	u := n.util("U", x, d2)
	v := n.util("V", d1)
	n.nodes[u].table = []float64{1, 4, 2, -3}
	n.nodes[v].table = []float64{0.5, 2}
	e := none(5)
	e[d1] = 1
	menu := []request{{kind: 3}, {kind: 4}, {kind: 0, ev: none(5), query: []int{x}}, {kind: 2, ev: none(5)}, {kind: 2, ev: e, ignore: true}}
	net := n.build(ident(5), ident(5))
	first := &menu[vh.Choose("before", len(menu))]
	first.answer(n, net)
	// samples for every row; the values of two rows are symbolic
	t := bbn.NewTrainer(net)
	us := []float64{vh.Real("u"), 4, -1, 3}
	vs := []float64{vh.Real("v"), 1}
	for _, s := range [][]int{{0, 0, 0}, {0, 0, 1}, {0, 1, 0}, {1, 1, 1}, {1, 0, 0}, {1, 1, 0}, {1, 1, 1}, {0, 1, 1}} {
		t.AddSample([]int{s[0], s[1], s[2], 0, 0}, []float64{0, 0, 0, us[s[1]*2+s[2]], vs[s[0]]})
	}
	_, err := t.UpdateNetwork()
	noErr(err, "training")
	m := &rnet{nodes: append([]rnode{}, n.nodes...)}
	m.nodes[x].table = []float64{0.5, 0.5, 0.25, 0.75}
	m.nodes[u].table = us
	m.nodes[v].table = vs
	fresh := m.build(ident(5), ident(5))
	if c := vh.Choose("policies after", 3); c > 0 {
		p := &menu[c-1]
		sameData(p.answer(m, net), p.answer(m, fresh), "policies of the trained network")
	} else if first.kind >= 3 {
		// policies stay until they are solved again
		vh.Stop()
	}
	q := &menu[vh.Choose("last request", len(menu))]
	sameData(q.answer(m, net), q.answer(m, fresh), "same answer as on a fresh network with these tables")
	vh.Reach("history")
}

// HistoryOrders: run with different map iteration orders.
func HistoryOrders() {
	n := &rnet{}
	d1 := n.decision("D1", 2)
	x := n.chance("X", []float64{1, 3, 2, 2}, 2, d1)
	d2 := n.decision("D2", 2, d1, x)
	u := n.util("U", x, d2)
	n.nodes[u].table = []float64{1, 4, 2, -3}
	v := n.util("V", d1)
	n.nodes[v].table = []float64{0.5, vh.Real("v")}
	e := none(5)
	e[d1] = 1
	menu := []request{{kind: 3}, {kind: 4}, {kind: 0, ev: e, query: []int{x}}, {kind: 2, ev: e, ignore: true}}
	runHistory(n, menu, 1, 0)
}

var _ = fmt.Sprint
