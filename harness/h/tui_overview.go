package h

import (
	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/tui"
	"github.com/mlange-42/bbn/internal/zzverif/vh"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	for k, f := range map[string]func(){"OverviewChance": OverviewChance, "OverviewObserved": OverviewObserved, "Overview1": Overview1, "Overview2": Overview2, "OverviewTotal": OverviewTotal, "OverviewOrders": OverviewOrders} {
		All[k] = f
	}
}

// expected is the overview that enumeration gives; z is the probability of the evidence.
func (n *rnet) expected(ev []int, total int, pol map[int]*rnode, ignore bool) (map[string][]float64, float64) {
	act := map[int]*rnode{}
	for d, p := range pol {
		if ignore && ev[d] >= 0 {
			continue
		}
		act[d] = p
	}
	sizes := n.sizes()
	m := make([][]float64, len(n.nodes))
	for i := range m {
		m[i] = make([]float64, sizes[i])
	}
	us := make([]float64, len(n.nodes))
	tot, z := 0.0, 0.0
	n.eachCore(ev, total, func(asg []int) {
		w := n.weight(asg, act)
		z += w
		for i := range n.nodes {
			if n.nodes[i].kind != ve.UtilityNode {
				m[i][asg[i]] += w
			} else if i != total {
				us[i] += w * n.entry(i, asg)
			}
		}
		tot += w * n.utilOf(asg, -1, total)
	})
	vh.Assume(z > 0)
	out := map[string][]float64{}
	for i := range n.nodes {
		nd := &n.nodes[i]
		switch {
		case i == total:
			var u []float64
			for k, p := range nd.parents {
				u = append(u, nd.table[k]*us[p]/z)
			}
			out[nd.name] = append(u, tot/z)
		case nd.kind == ve.UtilityNode:
			out[nd.name] = []float64{us[i] / z, tot / z}
		case ev[i] >= 0:
			u := make([]float64, sizes[i])
			u[ev[i]] = 1
			out[nd.name] = u
		default:
			u := make([]float64, sizes[i])
			for o := range u {
				u[o] = m[i][o] / z
			}
			out[nd.name] = u
		}
	}
	return out, z
}

// overview compares the overview with enumeration.
func overview(n *rnet, net *bbn.Network, ev []int, total int, pol map[int]*rnode, ignore bool) {
	nodes := []tui.Node{}
	for _, v := range net.Variables() {
		nodes = append(nodes, tui.NewNode(v))
	}
	res, err := tui.Solve(net, n.evMap(ev), nodes, ignore)
	noErr(err, "overview")
	want, _ := n.expected(ev, total, pol, ignore)
	vh.Assert(len(res) == len(want), "an entry for every variable")
	for i := range n.nodes {
		name := n.nodes[i].name
		got, ok := res[name]
		vh.Assert(ok, "an entry for every variable")
		vh.Assert(len(got) == len(want[name]), "as many values as expected")
		if len(got) != len(want[name]) {
			vh.Stop()
		}
		for k := range got {
			vh.EqF(got[k], want[name][k], "value of the overview")
		}
	}
	vh.Reach("overview")
}

// someEvidence chooses evidence; one variable at a time has any outcome unless all is set.
func someEvidence(n *rnet, all bool) []int {
	ev := none(len(n.nodes))
	for i := range n.nodes {
		if n.nodes[i].kind == ve.UtilityNode {
			continue
		}
		if all {
			ev[i] = vh.Choose("evidence", len(n.nodes[i].outs)+1) - 1
		} else if vh.Choose("evidence", 2) == 1 {
			ev[i] = (i * 5) % len(n.nodes[i].outs)
		}
	}
	return ev
}

// OverviewChance: networks without decisions and utilities.
func OverviewChance() {
	shapes := [][][]int{{{}, {0}, {0}}, {{}, {}, {0, 1}}, {{}, {0}, {1}}, {{}, {0}, {0, 1}}}
	n := dag([]int{2, 3, 2}, shapes[vh.Choose("shape", 4)], false)
	n.fillDist()
	net := n.build(permSome(3, vh.Choose("declaration order", 3)), ident(3))
	if vh.Choose("solved", 2) == 1 {
		_, err := net.SolvePolicies(true)
		noErr(err, "no policies")
	}
	overview(n, net, someEvidence(n, true), -1, nil, vh.Choose("ignore policies", 2) == 1)
}

func (n *rnet) utilitiesOf(total int) {
	for i := range n.nodes {
		if n.nodes[i].kind == ve.UtilityNode && i != total {
			for j := range n.nodes[i].table {
				n.nodes[i].table[j] = float64((j*7+3+i)%5) - 1
			}
		}
	}
}

// Overview1: one decision; either utilities or probabilities are arbitrary.
func Overview1() {
	n, d, total := one([]int{0, 1, 3, 4, 5, 7}[vh.Choose("shape", 6)])
	if vh.Choose("probabilities", 2) == 1 {
		n.utilitiesOf(total)
		for i := range n.nodes {
			if n.nodes[i].kind == ve.ChanceNode {
				n.nodes[i].table = distTable(n.nodes[i].name, n.rows(i), len(n.nodes[i].outs))
				break
			}
		}
	} else {
		for i := range n.nodes {
			if n.nodes[i].kind == ve.UtilityNode && i != total && vh.Choose("concrete utility", 2) == 1 {
				for j := range n.nodes[i].table {
					n.nodes[i].table[j] = float64((j*7+3)%5) - 1
				}
			}
		}
	}
	k := len(n.nodes)
	net := n.build(permSome(k, vh.Choose("declaration order", 2)), ident(k))
	pol := solved(n, net, true, d)
	overview(n, net, someEvidence(n, vh.Deep()), total, pol, vh.Choose("ignore policies", 2) == 1)
}

// Overview2: two decisions.
func Overview2() {
	n, ds, total := two(vh.Choose("shape", 4))
	n.utilitiesOf(total)
	for i := range n.nodes {
		if n.nodes[i].kind == ve.ChanceNode {
			n.nodes[i].table = distTable(n.nodes[i].name, n.rows(i), len(n.nodes[i].outs))
			break
		}
	}
	k := len(n.nodes)
	net := n.build(permSome(k, vh.Choose("declaration order", 2)), ident(k))
	pol := solved(n, net, true, ds...)
	overview(n, net, someEvidence(n, false), total, pol, vh.Choose("ignore policies", 2) == 1)
}

// OverviewTotal: weighted utilities, declared anywhere, parents in any order, weights and utilities arbitrary.
func OverviewTotal() {
	n := &rnet{}
	a := n.chance("A", distTable("A", 1, 2), 2)
	b := n.chance("B", distTable("B", 2, 2), 2, a)
	us := []int{n.util("U", a), n.util("V", b, a), n.util("W", b)}
	us = us[:1+vh.Choose("utilities", 3)]
	n.nodes = n.nodes[:2+len(us)]
	var ps []int
	for _, i := range permSome(len(us), vh.Choose("parents", fact(len(us)))) {
		ps = append(ps, us[i])
	}
	total := -1
	if vh.Choose("total", 2) == 1 {
		total = n.weightNode("T", ps...)
	}
	k := len(n.nodes)
	net := n.build(permSome(k, vh.Choose("declaration order", 4)), ident(k))
	overview(n, net, someEvidence(n, true), total, nil, vh.Choose("ignore policies", 2) == 1)
}

// OverviewOrders: run with different map iteration orders.
func OverviewOrders() {
	n, d, total := one([]int{1, 4}[vh.Choose("shape", 2)])
	n.utilitiesOf(total)
	k := len(n.nodes)
	net := n.build(ident(k), ident(k))
	pol := solved(n, net, true, d)
	ev := none(k)
	ev[0] = vh.Choose("evidence", 3) - 1
	ev[d] = vh.Choose("evidence", 3) - 1
	overview(n, net, ev, total, pol, vh.Choose("ignore policies", 2) == 1)
}

func init() { All["OverviewMany"] = OverviewMany }

// OverviewMany: many variables and utilities, the weights and one of the utilities arbitrary.
func OverviewMany() {
	n := &rnet{}
	a := n.chance("A", distTable("A", 1, 3), 3)
	b := n.chance("B", []float64{0.25, 0.75, 0.5, 0.5, 0.375, 0.625}, 2, a)
	c := n.chance("C", []float64{0.25, 0.5, 0.25, 0.125, 0.125, 0.75, 0.5, 0, 0.5}, 3, a)
	d := n.chance("D", []float64{0.5, 0.5, 0.25, 0.75, 0.125, 0.875, 1, 0, 0.75, 0.25, 0.625, 0.375}, 2, b, c)
	e := n.chance("E", []float64{0.125, 0.875}, 2)
	us := []int{n.util("U0", a, e), n.util("U1", d), n.util("U2", c, a), n.util("U3", e), n.util("U4", b, c, d), n.util("U5", a), n.util("U6", c)}
	us = us[:4+vh.Choose("utilities", 4)]
	n.nodes = n.nodes[:5+len(us)]
	free := vh.Choose("arbitrary", len(us))
	for i, u := range us {
		if i == free {
			continue
		}
		for j := range n.nodes[u].table {
			n.nodes[u].table[j] = float64((j*7+3+5*i)%9) - 3
		}
	}
	total := -1
	if vh.Choose("total", 2) == 1 {
		var ps []int
		for i := range us {
			ps = append(ps, us[(i*3+2)%len(us)])
		}
		if len(us)%3 == 0 {
			ps = us
		}
		total = n.weightNode("T", ps...)
	}
	k := len(n.nodes)
	net := n.build(permSome(k, vh.Choose("declaration order", 2)), ident(k))
	ev := none(k)
	switch vh.Choose("evidence", 4) {
	case 1:
		ev[c] = 2
	case 2:
		ev[d], ev[e] = 1, 0
	case 3:
		ev[a], ev[b], ev[c], ev[d], ev[e] = 2, 1, 0, 1, 1
	}
	overview(n, net, ev, total, nil, vh.Choose("ignore policies", 2) == 1)
}

// OverviewObserved: two decisions and many observations at once, some of them not those a decision was based on.
func OverviewObserved() {
	n := &rnet{}
	a := n.chance("A", distTable("A", 1, 2), 2)
	b := n.chance("B", []float64{0.25, 0.75, 0.625, 0.375}, 2, a)
	d := n.decision("D1", 2, b)
	c := n.chance("C", []float64{0.25, 0.75, 0.5, 0.5, 0.125, 0.875, 0.75, 0.25}, 2, a, d)
	g := n.decision("D2", 2, b, d, c)
	e := n.chance("E", []float64{0.25, 0.75, 0.5, 0.5, 0.875, 0.125, 0.375, 0.625}, 2, c, g)
	f := n.chance("F", []float64{0.125, 0.875, 0.75, 0.25}, 2, b)
	n.util("U", b, d)
	n.util("V", c, g)
	n.nodes[7].table = []float64{9, 0, 0, 8}
	n.nodes[8].table = []float64{0, 1, 1, 0}
	k := len(n.nodes)
	net := n.build(permSome(k, vh.Choose("declaration order", 2)), ident(k))
	pol := solved(n, net, vh.Choose("stepwise", 2) == 1, d, g)
	ev := none(k)
	for _, i := range [][]int{{d, c, e, f}, {a, d, g, e}, {a, c, g, f, e}, {a, b, c, d, e, f, g}, {d, g, c, f, e}}[vh.Choose("observed", 5)] {
		ev[i] = vh.Choose("evidence", 2)
	}
	overview(n, net, ev, -1, pol, vh.Choose("ignore policies", 2) == 1)
}
