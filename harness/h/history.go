package h

import (
	"slices"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/zzverif/vh"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	All["HistoryPairs"] = HistoryPairs
	All["HistoryLong"] = HistoryLong
}

// scribble overwrites an answer the caller owns.
func scribble(data []float64) {
	for i := range data {
		data[i] = -77
	}
}

// inOrder gives the values of a factor with its variables in declaration order.
func inOrder(net *bbn.Network, f *ve.Factor) []float64 {
	ids := []int{}
	for _, v := range f.Variables() {
		ids = append(ids, v.Id())
	}
	slices.Sort(ids)
	names := []string{}
	for _, i := range ids {
		names = append(names, net.Variables()[i].Name)
	}
	if len(names) == 0 {
		return append([]float64{}, f.Data()...)
	}
	g := net.Rearrange(f, names)
	out := append([]float64{}, g.Data()...)
	scribble(g.Data())
	return out
}

// spoiled gives the request's answer and overwrites everything that was returned afterwards.
// The arguments (a map the caller keeps using, a list of names) have to stay as they were.
func (q *request) spoiled(n *rnet, net *bbn.Network, evidence map[string]string) []float64 {
	return q.asked(n, net, evidence, true)
}

func (q *request) asked(n *rnet, net *bbn.Network, evidence map[string]string, spoil bool) []float64 {
	scribble := func(data []float64) {
		if spoil {
			scribble(data)
		}
	}
	clear(evidence)
	size := 0
	for i, o := range q.ev {
		if o >= 0 {
			evidence[n.nodes[i].name] = n.nodes[i].outs[o]
			size++
		}
	}
	query := n.names(q.query)
	var out []float64
	switch q.kind {
	case 0:
		res, f, err := net.SolveQuery(evidence, query, q.ignore)
		noErr(err, "query")
		vh.Assert(len(res) == len(q.query), "one distribution per query variable")
		for _, i := range q.query {
			out = append(out, res[n.nodes[i].name]...)
		}
		out = append(out, inOrder(net, f)...)
		for _, r := range res {
			scribble(r)
		}
		scribble(f.Data())
	case 1, 2:
		name := ""
		if q.kind == 1 {
			name = n.nodes[q.which].name
		}
		f, err := net.SolveUtility(evidence, query, name, q.ignore)
		noErr(err, "utility")
		out = append(out, inOrder(net, f)...)
		scribble(f.Data())
	default:
		res, err := net.SolvePolicies(q.kind == 4)
		noErr(err, "policies")
		for i := range n.nodes {
			if f, ok := res[n.nodes[i].name]; ok {
				vh.Assert(len(f.Table) == n.rows(i)*len(n.nodes[i].outs), "policy has a row per observation")
				out = append(out, f.Table...)
				scribble(f.Table)
				for j := 0; spoil && j < len(f.Given); j++ {
					f.Given[j] = "?"
				}
			}
		}
	}
	vh.Assert(len(evidence) == size, "evidence of the caller unchanged")
	for i, o := range q.ev {
		if o >= 0 {
			vh.Assert(evidence[n.nodes[i].name] == n.nodes[i].outs[o], "evidence of the caller unchanged")
		}
	}
	vh.Assert(sameStrings(query, n.names(q.query)), "query of the caller unchanged")
	return out
}

// wrongRequest issues a request that fails.
func wrongRequest(net *bbn.Network, which int, evidence map[string]string) {
	clear(evidence)
	evidence["AB"] = "y"
	var err error
	switch which {
	case 0:
		evidence["A"] = "z"
		_, _, err = net.SolveQuery(evidence, []string{"C"}, false)
	case 1:
		evidence["Aa"] = "y"
		_, _, err = net.SolveQuery(evidence, []string{"C"}, true)
	case 2:
		_, _, err = net.SolveQuery(evidence, []string{"C", "x"}, false)
	default:
		_, err = net.SolveUtility(evidence, nil, "W", true)
	}
	vh.Assert(err != nil, "a wrong request is reported")
}

// HistoryPairs: any two requests after each other, which differ in all possible ways, with policies (re-)solved or a wrong request in
// between, the same evidence map used throughout, and everything returned overwritten by the caller.
func HistoryPairs() {
	n := &rnet{}
	a := n.chance("A", []float64{1, 3}, 2)
	b := n.chance("AB", []float64{4, 1, 2, 6}, 2, a)
	d := n.decision("D", 2, b)
	c := n.chance("C", []float64{1, 2, 3, 4, 5, 7, 9, 2}, 2, a, d)
	u := n.util("U", c, d)
	v := n.util("V", d)
	n.nodes[a].outs = []string{"y", "By"}
	n.nodes[b].outs = []string{"y", "By"}
	x := vh.Real("u")
	vh.Assume(vh.And(x > 0, x < 30))
	n.nodes[u].table = []float64{20, x, 70, 100}
	n.nodes[v].table = []float64{-3, 0}
	q := func(kind, node, value int, query []int, ignore bool) request {
		ev := none(6)
		if node >= 0 {
			ev[node] = value
		}
		return request{kind: kind, ev: ev, query: query, which: u, ignore: ignore}
	}
	menu := []request{
		q(0, a, 1, []int{c}, false), q(0, b, 0, []int{c}, false), q(0, a, 0, []int{c}, false),
		q(0, d, 0, []int{c, a}, false), q(0, d, 0, []int{a, c}, true), q(0, d, 1, []int{c, a}, true),
		q(0, -1, 0, []int{c, a}, false), q(0, b, 1, []int{b, c}, false), q(1, a, 0, nil, false), q(2, a, 0, nil, false), q(2, d, 1, nil, true), q(2, d, 1, nil, false),
		q(3, -1, 0, nil, false), q(4, -1, 0, nil, false),
	}
	k := len(n.nodes)
	net := n.build(ident(k), ident(k))
	s := snap(net)
	fresh := n.build(ident(k), ident(k))
	evidence := map[string]string{}
	other := map[string]string{}
	policies := func(stepwise int) {
		r := menu[len(menu)-2+stepwise]
		r.spoiled(n, net, evidence)
		r.asked(n, fresh, other, false)
	}
	before := vh.Choose("policies solved before", 2) == 1
	if before {
		policies(0)
	}
	first := &menu[vh.Choose("request", len(menu))]
	first.spoiled(n, net, evidence)
	if first.kind >= 3 {
		first.asked(n, fresh, other, false)
	}
	switch vh.Choose("between", 4) {
	case 1:
		policies(1)
	case 2:
		wrongRequest(net, vh.Choose("wrong request", 4), evidence)
	case 3:
		first.spoiled(n, net, evidence)
	}
	last := &menu[vh.Choose("last request", len(menu))]
	sameData(last.spoiled(n, net, evidence), last.asked(n, fresh, other, false), "same answer as on a fresh network")
	s.check(net)
	vh.Reach("history")
}

// HistoryLong: a long session on one network.
func HistoryLong() {
	n := &rnet{}
	a := n.chance("A", []float64{1, 3}, 2)
	b := n.chance("B", []float64{4, 1, 2, 6}, 2, a)
	d := n.decision("D", 2, b)
	u := n.util("U", a, d)
	x := vh.Real("u")
	vh.Assume(vh.And(x > 0, x < 30))
	n.nodes[u].table = []float64{20, x, 70, 100}
	k := len(n.nodes)
	net := n.build(ident(k), ident(k))
	s := snap(net)
	fresh := n.build(ident(k), ident(k))
	evidence, other := map[string]string{}, map[string]string{}
	steps := []int{9, 40, deep(80, 300)}[vh.Choose("steps", 3)]
	policies := vh.Choose("policies", 3)
	if policies > 0 {
		r := request{kind: 2 + policies}
		r.spoiled(n, net, evidence)
		r.asked(n, fresh, other, false)
	}
	for i := 0; i < steps; i++ {
		r := request{kind: i % 3, ev: none(k), which: u, ignore: i%2 == 0}
		r.ev[i%3] = i / 3 % 2
		if r.kind == 0 {
			r.query = []int{[]int{b, a, a}[i%3]}
		}
		r.spoiled(n, net, evidence)
	}
	r := request{kind: vh.Choose("last request", 4), ev: none(k), which: u}
	if r.kind < 3 {
		r.ev[b] = 1
	}
	if r.kind == 0 {
		r.query = []int{a}
	}
	sameData(r.spoiled(n, net, evidence), r.asked(n, fresh, other, false), "same answer as on a fresh network")
	s.check(net)
	vh.Reach("history")
}
