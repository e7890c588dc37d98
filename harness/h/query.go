package h

import (
	"fmt"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/zzverif/vh"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	All["Query3"] = Query3
	All["Query4"] = Query4
	All["Query5"] = Query5
	All["QueryOrders"] = QueryOrders
	All["QueryTables"] = QueryTables
	All["QueryZeros"] = QueryZeros
	All["QueryWide"] = QueryWide
	All["QueryAll4"] = QueryAll4
	All["QueryObserved"] = QueryObserved
	All["QueryStar"] = QueryStar
}

var nodeNames = []string{"Rain", "Bag", "Zeta", "Alpha", "Mid"}

// dag makes chance nodes with the given numbers of outcomes and parents; reversed parent lists where rev is set.
func dag(sizes []int, parents [][]int, rev bool) *rnet {
	n := &rnet{}
	for i, s := range sizes {
		p := append([]int{}, parents[i]...)
		if rev {
			for a, b := 0, len(p)-1; a < b; a, b = a+1, b-1 {
				p[a], p[b] = p[b], p[a]
			}
		}
		n.nodes = append(n.nodes, rnode{name: nodeNames[i], kind: ve.ChanceNode, outs: outNames(s), parents: p})
	}
	return n
}

func (n *rnet) rows(i int) int {
	r := 1
	for _, p := range n.nodes[i].parents {
		r *= len(n.nodes[p].outs)
	}
	return r
}

// fillDist gives every chance node a table of arbitrary positive distributions.
func (n *rnet) fillDist() {
	for i := range n.nodes {
		nd := &n.nodes[i]
		if nd.kind == ve.ChanceNode && nd.table == nil {
			nd.table = distTable(nd.name, n.rows(i), len(nd.outs))
		}
	}
}

// masses sums the joint for every combination of the query nodes; the second result is the evidence probability.
func (n *rnet) masses(ev, query []int) ([]float64, float64) {
	sizes := n.sizes()
	qs := pick(sizes, query)
	m := make([]float64, size(qs))
	n.each(ev, func(asg []int) {
		m[flat(pick(asg, query), qs)] += n.joint(asg)
	})
	z := 0.0
	for _, x := range m {
		z += x
	}
	return m, z
}

// checkQuery compares the answer to a query with the reference.
func checkQuery(n *rnet, net *bbn.Network, ev, query []int, zpos bool) {
	sizes := n.sizes()
	asked := query
	query = nil
	for _, q := range asked {
		if ev[q] < 0 {
			query = append(query, q)
		}
	}
	m, z := n.masses(ev, query)
	if !zpos {
		vh.Assume(z > 0)
	}
	res, f, err := net.SolveQuery(n.evMap(ev), n.names(asked), false)
	noErr(err, "query")
	vh.Assert(len(res) == len(asked), "one distribution per query variable")
	for _, q := range asked {
		if ev[q] < 0 {
			continue
		}
		got, ok := res[n.nodes[q].name]
		vh.Assert(ok && len(got) == sizes[q], "one entry per outcome of an observed variable")
		for o := range got {
			want := 0.0
			if o == ev[q] {
				want = 1
			}
			vh.EqF(got[o], want, "observed variable")
		}
	}
	qs := pick(sizes, query)
	for qi, q := range query {
		got, ok := res[n.nodes[q].name]
		vh.Assert(ok && len(got) == sizes[q], "one entry per outcome")
		if !ok || len(got) != sizes[q] {
			vh.Stop()
		}
		want := make([]float64, sizes[q])
		idx := make([]int, len(query))
		for {
			want[idx[qi]] += m[flat(idx, qs)]
			if !next(idx, qs) {
				break
			}
		}
		sum := 0.0
		for o := range got {
			vh.EqF(got[o], want[o]/z, "posterior")
			sum += got[o]
		}
		vh.EqF(sum, 1, "posterior sums to one")
	}
	vh.Assert(f != nil, "a factor is returned")
	if len(query) > 0 {
		g := net.Rearrange(f, n.names(query))
		sameData(g.Data(), m, "joint probability of query and evidence")
	} else {
		sameData(f.Data(), m, "probability of the evidence")
	}
	vh.Reach("query")
}

// chooseEv chooses evidence for every node or none.
func chooseEv(n *rnet, max int) []int {
	ev := none(len(n.nodes))
	cnt := 0
	for i := range ev {
		if cnt < max {
			ev[i] = vh.Choose("evidence", len(n.nodes[i].outs)+1) - 1
			if ev[i] >= 0 {
				cnt++
			}
		}
	}
	return ev
}

// chooseQuery chooses a query over nodes without evidence: one of them, or several in rotated order.
func chooseQuery(ev []int, multi bool) []int {
	var free []int
	for i, e := range ev {
		if e < 0 {
			free = append(free, i)
		}
	}
	if len(free) == 0 {
		return nil
	}
	k := len(free)
	if multi && k > 1 {
		k += 2
	}
	c := vh.Choose("query", k)
	switch {
	case c < len(free):
		return []int{free[c]}
	case c == len(free):
		return append(append([]int{}, free[1:]...), free[0])
	}
	return free[:len(free)-1]
}

// Query3: every network of three nodes.
func Query3() {
	var parents [][]int
	for i := 0; i < 3; i++ {
		var p []int
		for j := 0; j < i; j++ {
			if vh.Choose("edge", 2) == 1 {
				p = append(p, j)
			}
		}
		parents = append(parents, p)
	}
	sizes := [][]int{{2, 3, 2}, {3, 2, 1}}[vh.Choose("sizes", 2)]
	rev := len(parents[2]) > 1 && vh.Choose("parents reversed", 2) == 1
	n := dag(sizes, parents, rev)
	n.fillDist()
	vo := perm(3, vh.Choose("declaration order", 6))
	fo := permSome(3, vh.Choose("table order", 2))
	ev := chooseEv(n, 2)
	query := chooseQuery(ev, true)
	checkQuery(n, n.build(vo, fo), ev, query, true)
}

var shapes4 = [][][]int{
	{{}, {0}, {1}, {2}},    // chain
	{{}, {0}, {0}, {1, 2}}, // diamond
	{{}, {}, {0, 1}, {2}},  // collider with child
	{{}, {0}, {0}, {0}},    // naive Bayes
	{{}, {}, {}, {2, 0, 1}},
	{{}, {0}, {1, 0}, {0, 2}},
	{{}, {}, {0}, {1}},        // two components
	{{}, {0}, {0, 1}, {1, 2}}, // moral triangle
}

// Query4: shapes of four nodes, declared in several orders.
func Query4() {
	parents := shapes4[vh.Choose("shape", len(shapes4))]
	sizes := [][]int{{2, 2, 2, 2}, {2, 3, 2, 2}}[vh.Choose("sizes", 2)]
	n := dag(sizes, parents, false)
	n.fillDist()
	vo := [][]int{{0, 1, 2, 3}, {3, 2, 1, 0}, {2, 0, 3, 1}}[vh.Choose("declaration order", 3)]
	fo := permSome(4, vh.Choose("table order", 2))
	ev := none(4)
	switch vh.Choose("evidence pattern", 6) {
	case 1:
		ev[3] = 1
	case 2:
		ev[0], ev[3] = 1, 0
	case 3:
		ev[0], ev[1], ev[2] = 0, 1, 1
	case 4:
		ev[1], ev[2], ev[3] = 1, 0, 1
	case 5:
		ev[2] = 0
	}
	query := chooseQuery(ev, true)
	checkQuery(n, n.build(vo, fo), ev, query, true)
}

// QueryAll4: every network of four binary nodes.
func QueryAll4() {
	var parents [][]int
	for i := 0; i < 4; i++ {
		var p []int
		for j := 0; j < i; j++ {
			if vh.Choose("edge", 2) == 1 {
				p = append(p, j)
			}
		}
		parents = append(parents, p)
	}
	n := dag([]int{2, 2, 2, 2}, parents, vh.Choose("parents reversed", 2) == 1)
	n.fillDist()
	vo := perm(4, vh.Choose("declaration order", 24))
	ev := none(4)
	for i := range ev {
		ev[i] = (vh.Choose("evidence", 2)*2 - 1) * (1 - i%2)
		if vh.Choose("has evidence", 2) == 0 {
			ev[i] = -1
		}
	}
	query := chooseQuery(ev, true)
	checkQuery(n, n.build(vo, permSome(4, 2)), ev, query, true)
}

// Query5: five nodes.
func Query5() {
	shapes := [][][]int{
		{{}, {0}, {1}, {2}, {3}},
		{{}, {}, {0, 1}, {2}, {2}},
		{{}, {0}, {0}, {1, 2}, {3}},
		{{}, {}, {0}, {1}, {3, 2}},
	}
	parents := shapes[vh.Choose("shape", len(shapes))]
	n := dag([]int{2, 2, 2, 2, 2}, parents, false)
	n.fillDist()
	vo := permSome(5, vh.Choose("declaration order", 3))
	ev := none(5)
	switch vh.Choose("evidence pattern", 4) {
	case 1:
		ev[4] = 1
	case 2:
		ev[0], ev[4] = 1, 0
	case 3:
		ev[1], ev[3], ev[4] = 0, 1, 1
	}
	query := chooseQuery(ev, false)
	checkQuery(n, n.build(vo, permSome(5, 1)), ev, query, true)
}

// QueryOrders: small networks, run with different map iteration orders.
func QueryOrders() {
	parents := [][][]int{{{}, {0}, {1, 0}}, {{}, {}, {0, 1}}, {{}, {0}, {0}}, {{}, {0}, {1}}}[vh.Choose("shape", 4)]
	n := dag([]int{2, 3, 2}, parents, false)
	n.fillDist()
	ev := none(3)
	switch vh.Choose("evidence pattern", 3) {
	case 1:
		ev[2] = 1
	case 2:
		ev[1], ev[2] = 2, 0
	}
	query := chooseQuery(ev, true)
	checkQuery(n, n.build([]int{1, 2, 0}, ident(3)), ev, query, true)
}

// normalised gives the reference network with its chance rows divided by their sums.
func (n *rnet) normalised() *rnet {
	out := &rnet{}
	for i := range n.nodes {
		nd := n.nodes[i]
		if nd.kind == ve.ChanceNode {
			cols := len(nd.outs)
			t := make([]float64, len(nd.table))
			for r := 0; r < len(t); r += cols {
				s := 0.0
				for c := 0; c < cols; c++ {
					s += nd.table[r+c]
				}
				for c := 0; c < cols; c++ {
					t[r+c] = nd.table[r+c] / s
				}
			}
			nd.table = t
		}
		out.nodes = append(out.nodes, nd)
	}
	return out
}

// QueryTables: tables with arbitrary positive values that are not normalised.
func QueryTables() {
	parents := [][][]int{{{}, {0}}, {{}, {}}, {{}, {0}, {1}}, {{}, {}, {1, 0}}}[vh.Choose("shape", 4)]
	sizes := []int{2, 3, 2}[:len(parents)]
	n := dag(sizes, parents, false)
	for i := range n.nodes {
		n.nodes[i].table = posTable(n.nodes[i].name, n.rows(i)*sizes[i])
	}
	m := n.normalised()
	vo := permSome(len(sizes), vh.Choose("declaration order", 2))
	ev := chooseEv(n, 1)
	query := chooseQuery(ev, false)
	checkQuery(m, n.build(vo, ident(len(sizes))), ev, query, true)
}

// QueryZeros: rows that put everything on one or on some outcomes, evidence of positive probability.
func QueryZeros() {
	parents := [][][]int{{{}, {0}, {1}}, {{}, {}, {0, 1}}, {{}, {0}, {0, 1}}}[vh.Choose("shape", 3)]
	sizes := []int{2, 3, 2}
	n := dag(sizes, parents, false)
	for i := range n.nodes {
		nd := &n.nodes[i]
		kind := vh.Choose("rows", 3)
		for r := 0; r < n.rows(i); r++ {
			row := make([]float64, sizes[i])
			switch kind {
			case 0:
				row = vh.Dist(fmt.Sprintf("%s%d", nd.name, r), sizes[i])
			case 1: // one-hot, at a place depending on the row
				row[(r+r/2+i)%sizes[i]] = 1
			case 2: // one impossible outcome
				if sizes[i] == 2 {
					row[(r+1)%2] = 1
				} else {
					d := vh.Dist(fmt.Sprintf("%s%d", nd.name, r), sizes[i]-1)
					for k, x := range d {
						row[(k+r)%sizes[i]] = x
					}
				}
			}
			nd.table = append(nd.table, row...)
		}
	}
	ev := chooseEv(n, 2)
	query := chooseQuery(ev, true)
	checkQuery(n, n.build(permSome(3, vh.Choose("declaration order", 2)), ident(3)), ev, query, false)
}

// QueryWide: a variable with more than 256 outcomes.
func QueryWide() {
	wide := []int{257, 300}[vh.Choose("outcomes", 2)]
	order := vh.Choose("wide is parent", 2)
	n := &rnet{}
	w := rnode{name: "Wide", kind: ve.ChanceNode, outs: outNames(wide)}
	s := rnode{name: "Small", kind: ve.ChanceNode, outs: outNames(2)}
	if order == 1 {
		s.parents = []int{0}
		d := [][]float64{vh.Dist("d", 2), vh.Dist("e", 2), {0.25, 0.75}}
		for i := 0; i < wide; i++ {
			w.table = append(w.table, 1/float64(wide))
			s.table = append(s.table, d[(i+i/7)%3]...)
		}
	} else {
		w.parents = []int{1}
		p := vh.Dist("p", 2)
		s.table = p
		q := vh.Dist("q", 2)
		for r := 0; r < 2; r++ {
			for i := 0; i < wide; i++ {
				x := q[r] / float64(wide-1)
				if i == wide-1 {
					x = 1 - q[r]
				}
				w.table = append(w.table, x)
			}
		}
	}
	n.nodes = []rnode{w, s}
	ev := none(2)
	query := []int{0}
	switch vh.Choose("request", 3) {
	case 0:
		ev[1] = 1
		if order == 1 {
			query = nil
		}
	case 1:
		ev[0] = wide - 1
		query = []int{1}
	case 2:
		ev[0] = []int{0, 3, 44, 255, 256}[vh.Choose("observed", 5)]
		query = []int{1}
	}
	checkQuery(n, n.build([]int{1, 0}, ident(2)), ev, query, true)
}

// QueryObserved: queries that also ask for observed variables, which are certain.
func QueryObserved() {
	parents := [][][]int{{{}, {0}, {0, 1}}, {{}, {}, {1, 0}}, {{}, {0}, {1}}, {{}, {0}, {0}}}[vh.Choose("shape", 4)]
	n := dag([]int{2, 3, 2}, parents, false)
	n.fillDist()
	ev := chooseEv(n, 3)
	query := [][]int{{0, 1, 2}, {2, 0}, {1, 2}, {1, 0}, {0}, {1}, {2, 1, 0}}[vh.Choose("query", 7)]
	checkQuery(n, n.build(permSome(3, vh.Choose("declaration order", 2)), ident(3)), ev, query, true)
}

// QueryStar: one node with many children, or with many parents.
func QueryStar() {
	k := 5 + vh.Choose("children", deep(2, 3))
	many := vh.Choose("many parents", 2) == 1
	if many {
		k = 4 + vh.Choose("fewer", 2)
	}
	n := &rnet{}
	n.nodes = append(n.nodes, rnode{name: "Hub", kind: ve.ChanceNode, outs: outNames(2)})
	for i := 0; i < k; i++ {
		nd := rnode{name: fmt.Sprintf("N%d", (i+3)%k), kind: ve.ChanceNode, outs: outNames(2)}
		if many {
			n.nodes[0].parents = append(n.nodes[0].parents, i+1)
		} else {
			nd.parents = []int{0}
		}
		n.nodes = append(n.nodes, nd)
	}
	for i := range n.nodes {
		nd := &n.nodes[i]
		for r := 0; r < n.rows(i); r++ {
			if i == 0 && many || i == 1 || i == k {
				if i == 0 && r%5 != 0 {
					nd.table = append(nd.table, []float64{0.25, 0.5, 0.625}[r%3], []float64{0.75, 0.5, 0.375}[r%3])
					continue
				}
				nd.table = append(nd.table, vh.Dist(fmt.Sprintf("%s%d", nd.name, r), 2)...)
				continue
			}
			q := []float64{0.125, 0.75, 0.375, 0.5}[(i+2*r)%4]
			nd.table = append(nd.table, q, 1-q)
		}
	}
	ev := none(k + 1)
	var query []int
	switch vh.Choose("request", 6) {
	case 5:
		query = []int{1}
		for i := 2; i <= k; i++ {
			ev[i] = i % 2
		}
	case 0:
		query = []int{0}
		for i := 1; i <= k; i++ {
			ev[i] = i % 2
		}
	case 1:
		query = []int{1}
		ev[2], ev[k] = 1, 0
	case 2:
		query = []int{k}
	case 3:
		query = []int{1, 0}
		ev[k] = 1
	case 4:
		query = []int{2, k}
		ev[0] = 1
	}
	checkQuery(n, n.build(permSome(k+1, vh.Choose("declaration order", 3)), permSome(k+1, vh.Choose("table order", 2))), ev, query, true)
}
