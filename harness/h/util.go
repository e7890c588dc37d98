// Package h holds the verification harnesses. They use the public API of the packages only; the expected results
// are computed by brute force over all outcome combinations.
package h

import (
	"fmt"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/zzverif/vh"
	"github.com/mlange-42/bbn/ve"
)

// All harnesses by name.
var All = map[string]func(){}

// perm returns the k-th permutation of 0..n-1 (k in 0..n!-1).
func perm(n, k int) []int {
	rest := make([]int, n)
	f := 1
	for i := range rest {
		rest[i] = i
		f *= i + 1
	}
	out := make([]int, 0, n)
	for i := n; i >= 1; i-- {
		f /= i
		j := k / f
		k %= f
		out = append(out, rest[j])
		rest = append(rest[:j:j], rest[j+1:]...)
	}
	return out
}

func fact(n int) int {
	f := 1
	for i := 2; i <= n; i++ {
		f *= i
	}
	return f
}

// permSome returns one of at most three permutations of 0..n-1: identity, reversal, rotation.
func permSome(n, k int) []int {
	out := make([]int, n)
	for i := range out {
		switch k {
		case 0:
			out[i] = i
		case 1:
			out[i] = n - 1 - i
		default:
			out[i] = (i + n/2) % n
		}
	}
	return out
}

// next advances a mixed-radix counter, last digit fastest.
func next(idx, sizes []int) bool {
	for i := len(idx) - 1; i >= 0; i-- {
		idx[i]++
		if idx[i] < sizes[i] {
			return true
		}
		idx[i] = 0
	}
	return false
}

func flat(idx, sizes []int) int {
	k := 0
	for i := range idx {
		k = k*sizes[i] + idx[i]
	}
	return k
}

func size(sizes []int) int {
	n := 1
	for _, s := range sizes {
		n *= s
	}
	return n
}

func pick(xs, at []int) []int {
	out := make([]int, len(at))
	for i, a := range at {
		out[i] = xs[a]
	}
	return out
}

func noErr(err error, what string) {
	vh.Assert(err == nil, what+": no error")
	if err != nil {
		vh.Stop()
	}
}

// ---- reference networks

// rnode is a node of a reference network; the parents are positions of earlier or later nodes.
type rnode struct {
	name    string
	kind    ve.NodeType
	outs    []string
	parents []int
	table   []float64 // parents in order, the node's own outcome fastest
	bare    bool      // has no entry among the factors
}

type rnet struct {
	nodes []rnode
}

func (n *rnet) sizes() []int {
	out := make([]int, len(n.nodes))
	for i := range n.nodes {
		out[i] = len(n.nodes[i].outs)
	}
	return out
}

func (n *rnet) names(at []int) []string {
	out := make([]string, len(at))
	for i, a := range at {
		out[i] = n.nodes[a].name
	}
	return out
}

// entry is the table value of node i for a full assignment.
func (n *rnet) entry(i int, asg []int) float64 {
	nd := &n.nodes[i]
	k := 0
	for _, p := range nd.parents {
		k = k*len(n.nodes[p].outs) + asg[p]
	}
	return nd.table[k*len(nd.outs)+asg[i]]
}

// rowSum is the sum of the table row of node i for a full assignment.
func (n *rnet) rowSum(i int, asg []int) float64 {
	nd := &n.nodes[i]
	k := 0
	for _, p := range nd.parents {
		k = k*len(n.nodes[p].outs) + asg[p]
	}
	s := 0.0
	for j := range nd.outs {
		s += nd.table[k*len(nd.outs)+j]
	}
	return s
}

// outNames gives n outcome names that are not in alphabetical order.
func outNames(n int) []string {
	base := []string{"yes", "no", "maybe", "some", "all", "few", "mid", "hi", "lo", "up"}
	out := make([]string, n)
	for i := range out {
		if i < len(base) {
			out[i] = base[i]
		} else {
			out[i] = fmt.Sprintf("o%d", i)
		}
	}
	return out
}

// build creates the network with nodes declared in the order varOrder and tables in the order facOrder.
func (n *rnet) build(varOrder, facOrder []int) *bbn.Network {
	vars := make([]bbn.Variable, 0, len(n.nodes))
	facs := make([]bbn.Factor, 0, len(n.nodes))
	for _, i := range varOrder {
		nd := &n.nodes[i]
		vars = append(vars, bbn.Variable{Name: nd.name, NodeType: nd.kind, Outcomes: append([]string{}, nd.outs...)})
	}
	for _, i := range facOrder {
		nd := &n.nodes[i]
		if nd.bare {
			continue
		}
		f := bbn.Factor{For: nd.name, Given: n.names(nd.parents)}
		if nd.table != nil {
			f.Table = append([]float64{}, nd.table...)
		}
		facs = append(facs, f)
	}
	net, err := bbn.New("net", "", vars, facs)
	noErr(err, "building the network")
	return net
}

func ident(n int) []int { return permSome(n, 0) }

// joint is the product of the chance tables (rows must sum to one) for an assignment.
func (n *rnet) joint(asg []int) float64 {
	p := 1.0
	for i := range n.nodes {
		if n.nodes[i].kind == ve.ChanceNode {
			p *= n.entry(i, asg)
		}
	}
	return p
}

// each calls f for all assignments consistent with the evidence (-1 means no evidence). Utility nodes have one
// outcome.
func (n *rnet) each(ev []int, f func(asg []int)) {
	all := n.sizes()
	asg := make([]int, len(all))
	var free, sizes []int
	for i, e := range ev {
		if e >= 0 {
			asg[i] = e
		} else {
			free = append(free, i)
			sizes = append(sizes, all[i])
		}
	}
	idx := make([]int, len(free))
	for {
		for k, i := range free {
			asg[i] = idx[k]
		}
		f(asg)
		if !next(idx, sizes) {
			return
		}
	}
}

func none(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = -1
	}
	return out
}

// evMap is the evidence as names.
func (n *rnet) evMap(ev []int) map[string]string {
	m := map[string]string{}
	for i, e := range ev {
		if e >= 0 {
			m[n.nodes[i].name] = n.nodes[i].outs[e]
		}
	}
	return m
}

// distTable is a table of rows that are arbitrary positive distributions.
func distTable(label string, rows, cols int) []float64 {
	out := make([]float64, 0, rows*cols)
	for r := 0; r < rows; r++ {
		out = append(out, vh.Dist(fmt.Sprintf("%s%d", label, r), cols)...)
	}
	return out
}

// realTable is a table of arbitrary reals.
func realTable(label string, n int) []float64 {
	out := make([]float64, n)
	for i := range out {
		out[i] = vh.Real(fmt.Sprintf("%s%d", label, i))
	}
	return out
}

func posTable(label string, n int) []float64 {
	out := make([]float64, n)
	for i := range out {
		out[i] = vh.Pos(fmt.Sprintf("%s%d", label, i))
	}
	return out
}

// factorAt reads a result factor for given values of the network's nodes: byID maps variable ids to node numbers.
func factorAt(f *ve.Factor, byID func(id int) int, asg []int) float64 {
	vars := f.Variables()
	idx := make([]int, len(vars))
	for i := range vars {
		k := byID(vars[i].Id())
		idx[i] = asg[k]
	}
	return f.Get(idx)
}

// deep is b in the thorough tier and a otherwise.
func deep(a, b int) int {
	if vh.Deep() {
		return b
	}
	return a
}
