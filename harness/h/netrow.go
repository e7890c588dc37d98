package h

import (
	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/zzverif/vh"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	All["NetworkRow"] = NetworkRow
}

// NetworkRow: the row of a network table for any outcomes of the parents, with missing data.
func NetworkRow() {
	n := vh.Choose("parents", 4)
	sizes := make([]int, n)
	vars := make([]bbn.Variable, 0, n+1)
	facs := make([]bbn.Factor, 0, n+1)
	given := make([]string, n)
	names := []string{"c", "a", "b"}
	for i := range sizes {
		sizes[i] = 1 + vh.Choose("size", 3)
		given[i] = names[i]
		vars = append(vars, bbn.Variable{Name: names[i], NodeType: ve.ChanceNode, Outcomes: outNames(sizes[i])})
		facs = append(facs, bbn.Factor{For: names[i], Table: realTable("p", sizes[i])})
	}
	cols := 1 + vh.Choose("outcomes", 3)
	kind := ve.ChanceNode
	if cols == 1 {
		kind = ve.UtilityNode
	}
	data := realTable("t", size(sizes)*cols)
	vars = append(vars, bbn.Variable{Name: "x", NodeType: kind, Outcomes: outNames(cols)})
	facs = append(facs, bbn.Factor{For: "x", Given: given, Table: append([]float64{}, data...)})
	if kind == ve.UtilityNode && n == 0 {
		vh.Stop()
	}
	net, err := bbn.New("net", "", vars, facs)
	noErr(err, "building the network")
	idx := make([]int, n)
	missing := false
	for i := range idx {
		idx[i] = vh.Choose("index", sizes[i]+1) - 1
		missing = missing || idx[i] < 0
	}
	got := net.Variables()
	row, ok := got[n].Factor.Row(idx)
	vh.Assert(ok == !missing, "missing data is reported")
	if missing {
		vh.Reach("missing")
		return
	}
	vh.Assert(len(row) == cols, "row length")
	for o := range row {
		vh.EqF(row[o], data[flat(idx, sizes)*cols+o], "row of the parents' outcomes")
	}
	vh.Reach("row")
}
