package h

import (
	"fmt"
	"strings"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/tui"
	"github.com/mlange-42/bbn/internal/zzverif/vh"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	All["QueryBig"] = QueryBig
	All["QueryRepeat"] = QueryRepeat
	All["QueryChain"] = QueryChain
	All["QueryStarWide"] = QueryStarWide
	All["UtilityMany"] = UtilityMany
	All["TrainHuge"] = TrainHuge
	All["TrainWide"] = TrainWide
	All["TrainCSVLarge"] = TrainCSVLarge
	All["YamlLarge"] = YamlLarge
	All["XmlLarge"] = XmlLarge
}

// QueryChain: long chains, also of more than 256 nodes, the first distribution arbitrary.
func QueryChain() {
	k := []int{12, 33, 70, 260}[vh.Choose("nodes", 4)]
	n := &rnet{}
	for i := 0; i < k; i++ {
		nd := rnode{name: fmt.Sprintf("N%d", k-i), kind: ve.ChanceNode, outs: outNames(2)}
		if i == 0 {
			nd.table = vh.Dist("p", 2)
		} else {
			nd.parents = []int{i - 1}
			nd.table = append(fixedRow(i, 0, 2), fixedRow(i, 1, 2)...)
		}
		n.nodes = append(n.nodes, nd)
	}
	order := ident(k)
	if k < 100 {
		order = permSome(k, vh.Choose("declaration order", 3))
	}
	net := n.build(order, ident(k))
	query := []int{k - 1, k / 2, 1}[vh.Choose("query", 3)]
	ev := []int{-1, 0, k - 2}[vh.Choose("evidence", 3)]
	if ev == query {
		return
	}
	evm := map[string]string{}
	if ev >= 0 {
		evm[n.nodes[ev].name] = "no"
	}
	res, f, err := net.SolveQuery(evm, []string{n.nodes[query].name}, false)
	noErr(err, "query")
	// forward and backward messages
	row := func(i, from, to int) float64 { return n.nodes[i].table[from*2+to] }
	fw := make([][2]float64, k)
	for i := 0; i < k; i++ {
		for o := 0; o < 2; o++ {
			if i == 0 {
				fw[i][o] = n.nodes[0].table[o]
			} else {
				fw[i][o] = fw[i-1][0]*row(i, 0, o) + fw[i-1][1]*row(i, 1, o)
			}
			if i == ev && o == 0 {
				fw[i][o] = 0
			}
		}
	}
	bw := [2]float64{1, 1}
	for i := k - 1; i > query; i-- {
		if i == ev {
			bw[0] = 0
		}
		bw = [2]float64{row(i, 0, 0)*bw[0] + row(i, 0, 1)*bw[1], row(i, 1, 0)*bw[0] + row(i, 1, 1)*bw[1]}
	}
	m := []float64{fw[query][0] * bw[0], fw[query][1] * bw[1]}
	sameData(f.Data(), m, "joint probability")
	got := res[n.nodes[query].name]
	vh.Assert(len(got) == 2, "one entry per outcome")
	for o := range got {
		vh.EqF(got[o], m[o]/(m[0]+m[1]), "posterior")
	}
	vh.Reach("query")
}

// QueryStarWide: a node with 9 to 33 children, most of them observed.
func QueryStarWide() {
	k := []int{9, 16, 17, 33}[vh.Choose("children", 4)]
	n := &rnet{}
	n.nodes = append(n.nodes, rnode{name: "Hub", kind: ve.ChanceNode, outs: outNames(3), table: vh.Dist("p", 3)})
	for i := 1; i <= k; i++ {
		nd := rnode{name: fmt.Sprintf("N%d", k-i), kind: ve.ChanceNode, outs: outNames(2), parents: []int{0}}
		for r := 0; r < 3; r++ {
			nd.table = append(nd.table, fixedRow(i, r, 2)...)
		}
		n.nodes = append(n.nodes, nd)
	}
	ev := none(k + 1)
	for i := 1; i <= k; i++ {
		ev[i] = (i * i / 2) % 2
	}
	query := []int{0}
	switch vh.Choose("request", 3) {
	case 1:
		query = []int{k}
		ev[k] = -1
	case 2:
		query = []int{2, k - 1}
		ev[2], ev[k-1], ev[k], ev[5] = -1, -1, -1, -1
	}
	checkQuery(n, n.build(permSome(k+1, vh.Choose("declaration order", 3)), permSome(k+1, vh.Choose("table order", 2))), ev, query, true)
}

// QueryBig: a table with more than a thousand entries, of whose factors more than two have to be multiplied.
func QueryBig() {
	n := &rnet{}
	k := 10
	for i := 0; i < k; i++ {
		n.nodes = append(n.nodes, rnode{name: fmt.Sprintf("P%d", (i*3+1)%k), kind: ve.ChanceNode, outs: outNames(2), table: fixedRow(i, 1, 2)})
	}
	n.nodes[1].table = vh.Dist("p", 2)
	hub := rnode{name: "Hub", kind: ve.ChanceNode, outs: outNames(2)}
	for i := 0; i < k; i++ {
		hub.parents = append(hub.parents, (i*7+2)%k)
	}
	for r := 0; r < 1<<k; r++ {
		hub.table = append(hub.table, fixedRow(r/7, r, 2)...)
	}
	n.nodes = append(n.nodes, hub)
	n.nodes = append(n.nodes, rnode{name: "Child", kind: ve.ChanceNode, outs: outNames(2), parents: []int{0}, table: append(fixedRow(2, 0, 2), fixedRow(2, 1, 2)...)})
	ev := none(k + 2)
	query := []int{k}
	switch vh.Choose("request", 4) {
	case 3:
		ev[k+1] = 1
		query = []int{k, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0}
	case 1:
		ev[k], ev[k+1] = 1, 0
		query = []int{1}
	case 2:
		ev[k] = 0
		query = []int{k + 1, 3}
	}
	checkQuery(n, n.build(permSome(k+2, vh.Choose("declaration order", 2)), ident(k+2)), ev, query, true)
}

// QueryRepeat: a name that occurs more than once in the query.
func QueryRepeat() {
	n := dag([]int{2, 3, 2}, [][]int{{}, {0}, {1, 0}}, false)
	n.fillDist()
	net := n.build(permSome(3, vh.Choose("declaration order", 2)), ident(3))
	ev := none(3)
	ev[2] = vh.Choose("evidence", 3) - 1
	query := [][]int{{0, 0}, {1, 0, 1}, {0, 1, 1, 0}, {2, 2, 0}}[vh.Choose("query", 4)]
	res, _, err := net.SolveQuery(n.evMap(ev), n.names(query), false)
	noErr(err, "query")
	for _, q := range query {
		want := make([]float64, len(n.nodes[q].outs))
		if ev[q] >= 0 {
			want[ev[q]] = 1
		} else {
			m, z := n.masses(ev, []int{q})
			for o := range want {
				want[o] = m[o] / z
			}
		}
		sameData(res[n.nodes[q].name], want, "posterior")
	}
	vh.Reach("query")
}

// UtilityMany: 9 to 20 utility nodes.
func UtilityMany() {
	m := []int{9, 17, 20}[vh.Choose("utilities", 3)]
	n := dag([]int{2, 3}, [][]int{{}, {0}}, false)
	n.fillDist()
	for i := 0; i < m; i++ {
		nd := rnode{name: fmt.Sprintf("U%d", m-i), kind: ve.UtilityNode, outs: []string{"utility"}, parents: []int{i % 2}}
		for r := 0; r < len(n.nodes[i%2].outs); r++ {
			nd.table = append(nd.table, float64((i*5+r*7)%11)-4)
		}
		if i == 3 || i == m-1 {
			nd.table[1] = vh.Real(nd.name)
		}
		n.nodes = append(n.nodes, nd)
	}
	total := -1
	if vh.Choose("weights", 2) == 1 {
		t := rnode{name: "Sum", kind: ve.UtilityNode}
		for i := 0; i < m; i++ {
			p := 2 + (i*7+3)%m
			t.parents = append(t.parents, p)
			t.outs = append(t.outs, n.nodes[p].name)
			t.table = append(t.table, float64(i%5)-1.5)
		}
		t.table[4] = vh.Real("w")
		n.nodes = append(n.nodes, t)
		total = len(n.nodes) - 1
	}
	k := len(n.nodes)
	net := n.build(permSome(k, vh.Choose("declaration order", 3)), permSome(k, vh.Choose("table order", 2)))
	ev := none(k)
	if vh.Choose("evidence", 2) == 1 {
		ev[1] = 2
	}
	which := []int{-1, 2, m + 1}[vh.Choose("which", 3)]
	checkUtility(n, net, ev, smallQuery(ev, 1), which, total, nil, false)
}

// TrainHuge: more samples than 16 bits can count.
func TrainHuge() {
	t := newTnet(tnode{name: "a", outs: outNames(2)}, tnode{name: "u", typ: ve.UtilityNode, outs: []string{"u"}, parents: []int{0}})
	net := t.build()
	tr := bbn.NewTrainer(net)
	n := 65540
	u := vh.Real("u")
	s, x := []int{0, 0}, []float64{0, 1}
	for i := 0; i < n; i++ {
		tr.AddSample(s, x)
	}
	s[0] = 1
	x[1] = u
	tr.AddSample(s, x)
	net, err := tr.UpdateNetwork()
	noErr(err, "training")
	v := net.Variables()
	vh.EqF(v[0].Factor.Table[0]*float64(n+1), float64(n), "trained table")
	vh.EqF(v[0].Factor.Table[1]*float64(n+1), 1, "trained table")
	vh.EqF(v[1].Factor.Table[0], 1, "mean utility")
	vh.EqF(v[1].Factor.Table[1], u, "mean utility")
	vh.Reach("trained")
}

// TrainWide: nodes with many outcomes and many parents; every row seen, then any sample.
func TrainWide() {
	wide := []int{9, 17, 260}[vh.Choose("outcomes", 3)]
	t := newTnet(tnode{name: "w", outs: outNames(wide)}, tnode{name: "b", outs: outNames(2), parents: []int{0}},
		tnode{name: "u", typ: ve.UtilityNode, outs: []string{"u"}, parents: []int{1, 0}})
	net := t.build()
	tr := bbn.NewTrainer(net)
	cw := make([]int, wide)
	cb := make([]int, 2*wide)
	su := make([]float64, 2*wide)
	add := func(w, b int, u float64) {
		tr.AddSample([]int{w, b, 0}, []float64{0, 0, u})
		cw[w]++
		cb[2*w+b]++
		su[b*wide+w] += u
	}
	for i := 0; i < wide; i++ {
		for b := 0; b < 2; b++ {
			for j := 0; j <= (i+b)%2; j++ {
				add(i, b, float64((i*3+b)%5))
			}
		}
	}
	add([]int{wide - 1, 0, wide / 2}[vh.Choose("w", 3)], vh.Choose("b", 2), vh.Real("u"))
	all := 0
	for _, c := range cw {
		all += c
	}
	net, err := tr.UpdateNetwork()
	noErr(err, "training")
	v := net.Variables()
	for i := 0; i < wide; i++ {
		vh.EqF(v[0].Factor.Table[i]*float64(all), float64(cw[i]), "trained table")
		for b := 0; b < 2; b++ {
			vh.EqF(v[1].Factor.Table[2*i+b]*float64(cw[i]), float64(cb[2*i+b]), "trained table")
			vh.EqF(v[2].Factor.Table[b*wide+i]*float64(cb[2*i+b]), su[b*wide+i], "mean utility")
		}
	}
	vh.Reach("trained")
}

// TrainCSVLarge: a file of 120 lines and 30 columns with long labels.
func TrainCSVLarge() {
	long := strings.Repeat("very ", 60) + "long"
	outs := []string{long, long + "er", "short"}
	vars := []bbn.Variable{{Name: "target", Outcomes: outs}, {Name: "u", NodeType: ve.UtilityNode, Outcomes: []string{"u"}}}
	facs := []bbn.Factor{{For: "target", Table: []float64{1, 1, 1}}, {For: "u", Given: []string{"target"}, Table: []float64{0, 0, 0}}}
	net, err := bbn.New("net", "", vars, facs)
	noErr(err, "building")
	var head []string
	at := []int{0, 13, 28}[vh.Choose("column", 3)]
	for i := 0; i < 29; i++ {
		head = append(head, fmt.Sprintf("column %d", i))
	}
	head[at] = "target"
	head = append(head, "u")
	text := strings.Join(head, ",") + "\n"
	x := vh.Real("u")
	cnt := [3]int{}
	sum := [3]float64{}
	used := [3]int{}
	hit := []int{0, 60, 119}[vh.Choose("line", 3)]
	for l := 0; l < 120; l++ {
		var row []string
		for i := 0; i < 29; i++ {
			row = append(row, fmt.Sprintf("x%d", i*l))
		}
		o := (l*l + l/3) % 3
		row[at] = outs[o]
		if l%17 == 5 {
			row[at] = "NA"
			o = -1
		} else {
			cnt[o]++
		}
		val := fmt.Sprint(l % 7)
		u := float64(l % 7)
		if l == hit {
			u = x
			val = vh.FloatText(x)
		}
		row = append(row, val)
		if o >= 0 {
			used[o]++
			sum[o] += u
		}
		text += strings.Join(row, ",") + "\n"
	}
	file := vh.WriteFile("data.csv", text)
	net, err = tui.TrainNetwork(net, net.Variables(), file, "NA", ',')
	noErr(err, "training")
	all := cnt[0] + cnt[1] + cnt[2]
	v := net.Variables()
	for o := range cnt {
		vh.EqF(v[0].Factor.Table[o]*float64(all), float64(cnt[o]), "trained table")
		vh.EqF(v[1].Factor.Table[o]*float64(used[o]), sum[o], "mean utility")
	}
	vh.Reach("trained")
}

// YamlLarge: 60 variables, one with 24 outcomes, a table of 81 rows.
func YamlLarge() {
	k := 60
	text := "name: Large\ninfo: |\n  Several lines\n  of text.\nvariables:\n"
	at := vh.Choose("arbitrary", 3)
	var want [][]float64
	var outs [][]string
	var given [][]string
	for i := 0; i < k; i++ {
		o := outNames(2 + i%3)
		if i == 30 {
			o = outNames(24)
		}
		var g []string
		if i >= 6 {
			g = []string{fmt.Sprintf("v%d", i-5), fmt.Sprintf("v%d", i-6)}
		}
		if i == 55 {
			g = []string{"v1", "v4", "v10", "v7"}
		}
		rows := 1
		for _, p := range g {
			for j := range outs {
				if p == fmt.Sprintf("v%d", j) {
					rows *= len(outs[j])
				}
			}
		}
		text += fmt.Sprintf("- variable: v%d\n  outcomes: [%s]\n", i, strings.Join(o, ", "))
		if len(g) > 0 {
			text += fmt.Sprintf("  given: [%s]\n", strings.Join(g, ", "))
		}
		text += fmt.Sprintf("  position: [%d, %d]\n  table:\n", i*3, i/2)
		var t []float64
		for r := 0; r < rows; r++ {
			var cells []string
			for c := range o {
				x := float64((i+r*3+c*7)%10) + 1
				s := fmt.Sprint(x)
				if at == 0 && i == 55 && r == rows-1 && c == 0 || at == 1 && i == 30 && c == 23 && r == 0 || at == 2 && i == k-1 && r == 0 && c == 1 {
					x = vh.Pos("x")
					s = vh.FloatText(x)
				}
				t = append(t, x)
				cells = append(cells, s)
			}
			text += "  - [" + strings.Join(cells, ", ") + "]\n"
		}
		want = append(want, t)
		outs = append(outs, o)
		given = append(given, g)
	}
	net, err := bbn.FromYAML([]byte(text))
	noErr(err, "loading")
	vs := net.Variables()
	vh.Assert(len(vs) == k && net.Name() == "Large" && net.Info() == "Several lines\nof text.\n", "name, description, number of variables")
	for i, v := range vs {
		vh.Assert(v.Name == fmt.Sprintf("v%d", i) && sameStrings(v.Outcomes, outs[i]) && sameStrings(v.Factor.Given, given[i]), "name, outcomes, parents")
		vh.Assert(v.Position == [2]int{i * 3, i / 2}, "position")
		sameData(v.Factor.Table, want[i], "table")
	}
	vh.Reach("end")
}

// XmlLarge: 40 variables, definitions in another order, long tables.
func XmlLarge() {
	k := 40
	text := "<?xml version=\"1.0\"?>\n<BIF VERSION=\"0.3\"><NETWORK><NAME>Large</NAME>\n"
	var want [][]float64
	var outs [][]string
	var given [][]string
	defs := make([]string, k)
	at := vh.Choose("arbitrary", 3)
	for i := 0; i < k; i++ {
		o := outNames(2 + i%3)
		if i == 20 {
			o = outNames(24)
		}
		text += fmt.Sprintf("<VARIABLE TYPE=\"nature\"><NAME>v%d</NAME>", i)
		for _, x := range o {
			text += "<OUTCOME>" + x + "</OUTCOME>"
		}
		text += fmt.Sprintf("<PROPERTY>position = (%d, %d)</PROPERTY></VARIABLE>\n", i*20, i*30)
		var g []string
		rows := 1
		if i >= 6 {
			for _, j := range []int{i - 5, i - 6} {
				g = append(g, fmt.Sprintf("v%d", j))
				rows *= len(outs[j])
			}
		}
		d := fmt.Sprintf("<DEFINITION><FOR>v%d</FOR>", i)
		for _, p := range g {
			d += "<GIVEN>" + p + "</GIVEN>"
		}
		d += "<TABLE>"
		var t []float64
		for r := 0; r < rows*len(o); r++ {
			x := float64((i+r*3)%10) + 1
			s := fmt.Sprint(x)
			if r == 0 && i == []int{39, 20, 0}[at] || r == rows*len(o)-1 && i == []int{25, 20, 39}[at] {
				x = vh.Pos(fmt.Sprintf("x%d", i))
				s = vh.FloatText(x)
			}
			t = append(t, x)
			d += s
			if r%len(o) == len(o)-1 {
				d += "\n"
			} else {
				d += " "
			}
		}
		d += "</TABLE></DEFINITION>\n"
		defs[(i*7+3)%k] = d
		want = append(want, t)
		outs = append(outs, o)
		given = append(given, g)
	}
	text += strings.Join(defs, "") + "</NETWORK></BIF>\n"
	net, err := bbn.FromBIFXML([]byte(text))
	noErr(err, "loading")
	vs := net.Variables()
	vh.Assert(len(vs) == k && net.Name() == "Large", "name, number of variables")
	for i, v := range vs {
		vh.Assert(v.Name == fmt.Sprintf("v%d", i) && sameStrings(v.Outcomes, outs[i]) && sameStrings(v.Factor.Given, given[i]), "name, outcomes, parents")
		vh.Assert(v.Position == [2]int{i * 10, i * 30 / 12}, "position")
		sameData(v.Factor.Table, want[i], "table")
	}
	vh.Reach("end")
}
