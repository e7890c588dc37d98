package h

import (
	"strings"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/zzverif/vh"
	"github.com/mlange-42/bbn/logic"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	All["YamlLoad"] = YamlLoad
	All["YamlLogic"] = YamlLogic
	All["YamlLogicMix"] = YamlLogicMix
	All["YamlReject"] = YamlReject
	All["YamlRagged"] = YamlRagged
	All["YamlRoundTrip"] = YamlRoundTrip
	All["YamlRoundTripNames"] = YamlRoundTripNames
	All["YamlRoundTripUtility"] = YamlRoundTripUtility
	All["YamlRoundTripLogic"] = YamlRoundTripLogic
	All["YamlTrained"] = YamlTrained
	All["XmlLoad"] = XmlLoad
	All["XmlReject"] = XmlReject
	All["XmlPosition"] = XmlPosition
	All["FileLoad"] = FileLoad
	All["YamlNumbers"] = YamlNumbers
	All["YamlUnknown"] = YamlUnknown
	All["YamlRoundTripLarge"] = YamlRoundTripLarge
	All["XmlNumbers"] = XmlNumbers
	All["XmlNames"] = XmlNames
}

// dvar is a variable of a document.
type dvar struct {
	name   string
	given  []string
	typ    string
	outs   []string
	pos    []int
	color  string
	logic  string
	rows   [][]float64
	defPos int
}

func quote(s string) string { return "\"" + s + "\"" }

func list(xs []string) string {
	out := make([]string, len(xs))
	for i, x := range xs {
		out[i] = quote(x)
	}
	return "[" + strings.Join(out, ", ") + "]"
}

func rowsText(rows [][]float64) string {
	out := make([]string, len(rows))
	for i, row := range rows {
		xs := make([]string, len(row))
		for j, x := range row {
			xs[j] = vh.FloatText(x)
		}
		out[i] = "[" + strings.Join(xs, ", ") + "]"
	}
	return "[" + strings.Join(out, ", ") + "]"
}

// yaml writes the document; rev reverses the order of the fields.
func yamlDoc(name, info string, vars []dvar, rev bool) string {
	b := "name: " + quote(name) + "\n"
	if info != "" {
		b += "info: " + quote(info) + "\n"
	}
	b += "variables:\n"
	for _, v := range vars {
		f := []string{"variable: " + quote(v.name)}
		if v.given != nil {
			f = append(f, "given: "+list(v.given))
		}
		if v.typ != "" {
			f = append(f, "type: "+v.typ)
		}
		f = append(f, "outcomes: "+list(v.outs))
		if v.pos != nil {
			f = append(f, "position: ["+vh.IntText(v.pos[0])+", "+vh.IntText(v.pos[1])+"]")
		}
		if v.color != "" {
			f = append(f, "color: "+v.color)
		}
		if v.logic != "" {
			f = append(f, "logic: "+quote(v.logic))
		}
		if v.rows != nil {
			f = append(f, "table: "+rowsText(v.rows))
		}
		for i := range f {
			x := f[i]
			if rev {
				x = f[len(f)-1-i]
			}
			if i == 0 {
				b += "- " + x + "\n"
			} else {
				b += "  " + x + "\n"
			}
		}
	}
	return b
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func nodeKind(s string) ve.NodeType {
	switch s {
	case "decision":
		return ve.DecisionNode
	case "utility":
		return ve.UtilityNode
	}
	return ve.ChanceNode
}

// checkVar compares a loaded variable with its description; the table is given flat.
func checkVar(v bbn.Variable, d dvar, table []float64) {
	vh.Assert(v.Name == d.name, "name")
	vh.Assert(v.NodeType == nodeKind(d.typ), "type")
	vh.Assert(same(v.Outcomes, d.outs), "outcomes in order")
	pos := d.pos
	if pos == nil {
		pos = []int{0, 0}
	}
	vh.Assert(vh.And(v.Position[0] == pos[0], v.Position[1] == pos[1]), "position")
	vh.Assert(v.Color == d.color, "colour")
	vh.Assert(v.Factor != nil, "table present")
	if v.Factor == nil {
		vh.Stop()
	}
	vh.Assert(v.Factor.For == d.name, "table belongs to the variable")
	vh.Assert(same(v.Factor.Given, d.given), "parents in order")
	exactData(v.Factor.Table, table, "table values in order")
}

// exactData wants the numbers to be the same, not only close.
func exactData(a, b []float64, label string) {
	vh.Assert(len(a) == len(b), label+": length")
	if len(a) != len(b) {
		return
	}
	for i := range a {
		vh.Assert(a[i] == b[i], label)
	}
}

func flatRows(rows [][]float64) []float64 {
	var out []float64
	for _, r := range rows {
		out = append(out, r...)
	}
	return out
}

func symRows(label string, rows, cols int) [][]float64 {
	out := make([][]float64, rows)
	for i := range out {
		out[i] = realTable(label, cols)
	}
	return out
}

// YamlLoad: chance, decision and utility nodes with all attributes.
func YamlLoad() {
	pos := []int{vh.Int("x", -1<<62, 1<<62), vh.Int("y", -1<<62, 1<<62)}
	na := 1 + vh.Choose("na", 3)
	nb := 1 + vh.Choose("nb", 3)
	a := dvar{name: "rain", outs: outNames(na), pos: pos, color: "red", rows: symRows("a", 1, na)}
	if vh.Choose("plain", 2) == 1 {
		a.pos, a.color = nil, ""
	}
	a.typ = []string{"", "nature"}[vh.Choose("type", 2)]
	b := dvar{name: "decide", typ: "decision", outs: []string{"stay", "go"}, given: []string{"rain"}, pos: []int{3, 4}}
	c := dvar{name: "wet", outs: outNames(nb), given: []string{"rain", "decide"}, rows: symRows("c", na*2, nb), color: "blue"}
	if vh.Choose("order", 2) == 1 {
		c.given = []string{"decide", "rain"}
	}
	u := dvar{name: "cost", typ: "utility", outs: []string{"cost"}, given: []string{"wet"}, rows: symRows("u", nb, 1)}
	w := dvar{name: "pain", typ: "utility", outs: []string{"pain"}, given: []string{"decide"}, rows: symRows("w", 2, 1)}
	t := dvar{name: "total", typ: "utility", outs: []string{"c", "p"}, given: []string{"cost", "pain"}, rows: symRows("t", 1, 2), color: "green"}
	vars := []dvar{a, b, c, u, w, t}
	p := permSome(len(vars), vh.Choose("declaration", 3))
	ordered := make([]dvar, len(vars))
	for i, k := range p {
		ordered[i] = vars[k]
	}
	info := []string{"", "a text"}[vh.Choose("info", 2)]
	doc := yamlDoc("my net", info, ordered, vh.Choose("fields", 2) == 1)
	net, err := bbn.FromYAML([]byte(doc))
	noErr(err, "a valid document loads")
	vh.Assert(net.Name() == "my net", "network name")
	vh.Assert(net.Info() == info, "network description")
	got := net.Variables()
	vh.Assert(len(got) == len(vars), "number of variables")
	if len(got) != len(vars) {
		return
	}
	total := -1
	for i, d := range ordered {
		checkVar(got[i], d, flatRows(d.rows))
		if d.name == "total" {
			total = i
		}
	}
	vh.Assert(net.TotalUtilityIndex() == total, "total-utility node")
	vh.Reach("end")
}

// logicCase is a use of a logic operator in a document.
type logicCase struct {
	name  string
	args  []string
	arity []int // numbers of parents
	cols  func(n int) int
	make  func(args []int) logic.Factor
	sizes int // outcomes of the parents
}

func twoCols(int) int { return 2 }

func logicCases() []logicCase {
	var out []logicCase
	for _, o := range lops() {
		mk := o.make
		out = append(out, logicCase{o.name, nil, []int{o.arity}, twoCols, func([]int) logic.Factor { return mk() }, 2})
	}
	out = append(out,
		logicCase{"count-true", nil, []int{0, 1, 3}, func(n int) int { return n + 1 }, func([]int) logic.Factor { return logic.CountTrue() }, 2},
		logicCase{"count-false", nil, []int{2, 3}, func(n int) int { return n + 1 }, func([]int) logic.Factor { return logic.CountFalse() }, 2},
		logicCase{"bits", nil, []int{1, 2}, func(n int) int { return 1 << n }, func([]int) logic.Factor { return logic.Bits() }, 2},
		logicCase{"count-is", []string{"1"}, []int{2, 3}, twoCols, func(a []int) logic.Factor { return logic.CountIs(a[0]) }, 2},
		logicCase{"count-less", []string{"2"}, []int{3}, twoCols, func(a []int) logic.Factor { return logic.CountLess(a[0]) }, 2},
		logicCase{"count-greater", []string{"-1"}, []int{1, 3}, twoCols, func(a []int) logic.Factor { return logic.CountGreater(a[0]) }, 2},
		logicCase{"given", []string{"0"}, []int{2, 3}, twoCols, func(a []int) logic.Factor { return logic.Given(a[0]) }, 2},
		logicCase{"given-not", []string{"1"}, []int{2, 3}, twoCols, func(a []int) logic.Factor { return logic.GivenNot(a[0]) }, 2},
		logicCase{"given-excl", []string{"2"}, []int{3}, twoCols, func(a []int) logic.Factor { return logic.GivenExcl(a[0]) }, 2},
		logicCase{"outcome-is", []string{"2", "3"}, []int{1}, twoCols, func(a []int) logic.Factor { return logic.OutcomeIs(a[0], a[1]) }, 3},
		logicCase{"outcome-is-not", []string{"0", "3"}, []int{1}, twoCols, func(a []int) logic.Factor { return logic.OutcomeIsNot(a[0], a[1]) }, 3},
		logicCase{"outcome-less", []string{"1", "3"}, []int{1}, twoCols, func(a []int) logic.Factor { return logic.OutcomeLess(a[0], a[1]) }, 3},
		logicCase{"outcome-greater", []string{"2", "3"}, []int{1}, twoCols, func(a []int) logic.Factor { return logic.OutcomeGreater(a[0], a[1]) }, 3},
		logicCase{"outcome-either", []string{"0", "2", "3"}, []int{1}, twoCols, func(a []int) logic.Factor { return logic.OutcomeEither(a[:len(a)-1], a[len(a)-1]) }, 3},
	)
	return out
}

func (c logicCase) ints() []int {
	out := make([]int, len(c.args))
	for i, s := range c.args {
		switch s {
		case "-1":
			out[i] = -1
		default:
			out[i] = int(s[0] - '0')
		}
	}
	return out
}

func parentNames(n int) []string { return []string{"p0", "p1", "p2", "p3"}[:n] }

func parentVars(n, sz int) []dvar {
	out := make([]dvar, n)
	for i, p := range parentNames(n) {
		out[i] = dvar{name: p, outs: outNames(sz), rows: symRows("p", 1, sz)}
	}
	return out
}

// YamlLogic: every operator with its arguments, between other nodes.
func YamlLogic() {
	cs := logicCases()
	c := cs[vh.Choose("op", len(cs))]
	n := c.arity[vh.Choose("parents", len(c.arity))]
	name := c.name
	if vh.Choose("case", 2) == 1 {
		name = strings.ToUpper(name)
	}
	text := strings.Join(append([]string{name}, c.args...), " ")
	if len(c.args) > 0 && vh.Choose("symbolic", 2) == 1 {
		// the first argument of a comparison with a count can be any integer
		if strings.HasPrefix(c.name, "count") {
			x := vh.Int("arg", -4, 4)
			text = name + " " + vh.IntText(x)
			want, err := c.make([]int{x}).Table(n)
			noErr(err, "reference table")
			loadLogic(c, n, text, want)
			return
		}
	}
	want, err := c.make(c.ints()).Table(n)
	noErr(err, "reference table")
	loadLogic(c, n, text, want)
}

func loadLogic(c logicCase, n int, text string, want []float64) {
	vars := parentVars(n, c.sizes)
	x := dvar{name: "x", given: parentNames(n), outs: outNames(c.cols(n)), logic: text, pos: []int{1, 2}}
	if vh.Choose("first", 2) == 0 {
		vars = append(vars, x)
	} else {
		vars = append([]dvar{x}, vars...)
	}
	net, err := bbn.FromYAML([]byte(yamlDoc("n", "", vars, false)))
	noErr(err, "a logic node loads")
	got := net.Variables()
	for i, d := range vars {
		t := flatRows(d.rows)
		if d.name == "x" {
			t = want
		}
		checkVar(got[i], d, t)
	}
	vh.Reach("end")
}

// YamlLogicMix: two nodes with the same or different operators in one document.
func YamlLogicMix() {
	texts := []string{"given 0", "given 1", "count-is 0", "count-is 2", "outcome-either 0 1 2", "outcome-either 1 2", "and", "or", "if-then"}
	par := []int{2, 2, 2, 2, 1, 1, 2, 2, 1}
	mk := []logic.Factor{logic.Given(0), logic.Given(1), logic.CountIs(0), logic.CountIs(2), logic.OutcomeEither([]int{0, 1}, 2), logic.OutcomeEither([]int{1}, 2), logic.And(), logic.Or(), logic.IfThen()}
	vars := parentVars(2, 2)
	var wants [][]float64
	for i := 0; i < 2; i++ {
		k := vh.Choose("op", len(texts))
		w, err := mk[k].Table(par[k])
		noErr(err, "reference table")
		wants = append(wants, w)
		vars = append(vars, dvar{name: []string{"x", "y"}[i], given: parentNames(par[k]), outs: outNames(2), logic: texts[k]})
	}
	net, err := bbn.FromYAML([]byte(yamlDoc("n", "", vars, false)))
	noErr(err, "logic nodes load")
	got := net.Variables()
	for i, d := range vars {
		t := flatRows(d.rows)
		if i >= 2 {
			t = wants[i-2]
		}
		checkVar(got[i], d, t)
	}
	vh.Reach("end")
}

// YamlReject: documents that must not load.
func YamlReject() {
	vars := parentVars(2, 2)
	x := dvar{name: "x", given: parentNames(2), outs: outNames(2), rows: symRows("x", 4, 2)}
	k := vh.Choose("fault", 40)
	extra := ""
	switch k {
	case 0:
		x.typ = "chance"
	case 1:
		x.typ = "Decision"
	case 2:
		x.typ = "nature2"
	case 3: // both table and logic
		x.logic = "and"
	case 4:
		x.rows, x.logic = nil, "nand"
	case 5:
		x.rows, x.logic = nil, "and 1"
	case 6:
		x.rows, x.logic = nil, "not"
	case 7:
		x.rows, x.logic = nil, "given"
	case 8:
		x.rows, x.logic = nil, "given 2"
	case 9:
		x.rows, x.logic = nil, "given -1"
	case 10:
		x.rows, x.logic = nil, "given x"
	case 11:
		x.rows, x.logic = nil, "count-is 1 2"
	case 12:
		x.rows, x.logic = nil, "outcome-is 1 2"
	case 13:
		x.given = parentNames(1)
		x.rows, x.logic = nil, "outcome-is 2 2"
	case 14:
		x.given = parentNames(1)
		x.rows, x.logic = nil, "outcome-either 2"
	case 15:
		x.given = []string{"p0", "nobody"}
	case 16:
		x.name = "p0"
	case 17:
		extra = "surplus: 1\n"
	case 18:
		x.rows, x.logic = nil, "given 0.5"
	case 19:
		x.rows, x.logic = nil, "count-is one"
	case 20:
		x.typ = "utility2"
	case 21: // both, with a single row
		x.given, x.rows, x.logic = nil, symRows("x", 1, 2), "count-true"
	case 22:
		x.given, x.rows, x.logic = nil, symRows("x", 1, 2), "and"
	case 23:
		x.rows, x.logic = symRows("x", 1, 1), "or"
	case 24:
		x.rows, x.logic = nil, "count-is 0x1"
	case 25:
		x.rows, x.logic = nil, "given 1_0"
	case 26:
		x.rows, x.logic = nil, "count-is 1.0"
	case 27:
		x.rows, x.logic = nil, "count-is 99999999999999999999"
	case 28:
		x.rows, x.logic = nil, "given 0 1"
	case 29:
		x.rows, x.logic = nil, "bits 2"
	case 30:
		x.given = parentNames(1)
		x.rows, x.logic = nil, "outcome-is 1 x"
	case 31:
		x.given = parentNames(1)
		x.rows, x.logic = nil, "outcome-either 0 x 2"
	case 32:
		x.given = parentNames(1)
		x.rows, x.logic = nil, "outcome-either 0 1 2,"
	case 33: // both, the table's first row empty
		x.rows, x.logic = [][]float64{{}, {1, 2}}, "and"
	case 34: // both, the table's only row empty
		x.rows, x.logic = [][]float64{{}}, "and"
	case 35:
		x.given = parentNames(1)
		x.rows, x.logic = nil, "outcome-less 1 1.5"
	case 36:
		x.given = parentNames(1)
		x.rows, x.logic = nil, "outcome-is 0 2 0"
	case 37: // both, in a utility
		x.typ, x.outs = "utility", outNames(1)
		x.rows, x.logic = symRows("x", 4, 1), "and"
	case 38: // both, in a decision
		x.typ, x.logic = "decision", "or"
	case 39: // both, with fewer rows than parents' combinations
		x.rows, x.logic = symRows("x", 2, 2), "xor"
	}
	at := vh.Choose("at", 3)
	vars = append(vars[:at:at], append([]dvar{x}, vars[at:]...)...)
	_, err := bbn.FromYAML([]byte(yamlDoc("n", "", vars, false) + extra))
	vh.Assert(err != nil, "the document is rejected")
	vh.Reach("end")
}

// YamlRagged: rows of any length are concatenated in order.
func YamlRagged() {
	n := 1 + vh.Choose("rows", 4)
	rows := make([][]float64, n)
	for i := range rows {
		rows[i] = realTable("t", vh.Choose("length", 4))
	}
	vars := []dvar{{name: "a", outs: outNames(2), rows: rows}}
	net, err := bbn.FromYAML([]byte(yamlDoc("n", "", vars, false)))
	noErr(err, "the document loads")
	checkVar(net.Variables()[0], vars[0], flatRows(rows))
	vh.Reach("end")
}

// ---- round trip

func checkSame(a, b *bbn.Network) {
	vh.Assert(a.Name() == b.Name(), "same name")
	vh.Assert(a.Info() == b.Info(), "same description")
	va, vb := a.Variables(), b.Variables()
	vh.Assert(len(va) == len(vb), "same number of variables")
	if len(va) != len(vb) {
		vh.Stop()
	}
	for i := range va {
		x, y := va[i], vb[i]
		vh.Assert(x.Name == y.Name, "same variable name")
		vh.Assert(x.NodeType == y.NodeType, "same type")
		vh.Assert(same(x.Outcomes, y.Outcomes), "same outcomes")
		vh.Assert(vh.And(x.Position[0] == y.Position[0], x.Position[1] == y.Position[1]), "same position")
		vh.Assert(x.Color == y.Color, "same colour")
		var gx, gy []string
		var tx, ty []float64
		if x.Factor != nil {
			gx, tx = x.Factor.Given, x.Factor.Table
		}
		if y.Factor != nil {
			gy, ty = y.Factor.Given, y.Factor.Table
		}
		vh.Assert(same(gx, gy), "same parents")
		exactData(tx, ty, "same table")
	}
	vh.Assert(a.TotalUtilityIndex() == b.TotalUtilityIndex(), "same total-utility node")
}

func roundTrip(net *bbn.Network) {
	text, err := bbn.ToYAML(net)
	noErr(err, "saving")
	back, err := bbn.FromYAML(text)
	noErr(err, "loading what was saved")
	checkSame(net, back)
	again, err := bbn.ToYAML(back)
	noErr(err, "saving again")
	vh.Assert(string(again) == string(text), "saving again gives the same text")
	vh.Reach("end")
}

// YamlRoundTrip: chance and decision nodes with arbitrary attributes and table values.
func YamlRoundTrip() {
	na := 1 + vh.Choose("na", 3)
	nb := 1 + vh.Choose("nb", 3)
	pos := [2]int{vh.Int("x", -1<<62, 1<<62), vh.Int("y", -1<<62, 1<<62)}
	vars := []bbn.Variable{
		{Name: "a", Outcomes: outNames(na), Position: pos, Color: []string{"", "red", "#ff0000"}[vh.Choose("color", 3)]},
		{Name: "d", NodeType: ve.DecisionNode, Outcomes: []string{"p", "q"}, Color: "blue"},
		{Name: "b", Outcomes: outNames(nb), Position: [2]int{5, 0}},
	}
	facs := []bbn.Factor{
		{For: "a", Table: realTable("a", na)},
		{For: "d", Given: []string{"a"}},
		{For: "b", Given: []string{"d", "a"}, Table: realTable("b", 2*na*nb)},
	}
	if vh.Choose("noParents", 2) == 1 {
		facs[1].Given = nil
	}
	if vh.Choose("noTable", 2) == 1 {
		// a decision does not need a table entry at all
		facs = append(facs[:1:1], facs[2:]...)
	}
	p := permSome(3, vh.Choose("order", 3))
	ordered := make([]bbn.Variable, 3)
	for i, k := range p {
		ordered[i] = vars[k]
	}
	net, err := bbn.New("net", []string{"", "some text"}[vh.Choose("info", 2)], ordered, facs)
	noErr(err, "building")
	roundTrip(net)
}

// YamlRoundTripUtility: utility and weighting nodes, after policies were solved.
func YamlRoundTripUtility() {
	w := vh.Choose("total", 2)
	vars := []bbn.Variable{
		{Name: "u", NodeType: ve.UtilityNode, Outcomes: []string{"u"}, Position: [2]int{1, 2}, Color: "red"},
		{Name: "d", NodeType: ve.DecisionNode, Outcomes: []string{"p", "q"}},
		{Name: "a", Outcomes: []string{"x", "y"}, Color: "navy"},
		{Name: "w", NodeType: ve.UtilityNode, Outcomes: []string{"w"}},
	}
	facs := []bbn.Factor{
		{For: "a", Given: []string{"d"}, Table: []float64{0.25, 0.75, 0.5, 0.5}},
		{For: "d"},
		{For: "u", Given: []string{"a", "d"}, Table: realTable("u", 4)},
		{For: "w", Given: []string{"a"}, Table: realTable("w", 2)},
	}
	if w == 1 {
		vars = append(vars, bbn.Variable{Name: "t", NodeType: ve.UtilityNode, Outcomes: []string{"k", "l"}, Position: [2]int{9, 9}})
		facs = append(facs, bbn.Factor{For: "t", Given: []string{"w", "u"}, Table: realTable("t", 2)})
	}
	net, err := bbn.New("net", "about", vars, facs)
	noErr(err, "building")
	if vh.Choose("solved", 2) == 1 {
		_, err := net.SolvePolicies(true)
		noErr(err, "policies")
	}
	roundTrip(net)
}

// YamlRoundTripNames: texts that need care in YAML.
func YamlRoundTripNames() {
	texts := []string{"", "yes", "no", "true", "null", "~", "1", "1.5", "1e3", "0x10", "a b", " lead", "trail ", "a: b", "a #b", "- a", "[a]", "{a}", "'q'", "\"q\"", "a,b", "é ü", "a\nb", "line\n", "\ttab", "#", "&a", "*a", "!t", "|", ">", "%", "@", "`", ":", "-", "?", "a:", "2001-01-01", ".inf", "=", "<<", "\\", "on", "off", "y", "n"}
	s := texts[vh.Choose("text", len(texts))]
	name, info, v, o, o2, col := "net", "info", "a", "x", "y", "red"
	switch vh.Choose("where", 5) {
	case 0:
		name = s
	case 1:
		info = s
	case 2:
		v = s
	case 3:
		o = s
		if s == "y" {
			o2 = "z"
		}
	case 4:
		col = s
	}
	vars := []bbn.Variable{
		{Name: v, Outcomes: []string{o, o2}, Color: col},
		{Name: "other", Outcomes: []string{"k"}},
	}
	facs := []bbn.Factor{{For: v, Table: realTable("a", 2)}, {For: "other", Given: []string{v}, Table: realTable("b", 2)}}
	net, err := bbn.New(name, info, vars, facs)
	noErr(err, "building")
	roundTrip(net)
}

// YamlRoundTripLogic: loaded logic nodes keep their tables.
func YamlRoundTripLogic() {
	cs := logicCases()
	c := cs[vh.Choose("op", len(cs))]
	n := c.arity[len(c.arity)-1]
	vars := parentVars(n, c.sizes)
	vars = append(vars, dvar{name: "x", given: parentNames(n), outs: outNames(c.cols(n)), logic: strings.Join(append([]string{c.name}, c.args...), " "), color: "red"})
	net, err := bbn.FromYAML([]byte(yamlDoc("n", "with info", vars, false)))
	noErr(err, "a logic node loads")
	roundTrip(net)
}

// YamlTrained: a trained network survives saving.
func YamlTrained() {
	vars := []bbn.Variable{
		{Name: "a", Outcomes: []string{"x", "y"}, Color: "red"},
		{Name: "b", Outcomes: []string{"x", "y", "z"}, Position: [2]int{1, 2}},
	}
	facs := []bbn.Factor{{For: "a", Table: []float64{1, 1}}, {For: "b", Given: []string{"a"}, Table: make([]float64, 6)}}
	net, err := bbn.New("net", "info", vars, facs)
	noErr(err, "building")
	tr := bbn.NewTrainer(net)
	for i := 0; i < 4; i++ {
		a := i % 2
		tr.AddSample([]int{a, vh.Choose("sample", 3)}, []float64{0, 0})
	}
	net2, err := tr.UpdateNetwork()
	noErr(err, "training")
	roundTrip(net2)
}

// ---- BIF XML

func xmlVar(v dvar, prop []string) string {
	b := "<VARIABLE"
	if v.typ != "-" {
		b += " TYPE=\"" + v.typ + "\""
	}
	b += "><NAME>" + v.name + "</NAME>\n"
	for _, o := range v.outs {
		b += "<OUTCOME>" + o + "</OUTCOME>"
	}
	for _, p := range prop {
		b += "<PROPERTY>" + p + "</PROPERTY>\n"
	}
	return b + "</VARIABLE>\n"
}

func xmlDef(v dvar, values []string) string { return xmlDefSep(v, values, " ") }

// xmlDefSep separates the values of the table by the given white space.
func xmlDefSep(v dvar, values []string, sep string) string {
	b := "<DEFINITION>\n<FOR>" + v.name + "</FOR>\n"
	for _, g := range v.given {
		b += " <GIVEN>" + g + "</GIVEN>\n"
	}
	if len(values) > 0 {
		lead := sep
		if sep == " " {
			lead = ""
		}
		b += "<TABLE>" + lead + strings.Join(values, sep) + " </TABLE>\n"
	}
	return b + "</DEFINITION>\n"
}

func texts(xs []float64) []string {
	out := make([]string, len(xs))
	for i, x := range xs {
		out[i] = vh.FloatText(x)
	}
	return out
}

func xmlDoc(body string) []byte {
	return []byte("<?xml version=\"1.0\"?>\n<!-- c -->\n<BIF VERSION=\"0.3\">\n<NETWORK>\n<NAME>my net</NAME>\n" + body + "</NETWORK>\n</BIF>\n")
}

// XmlLoad: variables and definitions in any order.
func XmlLoad() {
	na := 1 + vh.Choose("na", 3)
	nb := 1 + vh.Choose("nb", 3)
	x, y := vh.Int("x", -1<<62, 1<<62), vh.Int("y", -1<<62, 1<<62)
	a := dvar{name: "rain", typ: "nature", outs: outNames(na)}
	ta := realTable("a", na)
	d := dvar{name: "decide", typ: "decision", outs: []string{"stay", "go"}, given: []string{"rain"}}
	c := dvar{name: "wet", typ: []string{"nature", "", "-"}[vh.Choose("type", 3)], outs: outNames(nb), given: []string{"rain", "decide"}}
	if vh.Choose("given", 2) == 1 {
		c.given = []string{"decide", "rain"}
	}
	tc := realTable("c", na*2*nb)
	u := dvar{name: "cost", typ: "utility", outs: []string{"cost"}, given: []string{"wet"}}
	tu := realTable("u", nb)
	posText := "position = (" + vh.IntText(x) + ", " + vh.IntText(y) + ")"
	props := [][]string{{posText}, {"colour = red", posText}, {}, {posText}}
	vars := []dvar{a, d, c, u}
	tabs := [][]float64{ta, nil, tc, tu}
	sep := []string{" ", "\n", "\t", "\r\n\t ", "  "}[vh.Choose("space", 5)]
	vp := permSome(4, vh.Choose("variables", 3))
	dp := permSome(4, vh.Choose("definitions", 3))
	body := ""
	if vh.Choose("definitionsFirst", 2) == 1 {
		for _, i := range dp {
			body += xmlDefSep(vars[i], texts(tabs[i]), sep)
		}
		for _, i := range vp {
			body += xmlVar(vars[i], props[i])
		}
	} else {
		for _, i := range vp {
			body += xmlVar(vars[i], props[i])
		}
		for _, i := range dp {
			body += xmlDefSep(vars[i], texts(tabs[i]), sep)
		}
	}
	net, err := bbn.FromBIFXML(xmlDoc(body))
	noErr(err, "a valid document loads")
	vh.Assert(net.Name() == "my net", "network name")
	got := net.Variables()
	vh.Assert(len(got) == 4, "number of variables")
	for k, i := range vp {
		d := vars[i]
		d.pos = []int{x / 2, y / 12}
		if len(props[i]) == 0 {
			d.pos = nil
		}
		checkVar(got[k], d, tabs[i])
	}
	vh.Reach("end")
}

// XmlReject: documents that must not load, and must not crash.
func XmlReject() {
	a := dvar{name: "rain", typ: "nature", outs: outNames(2)}
	b := dvar{name: "wet", typ: "nature", outs: outNames(3), given: []string{"rain"}}
	ta, tb := texts(realTable("a", 2)), texts(realTable("b", 6))
	var props []string
	noDefA, noDefB := false, false
	k := vh.Choose("fault", 28)
	switch k {
	case 16:
		tb[2] = "0.5,"
	case 17:
		tb[0] = "0.5;"
	case 18:
		tb[5] = "--1"
	case 19:
		ta[0] = "1/2"
	case 20:
		ta[0] = "50%"
	case 21:
		ta[1] = "1e"
	case 22:
		b.typ = "Nature"
	case 23:
		b.typ = "chance node"
	case 24:
		props = []string{"position = (1; 2)"}
	case 25:
		props = []string{"colour = red", "position = ()"}
	case 26:
		props = []string{"position = (99999999999999999999, 2)"}
	case 27:
		tb = tb[:4]
	case 0:
		noDefA = true
	case 1:
		noDefB = true
	case 2:
		b.typ = "chance"
	case 3:
		tb = tb[:5]
	case 4:
		tb = append(tb, "0.5")
	case 5:
		tb[3] = "x"
	case 6:
		ta[1] = "1,5"
	case 7:
		props = []string{"position = (1)"}
	case 8:
		props = []string{"position = (1, 2, 3)"}
	case 9:
		props = []string{"position = (a, 2)"}
	case 10:
		props = []string{"position = (1, b)"}
	case 11:
		props = []string{"position = (1.5, 2)"}
	case 12:
		b.given = []string{"nobody"}
	case 13:
		b.name = "rain"
	case 14:
		props = []string{"position ="}
	case 15:
		tb = tb[:1]
	}
	body := xmlVar(a, nil) + xmlVar(b, props)
	if vh.Choose("swap", 2) == 1 {
		body = xmlVar(b, props) + xmlVar(a, nil)
	}
	if !noDefA {
		body += xmlDef(a, ta)
	}
	if !noDefB {
		body += xmlDef(b, tb)
	}
	_, err := bbn.FromBIFXML(xmlDoc(body))
	vh.Assert(err != nil, "the document is rejected")
	vh.Reach("end")
}

// XmlPosition: spellings of the position.
func XmlPosition() {
	x, y := vh.Int("x", 0, 1<<40), vh.Int("y", 0, 1<<40)
	tx, ty := vh.IntText(x), vh.IntText(y)
	forms := []string{"position = (" + tx + "," + ty + ")", "position=(" + tx + ", " + ty + ")", " position  =  ( " + tx + " , " + ty + " ) ", "position = " + tx + ", " + ty}
	form := vh.Choose("form", len(forms)+2)
	if form >= len(forms) {
		x, y = []int{-4, 9}[form-len(forms)], -25
		forms = append(forms, "position = (-4, -25)", "position = ((+9, -25))")
	}
	props := []string{forms[form]}
	others := []string{"note", "position of the sun", "a = b = c", "colour = (1, 2)", "xposition = (7, 99)", "positions = (7, 99)", "old position = (7, 99)", "label = position", "Note = (position, 3)", "size = 3"}
	other := others[vh.Choose("other", len(others))]
	switch vh.Choose("where", 3) {
	case 1:
		props = append(props, other)
	case 2:
		props = append([]string{other}, props...)
	}
	a := dvar{name: "rain", typ: "nature", outs: outNames(2)}
	net, err := bbn.FromBIFXML(xmlDoc(xmlVar(a, props) + xmlDef(a, texts(realTable("a", 2)))))
	noErr(err, "the document loads")
	v := net.Variables()[0]
	vh.Assert(vh.And(v.Position[0] == x/2, v.Position[1] == y/12), "position in terminal cells")
	vh.Reach("end")
}

// FileLoad: the format follows the file name.
func FileLoad() {
	t := realTable("a", 2)
	a := dvar{name: "rain", outs: outNames(2), rows: [][]float64{t}}
	y := yamlDoc("my net", "", []dvar{a}, false)
	x := string(xmlDoc(xmlVar(a, nil) + xmlDef(a, texts(t))))
	files := []string{"a.yml", "a.YML", "a.xml", "a.bifxml", "a.XML", "a.BifXml"}
	k := vh.Choose("file", len(files)+3)
	if k >= len(files) {
		names := []string{"a.txt", "a", "yml"}
		p := vh.WriteFile(names[k-len(files)], y)
		_, err := bbn.FromFile(p)
		vh.Assert(err != nil, "unknown formats are rejected")
		return
	}
	content := y
	if k >= 2 {
		content = x
	}
	net, err := bbn.FromFile(vh.WriteFile(files[k], content))
	noErr(err, "the file loads")
	checkVar(net.Variables()[0], a, t)
	_, err = bbn.FromFile(vh.Path("missing.yml"))
	vh.Assert(err != nil, "a missing file is reported")
	vh.Reach("end")
}

// numberTexts are spellings of numbers with their values.
var numberTexts = []string{"0.1", "1e-9", "1E3", "-0.25", "123456789.125", "1e300", "0.30000000000000004", "3", "1.0e-300", "16777217", "+2.5", "007", "1e15", "2.5e-310", "0.3333333333333333"}
var numberValues = []float64{0.1, 1e-9, 1e3, -0.25, 123456789.125, 1e300, 0.30000000000000004, 3, 1.0e-300, 16777217, 2.5, 7, 1e15, 2.5e-310, 0.3333333333333333}

// YamlNumbers: spellings of numbers, alone or in a longer table; the loaded network is saved and loaded again.
func YamlNumbers() {
	k := vh.Choose("number", len(numberTexts))
	if numberTexts[k] == "007" { // octal in YAML 1.1, decimal in JSON
		return
	}
	at := vh.Choose("at", 3)
	row := []string{"0.5", "0.25", "1"}
	want := []float64{0.5, 0.25, 1}
	row[at], want[at] = numberTexts[k], numberValues[k]
	doc := "name: n\nvariables:\n- variable: a\n  outcomes: [x, y, z]\n  position: [12, 7]\n  table: [[" + strings.Join(row, ", ") + "]]\n- variable: b\n  given: [a]\n  outcomes: [k]\n  table:\n  - [" + strings.Join(row, "]\n  - [") + "]\n"
	net, err := bbn.FromYAML([]byte(doc))
	noErr(err, "the document loads")
	v := net.Variables()
	exactData(v[0].Factor.Table, want, "numbers as written")
	exactData(v[1].Factor.Table, want, "numbers as written, one per row")
	vh.Assert(v[0].Position == [2]int{12, 7}, "position as written")
	roundTrip(net)
}

// YamlUnknown: names that resemble those of operators and node types.
func YamlUnknown() {
	ops := []string{"nand", "nor", "xnor", "iff", "and_not", "not_and", "not-", "-not", "andnot", "notand", "and-and", "ifthen", "if then", "if-then-else", "count", "counttrue", "count_true", "count-true-", "bit", "givens", "given-only", "given_not", "outcome", "outcome-", "outcomeis", "equal", "not-equals", "equals-", "bi-cond", "conditional", "or-or", "not-xor", "true", "false", "&", "||", "!", "and,", "and;", "and\\t", "And!", "nott", "o", "an"}
	x := dvar{name: "x", given: parentNames(2), outs: outNames(2)}
	n := vh.Choose("name", len(ops)+8)
	if n < len(ops) {
		x.logic = ops[n]
		switch c := vh.Choose("parents", 3); c {
		case 0:
			x.given = parentNames(1)
		case 1:
			x.logic += " 1"
		}
	} else {
		x.rows = symRows("x", 4, 2)
		x.typ = []string{"Nature", "NATURE", "nature_", "chance", "utilities", "decisions", "Utility", "node"}[n-len(ops)]
	}
	_, err := bbn.FromYAML([]byte(yamlDoc("n", "", append(parentVars(2, 2), x), false)))
	vh.Assert(err != nil, "the document is rejected")
	vh.Reach("end")
}

// YamlRoundTripLarge: tables with many rows and columns, many variables.
func YamlRoundTripLarge() {
	var vars []bbn.Variable
	var facs []bbn.Factor
	switch vh.Choose("kind", 5) {
	case 4: // very many rows
		var given []string
		size := 1
		for i := 0; i < 3; i++ {
			p := "p" + vh.IntText(i)
			given = append(given, p)
			k := 7 + i
			size *= k
			vars = append(vars, bbn.Variable{Name: p, Outcomes: outNames(k)})
			facs = append(facs, bbn.Factor{For: p, Table: realTable(p, k)})
		}
		tp := []ve.NodeType{ve.ChanceNode, ve.UtilityNode}[vh.Choose("type", 2)]
		o := outNames(2)
		if tp == ve.UtilityNode {
			o = outNames(1)
		}
		vars = append(vars, bbn.Variable{Name: "x", NodeType: tp, Outcomes: o})
		facs = append(facs, bbn.Factor{For: "x", Given: given, Table: realTable("x", size*len(o))})
	case 0: // six parents
		var given []string
		for i := 0; i < 6; i++ {
			p := "p" + vh.IntText(i)
			given = append(given, p)
			vars = append(vars, bbn.Variable{Name: p, Outcomes: outNames(2), Position: [2]int{i, 2 * i}})
			facs = append(facs, bbn.Factor{For: p, Table: realTable(p, 2)})
		}
		vars = append(vars, bbn.Variable{Name: "x", Outcomes: outNames(2)})
		facs = append(facs, bbn.Factor{For: "x", Given: given, Table: realTable("x", 128)})
	case 1: // many outcomes
		vars = []bbn.Variable{{Name: "a", Outcomes: outNames(40)}, {Name: "b", Outcomes: outNames(3)}, {Name: "u", NodeType: ve.UtilityNode, Outcomes: []string{"u"}}}
		facs = []bbn.Factor{{For: "a", Table: realTable("a", 40)}, {For: "b", Given: []string{"a"}, Table: realTable("b", 120)}, {For: "u", Given: []string{"a", "b"}, Table: realTable("u", 120)}}
	case 2: // many variables
		for i := 0; i < 30; i++ {
			p := "p" + vh.IntText(i)
			v := bbn.Variable{Name: p, Outcomes: outNames(1 + i%3), Position: [2]int{-i, 1000 * i}}
			f := bbn.Factor{For: p, Table: realTable(p, 1+i%3)}
			if i%5 == 4 {
				v.NodeType = ve.DecisionNode
				f.Table = nil
				f.Given = []string{"p0", "p" + vh.IntText(i-1)}
			}
			vars = append(vars, v)
			facs = append([]bbn.Factor{f}, facs...)
		}
	case 3: // long texts
		long := strings.Repeat("a long name ", 20)
		vars = []bbn.Variable{{Name: long, Outcomes: []string{long + "x", long + "y"}, Color: "red"}, {Name: "b", Outcomes: []string{"x"}}}
		facs = []bbn.Factor{{For: long, Table: realTable("a", 2)}, {For: "b", Given: []string{long}, Table: realTable("b", 2)}}
	}
	net, err := bbn.New("net", strings.Repeat("a long text, with: marks # ", 12), vars, facs)
	noErr(err, "building")
	roundTrip(net)
}

// XmlNumbers: spellings of numbers in a table.
func XmlNumbers() {
	k := vh.Choose("number", len(numberTexts))
	at := vh.Choose("at", 3)
	row := []string{"0.5", "0.25", "1"}
	want := []float64{0.5, 0.25, 1}
	row[at], want[at] = numberTexts[k], numberValues[k]
	a := dvar{name: "a", typ: "nature", outs: outNames(3)}
	net, err := bbn.FromBIFXML(xmlDoc(xmlVar(a, nil) + xmlDef(a, row)))
	noErr(err, "the document loads")
	exactData(net.Variables()[0].Factor.Table, want, "numbers as written")
	vh.Reach("end")
}

// XmlNames: names and outcomes with spaces, signs and escapes, which are easily confused with each other.
func XmlNames() {
	sets := [][]string{{"a", "A"}, {"a b", "a  b"}, {"x", "x1"}, {"&lt;b&gt;", "b"}, {"R&amp;D", "R"}, {"é", "e"}, {" a", "a"}, {"a ", "a"}, {"1", "01"}, {"yes", "Yes"}, {"a=b", "a"}, {"position", "pos"}}
	plain := [][]string{{"a", "A"}, {"a b", "a  b"}, {"x", "x1"}, {"<b>", "b"}, {"R&D", "R"}, {"é", "e"}, {" a", "a"}, {"a ", "a"}, {"1", "01"}, {"yes", "Yes"}, {"a=b", "a"}, {"position", "pos"}}
	k := vh.Choose("names", len(sets))
	s, p := sets[k], plain[k]
	if vh.Choose("swap", 2) == 1 {
		s, p = []string{s[1], s[0]}, []string{p[1], p[0]}
	}
	ta, tb := realTable("a", 2), realTable("b", 6)
	a := dvar{name: s[0], typ: "nature", outs: []string{s[0], s[1]}}
	b := dvar{name: s[1], typ: "nature", outs: []string{"x", s[1], s[0]}, given: []string{s[0]}}
	wa := dvar{name: p[0], outs: []string{p[0], p[1]}}
	wb := dvar{name: p[1], outs: []string{"x", p[1], p[0]}, given: []string{p[0]}}
	body := xmlVar(a, nil) + xmlVar(b, nil)
	if vh.Choose("definitions", 2) == 1 {
		body += xmlDef(a, texts(ta)) + xmlDef(b, texts(tb))
	} else {
		body += xmlDef(b, texts(tb)) + xmlDef(a, texts(ta))
	}
	net, err := bbn.FromBIFXML(xmlDoc(body))
	noErr(err, "the document loads")
	v := net.Variables()
	vh.Assert(len(v) == 2, "number of variables")
	checkVar(v[0], wa, ta)
	checkVar(v[1], wb, tb)
	vh.Reach("end")
}
