package h

import (
	"math"
	"strings"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/tui"
	"github.com/mlange-42/bbn/internal/zzverif/vh"
)

func init() {
	for k, f := range map[string]func(){"TrainCSV": TrainCSV, "TrainCSVLabels": TrainCSVLabels, "TrainCSVReject": TrainCSVReject, "ParseEvidence": ParseEvidence} {
		All[k] = f
	}
}

// ---- training files

// someOf chooses an outcome or a missing value (as a text it cannot be symbolic).
func someOf(n int) int { return vh.Choose("value", n+1) - 1 }

// csvRow joins fields.
func csvRow(fields []string, delim string) string { return strings.Join(fields, delim) + "\n" }

// TrainCSV: columns in any order, further columns, missing values, any utilities.
func TrainCSV() {
	trainCSV(3, func(net *bbn.Network, file, missing, delim string) (*bbn.Network, error) {
		return tui.TrainNetwork(net, net.Variables(), file, missing, []rune(delim)[0])
	})
}

func trainCSV(layouts int, train func(net *bbn.Network, file, missing, delim string) (*bbn.Network, error)) {
	t := utilNet(vh.Choose("order", 2), false)
	net := t.build()
	missing := []string{"", "NA", "-", "-1"}[vh.Choose("noData", 4)]
	delim := []string{",", ";", "\t", "→"}[vh.Choose("delim", 4)]
	cols := [][]string{{"v", "extra", "d", "u", "a"}, {"a", "d", "u", "v"}, {"uu", "u", "ab", "a", "A", "v", "d2", "d", "z"}}[vh.Choose("columns", layouts)]
	labels := map[string][]string{"a": t.outs("a"), "d": t.outs("d")}
	text := csvRow(cols, delim)
	n := deep(5, 6)
	for i := 0; i < n; i++ {
		vals := map[string]int{"a": i / 2 % 2, "d": i % 2}
		u, v := vh.Real("u"), vh.Real("v")
		if i >= 4 {
			vals["a"], vals["d"] = someOf(2), someOf(2)
			if vh.Choose("missing", 2) == 1 {
				u = math.NaN()
			}
			if vh.Choose("missing", 2) == 1 {
				v = math.NaN()
			}
		}
		s, x := t.sampleOf(vals, u, v)
		t.add(s, x)
		var fields []string
		for _, c := range cols {
			switch c {
			case "a", "d":
				if vals[c] < 0 {
					fields = append(fields, missing)
				} else {
					fields = append(fields, labels[c][vals[c]])
				}
			case "u":
				fields = append(fields, numText(u, missing))
			case "v":
				fields = append(fields, numText(v, missing))
			default:
				fields = append(fields, "junk")
			}
		}
		text += csvRow(fields, delim)
	}
	file := vh.WriteFile("data.csv", text)
	net2, err := train(net, file, missing, delim)
	vh.Assert(t.check(net2, err), "every row has samples")
}

func numText(x float64, missing string) string {
	if math.IsNaN(x) {
		return missing
	}
	return vh.FloatText(x)
}

func (t *tnet) outs(name string) []string {
	for _, n := range t.nodes {
		if n.name == name {
			return n.outs
		}
	}
	return nil
}

// TrainCSVLabels: labels are matched as they are, also quoted and unusual ones.
func TrainCSVLabels() {
	labels := [][]string{{"yes", "no"}, {"Yes", "yes"}, {"1", "0"}, {"a b", "a"}, {"1", "1.0"}, {"x,y", "x"}, {" a", "a"}, {"#a", "a"}, {"a ", "a"}}[vh.Choose("labels", 9)]
	t := newTnet(tnode{name: "my node", outs: labels})
	net := t.build()
	text := "\"my node\"\n"
	n := deep(4, 6)
	for i := 0; i < n; i++ {
		k := someOf(2)
		t.add([]int{k}, nil)
		l := "NA"
		if k >= 0 {
			l = labels[k]
		}
		if strings.Contains(l, ",") || vh.Choose("quoted", 2) == 1 {
			l = "\"" + l + "\""
		}
		text += l + "\n"
	}
	net2, err := tui.TrainNetwork(net, net.Variables(), vh.WriteFile("data.csv", text), "NA", ',')
	t.check(net2, err)
}

// TrainCSVReject: what does not fit is reported.
func TrainCSVReject() {
	t := utilNet(vh.Choose("order", 2), false)
	net := t.build()
	header := "a,d,u,v\n"
	rows := []string{"o0,o0,1,2\n", "o0,o1,1,2\n", "o1,o0,1,2\n", "o1,o1,1,2\n"}
	o := outNames(2)
	for i := range rows {
		rows[i] = strings.ReplaceAll(strings.ReplaceAll(rows[i], "o0", o[0]), "o1", o[1])
	}
	bad := vh.Choose("line", len(rows)+1)
	noData := "NA"
	var line string
	write := true
	switch vh.Choose("fault", 19) {
	case 16:
		// not the marker
		noData = []string{"", "-", "NA "}[vh.Choose("marker", 3)]
		line = o[0] + "," + o[0] + "," + []string{"NA", "null", "na", "?", "1;5", "1 2"}[vh.Choose("value", 6)] + ",2\n"
	case 17:
		noData = []string{"", "-", "NA "}[vh.Choose("marker", 3)]
		line = []string{"NA", "na", "?", "null"}[vh.Choose("value", 4)] + "," + o[0] + ",1,2\n"
	case 18:
		// the marker is a later outcome
		t = newTnet(tnode{name: "a", outs: []string{o[0], o[1], "x", "y"}})
		net = t.build()
		noData = []string{"x", "y"}[vh.Choose("marker", 2)]
		rows = append(rows, "x,"+o[0]+",1,2\n", "y,"+o[0]+",1,2\n")
	case 0:
		line = "nobody," + o[0] + ",1,2\n"
	case 1:
		line = o[0] + ",nobody,1,2\n"
	case 2:
		line = o[0] + "," + o[0] + ",x,2\n"
	case 3:
		line = o[0] + "," + o[0] + ",1,\n"
	case 4:
		line = o[0] + "," + o[0] + ",1\n"
	case 5:
		line = o[0] + "," + o[0] + ",1,2,3\n"
	case 6:
		line = ",," + ",\n"
	case 7:
		line = strings.ToUpper(o[0]) + "x," + o[0] + ",1,2\n"
	case 8:
		header = "a,d,u,w\n"
	case 9:
		header = "a,D,u,v\n"
	case 10:
		noData = o[1]
	case 11:
		rows = rows[:3]
	case 12:
		write = false
	case 13:
		header, rows = "", nil
	case 14:
		// the marker is an outcome, though an empty one
		t = newTnet(tnode{name: "a", outs: []string{"", "x"}})
		net = t.build()
		noData = ""
		for i := range rows {
			rows[i] = strings.Replace(rows[i], o[i/2], []string{"", "x"}[i/2], 1)
		}
	case 15:
		// a column whose name just begins with the name of the variable
		header = "a,d,u,v2\n"
	}
	text := header
	for i := 0; i <= len(rows); i++ {
		if i == bad {
			text += line
		}
		if i < len(rows) {
			text += rows[i]
		}
	}
	file := vh.Path("data.csv")
	if write {
		file = vh.WriteFile("data.csv", text)
	}
	_, err := tui.TrainNetwork(net, net.Variables(), file, noData, ',')
	vh.Assert(err != nil, "the data is rejected")
	vh.Reach("end")
}

// ParseEvidence: any entries.
func ParseEvidence() {
	n := vh.Choose("entries", 3)
	entries := make([]string, n)
	for i := range entries {
		entries[i] = vh.Str("entry", vh.Choose("len", deep(7, 9)), 0, 255)
	}
	ev, err := tui.ParseEvidence(entries)
	valid := true
	for _, e := range entries {
		c := 0
		for i := 0; i < len(e); i++ {
			c += vh.Ite(e[i] == '=', 1, 0)
		}
		valid = vh.And(valid, c == 1)
	}
	if err != nil {
		vh.Assert(!valid, "well-formed entries are accepted")
		vh.Assert(ev == nil, "no evidence with an error")
		vh.Reach("rejected")
		return
	}
	vh.Assert(valid, "malformed entries are reported")
	want := map[string]string{}
	for _, e := range entries {
		at := 0
		for e[at] != '=' {
			at++
		}
		want[e[:at]] = e[at+1:]
	}
	vh.Assert(len(ev) == len(want), "one entry per name")
	for k, v := range want {
		got, ok := ev[k]
		vh.Assert(ok, "the name is there")
		vh.Assert(got == v, "with its value")
	}
	vh.Reach("accepted")
}
