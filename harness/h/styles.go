package h

import (
	"strings"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/zzverif/vh"
)

func init() {
	All["YamlStyles"] = YamlStyles
	All["XmlStyles"] = XmlStyles
}

// YamlStyles: one network written in different ways.
func YamlStyles() {
	x := realTable("x", 10)
	t := texts(x)
	join := func(i, j int) string { return strings.Join(t[i:j], ", ") }
	var doc string
	switch vh.Choose("style", 9) {
	case 0: // blocks only
		doc = "name: net\ninfo: |\n  two\n  lines\nvariables:\n  - variable: a\n    outcomes:\n      - \"y\"\n      - \"n\"\n    position:\n      - 3\n      - 4\n    table:\n      -\n        - " + t[0] + "\n        - " + t[1] + "\n" +
			"  - variable: b\n    color: red\n    given:\n      - a\n    outcomes:\n      - p\n      - q\n    table:\n      - - " + t[2] + "\n        - " + t[3] + "\n      - - " + t[4] + "\n        - " + t[5] + "\n" +
			"  - variable: d\n    type: decision\n    given: [b]\n    outcomes: [k, l]\n  - variable: u\n    type: utility\n    given: [a, d]\n    outcomes: [u]\n    table:\n      - - " + t[6] + "\n      - - " + t[7] + "\n      - - " + t[8] + "\n      - - " + t[9] + "\n"
	case 1: // flow only
		doc = "{name: net, info: \"two\\nlines\\n\", variables: [{variable: a, outcomes: [\"y\", 'n'], position: [3, 4], table: [[" + join(0, 2) + "]]}, {variable: b, color: red, given: [a], outcomes: [p, q], table: [[" + join(2, 4) + "], [" + join(4, 6) + "]]}, {variable: d, type: decision, given: [b], outcomes: [k, l]}, {variable: u, type: utility, given: [a, d], outcomes: [u], table: [[" + t[6] + "], [" + t[7] + "], [" + t[8] + "], [" + t[9] + "]]}]}"
	default:
		doc = "name: net\ninfo: \"two\\nlines\\n\"\nvariables:\n\n- variable: a\n  outcomes: [\"y\", \"n\"]\n  position: [3, 4]\n  table: [[" + join(0, 2) + "]]\n\n- variable: b\n  given: [a]\n  outcomes: [p, q]\n  color: red\n  table:\n  - [" + join(2, 4) + "]\n  - [" + join(4, 6) + "]\n\n- variable: d\n  type: decision\n  given: [b]\n  outcomes: [k, l]\n\n- variable: u\n  type: utility\n  given: [a, d]\n  outcomes: [u]\n  table:\n  - [" + t[6] + "]\n  - [" + t[7] + "]\n  - [" + t[8] + "]\n  - [" + t[9] + "]\n"
	}
	switch vh.Choose("variant", 9) {
	case 1:
		doc = strings.ReplaceAll(doc, "\n", "\r\n")
	case 2:
		doc = "# a comment\n---\n" + doc
	case 3:
		doc = strings.ReplaceAll(doc, "table:", "table :")
	case 4:
		doc = doc + "\n# the end\n...\n"
	case 5:
		doc = strings.Replace(doc, "given: [b]", "given: [ b ]  # only one", 1)
		if strings.HasPrefix(doc, "{") {
			vh.Stop()
		}
	case 6:
		doc = strings.TrimRight(doc, "\n")
	case 7:
		doc = "\ufeff" + doc
	case 8:
		doc = strings.ReplaceAll(doc, "outcomes: [p, q]", "outcomes: [\n    p,\n    q,\n    ]")
	}
	net, err := bbn.FromYAML([]byte(doc))
	noErr(err, "a valid document loads")
	vh.Assert(net.Name() == "net" && net.Info() == "two\nlines\n", "name and description")
	v := net.Variables()
	vh.Assert(len(v) == 4, "number of variables")
	checkVar(v[0], dvar{name: "a", outs: []string{"y", "n"}, pos: []int{3, 4}}, x[:2])
	checkVar(v[1], dvar{name: "b", outs: []string{"p", "q"}, given: []string{"a"}, color: "red"}, x[2:6])
	checkVar(v[2], dvar{name: "d", typ: "decision", outs: []string{"k", "l"}, given: []string{"b"}}, nil)
	checkVar(v[3], dvar{name: "u", typ: "utility", outs: []string{"u"}, given: []string{"a", "d"}}, x[6:])
	vh.Reach("end")
}

// XmlStyles: one network written in different ways.
func XmlStyles() {
	x := realTable("x", 8)
	t := texts(x)
	a := dvar{name: "a", typ: "nature", outs: []string{"y", "n"}, pos: []int{5, 6}}
	b := dvar{name: "b", typ: "nature", outs: []string{"p", "q", "r"}, given: []string{"a"}}
	tab := strings.Join(t[2:], " ")
	va := xmlVar(a, []string{"position = (10, 73)"})
	vb := xmlVar(b, nil)
	da := xmlDef(a, t[:2])
	db := xmlDef(b, t[2:])
	name := "<NAME>my net</NAME>"
	switch vh.Choose("variant", 14) {
	case 1: // comments between the numbers
		db = strings.Replace(db, tab, "<!-- y -->"+strings.Join(t[2:5], " ")+"<!-- n --> "+strings.Join(t[5:], " "), 1)
	case 2: // character data section
		va = strings.Replace(va, "<NAME>a</NAME>", "<NAME><![CDATA[a]]></NAME>", 1)
		db = strings.Replace(db, tab, "<![CDATA["+tab+"]]>", 1)
	case 3: // elements that are not used
		va = strings.Replace(va, "<OUTCOME>y</OUTCOME>", "<OBS>0</OBS><OUTCOME>y</OUTCOME><X><OUTCOME>z</OUTCOME></X>", 1)
		db = strings.Replace(db, "<FOR>", "<PROPERTY>table = no</PROPERTY><FOR>", 1)
	case 4: // attributes
		va = strings.Replace(va, "<OUTCOME>", "<OUTCOME id=\"1\">", 1)
		db = strings.Replace(db, "<TABLE>", "<TABLE rows='2'>", 1)
	case 5: // table before the rest
		db = "<DEFINITION><TABLE>" + tab + "</TABLE><GIVEN>a</GIVEN><FOR>b</FOR></DEFINITION>"
	case 6: // name of the network at the end
		db, name = db+name, ""
	case 7: // entities
		va = strings.Replace(va, "<OUTCOME>y</OUTCOME>", "<OUTCOME>&#121;</OUTCOME>", 1)
	case 8: // properties that are not positions
		vb = strings.Replace(vb, "</VARIABLE>", "<PROPERTY>weight = (3, 4)</PROPERTY><PROPERTY>position</PROPERTY><PROPERTY>a = b = c</PROPERTY></VARIABLE>", 1)
	case 9: // white space in the position
		va = strings.Replace(va, "position = (10, 73)", " position=( 10 ,73 ) ", 1)
		va = strings.Replace(va, "( 10 ,73 )", "(10 , 73)", 1)
	case 10: // line ends
		va, vb, da, db = strings.ReplaceAll(va, "\n", "\r\n"), strings.ReplaceAll(vb, "\n", "\r\n"), strings.ReplaceAll(da, "\n", "\r\n"), strings.ReplaceAll(db, "\n", "\r\n")
	case 11: // outcomes and name in another order
		va = "<VARIABLE TYPE=\"nature\"><PROPERTY>position = (10, 73)</PROPERTY><OUTCOME>y</OUTCOME><OUTCOME>n</OUTCOME><NAME>a</NAME></VARIABLE>"
	case 12: // a property of the network
		name += "<PROPERTY>position = (99, 98)</PROPERTY>"
	case 13: // more than one position, the last counts
		va = strings.Replace(va, "<PROPERTY>", "<PROPERTY>position = (7, 7)</PROPERTY><PROPERTY>", 1)
	}
	body := name + "\n" + va + vb + da + db
	if vh.Choose("order", 2) == 1 {
		body = name + "\n" + da + va + db + vb
	}
	head := []string{"<?xml version=\"1.0\"?>\n", "", "<?xml version=\"1.0\"?>\n<!DOCTYPE BIF [\n\t<!ELEMENT BIF ( NETWORK )*>\n]>\n"}[vh.Choose("head", 3)]
	net, err := bbn.FromBIFXML([]byte(head + "<BIF VERSION=\"0.3\">\n<NETWORK>\n" + body + "</NETWORK>\n</BIF>\n"))
	noErr(err, "a valid document loads")
	vh.Assert(net.Name() == "my net", "network name")
	v := net.Variables()
	vh.Assert(len(v) == 2, "number of variables")
	checkVar(v[0], a, x[:2])
	checkVar(v[1], b, x[2:])
	vh.Reach("end")
}
