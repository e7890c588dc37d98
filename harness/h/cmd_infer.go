package h

import (
	"fmt"
	"os"

	"github.com/mlange-42/bbn/internal/zzcmd/bbn"
	"github.com/mlange-42/bbn/internal/zzverif/vh"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	for k, f := range map[string]func(){"CmdInfer": CmdInfer} {
		All[k] = f
	}
}

type exited struct{ code int }

// command runs a command with arguments; it returns the output and the exit code.
func command(main func(), args ...string) (out string, code int) {
	old := os.Args
	os.Args = append([]string{"bbn"}, args...)
	defer func() { os.Args = old }()
	out = vh.Capture(func() {
		defer func() {
			if x := recover(); x != nil {
				e, ok := x.(exited)
				if !ok {
					panic(x)
				}
				code = e.code
			}
		}()
		main()
	})
	return out, code
}

// document is the network as YAML.
func (n *rnet) document(order []int) string {
	doc := "name: Net\nvariables:\n"
	for _, i := range order {
		nd := &n.nodes[i]
		doc += "- variable: " + nd.name + "\n"
		switch nd.kind {
		case ve.UtilityNode:
			doc += "  type: utility\n"
		case ve.DecisionNode:
			doc += "  type: decision\n"
		}
		if len(nd.parents) > 0 {
			doc += "  given: ["
			for k, p := range nd.parents {
				if k > 0 {
					doc += ", "
				}
				doc += n.nodes[p].name
			}
			doc += "]\n"
		}
		doc += "  outcomes: ["
		for k, o := range nd.outs {
			if k > 0 {
				doc += ", "
			}
			doc += o
		}
		doc += "]\n"
		if nd.kind == ve.DecisionNode {
			continue
		}
		doc += "  table:\n"
		for k := 0; k < len(nd.table); k += len(nd.outs) {
			doc += "  - ["
			for j := range nd.outs {
				if j > 0 {
					doc += ", "
				}
				doc += vh.FloatText(nd.table[k+j])
			}
			doc += "]\n"
		}
	}
	return doc
}

// CmdInfer: the inference command prints the overview.
func CmdInfer() {
	bbn.VerifExit = func(code int) { panic(exited{code}) }
	n, d, total := one([]int{0, 1, 3, 4}[vh.Choose("shape", 4)])
	n.utilitiesOf(total)
	if vh.Choose("utilities", 2) == 1 {
		// the best option depends on what is observed
		for i := range n.nodes {
			if n.nodes[i].kind == ve.UtilityNode && i != total && len(n.nodes[i].table) == 4 {
				copy(n.nodes[i].table, []float64{5, 1, 0, 3})
			}
		}
	}
	ev := someEvidence(n, vh.Deep())
	for i := range n.nodes {
		if n.nodes[i].kind == ve.ChanceNode && len(n.nodes[i].parents) == 0 && ev[i] < 0 && len(n.nodes[i].outs) == 2 {
			n.nodes[i].table = distTable(n.nodes[i].name, 1, len(n.nodes[i].outs))
			break
		}
	}
	order := permSome(len(n.nodes), vh.Choose("order", 2))
	file := vh.WriteFile("net.yml", n.document(order))
	args := []string{"inference", file}
	list := ""
	for i, o := range ev {
		if o >= 0 {
			if list != "" {
				list += ","
			}
			list += n.nodes[i].name + "=" + n.nodes[i].outs[o]
		}
	}
	if list != "" {
		args = append(args, "-e", list)
	}
	out, code := command(bbn.VerifMain, args...)
	vh.Assert(code == 0, "the command succeeds")
	net := n.build(order, order)
	pol := solved(n, net, true, d)
	want, _ := n.expected(ev, total, pol, false)
	text := ""
	for _, i := range order {
		nd := &n.nodes[i]
		text += "                              "
		for _, o := range nd.outs {
			text += fmt.Sprintf(" %10s", o)
		}
		text += fmt.Sprintf("\n%30s", nd.name)
		for _, p := range want[nd.name] {
			if nd.kind == ve.UtilityNode {
				text += fmt.Sprintf(" %10.3f", p)
			} else {
				text += fmt.Sprintf(" %9.3f%%", p*100)
			}
		}
		if ev[i] >= 0 {
			text += "  +"
		}
		text += "\n"
	}
	vh.Assert(out == text, "the overview is printed")
	vh.Reach("printed")
}
