package h

import (
	"errors"
	"fmt"
	"strings"

	net "github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/tui"
	"github.com/mlange-42/bbn/internal/zzcmd/bbn"
	"github.com/mlange-42/bbn/internal/zzcmd/bbni"
	"github.com/mlange-42/bbn/internal/zzverif/vh"
	"github.com/rivo/tview"
)

func init() {
	for k, f := range map[string]func(){"CmdTrain": CmdTrain, "CmdTrainReject": CmdTrainReject, "CmdEvidence": CmdEvidence, "CmdTool": CmdTool, "CmdToolTrain": CmdToolTrain} {
		All[k] = f
	}
	bbn.VerifExit = exit
	bbni.VerifExit = exit
}

func exit(code int) { panic(exited{code}) }

// CmdTrain: the training command prints the trained network.
func CmdTrain() {
	bbn.VerifExit = exit
	trainCSV(1, func(n *net.Network, file, missing, delim string) (*net.Network, error) {
		yml, err := net.ToYAML(n)
		noErr(err, "to YAML")
		args := []string{"train", vh.WriteFile("net.yml", string(yml)), file}
		if missing != "" || vh.Choose("explicit", 2) == 1 {
			args = append(args, []string{"-n", "--no-data"}[vh.Choose("long", 2)], missing)
		}
		if delim != "," {
			args = append(args, "-d", delim)
		}
		out, code := command(bbn.VerifMain, args...)
		if code != 0 {
			return nil, errors.New("exit")
		}
		got, err := net.FromYAML([]byte(out))
		if err == nil {
			vh.Assert(got.Name() == n.Name() && got.Info() == n.Info(), "name and description of the network")
		}
		return got, err
	})
}

// CmdTrainReject: what cannot be trained ends the command with an error.
func CmdTrainReject() {
	bbn.VerifExit = exit
	file := vh.WriteFile("net.yml", chainDoc)
	data := vh.WriteFile("data.csv", "rain,grass\nyes,wet\nno,dry\nno,wet\n")
	args := []string{"train", file, data}
	switch vh.Choose("fault", 8) {
	case 0:
		args[1] = vh.Path("nofile.yml")
	case 1:
		args[2] = vh.Path("nofile.csv")
	case 2:
		args = append(args, "-d", "::")
	case 3:
		args = append(args, "-d", "")
	case 4:
		vh.WriteFile("data.csv", "rain,grass\nyes,wet\nmaybe,dry\nno,wet\n")
	case 5:
		args = args[:2]
	case 6:
		vh.WriteFile("data.csv", "rain,grass\nyes,wet\n")
	case 7:
		args = append(args, "-n", "wet")
	}
	out, code := command(bbn.VerifMain, args...)
	vh.Assert(code != 0, "the command fails")
	vh.Assert(strings.Contains(out, "ERROR"), "the error is printed")
	vh.Reach("rejected")
}

// CmdEvidence: evidence that does not fit ends the command with an error.
func CmdEvidence() {
	bbn.VerifExit, bbni.VerifExit = exit, exit
	file := vh.WriteFile("net.yml", decisionDoc)
	ev := []string{"weather=snow", "nobody=rain", "weather", "weather=", "=rain", "weather=rain=sun", "weather=sun,forecast=none"}
	k := vh.Choose("evidence", len(ev))
	flag := []string{"-e", "--evidence"}[vh.Choose("long", 2)]
	var out string
	var code int
	if vh.Choose("command", 2) == 0 {
		out, code = command(bbn.VerifMain, "inference", file, flag, ev[k])
	} else {
		tview.VerifRun = func(a *tview.Application) error { return nil }
		out, code = command(bbni.VerifMain, file, flag, ev[k])
	}
	vh.Assert(code != 0, "the command fails")
	vh.Assert(strings.Contains(out, "ERROR"), "the error is printed")
	vh.Reach("rejected")
}

// CmdTool: the interactive tool with evidence and training data from the command line.
func CmdTool() {
	bbni.VerifExit = exit
	text := "grass,rain\nwet,yes\ndry,no\nwet,no\ndry,no\nwet,yes\nmoist,yes\nNA,yes\nwet,yes\n"
	file := vh.WriteFile("net.yml", chainDoc)
	ev := map[string]string{}
	args := []string{file}
	list := []string{}
	if k := vh.Choose("rain", 3); k > 0 {
		ev["rain"] = []string{"yes", "no"}[k-1]
		list = append(list, "rain="+ev["rain"])
	}
	if k := vh.Choose("grass", 4); k > 0 {
		ev["grass"] = []string{"wet", "moist", "dry"}[k-1]
		list = append(list, "grass="+ev["grass"])
	}
	if len(list) > 0 {
		args = append(args, "-e", strings.Join(list, ","))
	}
	doc := chainDoc
	if vh.Choose("train", 2) == 1 {
		delim := []string{",", ";"}[vh.Choose("delim", 2)]
		data := vh.WriteFile("data.csv", strings.ReplaceAll(text, ",", delim))
		args = append(args, "-t", data, "-n", "NA", "-d", delim)
		n, err := net.FromYAML([]byte(doc))
		noErr(err, "the document is valid")
		n, err = tui.TrainNetwork(n, n.Variables(), data, "NA", []rune(delim)[0])
		noErr(err, "training")
		b, err := net.ToYAML(n)
		noErr(err, "to YAML")
		doc = string(b)
	}
	n := 0
	tview.VerifDrawn = func(p tview.Primitive) {}
	tview.VerifRun = func(a *tview.Application) error {
		a.VerifStart(&screen{w: 100, h: 40})
		m := newModel(a, doc, ev)
		m.check()
		m.event()
		n++
		return nil
	}
	_, code := command(bbni.VerifMain, args...)
	vh.Assert(code == 0, "the tool ends well")
	vh.Assert(n == 1, "the tool runs")
	vh.Reach("end")
}

// CmdToolTrain: the interactive tool shows the relative frequencies of the data it is started with.
func CmdToolTrain() {
	bbni.VerifExit = exit
	noData := []string{"NA", "", "-"}[vh.Choose("noData", 3)]
	delim := []string{",", ";", "→"}[vh.Choose("delim", 3)]
	file := vh.WriteFile("net.yml", chainDoc)
	rain, grass := []string{"yes", "no"}, []string{"wet", "moist", "dry"}
	text := "other" + delim + "grass" + delim + "rain" + delim + "rain2\n"
	var cr [2]int
	var cg [2][3]int
	add := func(r, g int) {
		l := []string{"0", noData, noData, "no"}
		if r >= 0 {
			l[2] = rain[r]
			cr[r]++
		}
		if g >= 0 {
			l[1] = grass[g]
		}
		if r >= 0 && g >= 0 {
			cg[r][g]++
		}
		text += strings.Join(l, delim) + "\n"
	}
	add(0, 0)
	add(1, 2)
	add(1, 1)
	add(vh.Choose("rain", 3)-1, vh.Choose("grass", 4)-1)
	add(vh.Choose("rain", 3)-1, vh.Choose("grass", 4)-1)
	args := []string{file, "-t", vh.WriteFile("data.csv", text)}
	if noData != "" {
		args = append(args, "-n", noData)
	}
	if delim != "," {
		args = append(args, "--delim", delim)
	}
	n := 0
	tview.VerifDrawn = func(p tview.Primitive) {}
	tview.VerifRun = func(a *tview.Application) error {
		a.VerifStart(&screen{w: 100, h: 40})
		m := newModel(a, chainDoc, nil)
		c, _ := m.canvas()
		pr := make([]float64, 2)
		pg := make([]float64, 3)
		for i := range pr {
			pr[i] = float64(cr[i]) / float64(cr[0]+cr[1])
			for k := range pg {
				pg[k] += pr[i] * float64(cg[i][k]) / float64(cg[i][0]+cg[i][1]+cg[i][2])
			}
		}
		for i, ps := range [][]float64{pr, pg} {
			nb := m.nodes[i]
			for k, p := range ps {
				line := string(c[nb.y+2+k][nb.x : nb.x+nb.w])
				vh.Assert(strings.Contains(line, fmt.Sprintf("%7.3f", 100*p)), "the frequency")
			}
		}
		n++
		return nil
	}
	_, code := command(bbni.VerifMain, args...)
	vh.Assert(code == 0, "the tool ends well")
	vh.Assert(n == 1, "the tool runs")
	vh.Reach("end")
}
