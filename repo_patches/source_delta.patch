From a4ace3e3710f5ab922f8574bcfb7e0bd8b63115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:57 +0000
Subject: [PATCH 01/21] fix: solve policies for decisions that nothing depends
 on

SolvePolicies panicked when no factor contained the decision. All options are
equally good then, so the policy is uniform.
---
 ve/ve.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ve/ve.go b/ve/ve.go
index 65e536f..ff5048b 100644
--- a/ve/ve.go
+++ b/ve/ve.go
@@ -2,7 +2,6 @@ package ve
 
 import (
 	"cmp"
-	"fmt"
 	"slices"
 )
 
@@ -289,7 +288,9 @@ func (ve *VE) solvePolicies(decisions []Variable, single bool) map[Variable][2]*
 		}*/
 
 		if len(factors) == 0 {
-			panic(fmt.Sprintf("found no factors containing variable %d and its parents", dec.id))
+			// Nothing depends on the decision, so all options are equally good.
+			f := ve.variables.CreateFactor([]Variable{dec}, nil)
+			factors = append(factors, &f)
 		}
 
 		// TODO: check that multiplying when multiple factors are remaining is correct!
-- 
2.43.0


From 3781dabc740c7e2eaca006525ea6a77ba1c9ac51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:04 +0000
Subject: [PATCH 02/21] fix: given operators select the parent at the given
 index, counted from the first parent

---
 logic/given.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/logic/given.go b/logic/given.go
index c103e34..bf0b655 100644
--- a/logic/given.go
+++ b/logic/given.go
@@ -4,6 +4,15 @@ import (
 	"fmt"
 )
 
+// givenBit returns the bit that stands for the parent at the given index in table row numbers.
+// The first parent varies slowest.
+func givenBit(idx, given int) (uint, error) {
+	if idx < 0 || idx >= given {
+		return 0, fmt.Errorf("logic operator refers to parent index %d, but %d operands were given", idx, given)
+	}
+	return uint(1) << uint(given-1-idx), nil
+}
+
 type givenFactor struct {
 	Index int
 }
@@ -24,12 +33,16 @@ func (f *givenFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenFactor) Table(given int) ([]float64, error) {
+	bit, err := givenBit(f.Index, given)
+	if err != nil {
+		return nil, err
+	}
 	rows := uint(1) << uint(given) // 2^given
 	table := make([]float64, rows*2)
 
 	var i uint
 	for i = 0; i < rows; i++ {
-		isTrue := (i & (1 << f.Index)) == 0
+		isTrue := (i & bit) == 0
 		if isTrue {
 			table[i*2] = 1
 		} else {
@@ -59,12 +72,16 @@ func (f *givenNotFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenNotFactor) Table(given int) ([]float64, error) {
+	bit, err := givenBit(f.Index, given)
+	if err != nil {
+		return nil, err
+	}
 	rows := uint(1) << uint(given) // 2^given
 	table := make([]float64, rows*2)
 
 	var i uint
 	for i = 0; i < rows; i++ {
-		isFalse := (i & (1 << f.Index)) != 0
+		isFalse := (i & bit) != 0
 		if isFalse {
 			table[i*2] = 1
 		} else {
@@ -94,12 +111,16 @@ func (f *givenExclFactor) SetArgs(args ...int) error {
 }
 
 func (f *givenExclFactor) Table(given int) ([]float64, error) {
+	bit, err := givenBit(f.Index, given)
+	if err != nil {
+		return nil, err
+	}
 	rows := uint(1) << uint(given) // 2^given
 	table := make([]float64, rows*2)
 
 	var i uint
 	for i = 0; i < rows; i++ {
-		isTrue := (i & (1 << f.Index)) == 0
+		isTrue := (i & bit) == 0
 		if !isTrue {
 			table[i*2+1] = 1
 			continue
@@ -107,7 +128,7 @@ func (f *givenExclFactor) Table(given int) ([]float64, error) {
 
 		otherTrue := false
 		for j := 0; j < given; j++ {
-			if j == f.Index {
+			if bit == 1<<j {
 				continue
 			}
 			if (i & (1 << j)) == 0 {
-- 
2.43.0


From 905f753885fde6c66093d954f7c8a9051e5721aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:04 +0000
Subject: [PATCH 03/21] fix: outcome operators report indices that are no
 outcomes as error instead of panicking

---
 logic/outcome.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/logic/outcome.go b/logic/outcome.go
index f46a26b..8ac231d 100644
--- a/logic/outcome.go
+++ b/logic/outcome.go
@@ -4,6 +4,19 @@ import (
 	"fmt"
 )
 
+// checkOutcomes checks that the number of outcomes is positive, and that all indices are in the range [0, max].
+func checkOutcomes(length, max int, indices ...int) error {
+	if length <= 0 {
+		return fmt.Errorf("logic operator requires a positive number of outcomes, got %d", length)
+	}
+	for _, idx := range indices {
+		if idx < 0 || idx > max {
+			return fmt.Errorf("logic operator got outcome index %d for %d outcomes", idx, length)
+		}
+	}
+	return nil
+}
+
 type outcomeIsFactor struct {
 	Index  int
 	Length int
@@ -31,6 +44,9 @@ func (f *outcomeIsFactor) Table(given int) ([]float64, error) {
 	if given != 1 {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
+	if err := checkOutcomes(f.Length, f.Length-1, f.Index); err != nil {
+		return nil, err
+	}
 
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Length; i++ {
@@ -69,6 +85,9 @@ func (f *outcomeIsNotFactor) Table(given int) ([]float64, error) {
 	if given != 1 {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
+	if err := checkOutcomes(f.Length, f.Length-1, f.Index); err != nil {
+		return nil, err
+	}
 
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Length; i++ {
@@ -107,6 +126,9 @@ func (f *outcomeEitherFactor) Table(given int) ([]float64, error) {
 	if given != 1 {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
+	if err := checkOutcomes(f.Length, f.Length-1, f.Indices...); err != nil {
+		return nil, err
+	}
 
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Length; i++ {
@@ -148,6 +170,9 @@ func (f *outcomeLessFactor) Table(given int) ([]float64, error) {
 	if given != 1 {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
+	if err := checkOutcomes(f.Length, f.Length, f.Index); err != nil {
+		return nil, err
+	}
 
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Index; i++ {
@@ -188,6 +213,9 @@ func (f *outcomeGreaterFactor) Table(given int) ([]float64, error) {
 	if given != 1 {
 		return nil, fmt.Errorf("logic operator requires 1 operand, but %d were given", given)
 	}
+	if err := checkOutcomes(f.Length, f.Length, f.Index); err != nil {
+		return nil, err
+	}
 
 	table := make([]float64, f.Length*2)
 	for i := 0; i < f.Index; i++ {
-- 
2.43.0


From 8442fd825c7c6f6c31d4d34dd83ee9520f896d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:04 +0000
Subject: [PATCH 04/21] fix: Factor.Row returns the row of the given parent
 outcomes

---
 network.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/network.go b/network.go
index ffc915b..74979ae 100644
--- a/network.go
+++ b/network.go
@@ -39,7 +39,8 @@ func (f *Factor) Row(indices []int) ([]float64, bool) {
 	if !ok {
 		return nil, false
 	}
-	return f.Table[idx : idx+f.columns], true
+	start := idx * f.columns
+	return f.Table[start : start+f.columns], true
 }
 
 // rowIndex returns a row starting index for the
-- 
2.43.0


From 4160d2fd84e4fb94c817f45938221656534b491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:01 +0000
Subject: [PATCH 05/21] fix: ToYAML keeps node colors and the network
 description

---
 yml.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yml.go b/yml.go
index 4527cca..93b906f 100644
--- a/yml.go
+++ b/yml.go
@@ -146,12 +146,14 @@ func ToYAML(network *Network) ([]byte, error) {
 			Type:     nodeTypeNames[v.NodeType],
 			Outcomes: v.Outcomes,
 			Position: v.Position,
+			Color:    v.Color,
 			Table:    table,
 		}
 	}
 
 	net := networkYaml{
 		Name:      network.Name(),
+		Info:      network.Info(),
 		Variables: variables,
 	}
 
-- 
2.43.0


From 9bc18f5b6ea02ad03d843af713298665eaa244d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:01 +0000
Subject: [PATCH 06/21] fix: ToYAML handles variables without a factor or
 without outcomes

---
 yml.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/yml.go b/yml.go
index 93b906f..0f5c86e 100644
--- a/yml.go
+++ b/yml.go
@@ -133,16 +133,16 @@ func toTable(v *variableYaml) ([]float64, error) {
 func ToYAML(network *Network) ([]byte, error) {
 	variables := make([]variableYaml, len(network.variables))
 	for i, v := range network.variables {
-		cols := len(v.Outcomes)
-		table := make([][]float64, len(v.Factor.Table)/cols)
-
-		for i := range table {
-			table[i] = v.Factor.Table[i*cols : (i+1)*cols]
+		var given []string
+		var table [][]float64
+		if v.Factor != nil {
+			given = v.Factor.Given
+			table = toRows(v.Factor.Table, len(v.Outcomes))
 		}
 
 		variables[i] = variableYaml{
 			Variable: v.Name,
-			Given:    v.Factor.Given,
+			Given:    given,
 			Type:     nodeTypeNames[v.NodeType],
 			Outcomes: v.Outcomes,
 			Position: v.Position,
@@ -168,3 +168,15 @@ func ToYAML(network *Network) ([]byte, error) {
 
 	return writer.Bytes(), nil
 }
+
+// toRows splits a flat table into rows with the given number of columns.
+func toRows(table []float64, cols int) [][]float64 {
+	if cols == 0 {
+		return nil
+	}
+	rows := make([][]float64, len(table)/cols)
+	for i := range rows {
+		rows[i] = table[i*cols : (i+1)*cols]
+	}
+	return rows
+}
-- 
2.43.0


From a094bf14695436d43264841b2ee2346a3d671d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:11 +0000
Subject: [PATCH 07/21] fix: FromBIFXML reports variables without a definition
 as error instead of panicking

---
 xml.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xml.go b/xml.go
index 2c2d591..db0ed07 100644
--- a/xml.go
+++ b/xml.go
@@ -52,7 +52,10 @@ func FromBIFXML(content []byte) (*Network, error) {
 	variables := make([]Variable, len(bifNet.Network.Variables))
 	factors := []Factor{}
 	for i, variable := range bifNet.Network.Variables {
-		def := defs[variable.Name]
+		def, ok := defs[variable.Name]
+		if !ok {
+			return nil, fmt.Errorf("no definition found for variable '%s'", variable.Name)
+		}
 
 		columns := len(variable.Outcomes)
 		tableValues := strings.Fields(def.Table)
-- 
2.43.0


From 8863b38db24c3f62812e83619c5995f2fae133b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:34 +0000
Subject: [PATCH 08/21] fix: count utility samples once, so that trained
 utilities are their mean

---
 training.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/training.go b/training.go
index d097f03..a93e1dd 100644
--- a/training.go
+++ b/training.go
@@ -98,7 +98,6 @@ func (t *Trainer) AddSample(sample []int, utility []float64) {
 				continue
 			}
 			t.data[i][idx][0] += u
-			t.counter[i][idx]++
 		} else {
 			s := sample[i]
 			if s < 0 {
-- 
2.43.0


From 5c8730cd848f63db767fda2642f8085f6162eb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:34 +0000
Subject: [PATCH 09/21] fix: training keeps the weights of the total utility
 node

---
 training.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/training.go b/training.go
index a93e1dd..c048b65 100644
--- a/training.go
+++ b/training.go
@@ -71,7 +71,7 @@ func (t *Trainer) AddSample(sample []int, utility []float64) {
 	nodes := t.network.Variables()
 
 	for i, node := range nodes {
-		if node.NodeType == ve.DecisionNode {
+		if node.NodeType == ve.DecisionNode || i == t.network.TotalUtilityIndex() {
 			continue
 		}
 
@@ -115,6 +115,10 @@ func (t *Trainer) UpdateNetwork() (*Network, error) {
 	nodes := t.network.Variables()
 
 	for i, node := range nodes {
+		// Weights of the total utility node are not trained.
+		if i == t.network.TotalUtilityIndex() {
+			continue
+		}
 		data := t.data[i]
 
 		cols := node.Factor.columns
-- 
2.43.0


From 996f59addc9fcfc7f7ca4211ef0cf676473bf456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:34 +0000
Subject: [PATCH 10/21] fix: no-data values in utility columns of training data
 are missing values, not errors

---
 internal/tui/training.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tui/training.go b/internal/tui/training.go
index 9fcd7e4..90f194a 100644
--- a/internal/tui/training.go
+++ b/internal/tui/training.go
@@ -52,6 +52,7 @@ func TrainNetwork(net *bbn.Network, nodes []bbn.Variable, dataFile, noData strin
 				var err error
 				if record[idx] == noData {
 					utility[i] = math.NaN()
+					continue
 				}
 				utility[i], err = strconv.ParseFloat(record[idx], 64)
 				if err != nil {
-- 
2.43.0


From 1af6ed458dbb874ebd4ba98b844e31064b0658d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:34 +0000
Subject: [PATCH 11/21] fix: pass the no-data value on to the training of the
 interactive app

---
 internal/tui/app.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tui/app.go b/internal/tui/app.go
index bfacebd..0a5a835 100644
--- a/internal/tui/app.go
+++ b/internal/tui/app.go
@@ -43,6 +43,7 @@ func New(path string, evidence map[string]string, trainingFile, noData string, c
 	return &App{
 		file:         path,
 		trainingFile: trainingFile,
+		noData:       noData,
 		csvDelimiter: csvDelimiter,
 		evidence:     evidence,
 	}
-- 
2.43.0


From 6bf554c83418c6461b27c909c756bc5630dbb4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:34 +0000
Subject: [PATCH 12/21] fix: training handles decisions without a factor

---
 training.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/training.go b/training.go
index c048b65..aa542c5 100644
--- a/training.go
+++ b/training.go
@@ -29,12 +29,18 @@ func NewTrainer(net *Network) Trainer {
 	maxColumns := 0
 	for i, node := range nodes {
 		nodeIndices[node.Name] = i
+		if node.Factor == nil {
+			continue
+		}
 		if len(node.Factor.Given) > maxColumns {
 			maxColumns = len(node.Factor.Given)
 		}
 	}
 
 	for i, node := range nodes {
+		if node.Factor == nil {
+			continue
+		}
 		columns := len(node.Outcomes)
 		rows := len(node.Factor.Table) / columns
 		d := make([][]float64, rows)
@@ -71,7 +77,7 @@ func (t *Trainer) AddSample(sample []int, utility []float64) {
 	nodes := t.network.Variables()
 
 	for i, node := range nodes {
-		if node.NodeType == ve.DecisionNode || i == t.network.TotalUtilityIndex() {
+		if node.Factor == nil || node.NodeType == ve.DecisionNode || i == t.network.TotalUtilityIndex() {
 			continue
 		}
 
@@ -116,7 +122,7 @@ func (t *Trainer) UpdateNetwork() (*Network, error) {
 
 	for i, node := range nodes {
 		// Weights of the total utility node are not trained.
-		if i == t.network.TotalUtilityIndex() {
+		if node.Factor == nil || i == t.network.TotalUtilityIndex() {
 			continue
 		}
 		data := t.data[i]
-- 
2.43.0


From 97208f12a89e0a9f85cdd580b20b68862ea42dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:31 +0000
Subject: [PATCH 13/21] fix: New reports utility nodes without a factor as
 error instead of panicking

---
 network.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/network.go b/network.go
index 74979ae..ced4e01 100644
--- a/network.go
+++ b/network.go
@@ -174,6 +174,9 @@ func (n *Network) prepareUtilityNodes(varNames map[string]*Variable) error {
 		if v.NodeType != ve.UtilityNode {
 			continue
 		}
+		if v.Factor == nil {
+			return fmt.Errorf("utility node %s has no factor", v.Name)
+		}
 		hasUtilParents := false
 		hasOtherParents := false
 		for _, parent := range v.Factor.Given {
-- 
2.43.0


From 299cde71beaab1acdf409030d2691890524a84da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:31 +0000
Subject: [PATCH 14/21] fix: ToEvidence does not depend on a previous solve

---
 network.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/network.go b/network.go
index ced4e01..a8af576 100644
--- a/network.go
+++ b/network.go
@@ -397,15 +397,16 @@ func (n *Network) solve(evidence map[string]string, query []string, utility bool
 // As an example, say we have a variable with outcomes [yes, no]. Given evidence "yes" (index 0):
 // we get the following probabilities: [1, 0].
 func (n *Network) ToEvidence(variable string, value string) ([]float64, error) {
-	vv, ok := n.variableNames[variable]
-	if !ok {
+	i := slices.IndexFunc(n.variables, func(v Variable) bool { return v.Name == variable })
+	if i < 0 {
 		return nil, fmt.Errorf("evidence variable %s not found", variable)
 	}
-	idx := slices.Index(vv.Variable.Outcomes, value)
+	outcomes := n.variables[i].Outcomes
+	idx := slices.Index(outcomes, value)
 	if idx < 0 {
 		return nil, fmt.Errorf("outcome %s for evidence variable %s not found", value, variable)
 	}
-	probs := make([]float64, len(vv.Variable.Outcomes))
+	probs := make([]float64, len(outcomes))
 	probs[idx] = 1.0
 	return probs, nil
 }
-- 
2.43.0


From 114b6c32eee98ace50e02eb4c90ead96bd94d8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:31 +0000
Subject: [PATCH 15/21] fix: SolveQuery answers queries of evidence variables
 instead of panicking

---
 network.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/network.go b/network.go
index a8af576..b8dc23f 100644
--- a/network.go
+++ b/network.go
@@ -321,6 +321,13 @@ func (n *Network) SolveQuery(evidence map[string]string, query []string, ignoreP
 
 	result := map[string][]float64{}
 	for _, q := range query {
+		if value, ok := evidence[q]; ok {
+			result[q], err = n.ToEvidence(q, value)
+			if err != nil {
+				return nil, nil, err
+			}
+			continue
+		}
 		m := n.Marginal(f, q)
 		n := n.Normalize(&m)
 		result[q] = n.Data()
-- 
2.43.0


From 531ab9cfc994c57335d2c03d4c0bc5049d42ebbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:21 +0000
Subject: [PATCH 16/21] fix: utilities too wide for their node are shown in
 short form, not over the border

---
 internal/tui/node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tui/node.go b/internal/tui/node.go
index 75e7414..ef485d0 100644
--- a/internal/tui/node.go
+++ b/internal/tui/node.go
@@ -229,6 +229,10 @@ func (n *node) drawUtility(probs []float64) {
 			text = []rune("         ???")
 		} else {
 			text = []rune(fmt.Sprintf("%12.3f", p))
+			if len(text) > 12 {
+				// Too wide for the node, would overwrite the border and leave digits behind.
+				text = []rune(fmt.Sprintf("%12.5g", p))
+			}
 		}
 		copy(n.runes[i+2][n.barsX+1:], text)
 	}
-- 
2.43.0


From d8db942d2720443ff97c1b7f86897ef306579360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:21 +0000
Subject: [PATCH 17/21] fix: only the digits 0-9 select outcomes, other Unicode
 digits crashed the app

---
 internal/tui/input.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index 92ac2a2..b4a8340 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -5,7 +5,6 @@ import (
 	"path"
 	"strconv"
 	"strings"
-	"unicode"
 
 	"github.com/gdamore/tcell/v2"
 	"github.com/mlange-42/bbn"
@@ -31,7 +30,7 @@ func (a *App) inputMainPanel(event *tcell.EventKey) *tcell.EventKey {
 		a.selectedState = (a.selectedState + 1) % len(a.nodes[a.selectedNode].Node().Outcomes)
 		a.render(true)
 		return nil
-	} else if unicode.IsDigit(event.Rune()) {
+	} else if event.Rune() >= '0' && event.Rune() <= '9' {
 		// Select states by index/number keys.
 		a.selectNodeOutcome(string(event.Rune()))
 		return nil
-- 
2.43.0


From f85b253e5a3e273e976fd250e2dd134328b3134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:48 +0000
Subject: [PATCH 18/21] fix: selecting a node by mouse resets the selected
 outcome, which may not exist in that node

---
 internal/tui/input.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index b4a8340..bdef9d3 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -205,7 +205,7 @@ func (a *App) mouseInputGraph(action tview.MouseAction, event *tcell.EventMouse)
 		x, y := a.mousePosInGraph(event.Position())
 		for i, node := range a.nodes {
 			if node.Bounds().Contains(x, y) {
-				a.selectedNode = i
+				a.selectNode(i)
 				if outcome, ok := node.SelectedOutcome(x, y); ok {
 					a.selectedState = outcome
 					if err := a.inputEnter(); err != nil {
@@ -221,7 +221,7 @@ func (a *App) mouseInputGraph(action tview.MouseAction, event *tcell.EventMouse)
 		x, y := a.mousePosInGraph(event.Position())
 		for i, node := range a.nodes {
 			if node.Bounds().Contains(x, y) {
-				a.selectedNode = i
+				a.selectNode(i)
 				a.render(true)
 				a.showTable()
 				break
@@ -287,6 +287,14 @@ func (a *App) mousePosInGraph(x, y int) (int, int) {
 	return x - boxX + scrollX, y - boxY + scrollY
 }
 
+// selectNode selects a node by index. Outcome selection starts over if it is not the current node.
+func (a *App) selectNode(index int) {
+	if index != a.selectedNode {
+		a.selectedNode = index
+		a.selectedState = 0
+	}
+}
+
 func (a *App) selectNextNode() {
 	a.selectedNode = (a.selectedNode + 1) % len(a.nodes)
 	a.selectedState = 0
-- 
2.43.0


From 179cced30dc0b28f0591cf196b98ed9ed247ca11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:11 +0000
Subject: [PATCH 19/21] fix: a click where nodes overlap goes to the node on
 top

---
 internal/tui/input.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index bdef9d3..ce526a2 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -203,7 +203,9 @@ func (a *App) mouseInputGraph(action tview.MouseAction, event *tcell.EventMouse)
 
 	if action == tview.MouseLeftClick {
 		x, y := a.mousePosInGraph(event.Position())
-		for i, node := range a.nodes {
+		// The last node is drawn on top.
+		for i := len(a.nodes) - 1; i >= 0; i-- {
+			node := a.nodes[i]
 			if node.Bounds().Contains(x, y) {
 				a.selectNode(i)
 				if outcome, ok := node.SelectedOutcome(x, y); ok {
@@ -219,8 +221,8 @@ func (a *App) mouseInputGraph(action tview.MouseAction, event *tcell.EventMouse)
 		return tview.MouseConsumed, nil
 	} else if action == tview.MouseRightClick {
 		x, y := a.mousePosInGraph(event.Position())
-		for i, node := range a.nodes {
-			if node.Bounds().Contains(x, y) {
+		for i := len(a.nodes) - 1; i >= 0; i-- {
+			if a.nodes[i].Bounds().Contains(x, y) {
 				a.selectNode(i)
 				a.render(true)
 				a.showTable()
-- 
2.43.0


From 84137b8708c64e3db6f2acd7fba5885d187d59f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:05 +0000
Subject: [PATCH 20/21] fix: names that look like color tags are shown as they
 are, and lines keep the color of their node

---
 internal/tui/input.go  |  2 +-
 internal/tui/render.go | 13 ++++++++-----
 internal/tui/table.go  |  4 ++--
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/internal/tui/input.go b/internal/tui/input.go
index ce526a2..c60fcb5 100644
--- a/internal/tui/input.go
+++ b/internal/tui/input.go
@@ -170,7 +170,7 @@ func (a *App) showTable() {
 
 	a.tableDialog.SetRows(0, data.GetRowCount()+5, 0)
 	a.table.SetContent(&data)
-	a.table.SetTitle(" " + node.Name + " ")
+	a.table.SetTitle(" " + tview.Escape(node.Name) + " ")
 	a.pages.ShowPage("Table")
 
 	a.app.SetFocus(a.table)
diff --git a/internal/tui/render.go b/internal/tui/render.go
index 81eee17..68d2d75 100644
--- a/internal/tui/render.go
+++ b/internal/tui/render.go
@@ -2,6 +2,8 @@ package tui
 
 import (
 	"strings"
+
+	"github.com/rivo/tview"
 )
 
 func (a *App) render(isUpdate bool) {
@@ -139,18 +141,19 @@ func (a *App) clearCanvas() {
 
 func (a *App) updateCanvas() {
 	builder := strings.Builder{}
-	var prevColor Color
 	for i, runes := range a.canvas {
 		cols := a.colors[i]
 
-		for j, r := range runes {
-			c := cols[j]
+		// Each line starts with the default color.
+		prevColor, start := White, 0
+		for j, c := range cols {
 			if c != prevColor {
+				builder.WriteString(tview.Escape(string(runes[start:j])))
 				builder.WriteString(ColorTags[c])
+				prevColor, start = c, j
 			}
-			builder.WriteRune(r)
-			prevColor = c
 		}
+		builder.WriteString(tview.Escape(string(runes[start:])))
 		builder.WriteString(ColorTags[White])
 
 		if i < len(a.canvas)-1 {
diff --git a/internal/tui/table.go b/internal/tui/table.go
index 57032db..b630988 100644
--- a/internal/tui/table.go
+++ b/internal/tui/table.go
@@ -35,7 +35,7 @@ func NewTable(nodes []Node, index int, nodesByName map[string]int) Table {
 
 func (t *Table) GetCell(row, column int) *tview.TableCell {
 	if row == 0 {
-		cell := tview.NewTableCell(t.header[column])
+		cell := tview.NewTableCell(tview.Escape(t.header[column]))
 		cell.SetAlign(tview.AlignCenter)
 		cell.SetExpansion(1)
 		return cell
@@ -54,7 +54,7 @@ func (t *Table) GetCell(row, column int) *tview.TableCell {
 		}
 		parent := t.nodes[t.nodesByName[node.Node().Factor.Given[column]]].Node()
 		text := parent.Outcomes[(row/stride)%len(parent.Outcomes)]
-		cell := tview.NewTableCell(text)
+		cell := tview.NewTableCell(tview.Escape(text))
 		cell.SetAlign(tview.AlignRight)
 		return cell
 	}
-- 
2.43.0


From bb0f3d966b3a1ded7b38d88376bc773ba2388261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:30 +0000
Subject: [PATCH 21/21] fix: refuse a variable with an identifier that is
 already in use

The identifiers were looked up but never recorded, so that a second variable
with the same ID was accepted and operations mixed up the two.
---
 ve/variables.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ve/variables.go b/ve/variables.go
index eacaf05..cb6bc78 100644
--- a/ve/variables.go
+++ b/ve/variables.go
@@ -25,6 +25,7 @@ func (v *Variables) AddVariable(id int, nodeType NodeType, outcomes uint16) Vari
 	if _, ok := v.ids[id]; ok {
 		panic(fmt.Sprintf("there is already a variable with ID %d", id))
 	}
+	v.ids[id] = true
 	v.variables = append(v.variables,
 		Variable{
 			id:       id,
-- 
2.43.0

