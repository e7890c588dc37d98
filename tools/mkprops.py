import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Posterior queries return the exact conditional distribution",
 "For a network of chance variables and evidence of positive probability, a query returns for every query variable its exact conditional distribution given the evidence, under the joint distribution that is the product of the row-normalised tables; entries are in declared outcome order, lie in [0,1] and sum to 1. The factor returned alongside is the joint probability of query variables and evidence. Neither the declaration order of variables, tables or parents, nor the number of outcomes, nor the order in which evidence is supplied or processed matters.",
 ["inputs","configurations"],"every graph structure, every table with non-negative entries and positive row sums, every evidence set of positive probability, every non-empty or empty query set, every map iteration order",
 "The tests query two or three fixed networks (sprinkler, umbrella, oil) with fixed numbers and mostly print the result; structure, table values, evidence sets and iteration order are unbounded.",
 ["network.go","ve/ve.go","ve/variables.go"],
 [("evidence restriction, hidden-variable elimination, final product","ve/ve.go solve/eliminateEvidence/eliminateHidden/removeHidden/multiplyAll"),("network to solver translation, normalisation of tables","network.go toVE, SolveQuery, solve")],
 observe=["Network.SolveQuery","VE.SolveQuery"])

p("C02","Answers depend only on the network and the request, not on earlier calls",
 "Solving a query, a utility or the policies leaves the network's variables, outcomes, parents and table values unchanged. The same request issued again later, after any sequence of other queries, utility requests and policy solutions with the same policies in force, gives the same answer as on a fresh network. Re-solving policies gives the same policies. A request that fails changes nothing. The caller's evidence and query are left unmodified, and overwriting a returned answer or reusing the evidence map affects no later answer.",
 ["histories","inputs"],"every sequence of solve calls on one network, every table content",
 "Tests issue at most one or two calls per network and never compare an answer with the one a fresh network gives.",
 ["network.go","ve/ve.go","ve/variables.go"],
 [("solver state rebuilt per call","network.go toVE"),("factor operations copy instead of mutating","ve/variables.go CreateFactor and operations"),("policies cleared on re-solve","network.go SolvePolicies")],
 state=[("policies","policies in force","network.go Network.policies")],
 observe=["Network.SolveQuery","Network.SolveUtility","Network.SolvePolicies","Network.Variables"])

p("C03","Expected utilities are the exact probability-weighted sums",
 "A utility request returns, for every combination of the query variables, the sum over all remaining variables of joint probability with the evidence times utility; divided by the corresponding evidence probability this is the conditional expected utility. Requesting one utility node counts exactly that node, unweighted; requesting the total adds all utility nodes, each multiplied by its weight in the total-utility node when the network has one, and by 1 otherwise.",
 ["inputs","configurations"],"every network with utility nodes (any number, with or without a weighting node, parents of the weighting node in any order), every table, weight, evidence and query",
 "Existing tests compare the total utility of one fixed umbrella network; several utilities, weights and single-utility requests are only printed.",
 ["network.go","ve/ve.go"],
 [("summation and weighting of utility factors","ve/ve.go sumUtilities, removeUtilities"),("weights taken from the total utility node","network.go prepareUtilityWeights, prepareUtilityNodes"),("normalisation by evidence probability","network.go NormalizeUtility")],
 observe=["Network.SolveUtility","Network.NormalizeUtility","VE.SolveUtility"])

p("C04","A solved decision policy maximises expected utility",
 "For a network with one decision, the solved policy refers only to variables the decision observes, and every row is a probability distribution over the decision's options. For every combination of observations that can occur, the row is spread evenly over exactly the options whose expected total (weighted) utility given these observations is maximal.",
 ["inputs","configurations"],"every one-decision network: any observed and hidden chance variables, any consequences of the decision, any utility nodes, every table value including ties",
 "Tests solve three fixed decision networks; the argmax regions and ties over all table values are never explored.",
 ["network.go","ve/ve.go","ve/variables.go"],
 [("policy extraction","ve/ve.go SolvePolicies/solvePolicies/findDecisionFactors, ve/variables.go Policy"),("conversion to named policy tables","network.go SolvePolicies")],
 observe=["Network.SolvePolicies","VE.SolvePolicies"])

p("C05","Sequential decisions are solved optimally, later decisions anticipated",
 "For decisions taken in sequence, where every later decision observes the earlier decisions and everything observed before, the solved policies together reach the maximum expected utility any combination of policies can reach, and the last decision's policy is optimal in every situation that can occur. Solving decision by decision and solving all at once both have this property.",
 ["inputs","configurations"],"every two- or more-stage decision network with no forgetting, every declaration order of the decisions, every table value",
 "Only the oil network with fixed numbers is solved in the tests.",
 ["network.go","ve/ve.go"],
 [("backward induction over topologically sorted decisions","ve/ve.go solvePolicies, sortTopological, getDecisionParents"),("stepwise re-solving with policies as chance factors","network.go SolvePolicies, policyFactors")],
 observe=["Network.SolvePolicies","VE.SolvePolicies"])

p("C06","Policies in force govern later answers unless explicitly overridden",
 "After policies are solved, queries and utilities treat each decision as a chance variable distributed by its policy given what it observes. When policies are to be ignored, a decision that has evidence is held at that value without being weighted by its policy, while decisions without evidence keep following theirs.",
 ["inputs","histories"],"every decision network, every evidence set over chance and decision variables, both settings of the ignore flag",
 "No test asks a query with evidence on a decision, with or without ignoring policies, and checks the numbers.",
 ["network.go"],
 [("policies re-entered as factors, skipped for overridden decisions","network.go policyFactors, toVE, solve")],
 observe=["Network.SolveQuery","Network.SolveUtility"])

p("C07","Flat table positions and outcome combinations correspond one to one",
 "For a factor over any variables, every outcome combination maps to a distinct position inside the table, in row-major order with the last variable varying fastest, and the inverse mapping returns exactly that combination. Reading and writing by outcome combination, taking a row, and indexing with missing data agree with this layout; missing data is reported instead of yielding a position.",
 ["inputs"],"every number of variables and outcomes (including one), every outcome combination, with and without missing entries",
 "Tests probe a few combinations of one or two fixed shapes.",
 ["ve/factor.go","ve/variables.go","network.go"],
 [("index arithmetic","ve/factor.go Index, IndexWithNoData, Outcomes, RowIndex, Row, Get, Set"),("table rows of network factors","network.go Factor.Row, rowIndex")],
 observe=["Factor.Index","Factor.Outcomes","Factor.IndexWithNoData","Factor.Row","Factor.RowIndex","Factor.Get","Factor.Set","bbn.Factor.Row"])

p("C08","Factor product and sum combine matching outcomes pointwise",
 "The product (sum) of any number of factors is a factor over the union of their variables, each once, whose value for every outcome combination is the product (sum) of the operands' values for the restriction of that combination to their own variables, whatever the order of variables in the operands. The operands are left unmodified and share no data with the result.",
 ["inputs"],"every number of factors, every overlap and order of variables, every value",
 "Tests multiply two or three small fixed factors.",
 ["ve/variables.go"],[("product and sum","ve/variables.go Product, Sum")],
 observe=["Variables.Product","Variables.Sum"])

p("C09","Restricting, summing out and marginalising reduce a factor exactly",
 "Restricting a factor to an observation keeps exactly the values for that outcome over the remaining variables in their order; summing out a variable gives for each combination of the remaining variables the sum over its outcomes; the marginal of a variable gives for each of its outcomes the sum over everything else. The operand is left unmodified.",
 ["inputs"],"every factor shape, every position of the variable, every outcome, every value",
 "Tests use one fixed 2x3 factor.",
 ["ve/variables.go"],[("reduction operations","ve/variables.go Restrict, SumOut, Marginal")],
 observe=["Variables.Restrict","Variables.SumOut","Variables.Marginal","Network.Marginal"])

p("C10","Rearranging and normalising preserve what each table entry means",
 "Rearranging a factor changes only the order of its variables: every outcome combination keeps its value. Normalising divides all values by their total; normalising for one variable moves it last and makes each of its rows with non-zero sum add up to 1 while keeping the proportions (rows summing to zero are kept); inverting gives the reciprocal of every value. The operand is left unmodified.",
 ["inputs"],"every factor shape, permutation, target variable and value",
 "Tests cover one or two fixed shapes; permutations of three or more variables with distinct outcome counts are not distinguished.",
 ["ve/variables.go","network.go"],[("rearrangement and normalisation","ve/variables.go Rearrange, Normalize, NormalizeFor, Invert"),("name based variants","network.go Rearrange, Normalize, NormalizeUtility")],
 observe=["Variables.Rearrange","Variables.Normalize","Variables.NormalizeFor","Variables.Invert","Network.Rearrange"])

p("C11","A derived policy is uniform over exactly the best options",
 "Deriving a policy for a variable from a factor gives a factor with that variable moved last, in which for every combination of the other variables exactly the outcomes with the maximal value get equal probabilities adding up to 1 and all others get 0. This holds for any number of outcomes and ties, and any sign or magnitude of the values.",
 ["inputs"],"every factor shape, every position of the variable, every value and tie pattern",
 "Tests use one fixed factor.",
 ["ve/variables.go"],[("argmax with ties","ve/variables.go Policy")],
 observe=["Variables.Policy"])

p("C12","Boolean logic operators implement their truth tables",
 "Every named boolean operator (not, and, or, xor, conditional and bi-conditional with their negated variants, equals, if-then variants) yields the table of its documented formula, parents enumerated true-first with the first parent varying slowest and the true outcome first. With a wrong number of parents or with arguments an error is returned; a returned table can be modified without affecting any table obtained later.",
 ["inputs","configurations"],"every operator name, every number of parents, every argument list, every sequence of lookups",
 "Only six operators are compared with expected tables in the tests.",
 ["logic/simple.go","logic/factor.go"],[("constant truth tables","logic/simple.go"),("name lookup","logic/factor.go Get")],
 observe=["logic.Get","Factor.Table","Factor.SetArgs"])

p("C13","Counting, selecting and bit operators hold for any number of parents",
 "For any number of true/false parents: counting operators put all probability on the outcome given by how many parents are true (or false, or how that count compares with the argument); selection operators put it on true exactly when the parent at the given zero-based position in the parent list is true, is false, or is the only true one; the bits operator puts it on the integer whose binary digits are the parents, first parent most significant. Invalid arguments give an error, never a crash or a malformed table.",
 ["inputs"],"every number of parents, every truth assignment, every argument",
 "Tests use three parents, and for selection only the middle one, where counting positions from either end gives the same answer.",
 ["logic/count.go","logic/given.go","logic/bits.go"],[("bit-pattern enumeration of parent rows","logic/count.go, logic/given.go, logic/bits.go Table")],
 observe=["logic.CountIs","logic.CountLess","logic.CountGreater","logic.CountTrue","logic.CountFalse","logic.Given","logic.GivenNot","logic.GivenExcl","logic.Bits"])

p("C14","Outcome-comparison operators hold for any parent size and argument",
 "For a single parent with any number of outcomes, the outcome operators put all probability on true exactly for the parent outcomes that equal the given index, differ from it, are among the given indices, are less than it, or are at least it, respectively. An index that is no outcome of the parent (for the two order comparisons, the number of outcomes itself is also allowed), a wrong number of arguments, or a number of parents other than one gives an error, never a crash or a malformed table.",
 ["inputs"],"every parent size, every index or list of indices",
 "Tests use one parent with four outcomes and one index each.",
 ["logic/outcome.go"],[("comparison tables","logic/outcome.go SetArgs, Table")],
 observe=["logic.OutcomeIs","logic.OutcomeIsNot","logic.OutcomeEither","logic.OutcomeLess","logic.OutcomeGreater"])

p("C15","A YAML document is loaded faithfully or rejected with an error",
 "Loading a YAML network yields exactly the described variables in document order with their names, types, outcomes, positions, colours and parents, the table rows concatenated in order, and for logic nodes the table of the named operator with its arguments. An unknown node type, an unknown or ill-parametrised operator, or a node with both table and logic is rejected with an error.",
 ["inputs"],"every document content that the YAML decoder accepts, every mix of tables and logic, every argument list",
 "One YAML document is loaded in the tests, and its content is not compared.",
 ["yml.go","logic/factor.go"],[("document to network conversion","yml.go FromYAML, toTable")],
 observe=["bbn.FromYAML","Network.Variables"])

p("C16","Saving to YAML and loading again reproduces the network",
 "Writing a network to YAML and reading the result back gives a network with the same name, description, and the same variables: name, type, parents, outcomes, position, colour and table values, so that all answers are the same. This includes decision, utility, weighting and logic nodes and trained networks.",
 ["inputs"],"every network that can be loaded, every table value",
 "The only round trip in the tests is a three-node network without description, colours, positions, decisions or utilities.",
 ["yml.go"],[("serialisation","yml.go ToYAML, FromYAML")],
 observe=["bbn.ToYAML","bbn.FromYAML"])

p("C17","A BIF-XML document is loaded faithfully or rejected with an error",
 "Loading a BIF-XML network yields exactly the described variables with their names, types, outcomes, parents, table values in order, and positions scaled to terminal cells. A variable without definition, an unknown type, a table whose length does not fit the outcomes, or an unparsable number or position is rejected with an error and never crashes.",
 ["inputs"],"every document the XML decoder accepts",
 "The single test loads one file and discards the result.",
 ["xml.go"],[("document to network conversion","xml.go FromBIFXML, parsePosition")],
 observe=["bbn.FromBIFXML"])

p("C18","Training yields relative frequencies and mean utilities of the samples",
 "After any sequence of samples, applying the training gives for each chance variable and each combination of parent outcomes the fraction of usable samples with each outcome, and for each utility node the arithmetic mean of its values in that combination. A sample whose value or parent value is missing is left out for that node only; a combination without any usable sample leads to an error. Weights of a total-utility node and decisions are not changed by training.",
 ["inputs","histories"],"every network, every sequence of samples with any pattern of missing values, every utility value",
 "Two tests with four complete samples each; utility means are only checked through a policy that does not change when all means are scaled.",
 ["training.go","network.go"],[("accumulation and averaging","training.go AddSample, UpdateNetwork")],
 state=[("data, counter","accumulated sums and counts","training.go Trainer")],
 observe=["bbn.Trainer.AddSample","bbn.Trainer.UpdateNetwork"])

p("C19","Training from a CSV file assigns every column to its variable",
 "Training from a data file uses for every variable the column with its name, wherever it is and whatever other columns exist, maps outcome labels to outcome positions, and treats the no-data marker as missing in every kind of column. Unknown labels, unparsable utilities, missing columns and a marker that is also an outcome label are reported as errors.",
 ["inputs"],"every column order, extra columns, every pattern of labels, numbers and missing entries",
 "The CSV path has no active test.",
 ["internal/tui/training.go","internal/tui/app.go","cmd/bbn/train.go"],[("column lookup and conversion","internal/tui/training.go TrainNetwork, prepare")],
 observe=["tui.TrainNetwork"])

p("C20","Ill-formed networks are rejected when they are built",
 "Building a network succeeds exactly when variable names are unique, every parent named by a variable's table exists, every utility node has parents which are either all utility nodes or none, at most one node has utility parents, and that node has as many outcomes as parents; otherwise an error is returned and nothing crashes. The node with utility parents, if any, is reported as the total-utility node.",
 ["inputs","configurations"],"every combination of names, node types, parents and factors",
 "No test builds an invalid network.",
 ["network.go"],[("construction checks","network.go prepareVariables, prepareUtilityNodes")],
 observe=["bbn.New","Network.TotalUtilityIndex"])

p("C21","Wrong evidence or query names are reported, valid ones always accepted",
 "Evidence on an unknown variable or with an unknown outcome, and unknown query or utility names, give an error and no answer; they are never ignored or taken for something else. Textual evidence is split into exactly one name and one value per entry or rejected. Valid evidence converts to a one-hot distribution at its outcome's position, whether or not anything was solved before.",
 ["inputs","histories"],"every name, label and entry string, every point in the life of a network",
 "One well-formed and one malformed evidence string are tested; unknown names never.",
 ["network.go","internal/tui/util.go"],[("name lookup","network.go solve, ToEvidence"),("parsing","internal/tui/util.go ParseEvidence")],
 observe=["Network.SolveQuery","Network.SolveUtility","Network.ToEvidence","tui.ParseEvidence"])

p("C22","The inference overview is complete and consistent with single requests",
 "The overview behind the command line and the interactive tool lists for every variable with evidence the one-hot distribution, for every other chance or decision variable its posterior, for every utility node its conditional expected utility followed by the total, and for a total-utility node each parent's weighted expected utility in the order of its parents followed by the total. The values are those exact inference gives for the evidence and policies in force.",
 ["inputs","configurations"],"every network with or without decisions, utilities and weighting node, every evidence of positive probability, both policy modes",
 "One test runs the overview on the sprinkler example and only checks for a nil error.",
 ["internal/tui/solve.go","cmd/bbn/inference.go","network.go"],[("overview assembly","internal/tui/solve.go Solve, solveQueries, solveUtility"),("command line entry","cmd/bbn/inference.go")],
 observe=["tui.Solve"])

p("C23","No sequence of key presses and mouse clicks breaks the interactive tool",
 "In the interactive tool no sequence of key presses and mouse clicks leads to a crash; the selected node and state always exist, and evidence is only ever an existing outcome of a chance or decision node. Confirming an outcome sets it as evidence, confirming the outcome already set removes it, the displayed distributions always belong to the current evidence, and moving a node changes only its position by one cell and never to a negative one.",
 ["histories","inputs"],"every finite sequence of keyboard and mouse events at any coordinates, starting from any loaded network",
 "The interactive application has no test beyond rendering a single node.",
 ["internal/tui/input.go","internal/tui/app.go","internal/tui/render.go"],[("event handlers","internal/tui/input.go"),("selection and evidence state","internal/tui/app.go App")],
 state=[("selectedNode, selectedState, evidence","current selection and evidence","internal/tui/app.go App")],
 observe=["tui.App.Run"])

p("C24","Nodes and edges are drawn inside the canvas and show the right values",
 "For every layout of nodes at non-negative positions, drawing nodes and edges stays inside the canvas. A node shows each outcome's label, a bar of ten cells whose filled length is the probability up to the bar's resolution (full cells, then at most one partial cell), and the percentage of that outcome in that outcome's line, marks the selected line or evidence, and shows placeholders for undefined values; clicking a line selects the outcome shown there.",
 ["inputs","configurations"],"every node size, label length, position, probability, selection and evidence flag; every pair of node positions",
 "One node with three fixed probabilities is rendered in the tests; edges never.",
 ["internal/tui/node.go","internal/tui/render.go","internal/tui/app.go"],[("node rendering","internal/tui/node.go NewNode, Render, drawBars, drawUtility, SelectedOutcome"),("edge routing","internal/tui/render.go renderEdge*"),("canvas size","internal/tui/app.go createCanvas")],
 observe=["tui.NewNode","Node.Render","Node.SelectedOutcome","tui.App.Run"])

p("C25","The table view labels every table entry with the right outcomes",
 "The table view of a node has one line per combination of parent outcomes and one column per parent and outcome, headed by their names. Each line shows the parent outcomes which that table row stands for and, for each outcome, the row's normalised percentage (or plain value for utilities).",
 ["inputs","configurations"],"every number of parents and outcomes, every table",
 "The table view is not tested; a wrong label order was a bug in the past (changelog, v0.2.0).",
 ["internal/tui/table.go"],[("stride arithmetic","internal/tui/table.go GetCell, NewTable")],
 observe=["tui.NewTable","Table.GetCell","Table.GetRowCount","Table.GetColumnCount"])

p("C26","Rectangle arithmetic of the layout is exact",
 "A point is contained in a rectangle exactly when it lies in its half-open extent. Extending a rectangle by another gives the smallest rectangle covering both; the centroid of a non-empty rectangle lies inside it.",
 ["inputs"],"all integer coordinates and sizes whose sums do not overflow",
 "Tests check two examples.",
 ["internal/tui/bounds.go"],[("interval arithmetic","internal/tui/bounds.go Contains, Extend, Centroid")],
 observe=["tui.Bounds"])

p("C28","Ill-fitting arguments of factor operations are refused",
 "Factor operations answer only for arguments that fit. Adding a variable with an identifier already in use, creating a factor with another number of values than its variables have outcome combinations, using a wrong number of outcomes as index of a value or row, restricting a factor to an observation its variable does not have, restricting, summing out, marginalising, normalising for or deriving a policy for a variable the factor does not contain, and rearranging a factor to a list of variables that is longer, shorter or contains a variable (or, by name, an unknown one) that the factor does not, is refused by a panic with no result and leaves the operand unmodified. Fitting arguments are not refused.",
 ["inputs"],"every factor, every identifier, observation, number of values and list of variables",
 "The tests only use fitting arguments; a missing refusal yields plausible numbers instead.",
 ["ve/variables.go","ve/factor.go","network.go"],[("guards of the operations","ve/variables.go AddVariable, CreateFactor, Restrict, SumOut, Policy, Rearrange, Marginal, NormalizeFor"),("guards of indices","ve/factor.go Index, IndexWithNoData, Outcomes, RowIndex")],
 observe=["ve.Variables","ve.Factor","Network.Rearrange","Network.Marginal"])

p("C27","Floating-point answers stay close to the exact ones",
 "For networks of practical size, every returned probability or utility differs from the exactly computed one only by accumulated rounding, with a relative error far below what is displayed. No intermediate overflow or underflow turns a well-defined answer into an undefined one.",
 ["inputs"],"every network and table with representable values",
 "Rounding depends on every table value and on the order of elimination; tests compare single numbers.",
 ["ve/variables.go","ve/ve.go"],[("64-bit float arithmetic","ve/variables.go")],
 observe=["Network.SolveQuery","Network.SolveUtility"])

open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
