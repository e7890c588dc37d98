# property, level note, what is outside the bounds, harnesses (name, bounds, markers that must be reached)

prop("C01", "All tables of the listed network shapes at once (table entries symbolic), posteriors and joint factors compared with brute-force enumeration.",
     ["networks outside the listed shapes (up to 9 nodes)", "evidence of probability zero", "more than one map iteration per query in a non-default order"],
     h("Query3", "all DAGs over 3 nodes with 2 or 3 outcomes, all declaration orders of variables and tables, every evidence set and query variable, every positive table"),
     h("Query4", "chain, tree, diamond, v-structure shapes of 4 nodes, 3 declaration orders, every positive table"),
     h("Query5", "5-node shapes, selected evidence, every positive table"),
     h("QueryOrders", "3- and 4-node networks with one map iteration per path in any rotation or reversal", map_orders=1),
     h("QueryTables", "tables of arbitrary positive rows that do not sum to 1"),
     h("QueryZeros", "tables with zero entries at symbolic places, evidence of positive probability"),
     h("QueryWide", "one variable with more than 256 outcomes"),
     h("QueryObserved", "3 nodes, every evidence, queries over observed and unobserved nodes together"),
     h("QueryStar", "a node with 5 or 6 children or 4 to 5 parents, some tables symbolic"),
     h("QueryLarge", "7 shapes of 8 and 9 nodes, 6 kinds of request with up to 7 observations, 3 declaration orders, some distributions symbolic"),
     h("QueryChain", "chains of 12 to 260 nodes, the first distribution symbolic"),
     h("QueryStarWide", "a node with 9 to 33 children, most of them observed"),
     h("QueryBig", "a node with 10 parents (2048 entries), one distribution symbolic"),
     h("QueryRepeat", "names that occur more than once in a query, every positive distribution"),
     h("VeQuery", "the solver used directly with its own variables, 8 shapes of 4 nodes, every positive table"),
     h("QueryAll4", "every DAG over 4 binary nodes", tier="thorough"))
prop("C02", "Every request of a sequence is compared with the same request on a fresh network.",
     ["sequences longer than those listed", "concurrent requests"],
     h("History", "sequences of 3 requests (queries, utilities, policies) on decision networks, table entries symbolic, then any request again"),
     h("HistoryChance", "sequences on chance networks with arbitrary positive tables"),
     h("HistoryPairs", "any two of 14 requests that differ in one respect, policies solved before or in between, wrong requests in between, one evidence map used throughout, returned data overwritten by the caller"),
     h("HistoryLong", "sessions of 9 to 80 (thorough: 300) requests, returned data overwritten by the caller"),
     h("HistoryTrained", "tables changed by training between the requests"),
     h("HistoryOrders", "the same with a map iteration per path in another order", map_orders=1))
prop("C03", "Utilities compared with brute-force sums for all utility values and all positive distributions.",
     ["more than 6 utility nodes", "networks beyond the listed shapes"],
     h("Utility", "1 to 3 utility nodes, with evidence, every utility value"),
     h("UtilityTotal", "total-utility node with symbolic weights, declared anywhere, parents in any order"),
     h("UtilityOrders", "one map iteration per path in another order", map_orders=1),
     h("UtilityTables", "unnormalised chance tables"),
     h("UtilityAwkward", "names that are parts of each other or differ in case"),
     h("UtilityLarge", "4 to 6 utility nodes with or without weights over 6 chance nodes, utilities, weights and two distributions symbolic"),
     h("UtilityMany", "9 to 20 utility nodes with or without weights"),
     h("NetNormalize", "utilities divided by probabilities through the network, 0 to 2 query variables, with and without evidence, 3 declaration orders"),
     h("VeUtility", "the solver used directly, 2 utilities with or without weights"),
     h("UtilityWide", "a parent with 255 to 300 outcomes"))
prop("C04", "Every row of the solved policy is compared with brute-force expected utilities for all utility values.",
     ["more than 3 options except for ties", "observations of probability zero"],
     h("Policy1", "one decision with 2 or 3 options, observed and hidden chance variables, consequences, utilities symbolic"),
     h("Policy1Probs", "probabilities symbolic, utilities concrete"),
     h("Policy1Orders", "one map iteration per path in another order", map_orders=1),
     h("Policy1Unused", "decisions nothing depends on"),
     h("Policy1Ties", "up to 7 options, any set of them equally good"))
prop("C05", "The value reached is compared with all combinations of deterministic policies.",
     ["more than 3 decisions", "networks beyond the listed shapes"],
     h("Policy2", "two decisions, utilities symbolic, all declaration orders"),
     h("Policy2All", "no combination of deterministic policies does better"),
     h("Policy2Orders", "one map iteration per path in another order", map_orders=1),
     h("Policy3", "three decisions in sequence"),
     h("PolicyAwkward", "names that are parts of each other or differ in case"))
prop("C06", "Queries and utilities after solving compared with the network in which decisions are chance nodes with the policy as table.",
     ["more than 3 decisions"],
     h("InForce3", "three decisions with reports whose distributions are symbolic, any evidence on the decisions"),
     h("InForce", "one decision, every evidence set, both settings of the ignore flag"),
     h("InForce2", "two decisions"),
     h("PolicyAwkward", "names that are parts of each other or differ in case", "in force"),
     h("InForceOrders", "one map iteration per path in another order", map_orders=1))
prop("C07", "Indices are symbolic integers over all valid and missing values.",
     ["more than 6 variables"],
     h("FactorIndexMany", "4 to 8 variables, indices symbolic, missing data"),
     h("FactorIndex", "0 to 3 variables of 1 to 4 outcomes, indices symbolic"),
     h("FactorIndexWide", "numbers of outcomes up to 65535, indices symbolic"),
     h("FactorRow", "1 to 3 variables of 1 to 3 outcomes, values symbolic"),
     h("NetworkRow", "tables of a network, 0 to 3 parents of 1 to 3 outcomes, values symbolic, missing data", "row", "missing"))
prop("C08", "Values symbolic.", ["more than 8 operands"],
     h("FactorProductMany", "5 to 8 operands over 5 variables, one of them possibly twice"),
     h("FactorProduct", "one or two factors over any subsets and orders of three variables"),
     h("FactorProduct3", "three and four factors"))
prop("C09", "Values symbolic.", ["more than 5 variables"],
     h("NetRearrange", "answers rearranged by all or some names, marginalised and normalised through the network, 1 to 3 variables in any order, with and without evidence"),
     h("FactorReduceMany", "2 to 5 variables created in another order than they are used in, two reductions in a row"),
     h("FactorReduce", "1 to 3 variables of 1 to 3 outcomes"),
     h("FactorBig", "a variable with more than 256 outcomes"))
prop("C10", "Values symbolic.", ["more than 5 variables"],
     h("NetRearrange", "answers rearranged by all or some names, marginalised and normalised through the network, 1 to 3 variables in any order, with and without evidence"),
     h("FactorRearrangeMany", "3 to 5 variables created in another order than they are used in"),
     h("FactorRearrange", "up to 4 variables, all permutations"),
     h("FactorNormalize", "values of any sign including rows of zeros"))
prop("C11", "Values symbolic, all orderings and ties.", ["more than 3 options for arbitrary values"],
     h("FactorPolicy", "up to 3 variables, arbitrary values"),
     h("FactorPolicyMany", "3 and 4 variables, any one row arbitrary"),
     h("FactorPolicyTies", "up to 6 options, number and places of the best ones symbolic"))
prop("C28", "Identifiers, observations and names are symbolic; a call is refused exactly if it does not fit.", ["factors over more than 4 variables", "outcome indices out of range; a variable listed twice instead of another one"],
     h("MisuseIds", "1 to 4 (thorough 6) variables with 7 sets of identifiers and a further one with any identifier from -8 to 8 or one of 6 far ones"),
     h("MisuseCreate", "14 shapes, 0 to 3 more values than needed"),
     h("MisuseVariable", "5 operations, 6 shapes, 7 identifiers"),
     h("MisuseObservation", "13 shapes, any observation from -12 to 12 and 16 far ones"),
     h("MisuseRearrange", "5 shapes, 4 faults at any place"),
     h("MisuseIndices", "7 functions, 0 to 4 variables, up to 2 indices too many, any outcomes"),
     h("MisuseNames", "any one-byte name in 4 calls"))
prop("C12", "Parents are symbolic booleans.", ["more than 20 parents"],
     h("LogicBool", "21 operators by name and constructor, 0 to 20 parents, 0 to 2 arguments of any value", "table", "error"),
     h("LogicBoolTwice", "any operator after any operator whose table was overwritten with arbitrary values"),
     h("LogicArgs2", "11 unknown names"))
prop("C13", "Parents are symbolic booleans, arguments symbolic 64-bit integers.", ["more than 10 (thorough: 13) parents"],
     h("LogicCount", "0 to 5 parents, any 64-bit argument"),
     h("LogicCountOutcomes", "0 to 5 parents"),
     h("LogicBits", "0 to 4 parents"),
     h("LogicGiven", "0 to 5 parents, any 64-bit index", "table", "error"),
     h("LogicArgs", "0 to 3 arguments"),
     h("LogicCountMany", "6 to 10 (thorough: 13) parents, any 64-bit argument", "counts", "compare"),
     h("LogicGivenMany", "6 to 10 (thorough: 13) parents, any valid index"),
     h("LogicBitsMany", "5 to 9 (thorough: 10) parents"),
     h("LogicSequence", "two operators by name one after another"))
prop("C14", "Outcomes and indices are symbolic 64-bit integers.", ["more than 129 outcomes", "a number of outcomes that is not the parent's: the operators are not told the parent"],
     h("LogicOutcome", "4 operators, any 64-bit index, -2 to 7 outcomes, 0 to 3 parents", "table", "error", "parents"),
     h("LogicOutcomeEither", "0 to 3 indices of any 64-bit value, -1 to 5 outcomes", "table", "error"),
     h("LogicOutcomeMany", "18 numbers of outcomes from 6 to 129, any valid index"),
     h("LogicOutcomeArgs", "0 to 5 arguments"))
prop("C15", "Table values and positions symbolic; the YAML library itself is modelled (its parser is the real one, the mapping to Go structs follows the struct tags).",
     ["document texts other than those generated by the harness"],
     h("YamlLoad", "6 variables of all types, 1 to 3 outcomes, positions and table values symbolic, 3 declaration orders"),
     h("YamlLogic", "35 operators with their arguments, upper and lower case"),
     h("YamlLogicMix", "two logic nodes of 9 kinds in one document"),
     h("YamlReject", "40 faults at 3 places"),
     h("YamlUnknown", "52 names that resemble operators and node types"),
     h("YamlStyles", "one network in 3 styles with 9 variants (blocks, flow, comments, line ends, byte order mark), numbers symbolic"),
     h("YamlNumbers", "14 spellings of numbers at 3 places"),
     h("YamlRagged", "1 to 4 rows of 0 to 3 values"),
     h("YamlLarge", "60 variables, 24 outcomes, 192 rows, one value symbolic", reach=["end"]),
     h("FileLoad", "file name extensions"))
prop("C16", "Table values and positions symbolic.",
     ["tables whose length is no multiple of the number of outcomes; variables without outcomes"],
     h("YamlRoundTrip", "chance and decision nodes, 1 to 3 outcomes, 3 declaration orders"),
     h("YamlRoundTripUtility", "utility and weighting nodes, before and after solving policies"),
     h("YamlRoundTripNames", "48 texts that need care in YAML at 5 places"),
     h("YamlRoundTripLogic", "35 operators"),
     h("YamlRoundTripLarge", "a table of 64 rows, one of 504 rows, 40 outcomes, 30 variables, texts of 300 characters"),
     h("YamlNumbers", "14 numbers at 3 places"),
     h("YamlTrained", "4 samples"))
prop("C17", "Table values and positions symbolic; the XML decoder's mapping to structs is modelled.",
     ["document texts other than those generated by the harness"],
     h("XmlLoad", "4 variables of all types, 1 to 3 outcomes, 3 orders of variables and of definitions, 5 kinds of white space between values, positions any integers"),
     h("XmlReject", "28 faults"),
     h("XmlLarge", "40 variables, definitions in another order, two values symbolic", reach=["end"]),
     h("XmlStyles", "one network in 84 ways of writing it (comments and character data sections in tables, unused elements, order of elements, entities), numbers symbolic"),
     h("XmlNumbers", "15 spellings of numbers at 3 places"),
     h("XmlNames", "12 pairs of names and labels that are easily confused, with escapes"),
     h("XmlPosition", "4 spellings, positions any non-negative integers"),
     h("FileLoad", "file name extensions"))
prop("C18", "Samples are every combination of outcomes and missing values, utilities symbolic; tables compared with counts and sums kept by the harness.",
     ["more samples of arbitrary kind than listed", "outcome indices outside the variable's outcomes (not allowed as argument)"],
     h("TrainChance", "up to 4 samples (thorough 5) of one- and two-node networks, every pattern of values and missing values", reach=["trained", "incomplete"]),
     h("TrainParents", "three parents of different sizes in all 6 orders, every row seen before, then every further sample", reach=["trained"]),
     h("TrainUtility", "2 utility nodes (and weights) with symbolic values, 2 arbitrary samples (thorough 3) on empty or filled rows, both declaration orders", reach=["trained", "incomplete"]),
     h("TrainMany", "12 samples (thorough 24) with symbolic utilities, with an update in between", reach=["trained"]),
     h("TrainLarge", "200 to 600 samples, one utility symbolic", reach=["trained"]),
     h("TrainHuge", "65541 samples", reach=["trained"]),
     h("TrainWide", "a node with 9, 17 or 260 outcomes, one arbitrary utility", reach=["trained"]),
     h("TrainQuery", "answers of the trained network", reach=["trained"]),
     h("TrainBare", "a decision without factor"),
     h("TrainLoaded", "networks loaded from YAML or BIF-XML in which two nodes have the same logic or table, 3 samples", reach=["trained", "incomplete"]))
prop("C19", "The CSV reader of the standard library is executed too; numbers are symbolic.",
     ["file texts other than those generated by the harness"],
     h("TrainCSV", "3 column layouts, 4 delimiters, 4 no-data markers, 5 rows (thorough 6), utilities symbolic", reach=["trained"]),
     h("TrainCSVLarge", "120 lines of 30 columns with labels of 300 characters", reach=["trained"]),
     h("TrainCSVLabels", "9 pairs of labels, quoted or not, 4 rows (thorough 6)", reach=["trained", "incomplete"]),
     h("TrainCSVReject", "16 faults at any line"),
     h("CmdTrain", "the training command with 2 orders, 4 no-data markers, 4 delimiters, utilities symbolic", reach=["trained"]),
     h("CmdToolTrain", "the interactive tool started with a data file, 3 markers, 3 delimiters, 2 arbitrary rows"),
     h("CmdTrainReject", "8 faults", reach=["rejected"]))
prop("C20", "Names are arbitrary bytes, node types symbolic; construction succeeds exactly under the stated rules.",
     ["more than 12 nodes; more than 3 parents except of a total-utility node", "names longer than 3 bytes"],
     h("BuildMany", "12 nodes, any name, type or further parent of any one of them; a total-utility node with 5 parents", reach=["built", "rejected"]),
     h("Build2", "1 or 2 nodes with arbitrary one-byte names and types, up to two arbitrary parents each, 0 to 2 outcomes, with or without table", reach=["built", "rejected"]),
     h("Build3", "3 nodes with arbitrary one-byte names and types, one arbitrary parent each at most", reach=["built", "rejected"]),
     h("BuildTotal", "4 nodes (thorough 5) of arbitrary types, the last with two (thorough three) arbitrary parents, 1 to 3 outcomes, both orders", reach=["built", "rejected"]),
     h("BuildNames", "names of 0 to 3 arbitrary bytes", reach=["built", "rejected"]))
prop("C21", "Names, values and entries are arbitrary byte strings up to the stated length; the network is in every state of its life.",
     ["names and values longer than 3 bytes, entries longer than 6 (thorough 8)", "splitting of command-line flags (done by a library)", "evidence on a utility node with its own outcome"],
     h("EvidenceNames", "name and value of 0 to 3 arbitrary bytes, alone or with further evidence, 5 states of the network, with and without total-utility node and with a decision that has no table", reach=["accepted", "rejected"]),
     h("QueryNames", "name of 0 to 3 arbitrary bytes, alone, before or after another one", reach=["accepted", "rejected"]),
     h("UtilityNames", "name of 0 to 3 arbitrary bytes", reach=["accepted", "rejected"]),
     h("NamesLong", "names and values of up to 30 bytes with any byte at any place", reach=["accepted", "rejected"]),
     h("ToEvidence", "name and value of 0 to 3 arbitrary bytes, 5 states of the network", reach=["accepted", "rejected"]),
     h("CmdEvidence", "7 lists of evidence given to the inference command or the interactive tool", reach=["rejected"]),
     h("ParseEvidence", "up to 2 entries of 0 to 6 (thorough 8) arbitrary bytes", reach=["accepted", "rejected"]))

prop("C25", "Table view over all numbers in the table.", ["text layout inside the tview widget"],
     h("TableView", "0 to 3 parents with 1 to 3 outcomes, 1 to 3 (thorough 4) outcomes, chance and decision nodes, 3 variable orders, any non-negative table with positive row sums"),
     h("TableViewUtility", "1 to 3 parents with 1 to 3 outcomes, any utilities up to 100000"),
     h("TableViewLarge", "up to 300 lines, 5 parents, 9 outcomes, one value arbitrary"),
     h("TableViewNames", "13 names by 13 labels"),
     h("TableShown", "the table page of any node of 3 documents, opened by key or mouse"))

prop("C26", "Rectangle arithmetic over all integers in range.", ["coordinates or sizes beyond 2^40"],
     h("RectContains", "coordinates within 2^40, sizes 0 to 2^40"),
     h("RectExtend", "coordinates within 2^40, sizes 1 to 2^40"),
     h("RectCentroid", "coordinates within 2^40, sizes 1 to 2^40"))

prop("C24", "Nodes, edges and clicks over all values and positions.", ["text layout inside the tview widget", "negative positions, unknown colours"],
     h("NodeBars", "1 to 3 (thorough 4) outcomes, any probability of one of them, 4 states shown before, any selection and evidence mark, any position", seconds=150),
     h("NodeUndefined", "1 to 3 outcomes, undefined values, 4 states shown before"),
     h("NodeLabels", "5 names, 6 sets of labels, chance and decision nodes, 5 colours"),
     h("NodeUtility", "1 to 3 outcomes, any utility in -9999999..99999999, 4 states shown before"),
     h("LayoutEdge", "an edge between two nodes, one of them anywhere in 0..64 by 0..20 (thorough: 0..90 by 0..30)"),
     h("LayoutThree", "three nodes with 2 edges, one of them anywhere in 0..40 by 0..14 (thorough: 0..80 by 0..24), moved in any direction"),
     h("LayoutMany", "a node with 2 to 7 parents on either side, any parent or the child moved in any direction"),
     h("LayoutNames", "13 names and labels"),
     h("LayoutColors", "two nodes of 3 colours"),
     h("NodeColors", "17 colours, 3 types"),
     h("NodeUtilityWide", "15 utilities of up to 300 digits at any place"),
     h("NodeClick", "1 to 4 (thorough 6) outcomes, any position and point"))

prop("C23", "Every key, character and mouse position is symbolic; what is on the screen is compared with a model of the tool after each event.",
     ["text layout inside the tview widgets", "terminals of other sizes than 100 by 40", "longer sequences of free events than listed: longer ones are covered as any single event in any state of selection, evidence and policy mode"],
     h("AppStepChain", "any key, character or click on the graph, from any selected outcome with any evidence on its node, the others without or with evidence (thorough: any evidence)", reach=["end"]),
     h("AppStepDecision", "the same with a decision and a utility", reach=["end"]),
     h("AppStepWeighted", "the same with weighted utilities", reach=["end"]),
     h("AppStepImpossible", "the same with evidence that cannot occur", reach=["end"]),
     h("AppTwo", "any two events, 3 documents", reach=["end"], seconds=150),
     h("AppOverlap", "any event where nodes lie upon each other", reach=["end"]),
     h("AppScrolled", "any event where the graph is scrolled by up to 30 rows and 80 columns", reach=["end"]),
     h("AppDialog", "any event on the help, information or table page, 3 documents", reach=["end"]),
     h("AppAnywhere", "any buttons at any place, then a release, wheel or drag at any place, then a double click or not, on all pages", reach=["end"]),
     h("AppAfter", "evidence set, then 8 things that do not change it, then 5 keys or any click, 3 documents", reach=["end"]),
     h("CmdTool", "the tool started by its command with any evidence, with or without training data, then any event", reach=["end"]),
     h("AppLarge", "any event on a network of 8 nodes with two decisions and up to 11 outcomes, larger than the screen, 3 sets of evidence, scrolled or not", reach=["end"], seconds=150),
     h("AppMoves", "3 (thorough 4) moves of two nodes in any directions, 3 documents", reach=["end"]),
     h("AppMove", "3 (thorough 5) moves of any node in any directions, then the saved document", reach=["end"]))

prop("C22", "The overview is compared with brute-force enumeration for all table entries.",
     ["evidence of probability zero (shown as undefined, see C23, C24)", "more than 2 decisions"],
     h("OverviewChance", "4 shapes of three chance nodes, every distribution, every evidence, both policy modes", reach=["overview"]),
     h("Overview1", "one decision, 6 shapes, utilities or the first distribution arbitrary, each variable with or without evidence (thorough: every evidence)", reach=["overview"]),
     h("Overview2", "two decisions, 4 shapes, the first distribution arbitrary", reach=["overview"]),
     h("OverviewObserved", "two decisions, 4 to 7 observations at once, one distribution symbolic, both modes", "overview"),
     h("OverviewMany", "5 chance nodes, 4 to 7 utility nodes with or without weights, one of them, the weights and a distribution arbitrary, 4 sets of evidence", reach=["overview"]),
     h("OverviewTotal", "1 to 3 utility nodes with or without weights in any order of parents, all numbers arbitrary, every evidence", reach=["overview"]),
     h("CmdInfer", "the inference command on 4 shapes", reach=["printed"]),
     h("OverviewOrders", "one map iteration per path in another order", map_orders=1, reach=["overview"]))
