import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=mech,where=", ".join(files))],observe_at=[observe])))
T="include/vara/Feature/FeatureModelTransaction.h"
FM="include/vara/Feature/FeatureModel.h"
FMC="lib/Feature/FeatureModel.cpp"
TC="lib/Feature/FeatureModelTransaction.cpp"
p("C01","Every committed feature model is a well-formed tree",
  "After any history of edits whose commit reported success, the feature model has exactly one root, every other feature has exactly one parent whose children contain it, no node is its own ancestor, and every feature or group node is reachable from the root exactly once. Features are found under their own unique name, and the reported size, the lookup by name and the traversal describe the same set of features. An edit that would break this is refused with an error and never crashes.",
  ["histories"],"every sequence of edits through transactions or edit helpers, over all trees, groups, names and parents",
  "The unit tests apply one or two edits to hand-made models of at most a handful of features; the guarantee is about every history, including re-parenting below a descendant, replacing the root and mixing groups with direct children.",
  [T,FM,"include/vara/Feature/FeatureTreeNode.h"],
  "Transactions queue or directly run modification objects that edit parent pointers and edge sets; a consistency checker runs at commit.",
  "public accessors of the model: features, parents, children, relationships, size, lookup, iteration")
p("C02","In-place edits: invisible before commit, ordered, stop at the first error",
  "Edits requested in an in-place transaction change nothing until commit; commit applies them in the order they were requested, each having exactly its documented effect and leaving everything else unchanged, and then reports success. If an edit cannot be applied (unknown feature, parent or child, name already taken, removing an inner feature non-recursively, a cycle), commit stops there, reports the error for that reason, and neither that edit nor any later one has an effect. A transaction that was aborted or already committed never changes the model again and its commit reports that it was aborted.",
  ["histories"],"every sequence of requested edits, commits and aborts, for every model and every position of a failing edit",
  "Tests commit single successful edits and a few single failing ones; they never observe what a failure in the middle of several edits leaves behind, nor the order of edits on the same feature.",
  [T],"A vector of queued modifications executed in a loop at commit, with error codes propagated through a result type.",
  "model state before commit and after commit or abort, and the returned result")
p("C03","Copy transactions never change the model they were opened on",
  "A copy transaction works on a private copy: whatever edits are made, committed or aborted, the original model stays exactly as it was. Each edit takes effect on the copy immediately with the same outcome and error as an in-place edit, and commit hands out a model equal to the original plus exactly those edits. Aborting, or committing a second time, hands out no model.",
  ["histories"],"every sequence of copy-mode edits with commit or abort at any point, over every model",
  "Tests perform a single copy-mode edit and look at one or two features; they do not compare whole models or histories, and not every kind of edit is exercised in copy mode.",
  [T,FMC],"The transaction clones the model when opened, translates features of the original by name and runs modifications eagerly.",
  "full state of the original and of the committed copy")
p("C04","A cloned model is equal to its original and independent of it",
  "Cloning any valid feature model yields a model with the same name, path and commit, the same tree of features and groups, the same feature attributes (kind, optionality, output string, values, step function, source locations) and the same constraints. The clone refers only to its own nodes, so later edits or destruction of either model never affect the other.",
  ["inputs","histories"],"every valid feature model, followed by any edits to either model",
  "The tests clone a few models and compare a few fields; they do not cover all attributes, mixtures of grouped and direct children, or destruction of the original.",
  [FMC,"lib/Feature/FeatureModelBuilder.cpp","include/vara/Feature/Constraint.h"],
  "clone() re-creates every feature through the model builder, then edges, relationships and constraints.",
  "projection of both models, after edits and after destroying one of them")
p("C05","The solver enumerates exactly the valid configurations, each once",
  "For any feature model, asking for all configurations yields each assignment of a value to every feature that satisfies the model exactly once, and no other assignment: the root is selected, children need their parent, mandatory children outside groups follow their parent, an alternative group has exactly one and an or-group at least one selected child whenever its parent is selected, numeric features take one of their allowed values, and every constraint holds. A model with no such assignment is reported as unsatisfiable.",
  ["inputs","configurations"],"all feature models with any mixture of optional/mandatory/grouped/numeric features and constraints, and all their configurations",
  "Tests count configurations for a few fixed models; a wrong encoding of one interaction (an optional parent of a group, a nested group, a numeric step) keeps these counts.",
  ["lib/Solver/Z3Solver.cpp","lib/Solver/SolverFactory.cpp","include/vara/Solver/ConfigurationFactory.h"],
  "Features, groups and constraints are translated to SMT assertions; enumeration adds a blocking clause per model found.",
  "the multiset of configurations returned by the public factory")
p("C06","Solver queries agree with each other in every order of calls",
  "For the same model, asking whether it has a valid configuration, how many there are, for the first N, for all, and iterating lazily describe the same set of configurations: the count equals the size of the set, asking for N yields min(N, count) distinct members, and validity is reported exactly if the set is non-empty. Stepping a solver yields a new valid configuration each time until it reports exhaustion, reading the current configuration repeatedly never advances it, and adding an element twice, out of order or with unknown features is reported as an error without changing the set.",
  ["histories","inputs"],"all sequences of solver and iterator calls over all models",
  "Tests call one query per model in one fixed order; the agreement between the queries and over interleaved current/next/has-valid calls is never checked.",
  ["include/vara/Solver/ConfigurationFactory.h","include/vara/Solver/Solver.h","lib/Solver/Z3Solver.cpp"],
  "A stateful solver caches the current model and excludes it after every step; the factory wraps it in an input iterator.",
  "results and errors of the solver interface and of the factory")
p("C07","Constraints restrict configurations exactly as their operators say",
  "A configuration is valid with respect to a constraint exactly if the constraint evaluates to true under the ordinary meaning of its operators: logical not/and/or/xor/implication/equivalence/exclusion and integer arithmetic and comparison over the values of the features. Mixed constraints read a selected boolean feature as 1 and a deselected one as 0, hold vacuously if the constraint requires all its boolean features and one of them is deselected, and are negated if marked so.",
  ["inputs","configurations"],"all constraint expressions over all operators, nesting and operand values",
  "Tests use one or two instances per operator on one model; operator order (subtraction, division, comparison), nesting and negation need all operand values.",
  ["lib/Solver/Z3Solver.cpp","include/vara/Feature/Constraint.h"],
  "A visitor translates the constraint tree bottom-up to SMT expressions, with a special mode for mixed constraints.",
  "configurations the solver returns for a model with the constraint")
p("C08","Constraint text is parsed by fixed precedences and prints back to itself",
  "The text of a constraint is read with the documented operator precedences, left-associatively, with unary operators binding tightest and parentheses overriding, and word and symbol operators meaning the same; whitespace, line breaks and redundant parentheses make no difference. Text that is not a well-formed expression is rejected as a whole and never crashes. Printing any parsed constraint yields text that parses to the same constraint again.",
  ["inputs"],"all token sequences, well-formed or not, and all constraint trees",
  "Tests parse some thirty fixed strings; precedence is a relation over all pairs of operators in all nestings and rejection must hold for every malformed text.",
  ["include/vara/Feature/ConstraintParser.h","include/vara/Feature/Constraint.h"],
  "A hand-written lexer produces a token deque that a precedence-climbing parser consumes.",
  "the tree built from a text, its printed form, and its re-parse")
p("C09","The fluent constraint builder builds what the written expression means",
  "Building a constraint by a sequence of builder calls yields the same constraint as reading the corresponding expression as text, with the same precedences, associativity and bracketing. A call sequence that is not a complete well-formed expression is refused, and never crashes.",
  ["inputs","histories"],"all sequences of builder calls",
  "Tests build a dozen fixed expressions; agreement with the parser over all nestings of operators and brackets, and refusal of every malformed sequence, is not reached.",
  ["include/vara/Feature/ConstraintBuilder.h","include/vara/Feature/ConstraintParser.h"],
  "An operator/operand stack machine driven by chained calls and a precedence table.",
  "constraint returned by the builder and its printed form")
p("C10","Writing a model to XML and reading it back preserves it",
  "Every feature model expressible in the XML format that is written out and read back is unchanged: name, root path, commit, the tree with its alternative groups, every feature's kind, optionality, output string, value range or list with step function, source locations with all their parts, and all constraints. What is written always passes the library's own validation, and a model read from a written document is written and read again without any change.",
  ["inputs"],"all feature models whose root carries a reserved root name and whose groups are alternatives, with all attributes",
  "The tests round-trip a few stored models, comparing fragments of text; attributes absent from them are never compared.",
  ["lib/Feature/FeatureModelWriter.cpp","lib/Feature/FeatureModelParser.cpp"],
  "The writer walks features, relationships and constraints into an XML document that the parser reads through the model builder.",
  "model state before and after the round trip; written text")
p("C11","XML import means the document, whatever the order of its entries",
  "Importing an XML model yields exactly the features, attributes, tree, exclusions, implications and constraints that the document states, whatever the order of the options, of the names within an entry and of XML attributes, and whatever the white space, comments and CDATA sections around them, with siblings that all mutually exclude each other and are all mandatory becoming an alternative group. Documents that do not validate against the format's DTD, contradict themselves about a parent, define a name twice, form a cycle or refer to undefined options yield no model, and never crash. Verification accepts every document that import accepts.",
  ["inputs"],"all documents over the format, all permutations of their entries, and documents with any single defect",
  "Tests import a dozen stored files; order-independence and the rejection of every malformed variant need families of documents.",
  ["lib/Feature/FeatureModelParser.cpp","lib/Feature/FeatureModelBuilder.cpp",FMC],
  "A DTD-validated DOM walk that feeds a deferred builder, then a pass that detects alternative groups.",
  "model produced by the import entry points, or its absence")
p("C12","Merging keeps everything of the first model and adds what the second has more",
  "Merging two feature models changes neither of them and yields a well-formed model that contains every feature, attribute, group and constraint of the first, every feature that only the second has below the parent of the same name with its attributes, and for shared features the union of their source locations. It fails, yielding no model, exactly if a shared feature has different parents, or in strict mode different kind, optionality, group membership or values, or if the roots cannot be reconciled. Merging a model with itself yields an equal model.",
  ["inputs"],"all pairs of feature models, strict and non-strict",
  "Tests merge a few pairs with one difference each; the result must be right for every overlap of two trees and every kind of difference.",
  [TC],"A recursive walk over the second tree that compares with, or copies into, a copy transaction on the first.",
  "merged model or its absence, and both inputs afterwards")
p("C13","Bulk removal removes what it can and returns exactly the rest",
  "Removing a set of features at once deletes exactly those that can be deleted, leaves of the tree in any case and with recursive removal whole subtrees, treating a feature and its listed descendants consistently whatever the order of the list. It returns exactly the entries that could not be removed, including unknown names, and leaves all other features untouched and the model well-formed.",
  ["inputs","histories"],"all trees with groups, all subsets and orders of features to remove, by name or by reference, recursive or not",
  "Tests remove three or four hand-picked sets; combinations of ancestors with distant descendants, groups and unknown names are not reached.",
  [TC],"Repeated partitioning of the list into deletable features, one transaction per round, until nothing more can be deleted.",
  "returned list and model state")
p("C14","Grouping children and ungrouping them are exact inverses",
  "Adding a group to a feature moves exactly its direct child features under one new group of the requested kind, and removing a feature's group moves exactly that group's children back, leaving every other part of the model, including groups of other features, untouched. Doing both restores the model; grouping an unknown or already grouped feature, and ungrouping an unknown or ungrouped one, is refused with an error and never crashes.",
  ["histories"],"all trees, all features, all interleavings of grouping, ungrouping and other edits",
  "Tests group one flat feature once; nested groups, ungrouping without a group and repeated grouping are not reached.",
  [T,TC],"Modifications that create or erase a group node and re-link edges and parents.",
  "tree with group nodes before and after")
p("C15","Source locations are added, removed, updated and compared exactly",
  "Every feature keeps its source locations in the order they were added; removing a location removes its first occurrence only, updating replaces the first occurrence in place and reports whether there was one, and neither affects anything else or crashes when the location is absent. Two locations are equal exactly if path, start, end, category, member offset and revision range are equal, and parsing a member offset and printing it give the same class nesting and member.",
  ["histories","inputs"],"all sequences of location edits on features and all pairs of locations",
  "Tests add or remove a single location; absent ones, duplicates and differences in one component are not covered.",
  ["include/vara/Feature/FeatureSourceRange.h","include/vara/Feature/Feature.h",T],
  "A vector of value objects with hand-written equality; transactions delegate to it.",
  "list of locations of every feature after each edit")
p("C16","Traversal visits every feature once in one well-defined total order",
  "Iterating over a model visits every feature exactly once, parents before children and siblings by case-insensitive name, looking through groups. Comparing two features gives a strict total order that is the order of that traversal, and an ordered collection of features always holds what was inserted sorted in that order, whatever the insertion order. Iterators over features and constraints can be copied, stopped and continued: each is one place in its walk, moving one does not move another, and two are equal exactly when their places are.",
  ["inputs","histories"],"all trees with groups, all pairs and triples of features, all insertion orders",
  "Tests compare fixed pairs in fixed trees; order properties quantify over all pairs and trees, and after every edit history.",
  [FM,"lib/Feature/Feature.cpp","include/vara/Feature/OrderedFeatureVector.h"],
  "A frontier-stack iterator sorting children by lower-cased name, and a comparison operator walking to common ancestors.",
  "sequence of names visited; results of all pairwise comparisons; contents of the ordered collection; what two iterators show after every sequence of moves and copies")
p("C17","Configurations keep the last value per option and survive dump and parse",
  "A configuration maps each option name to the value set last, reports absent options as absent, and iterating over it, writable or read-only, yields exactly its options. Values are classified by their text alone: any capitalisation of true/false is that boolean, a decimal integer is that number, everything else the unchanged string. Parsing the text dump of any configuration gives an equal configuration, and text that is not a flat map of strings is refused.",
  ["histories","inputs"],"all sequences of set, add, get, iterate, dump and parse over all names and values",
  "Tests set two or three options with canonical values; capitalisation, overwriting, special characters and malformed text are not covered.",
  ["include/vara/Configuration/Configuration.h","lib/Configuration/Configuration.cpp"],
  "A string map of typed option objects with JSON serialisation.",
  "typed value, string value, iteration and dump of the configuration")
p("C18","SXFM import yields the feature tree and clauses of the document",
  "Importing an SXFM document yields the tree its indentation describes: mandatory and optional features, groups with cardinality one-of as alternatives and at-least-one as or-groups, every feature under the right parent, and one constraint per clause with the same literals and signs. Documents with malformed structure, indentation, cardinality or identifiers yield no model and never crash.",
  ["inputs"],"all SXFM documents over the supported subset and documents with a single defect",
  "Tests read a few stored files and check some features; indentation going back several levels, nested groups and clause signs vary freely.",
  ["lib/Feature/FeatureModelParser.cpp"],
  "A line-oriented parser that tracks indentation to find parents and rewrites clauses to constraint text.",
  "model produced by the import entry point, or its absence")
p("C19","Step functions parse, print and generate the numeric values they denote",
  "A step function text is read as one application of +, * or ^ to the value and a constant, in either operand order, and its successor function is exactly that operation; text of any other form is refused without crashing, and printing it gives text denoting the same function. The values a numeric feature given by a range may take are the minimum and every successor up to the maximum, with step one when no function is given, and their enumeration always ends.",
  ["inputs"],"all step function texts and all ranges",
  "Tests evaluate some fixed functions; refusal of malformed text and the end of the enumeration for every function and range is not reached.",
  ["include/vara/Feature/StepFunction.h","include/vara/Feature/StepFunctionParser.h","lib/Solver/Z3Solver.cpp"],
  "A small lexer and parser producing a tagged operation; the solver unrolls it over the range.",
  "parsed function applied to values, its text, and values the solver enumerates")
p("C20","The sample-set writer emits exactly the flags of the selected features",
  "Writing configurations produces one entry per configuration, in order and numbered from zero, listing the output flags of exactly the features that are selected and have a flag, in traversal order, with the value appended for numeric features and nothing for deselected, unset or flagless ones.",
  ["inputs","configurations"],"all models with output flags and all lists of configurations",
  "The sampling unit tests are few and use one model; order, missing options and numeric values vary freely.",
  ["lib/Sampling/SampleSetWriter.cpp"],
  "Iterates configurations and features and concatenates flags into a YAML map.",
  "the produced text, read back")
p("C21","The model builder yields the same model for every order of declarations",
  "Building a model from declarations of features, edges, groups, constraints and meta data yields the same model whatever the order of the declarations, as long as at most one parent is declared per feature; features without a declared parent hang below the root. Declarations that use an undeclared feature, repeat a name or form a cycle make the build fail without a model, and an edge asked for by name is reported as declared.",
  ["inputs"],"all declaration sets and all their permutations",
  "Tests declare features and edges in one natural order; independence quantifies over all orders.",
  ["include/vara/Feature/FeatureModelBuilder.h","lib/Feature/FeatureModelBuilder.cpp",T],
  "Three deferred transactions for features, structure and relations, committed in that order.",
  "model built, or its absence, per permutation")
p("C22","The graph export draws every node, edge and label of the model once",
  "The exported graph contains exactly one node per feature and group and exactly one edge per parent-child link, with the marker for optional or mandatory children, the kind of every group, and labels carrying each feature's name, flag, constraints and locations. It terminates for every model and leaves the model unchanged.",
  ["inputs"],"all feature models with groups, constraints and locations",
  "The graph export has a single smoke test; nothing compares the graph with the model.",
  [FM,"tools/fm-viewer/fm-viewer.cpp"],
  "A recursive writer over the node tree emitting DOT text.",
  "the DOT text, read back as a graph")
p("C23","The Python bindings show the same model as the native library",
  "A script that builds, edits, queries, iterates or serialises feature models through the Python bindings observes the same names, attributes, tree, order, locations, constraints and texts as the same operations in the native library.",
  ["inputs","histories"],"all call sequences over the exported functions",
  "The bindings have a small test-suite that calls single accessors; agreement for whole models and histories is not checked.",
  ["bindings/python/vara-feature/pybind_Feature.cpp","bindings/python/vara-feature/pybind_FeatureModel.cpp","bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp"],
  "pybind11 wrappers with hand-written lambdas and lifetime policies.",
  "values returned to Python")
p("C24","Every feature knows exactly the constraints it takes part in",
  "After any committed history, import, copy or merge, each feature lists exactly one entry for every occurrence of it in the model's constraints, implications and exclusions are listed for their participants, and every feature mentioned in a constraint is that model's own feature of this name. Constraints over unknown features are refused, and copying a constraint yields an equal, independent tree with consistent parent links.",
  ["histories","inputs"],"all sets of constraints and all edit histories",
  "Tests look at one constraint of one feature; the bookkeeping must agree for every constraint shape, after copies and after refused additions.",
  [T,"include/vara/Feature/Feature.h","include/vara/Feature/Constraint.h",FMC],
  "Adding a constraint visits its tree, replaces placeholder features by the model's and registers occurrences.",
  "per-feature constraint lists and the constraint trees of the model")
p("C25","Nodes answer structural queries and describe themselves exactly",
  "For every node of a feature model, the children of a requested type down to a requested depth are exactly those reached by looking through nodes of other types, and the edge queries in both directions, the leaf test and the enclosing feature agree with the tree. The textual description of a feature, and the dump of a whole model, state its name, optionality, locations in order, enclosing feature, the features directly below it and its numeric values, for every feature exactly once and identically on every output channel.",
  ["inputs","histories"],"all trees with groups, all nodes, types and depths, after any edits",
  "Tests look at direct children of one hand-made tree and never at the described text of grouped, numeric or located features; the answers must agree for all pairs of nodes of every tree.",
  ["include/vara/Feature/FeatureTreeNode.h","lib/Feature/Feature.cpp","include/vara/Feature/Feature.h",FMC],
  "A recursive, depth-limited search filtered by dynamic type over edge sets; streams assembling the description from accessors.",
  "returned child sets for all nodes, types and depths; edge queries for all pairs; described text")
p("C26","fm-viewer judges, dumps and draws documents exactly as the library reads them",
  "For every document, fm-viewer succeeds exactly when the library accepts the document and can build its model; with -verify it does nothing but tell so by its exit code, with -dump it prints the description of every feature once and writes nothing, with -o it writes the graph of the model to the named file, and otherwise it hands exactly this graph to the viewer. Documents, files and flags that are refused lead to a failing exit code without a dump or a graph, the input is never changed, and flags given through the environment act like arguments.",
  ["inputs"],"all documents, valid or not, and all combinations of flags",
  "No test runs the program; its exit code and outputs must follow the library for every document and flag combination, the refused ones included.",
  ["tools/fm-viewer/FeatureModelViewer.cpp",FMC,"lib/Feature/FeatureModelParser.cpp"],
  "A short program around verification, parsing, dump and graph writing, with early exits.",
  "exit code, standard output, files written, the viewer's argument")
p("C27","config-generator writes the flags of exactly the configurations asked for",
  "For every document the library accepts, config-generator writes one entry per valid configuration of the model (or, for a given table of sampled configurations, one per line of it), numbered from 0, and every entry lists exactly the flags of the features selected in it, numeric ones with their value; columns that are no feature and features without column or flag add nothing. A model without configuration, a missing or refused document or table, an unknown or unsupported way of generating and an unwritable target lead to a failing exit code and nothing is written; the input is never changed, and flags given through the environment act like arguments.",
  ["inputs"],"all models the format can express, all tables and all combinations of flags",
  "No test runs the program: what it writes must follow from reading, solving and writing together, for every model and table.",
  ["tools/config-generator/ConfigurationGenerator.cpp","lib/Sampling/SampleSetParser.cpp","lib/Sampling/SampleSetWriter.cpp","lib/Solver/ConfigurationFactory.cpp"],
  "The composition of document reader, solver and sample set writer; rows are read by feature kind.",
  "exit code, the entries of the written file, files left behind")
p("C28","A result keeps the value or error it was made from through every copy",
  "What the library's operations return either holds a value or an error. It tells which of the two, gives back exactly the value or error it was made from, and does so after any sequence of copies, moves, assignments and reads, for every type of value, Boolean, numeric and list values included; reading does not change it, taking the value out hands over exactly that value, and every error prints its own message.",
  ["histories","inputs"],"all values and error codes of every kind, and all sequences of making, copying, moving, assigning, reading and taking results",
  "Tests make single results and read them once; a result that changes when it is copied, only for some value types, goes unnoticed.",
  ["include/vara/Utils/Result.h","include/vara/Feature/Error.h","include/vara/Solver/Error.h"],
  "Templates with converting constructors around a variant, which compete with copying for types a result converts to.",
  "truth value, value, error and printed text of results")
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
