FMT = ("TLA+ specification FM.tla, bounded exhaustive and randomised exploration with TLC; every generated "
       "history executed against the library, recorded states checked against the specification by TLC (FMTrace.tla)")
STEPS = "explicit TLA+ specification of step functions (Steps.tla), inputs enumerated by TLC, executed by the real parser, function and solver, recorded results checked by TLC against the specification"
CONF = "TLA+ specification Conf.tla (value classification, map semantics, JSON reading and writing); sessions enumerated by TLC are executed against Configuration and everything it shows after every step is checked by TLC (ConfTrace.tla)"
WRIT = "TLA+ specification Writer.tla (traversal, selection, flags); models and lists of configurations generated by TLC are written by the library, the text is read back with an independent YAML reader and checked by TLC (WriterTrace.tla)"
XML = ("TLA+ specification Xml.tla (what a document says: import, export, normal form) over FM.tla; documents and models "
       "generated by TLC are given to the real reader and writer, every resulting model is checked by TLC (FMTrace.tla)")
SXF = ("TLA+ specification Sxfm.tla (SXFM documents as trees of lines and clauses, what is refused, the model they mean) over "
       "FM.tla, explored by TLC; documents generated by TLC are given to the real reader and verifier, every resulting model is "
       "checked by TLC (FMTrace.tla)")
DOTT = ("TLA+ specification Dot.tla (graph of a model) over FM.tla, explored by TLC; every model is exported through the library and "
        "documents are shown through fm-viewer, the text of the graph is read back and checked by TLC (FMTrace.tla)")
NAVT = ("TLA+ specification Nav.tla (children by type and depth, edges, descriptions) over FM.tla, laws and models explored by TLC; every "
        "node of every generated model is asked through the library, the answers and the described texts are checked by TLC (FMTrace.tla)")
TOOLT = ("TLA+ specification Tool.tla (the viewer program) over Xml.tla, Dot.tla and Nav.tla, calls and documents generated by TLC; the "
         "real program is run on each, its exit code, output and files are read back and checked by TLC (FMTrace.tla)")
GENT = ("TLA+ specification Gen.tla (the generator program) over Solver.tla, models, tables and calls generated by TLC; the real program "
        "is run on each, its exit code and the written file are read back and checked by TLC (GenTrace.tla)")
PYT = ("TLA+ specification Py.tla (the models as the bindings show them) over FM.tla, Xml.tla and Lang.tla, explored by TLC; scripts "
       "generated by TLC are executed by the Python interpreter with the real module, every observed model, order, text and "
       "result is checked by TLC (FMTrace.tla)")
TRUST = ("Trusted: the driver's reading of the public accessors, TLC, and the bounds: ")
LANG = ("TLA+ specification Lang.tla (lexer, grammar by precedence levels, printing, builder), laws checked and inputs "
        "enumerated by TLC; every input given to the library and the recorded tree, text and re-read checked by TLC (LangTrace.tla)")
SOLV = ("TLA+ specification Solver.tla (model semantics as sets of configurations, step ranges, constraint evaluation, solver "
        "session state machine); TLC computes every configuration set and explores sessions, the library is driven through the same "
        "inputs and its answers are checked by TLC (SolverTrace.tla)")
RES = ("TLA+ specification Result.tla (results as value or error with copies, moves and takes), laws checked and histories enumerated by "
       "TLC; every history is executed with the real template for 8 pairs of value and error types and checked by TLC (ResultTrace.tla)")
CLAIMS = {
 "C01": (FMT, TRUST + "transactions of up to 2 edits over 7 start models exhaustively, longer random histories."),
 "C02": (FMT, TRUST + "transactions of up to 2 edits over 7 start models exhaustively, longer random histories."),
 "C03": (FMT, TRUST + "copy transactions of up to 2 edits over 7 start models exhaustively, longer random histories."),
 "C04": (FMT, TRUST + "9 start models covering all attributes, clone followed by up to 2 edits or destructions of either model."),
 "C12": (FMT, TRUST + "81 pairs of start models with one edit on either side, strict and not, plus self merges."),
 "C13": (FMT, TRUST + "all trees over 3 features with all groups and all lists, random trees up to 8 features."),
 "C14": (FMT, TRUST + "9 start models, all grouping requests by name, reference, copy and helper, two steps deep."),
 "C15": (FMT, TRUST + "location histories of length 2, every single-component change in place, all pairs of 23 locations differing in single components."),
 "C16": (FMT, TRUST + "all trees over 3 features with all groups and insertion orders, all sequences of 3 moves of two iterators on 9 models, random trees up to 8 features with random sequences of up to 28 moves."),
 "C21": (FMT, TRUST + "all permutations of up to 3 of 15 declarations, random permutations of 26 declarations."),
 "C24": (FMT, TRUST + "43 constraint shapes of 3 kinds on 3 models, copied, cloned, merged, removed; random histories."),
 "C08": (LANG, TRUST + "all texts of 3 characters over 18 and 2 over 16, token pairs over 38 spellings, all operator pairs with brackets and unary operators, names resembling operators and numbers in all notations in 10 contexts, random deep expressions and single mutations of them."),
 "C09": (LANG, TRUST + "all sequences of up to 4 calls over 12, all pairs of 16 operators with brackets of both kinds and unary operators in every position, random deep expressions and single mutations of them, builders used again after building."),
 "C05": (SOLV, TRUST + "all trees up to 3 features with all groups, all constraint shapes of depth 1 over 3 features, random models of up to 8 features with numeric ranges."),
 "C06": (SOLV, TRUST + "solver sessions of up to 3 calls exhaustively over small alphabets, random sessions, iterators advanced and compared in every order."),
 "C07": (SOLV, TRUST + "every operator over every pair of operand shapes on 3 binary and 2 numeric features, plus random deeper constraints."),
 "C19": (STEPS, TRUST + "all texts of 3 characters over the step function alphabet, all forms over 20+ constants on either side with all operators, random texts; ranges with every function walked by the solver."),
 "C17": (CONF, TRUST + "all values of up to 2 characters plus borders of the number range, all names from the same list, all sessions of 2 steps over 21, random sessions of 12, all texts of 3 JSON tokens, all single mutations of 5 documents, escape sequences of 2 pieces of 25."),
 "C20": (WRIT, TRUST + "all models of up to 2 features of 4 sorts with all their configurations in one list, all pairs of 32 flags with special characters, random models of up to 8 features with up to 110 configurations."),
 "C10": (XML, TRUST + "every attribute, every location, all constraint shapes of 3 kinds, all trees over 4 features with all groups, random models of up to 10 features with up to 2 further edits."),
 "C11": (XML, TRUST + "all statements of parents and children over 3 options, all exclusions and optional siblings over 3 options, every attribute and constraint shape, 18 kinds of defects in 24 positions, random documents with random layout, single contradictions and undefined names."),
 "C18": (SXF, TRUST + "all documents of 4 lines over 9 shapes of lines, all assignments of names and identifiers over 3 lines, every single defect and clause shape, random documents of up to 12 lines with random layout."),
 "C25": (NAVT, TRUST + "9 start models with every single edit, all trees over 4 features with all groups, all attributes, pairs of locations, random models of up to 10 features; depths 0 to 3 and unbounded."),
 "C26": (TOOLT, TRUST + "all 10 combinations of outputs on 6 documents with every way to name the file and to pass flags; every attribute, constraint shape and defect of C11's documents judged, dumped and drawn; random documents with random layout."),
 "C27": (GENT, TRUST + "the stand-in for the missing csv library; all models of two features with every flag, group and constraint, all 600 ways to call the program on two models, all tables of up to two lines over 9 lists of columns, random models and tables."),
 "C22": (DOTT, TRUST + "9 start models with every single edit, all trees over 4 features with all groups, all attributes, pairs of locations, constraint shapes, names with special characters, random models of up to 10 features; layout is not judged."),
 "C23": (PYT, TRUST + "every single call on over 150 start documents, all pairs of calls on 3, all pairs of 17 builder declarations, all chains of 3 of 10 calls, all pairs of 11 locations, random documents with up to 4 further calls; lifetimes of handles beyond their model are out of scope."),
 "C28": (RES, TRUST + "two results of 8 kinds, every value and error made in every way and used twice, all histories of 3 steps, random histories of 14 steps; conversions between results of different types are out of scope."),
}
