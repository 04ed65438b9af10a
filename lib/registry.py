"""Which properties are claimed, and how (technique / assurance) - used by props.py and check.py."""
CHECKS = {}


def claim(pid, func, technique, note):
    CHECKS[pid] = {"func": func, "technique": technique, "note": note}


TV = "TLA+ specification model-checked with TLC; "

claim("C01", "conc:rwlock_safety",
      TV + "real lock run under a controlled scheduler (bounded-exhaustive and random schedules), every trace validated against the spec",
      "Design level: all interleavings of 4 threads. Code level: all schedules with at most 2 preemptions of the listed thread programs plus random schedules; "
      "trusts the replacement of std::mutex/std::condition_variable by instrumented equivalents.")
claim("C02", "conc:rwlock_progress",
      TV + "schedules of the real lock explored for states in which nobody can move; the spec has no such step",
      "As C01; liveness at code level is decided as absence of stuck or endlessly running schedules.")
claim("C03", "conc:pool",
      TV + "the real pools run under a scheduler that may switch threads at every memory access; call/return traces validated against the spec",
      "Design level: all interleavings of 3 threads interning 2 values. Code level: schedules with <= 2 preemptions at lock operations plus random schedules preempting at memory accesses.")
claim("C04", "conc:scheduler",
      TV + "clients of the real scheduler run under controlled schedules, incl. shutdown; traces of submissions, executions and futures validated against the spec",
      "Design level: queue with 3 clients x 2 transactions x 2 commands, incl. liveness. Code level: schedules with <= 2 preemptions plus random ones; one process per schedule.")
claim("O03", "graph:sets_and_graphs",
      TV + "results of the real graph and set algorithms, for all graphs on <= 5 vertices and random larger ones, validated against the definitions",
      "The worklist algorithms are model-checked for every graph on 4 vertices; the code is run on every graph on <= 5 vertices, on random graphs placed anywhere in the 64 positions, and on random sets.")
claim("O01", "plan:exhaustive",
      TV + "plan tables of every exhaustive enumerator on random graphs and cardinalities validated against the optimum defined in the spec",
      "Design level: the dynamic program over all connected subgraphs equals the minimum over all plans, for every graph on 4 relations. Code level: random connected graphs of up to 8 relations.")
claim("O02", "plan:heuristic",
      TV + "plans of every greedy, linearised and search-based orderer validated: complete, along join edges, true cost, never below (and where guaranteed, equal to) the optimum",
      "Random connected graphs of up to 7 relations, all search configurations but avg_sel.")
claim("Q01", "sql:filters", TV + "random filter and projection statements run end to end; every answer validated against the SQL semantics in the spec",
      "Design level: CNF conversion checked against Kleene logic for all formulas of bounded size. Code level: random tables (0-20 or around multiples of the 64-row batch), random expressions over all types with NULLs; arithmetic kept within exactly representable ranges.")
claim("Q02", "sql:joins", TV + "random join statements over two to four sources run end to end; every answer validated against the SQL semantics in the spec",
      "Design level: block-wise hash join equals the nested-loops definition. Code level: random databases of up to 3 tables and statements over up to 4 sources with equality, inequality, disjunctive and single-source predicates; predicates over three or more sources are not supported by the system.")
claim("Q03", "sql:grouping", TV + "random grouping and aggregation statements run end to end; every answer validated against the SQL semantics in the spec",
      "Design level: hash grouping over blocks equals the definition. Code level: random grouping statements over one or two sources; HAVING without GROUP BY and without any aggregate is not generated.")
claim("Q04", "sql:ordering", TV + "random statements with ORDER BY and LIMIT/OFFSET run end to end; every answer validated against the set of permitted sequences",
      "Design level: block-wise limit equals the slice. Code level: random statements; any order of rows with equal keys is accepted, and any slice consistent with such an order.")
claim("Q05", "sql:nesting", TV + "random nested statements run end to end; every answer validated against the SQL semantics in the spec",
      "Random nested statements up to depth 2; only uncorrelated scalar subqueries (correlated ones are rejected by the system).")
claim("Q06", "sql:configurations", TV + "the same random statements under random configurations, every answer validated against the SQL semantics in the spec",
      "Every batch of statements under the default and three random configurations of layout, plan table, enumerator and heuristic search.")
claim("Q07", "sql:insertion", TV + "random histories of INSERT statements through every client path; all contents validated against the database state of the spec",
      "Random histories of INSERT through the statement, command, StoreWriter and prepared paths, with refused statements; values in range (too long strings are truncated by the system).")
claim("L01", "text:parser", TV + "random statements and all short expressions parsed, printed and parsed again by the real code; every token list and tree validated against the grammar in the spec",
      "Design level: for every short token list, the trees the grammar allows are unique and survive printing. Code level: random programs of every statement and clause, correct and damaged, and all expressions of up to 3 (thorough: 4) tokens over all operators.")
claim("L02", "text:lexer", TV + "the real lexer run on short texts over all critical characters, mixed tokens and random programs; every token list with positions validated against the lexical grammar in the spec",
      "Design level: the scanner of the spec loses and invents nothing and takes longest tokens, for all texts up to a bound. Code level: texts without NUL, from string, seekable and file streams.")

claim("L03", "text:typing", TV + "every operator and function on every pair of operand types, random typed and arbitrary statements analysed by the real code; verdict and types validated against the typing rules in the spec",
      "Design level: laws of the join of types. Code level: all pairs of operand kinds (thorough: with all operators), random nested expressions and statements over one schema with columns of every type.")
claim("L04", "text:cnf", TV + "normal forms computed by the real code for random formulas, and by its operators on normal forms and clauses, evaluated under every three-valued assignment by the spec",
      "Design level: the conversion algorithm preserves the three-valued meaning of all formulas up to a bound. Code level: random formulas of up to five atoms; nested = and != are bounded, as the conversion is exponential in them.")
claim("L05", "text:like", TV + "the real matchers (dynamic programming, regular expression, optimised one) and escape functions run on all short and on random strings and patterns; every answer validated against the spec",
      "Design level: the table-filling algorithm equals the recursive definition for all strings and patterns up to a bound. Code level: all strings and patterns of up to 2 (thorough: 3) characters over the critical alphabet, random longer ones, two escape characters.")
claim("O06", "text:types", TV + "types made by the real factories in random order, their joins, sizes and identities validated against the spec",
      "Design level: laws of the join for a grid of types. Code level: random sequences of type constructions with joins of all pairs.")
claim("S04", "util:allocator", TV + "random histories of allocations and releases on the real allocator, with its free list, mapped regions and contents, validated against the spec",
      "Design level: first fit with splitting and coalescing, all histories with up to 3 live allocations. Code level: random histories on two allocators, with swap, move and destruction (of allocators without live allocations).")
claim("S05", "util:rewiring", TV + "random histories of allocate, map, write and release on real memory files and address spaces, every view read back after every step and validated against the spec",
      "Design level: the stack of marked allocations, all histories of up to 6 allocations. Code level: random histories on two allocators and two address spaces; pages of released memory are not accessed.")
claim("S06", "util:containers", TV + "random histories on the real containers, contents read back in every direction after every step and validated against the spec",
      "Design level: XOR-linked lists and triangular probing, all histories up to a bound, every hash function. Code level: random histories with elements that count their copies and destructions, hash functions from perfect to constant.")
claim("C05", "util:pointers", TV + "random histories of pointer operations on the real class, owners, use counts and destructions validated against the spec",
      "Design level: control blocks with a replaceable deleter, all histories on 3 objects. Code level: random histories over base, derived, multiply derived and const pointers.")
claim("U01", "util:arguments", TV + "random command lines parsed by the real parser in a child process, handler calls, positional arguments and exit status validated against the spec",
      "Design level: laws of the parser on all lines of up to 5 words. Code level: random lines of up to 6 words over options of every type, their arguments, malformed and extreme ones.")
claim("S01", "store:rows", TV + "random rows written to, overwritten in and read from real stores through the real load/store programs under made and hand-made layouts; every row read, by the code and by position, validated against the rows of the spec",
      "Design level: arithmetic of layouts for small sizes. Code level: random schemas of up to 64 attributes, three stores, all layout factories and nested layouts by hand, reads and writes from any row and of any subset of attributes.")
claim("S02", "store:layouts", TV + "layouts made by the real factories and iterated by the real code; positions of all values validated against the spec (in bounds, aligned, apart, each visited once)",
      "Design level: the arithmetic that decides disjointness, for all small parameters. Code level: random attribute lists and factory parameters with all options; natural alignment only where the options promise it.")
claim("D02", "store:indexes", TV + "random keys added to or bulkloaded from tables into the real indexes; entries and all answers validated against the bag of entries in the spec",
      "Design level: exponential search from any guess for all short arrays. Code level: all key types and index methods, extreme and duplicate keys, NULLs, several rounds of additions, several ratios of models; histories of definitions and insertions (Ddl) decide which indexes may still be used.")
claim("D01", "store:definitions", TV + "random histories of CREATE/DROP/USE/INSERT/IMPORT through all entry points, some analysed now and executed later; verdicts and the whole catalog after every step validated against the spec",
      "Design level: all histories of up to 7 operations over small names keep the catalog sound. Code level: histories of 20-80 operations over few names, all attribute types and constraints; drops of several names, IF [NOT] EXISTS, stale commands.")
claim("S03", "store:imports", TV + "files generated for random tables and settings, imported by the reader, the IMPORT statement and load_from_CSV; the table after every import and the lines reported validated against the spec's character-level reader",
      "Design level: all files of up to 5 characters: writing and reading are inverse, headers, skipping and row limits do what they say, nothing is lost silently. Code level: all types, well-formed, malformed and truncated cells, all delimiters, quotes and escapes; limits of the integer types; cells of hundreds of characters, strings longer than their column, files of up to 80 records.")

claim("O05", "store:estimates", TV + "injection files, correct and damaged, read by the real estimator; every estimate of random combinations of scans, filters, joins, limits and groupings validated against the arithmetic of the spec",
      "Design level: all ways to combine 3 relations under all small injection tables. Code level: random files and combinations, sizes up to 2^64-1; the learned (SPN) estimator is not covered.")
claim("O04", "opt:plans", TV + "logical plans of the real optimiser for random statements, before and after their schemas were minimised, validated against the statement by the spec",
      "Design level: every plan the rules accept computes the answer, for all placements of up to two clauses over two sources; minimised plans still run and keep nothing unneeded, for all plans of up to four operators. "
      "Code level: random statements over up to five sources, nested to depth two, under random plan enumerators and plan tables.")
claim("D03", "sql:versions", TV + "random interleavings of transactions and shell commands on multi-versioned tables; every answer validated against the versions visible at the transaction's start in the spec",
      "Design level: all histories of inserts, updates and deletes by 4 serial transactions, older readers included. Code level: random histories of inserts, imports and queries (joins, nested, grouped) by up to 4 transactions and the shell; as UPDATE and DELETE are not implemented, the driver ends versions of rows by writing their hidden timestamp.")
claim("O07", "opt:partial_plans", TV + "partial plans announced and written by the real generator for random plans in both plan tables, validated against the definition",
      "Design level: the stack of decisions announces every complete partial plan exactly once, for all plans of up to 5 relations. Code level: random plans of up to 7 relations, with unrelated entries in the table.")
claim("O08", "opt:coverings", TV + "physical operators with random patterns, costs and conditions registered with the real physical optimiser; every entry of its table and the extracted plan validated against the coverings defined in the spec",
      "Design level: keeping only the cheapest covering for every condition loses nothing, for small plans and all sets of up to two further operators. Code level: 16 patterns (nested, both orders of children, any arity) twice, on random plans of about ten operators.")
claim("O09", "opt:conditions", TV + "random sets of conditions compared, demanded of each other, projected, renamed and merged by the real code; every answer validated against the spec",
      "Design level: what is implied holds and what is kept of an order holds of the projected result, for all results of up to three tuples and all orders over three attributes. Code level: random orders over up to 12 attributes, with qualified names, all kinds of conditions.")
