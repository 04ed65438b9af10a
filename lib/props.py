#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 lib/props.py  rewrites both."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                          "observe_at": observe or [], "hook_needed": hook}})


# ------------------------------------------------------------------------------------------------ queries and statements
prop("Q01", "Filters and projections follow three-valued logic",
     "A SELECT over one table returns, as a bag, exactly the rows for which the WHERE condition evaluates to TRUE (neither FALSE nor NULL), "
     "each projected to the values of the select list. Arithmetic, comparison, logical, string and NULL-test expressions yield the value SQL "
     "assigns to them, and NULL whenever an operand that matters is NULL (a NULL operand of the concatenation `..` acts as the empty string).",
     ["inputs", "programs"], "for every table content including NULLs and every well-typed filter and projection over it",
     "End-to-end tests run a few dozen fixed queries over one fixed data set without NULLs; the combinations of expressions, NULLs and values are unbounded.",
     ["src/backend/StackMachine.cpp", "src/backend/Interpreter.cpp", "src/IR/Tuple.cpp", "src/IR/CNF.cpp", "src/IR/QueryGraph.cpp"],
     [("expression compiler and stack machine", "src/backend/StackMachine.cpp"), ("filter/projection operators", "src/backend/Interpreter.cpp")],
     [("database", "bag of rows per table", "Store")], ["result rows delivered to the client callback"])
prop("Q02", "Joins return exactly the matching combinations of rows",
     "A query over several relations returns, as a bag, exactly the combinations of one row per relation for which the join and filter "
     "conditions evaluate to TRUE; a row whose join key is NULL matches nothing under equality. This holds for any number of relations, self joins, "
     "cross products, and equality as well as other join conditions.",
     ["inputs", "programs"], "for every database content, every set of relations and every conjunction/disjunction of predicates",
     "Tests cover a handful of join shapes over data without NULLs or duplicates.",
     ["src/backend/Interpreter.cpp", "src/IR/QueryGraph.cpp", "src/IR/Optimizer.cpp", "src/IR/Operator.cpp", "src/backend/InterpreterOperator.cpp", "src/IR/CNF.cpp"],
     [("simple hash join / nested-loops join", "src/backend/Interpreter.cpp"), ("decomposition of WHERE into joins", "src/IR/QueryGraph.cpp"), ("plan construction", "src/IR/Optimizer.cpp")])
prop("Q03", "Grouping and aggregation compute one correct row per group",
     "A grouping query returns exactly one row per distinct combination of grouping values (NULLs forming one group), with COUNT, SUM, MIN, MAX and AVG computed "
     "over exactly the rows of that group, ignoring NULL arguments; HAVING keeps the groups for which its condition is TRUE. Without GROUP BY there is exactly one "
     "result row, also over empty input.",
     ["inputs", "programs"], "for every table content and every grouping query",
     "Tests aggregate a few fixed columns of fixed data without NULLs, empty groups or duplicates.",
     ["src/backend/Interpreter.cpp", "src/IR/QueryGraph.cpp", "src/IR/Optimizer.cpp", "src/IR/Operator.cpp"],
     [("hash-based grouping and aggregation", "src/backend/Interpreter.cpp")])
prop("Q04", "ORDER BY sorts and LIMIT/OFFSET take the right slice",
     "With ORDER BY the result is a permutation of the unordered result that is sorted by the given keys and directions (NULLs first in both directions); LIMIT n OFFSET m returns exactly the rows at "
     "positions m+1..m+n of such an order (fewer if the input is shorter), independent of what else the query computes.",
     ["inputs", "programs"], "for every table content and every ORDER BY / LIMIT / OFFSET combination",
     "Tests cover single keys over distinct values and a handful of limits.",
     ["src/backend/Interpreter.cpp", "src/IR/Tuple.cpp", "src/IR/Optimizer.cpp", "src/IR/Operator.cpp"],
     [("sorting and limit operators", "src/backend/Interpreter.cpp")])
prop("Q05", "Nested queries mean what evaluating them in place would mean",
     "A query with subqueries in FROM, or with uncorrelated scalar subqueries in SELECT, WHERE or HAVING, returns the bag obtained by evaluating the subqueries in place.",
     ["inputs", "programs"], "for every database content and every nesting the language accepts",
     "Decorrelation rewrites are tested only structurally on a few shapes; their equivalence over all inputs is not.",
     ["src/IR/QueryGraph.cpp", "src/IR/Optimizer.cpp", "src/parse/Sema.cpp"],
     [("query graph construction and decorrelation", "src/IR/QueryGraph.cpp")])
prop("Q06", "Query results do not depend on planner, layout or store configuration",
     "The same statements yield the same result bag for every registered plan enumerator, cost function, data layout and store, and for any order in which FROM lists relations or WHERE lists conjuncts.",
     ["configurations", "inputs", "programs"], "for every configuration of enumerator, data layout and store and every query",
     "The integration tests run under one default configuration.",
     ["src/IR/PlanEnumerator.cpp", "src/IR/Optimizer.cpp", "src/storage/DataLayoutFactory.cpp", "src/storage/PaxStore.cpp", "src/storage/RowStore.cpp", "src/storage/ColumnStore.cpp", "src/catalog/Catalog.cpp"],
     [("component registry", "include/mutable/catalog/Catalog.hpp"), ("plan construction from plan table", "src/IR/Optimizer.cpp")])
prop("Q07", "INSERT appends exactly the given rows with NULL and DEFAULT per row",
     "After a successful INSERT the table contains its previous rows unchanged plus exactly the listed rows, each value converted to the column's type, NULL where NULL was given and NULL for DEFAULT, independent of the other rows of the statement; a rejected INSERT changes nothing.",
     ["histories", "inputs"], "for every sequence of INSERT statements with any mix of values, NULL and DEFAULT",
     "Tests insert one or two rows of plain constants.",
     ["src/catalog/DatabaseCommand.cpp", "src/mutable.cpp", "src/parse/Sema.cpp", "src/IR/Tuple.cpp"],
     [("InsertRecords", "src/catalog/DatabaseCommand.cpp"), ("StoreWriter", "src/mutable.cpp")])

# --------------------------------------------------------------------------------------------------------- SQL front end
prop("L01", "The parser follows the grammar, and parsing what the printer prints gives the same tree",
     "The parser accepts exactly the sentences of the grammar, nests operators by precedence and to the left, and for every statement it accepts, printing its syntax tree gives text that is accepted again and yields the same tree (same operators, nesting, clauses and constants).",
     ["programs"], "for every syntactically valid statement",
     "Parser tests compare a few dozen fixed inputs against expected dumps.",
     ["src/parse/Parser.cpp", "src/parse/ASTPrinter.cpp", "src/lex/Lexer.cpp", "include/mutable/tables/Operators.tbl"],
     [("precedence climbing expression parser", "src/parse/Parser.cpp"), ("AST printer", "src/parse/ASTPrinter.cpp")])
prop("L02", "The lexer splits any text into tokens without losing or inventing characters",
     "For every input text (without NUL characters) the lexer terminates and its token sequence, with the skipped white space and comments, reassembles the input in order; every token carries the line and column where it starts, and the longest possible token is taken.",
     ["inputs"], "for every input text",
     "Lexer tests enumerate the keywords and some literals.",
     ["src/lex/Lexer.cpp", "include/mutable/tables/TokenType.tbl", "include/mutable/tables/Keywords.tbl"],
     [("Lexer::next", "src/lex/Lexer.cpp")])
prop("L03", "Only well-typed expressions are accepted, and typed by the rules",
     "An expression is accepted iff its operands satisfy the documented typing rules, and its result type (kind, width, precision, scalar/vectorial) is the one those rules give; ill-typed statements are reported as errors, never by a crash.",
     ["programs"], "for every expression over columns and constants of every type",
     "Sema tests check a sample of operator/type pairs.",
     ["src/parse/Sema.cpp", "src/catalog/Type.cpp", "semantics.md"],
     [("expression visitor of the semantic analyser", "src/parse/Sema.cpp"), ("arithmetic_join", "src/catalog/Type.cpp")])
prop("L04", "Conversion to conjunctive normal form preserves meaning",
     "The conjunctive normal form computed for a Boolean expression has, under every assignment of TRUE, FALSE and NULL to its atoms, the same truth value as the expression; conjunction, disjunction and negation of normal forms likewise.",
     ["inputs", "programs"], "for every Boolean expression and every three-valued assignment",
     "Unit tests compare the printed form of a few formulas.",
     ["src/IR/CNF.cpp", "include/mutable/IR/CNF.hpp"],
     [("CNF generator and operators", "src/IR/CNF.cpp")])
prop("L05", "LIKE matches exactly the strings its pattern describes",
     "`s LIKE p` is true iff s matches p where % stands for any sequence, _ for any one character and a backslash escapes them, and a pattern with any other use of the backslash is rejected; the answer is the same for constant and computed patterns. Escaping a string and unescaping it gives it back.",
     ["inputs"], "for every string and every pattern",
     "Unit tests list a finite set of string/pattern pairs.",
     ["src/util/fn.cpp", "include/mutable/util/fn.hpp", "src/backend/StackMachine.cpp"],
     [("like()", "src/util/fn.cpp")])

# --------------------------------------------------------------------------------------------------------------- catalog
prop("D01", "DDL keeps the catalog a consistent map of databases, tables and indexes",
     "CREATE/DROP/USE of databases, tables and indexes succeed iff their documented precondition holds, then change exactly the named object (dropping a table also drops its indexes), and otherwise report an error and change nothing; IF [NOT] EXISTS turns the respective error into a no-op.",
     ["histories"], "for every sequence of DDL statements over any names",
     "Tests run single statements from a fixed initial state.",
     ["src/catalog/DatabaseCommand.cpp", "src/catalog/Catalog.cpp", "src/catalog/Schema.cpp", "src/parse/Sema.cpp", "include/mutable/catalog/Schema.hpp"],
     [("DDL commands", "src/catalog/DatabaseCommand.cpp"), ("Database::add/drop", "include/mutable/catalog/Schema.hpp")])
prop("D02", "Indexes answer lookups and ranges exactly, for all keys",
     "After bulk loading, an index returns for any key exactly the positions of the entries with that key, and for any lower/upper bound exactly the entries from the first not less than, respectively greater than, the key, in key order; an index is never used after the table it covers has changed.",
     ["inputs", "histories"], "for every multiset of keys (duplicates, negatives, extremes) and every probe key",
     "Unit tests use one small key set per type.",
     ["src/storage/Index.cpp", "include/mutable/storage/Index.hpp", "src/catalog/DatabaseCommand.cpp"],
     [("ArrayIndex / RecursiveModelIndex", "include/mutable/storage/Index.hpp"), ("index invalidation", "src/catalog/DatabaseCommand.cpp")])
prop("D03", "Multi-versioned reads see exactly the rows visible at their transaction's time",
     "In a multi-versioned database a transaction's read returns exactly the rows inserted by earlier-starting transactions or itself and not yet superseded at its start; timestamps never appear in results.",
     ["histories", "schedules"], "for every history of inserts and reads by several transactions",
     "Unit tests check two-transaction examples.",
     ["include/mutable/catalog/Schema.hpp", "src/catalog/Schema.cpp", "src/catalog/TableFactory.cpp", "src/catalog/DatabaseCommand.cpp", "src/IR/Optimizer.cpp"],
     [("MultiVersioningTable", "include/mutable/catalog/Schema.hpp"), ("TimestampFilter / InsertTimestampProjection", "src/catalog/Schema.cpp")])

# --------------------------------------------------------------------------------------------------------------- storage
prop("S01", "Stored rows read back exactly what was written, in every layout",
     "For every schema, data layout and store, each row appended to a table reads back with exactly the values and NULLs written, whatever rows precede or follow it, whether reading starts at the first or any other row; dropping the last row makes it disappear and nothing else.",
     ["inputs", "histories", "configurations"], "for every schema, layout (row, PAX by tuples or bytes), row content and append/drop history",
     "Store tests check addresses for a few fixed schemas; data is hardly read back across block boundaries.",
     ["src/backend/Interpreter.cpp", "src/storage/DataLayoutFactory.cpp", "src/storage/DataLayout.cpp", "src/storage/store_manip.cpp", "src/storage/RowStore.cpp", "src/storage/ColumnStore.cpp", "src/storage/PaxStore.cpp"],
     [("compile_load/compile_store", "src/backend/Interpreter.cpp"), ("RowLayoutFactory/PAXLayoutFactory", "src/storage/DataLayoutFactory.cpp")])
prop("S02", "Data layouts place every value in its own, aligned, in-bounds bits",
     "In every layout a factory makes, the bit ranges of distinct (row, attribute) pairs and NULL bits never overlap, stay within their enclosing block, and byte-sized values are byte aligned; iteration over a layout visits every attribute and the NULL bitmap once with its correct position.",
     ["inputs", "configurations"], "for every list of attribute types and every factory parameter",
     "Tests pin the numbers of two or three schemas.",
     ["src/storage/DataLayoutFactory.cpp", "src/storage/DataLayout.cpp", "include/mutable/storage/DataLayout.hpp"],
     [("layout factories", "src/storage/DataLayoutFactory.cpp"), ("for_sibling_leaves", "src/storage/DataLayout.cpp")])
prop("S03", "DSV import loads exactly the file's records",
     "Importing a delimiter-separated file appends exactly one row per record with each field parsed to its column's type, empty fields as NULL, honouring delimiter, quote, escape, header and row-limit settings; malformed fields are reported.",
     ["inputs", "configurations"], "for every file content and every combination of import settings",
     "Tests import small well-formed files.",
     ["src/io/DSVReader.cpp", "include/mutable/io/Reader.hpp", "src/catalog/DatabaseCommand.cpp"],
     [("DSVReader", "src/io/DSVReader.cpp")])
prop("S04", "The list allocator hands out disjoint, aligned, stable memory",
     "Live allocations never overlap each other or the allocator's own bookkeeping, satisfy the requested size and alignment, keep their content until freed, also when the allocator is swapped or moved; freed memory coalesces with free neighbours and is reused before more is mapped, and an allocator without live allocations returns all its memory to the system when destroyed.",
     ["histories"], "for every sequence of allocations and deallocations of any sizes and alignments",
     "Unit tests allocate in a few fixed patterns.",
     ["include/mutable/util/list_allocator.hpp", "include/mutable/util/allocator_base.hpp", "include/mutable/util/ADT.hpp"],
     [("list_allocator::allocate/deallocate/coalesce", "include/mutable/util/list_allocator.hpp")])
prop("S05", "Memory mapped into an address space aliases its source and nothing else",
     "Linear allocation hands out non-overlapping page-aligned memory of at least the requested size, mapping a part of it into an address space makes both views show the same bytes and leaves all else as it was, and releasing in any order frees exactly what can be freed: everything behind the last live allocation.",
     ["histories"], "for every sequence of allocate, map, write and release",
     "Tests map one or two regions.",
     ["src/util/memory.cpp", "include/mutable/util/memory.hpp"],
     [("LinearAllocator / AddressSpace / Memory::map", "src/util/memory.cpp")])
prop("S06", "Containers behave like their mathematical counterparts",
     "The doubly linked list behaves as a sequence, the sorted vector as a sorted bag and the reference-counting hash map as a map from keys to any number of values, under every sequence of operations including insertion and erasure anywhere, reverse, swap, copy, move, resizing and rehashing; iteration shows exactly the elements, each element is destroyed exactly once.",
     ["histories"], "for every sequence of container operations",
     "Unit tests exercise operations one at a time.",
     ["include/mutable/util/ADT.hpp", "src/util/container/RefCountingHashMap.hpp"],
     [("sorted_vector", "include/mutable/util/ADT.hpp"), ("doubly_linked_list", "include/mutable/util/ADT.hpp"), ("RefCountingHashMap", "src/util/container/RefCountingHashMap.hpp")])

# ----------------------------------------------------------------------------------------------------------- concurrency
prop("C01", "Reader/writer lock: writers exclude everyone, upgrades are atomic",
     "No schedule lets a writer hold the lock together with any other holder; an upgrade that succeeds happens without any other write since the read lock was taken, one that fails gives the read lock up; new readers do not overtake a waiting writer, and try-locks fail only under contention.",
     ["schedules"], "for every interleaving of any number of readers, writers, try-lockers and upgraders",
     "Unit tests run timing-based schedules with sleeps.",
     ["include/mutable/util/reader_writer_lock.hpp"],
     [("reader_writer_mutex", "include/mutable/util/reader_writer_lock.hpp"), ("reader_writer_lock, read_lock, write_lock, upgrade_lock", "include/mutable/util/reader_writer_lock.hpp")],
     [("readers_active, writer_active, waiting counts", "who holds and who waits", "reader_writer_mutex_internal")],
     ["return of the lock/upgrade/unlock calls"])
prop("C02", "Reader/writer lock: no request waits forever once holders release",
     "In every schedule in which every holder eventually releases, every blocked reader, writer and upgrader is eventually granted the lock or told that its upgrade failed.",
     ["schedules"], "for every interleaving of readers, writers and upgraders",
     "A lost wake-up needs a specific order of waiters that timing-based tests do not produce.",
     ["include/mutable/util/reader_writer_lock.hpp"],
     [("condition variables and notifications", "include/mutable/util/reader_writer_lock.hpp")])
prop("C03", "Thread-safe interning gives equal values one canonical object",
     "Whatever the interleaving, interning equal values yields references to the same object, unequal values to different ones, each object's content stays intact while referenced, and the reported reference count is the number of live references.",
     ["schedules", "histories"], "for every interleaving of interning, copying and releasing in several threads",
     "Pool tests are single threaded.",
     ["include/mutable/util/Pool.hpp", "src/util/StringView.hpp"],
     [("PODPool/Pool operator()", "include/mutable/util/Pool.hpp"), ("Pooled reference counting", "include/mutable/util/Pool.hpp")])
prop("C04", "Transactions execute serially, their commands in order, each exactly once",
     "Under any interleaving of clients, the commands of one transaction run in submission order, exactly once, never interleaved with another transaction's commands, and every submitted command's future is resolved with whether it executed, also across shutdown; every transaction that executes something gets a start time of its own, increasing in execution order.",
     ["schedules", "histories"], "for every interleaving of several clients scheduling, committing and aborting transactions",
     "No unit test covers the scheduler; the shell uses it with one client.",
     ["src/catalog/SerialScheduler.cpp", "src/catalog/SerialScheduler.hpp", "src/catalog/Scheduler.cpp"],
     [("CommandQueue push/pop/stop_transaction/close", "src/catalog/SerialScheduler.cpp")])
prop("C05", "Sharing and unsharing a pointer destroys its object exactly once",
     "An object held by unsharable shared pointers is destroyed exactly once, when its last owner goes; converting to exclusive ownership succeeds iff there is a single owner and leaves the object alive with the new owner.",
     ["histories"], "for every sequence of copies, moves, casts, resets and conversions",
     "Unit tests check single conversions.",
     ["include/mutable/util/unsharable_shared_ptr.hpp"],
     [("exclusive_shared_to_unique", "include/mutable/util/unsharable_shared_ptr.hpp")])

# ---------------------------------------------------------------------------------------------------------- optimisation
prop("O01", "Exhaustive join enumerators find the cheapest cross-product-free plan",
     "For every connected query graph and every cardinality assignment, each exhaustive enumerator (size-, subset-, CCP-based, top-down) ends with a plan whose cost is the minimum over all bushy plans without Cartesian products, and records for every connected subproblem a valid cheapest split.",
     ["inputs", "configurations"], "for every connected query graph and every assignment of cardinalities",
     "Tests compare four fixed graphs against hand-written tables.",
     ["src/IR/PlanEnumerator.cpp", "include/mutable/IR/PlanEnumerator.hpp", "include/mutable/IR/PlanTable.hpp", "include/mutable/util/AdjacencyMatrix.hpp", "include/mutable/util/MinCutAGaT.hpp", "include/mutable/catalog/CostFunctionCout.hpp"],
     [("DP enumerators", "src/IR/PlanEnumerator.cpp"), ("PlanTable::update", "include/mutable/IR/PlanTable.hpp")])
prop("O02", "Heuristic join orderers always yield a complete valid plan",
     "For every connected query graph, greedy, linearised and search-based orderers end with a plan that joins every relation exactly once along join edges, whose reported cost is that plan's true cost and never below the optimum; search with an admissible heuristic and no pruning attains the optimum.",
     ["inputs", "configurations"], "for every connected query graph, cardinality assignment and search configuration",
     "Tests use a few fixed graphs.",
     ["src/IR/PlanEnumerator.cpp", "src/IR/HeuristicSearchPlanEnumerator.cpp", "include/mutable/IR/HeuristicSearchPlanEnumerator.hpp", "include/mutable/util/HeuristicSearch.hpp"],
     [("GOO, TDGOO, IKKBZ, LinearizedDP", "src/IR/PlanEnumerator.cpp"), ("heuristic search", "include/mutable/util/HeuristicSearch.hpp")])
prop("O03", "Graph and set enumeration visits every element exactly once",
     "Over every graph, enumeration of connected subgraphs and connected complement pairs, minimal-cut partitioning, reachability, connectivity, neighbourhood, spanning trees and subset enumeration deliver exactly the mathematically defined sets, each once.",
     ["inputs"], "for every graph of up to 64 vertices and every subset",
     "Tests list the expected output for a few graphs.",
     ["include/mutable/util/AdjacencyMatrix.hpp", "src/util/AdjacencyMatrix.cpp", "include/mutable/util/MinCutAGaT.hpp", "include/mutable/util/ADT.hpp", "include/mutable/util/fn.hpp"],
     [("AdjacencyMatrix", "include/mutable/util/AdjacencyMatrix.hpp"), ("MinCutAGaT", "include/mutable/util/MinCutAGaT.hpp"), ("SmallBitset, SubsetEnumerator, GospersHack", "include/mutable/util/ADT.hpp")])
prop("O04", "The optimiser's plan uses every relation and predicate of the query exactly once",
     "The operator tree built for a query contains each data source once and applies each WHERE conjunct exactly once at a place where all its relations are available, followed by grouping, HAVING, projection, ordering and limit as the query demands.  Minimising the schemas of the tree keeps its result: every expression can still be computed from what its input provides, and nothing that no operator above needs is kept.",
     ["programs", "inputs"], "for every query",
     "Tests inspect a few trees.",
     ["src/IR/Optimizer.cpp", "src/IR/QueryGraph.cpp"],
     [("Optimizer::construct_plan", "src/IR/Optimizer.cpp"), ("SchemaMinimizer", "src/IR/Operator.cpp")])
prop("O05", "Injected cardinalities are used verbatim and missing ones fall back soundly",
     "With injected cardinalities, the estimate of every listed set of relations or grouping is the injected number, clamped to the product of the inputs' estimates (for a base relation, unclamped), and of any other one the estimate of the Cartesian product (no reduction); the result for a set does not depend on the order of the names in the file, and without injected numbers not on the join order either; estimates saturate instead of wrapping around, limits subtract their offset and clamp; malformed or duplicate entries are reported and ignored, never fatal.",
     ["inputs", "configurations"], "for every injection file and query",
     "Tests use one well-formed JSON per case.",
     ["src/catalog/CardinalityEstimator.cpp", "include/mutable/catalog/CardinalityEstimator.hpp"],
     [("InjectionCardinalityEstimator / CartesianProductEstimator", "src/catalog/CardinalityEstimator.cpp")])
prop("O06", "Types are interned and joined consistently",
     "Two types are the same object iff they have the same kind, width, precision and dimension; joining two arithmetic types (integers of 1, 2, 4, 8 bytes, floats, decimals of up to 19 digits) is commutative, associative, idempotent and never narrows; storage size and alignment follow from the type alone.",
     ["inputs"], "for all types",
     "Type tests sample pairs.",
     ["src/catalog/Type.cpp", "include/mutable/catalog/Type.hpp"],
     [("type factory pool, arithmetic_join", "src/catalog/Type.cpp")])
prop("O07", "Every complete partial plan of a plan is enumerated exactly once",
     "For the final plan in a plan table, the generator announces every set of disjoint subplans that together have every relation, each exactly once and nothing else; written as JSON, a document lists exactly the partial plans given to it, in order, each subplan spelled in prefix notation, for every document written.",
     ["inputs", "histories"], "for every plan, both plan tables, however many documents are written",
     "The unit test has one plan of three relations.",
     ["src/IR/PartialPlanGenerator.cpp", "src/IR/PartialPlanGenerator.hpp", "src/mutable.cpp"],
     [("PartialPlanGenerator", "src/IR/PartialPlanGenerator.cpp")])
prop("O08", "The physical plan covers the logical plan at the lowest cost",
     "For every logical plan and every set of registered physical operators, with any patterns, costs, demands on their children's conditions and conditions of their own, the optimiser finds a covering iff there is one; it knows, for every operator and every condition that can be had, the lowest cost of having it, and the plan it extracts has the lowest cost of all, each of its operators matches its pattern and gets the conditions it demands.",
     ["inputs", "programs"], "for every logical plan and every set of physical operators",
     "No unit test covers the physical optimiser.",
     ["include/mutable/IR/PhysicalOptimizer.hpp", "src/IR/PhysicalPlanTable.hpp", "src/IR/Condition.cpp", "include/mutable/IR/Condition.hpp"],
     [("PhysicalOptimizerImpl, pattern_matcher_recursive", "include/mutable/IR/PhysicalOptimizer.hpp"), ("ConditionSet", "src/IR/Condition.cpp")])
prop("O09", "Conditions of intermediate results are implied, projected and compared soundly",
     "The physical optimiser takes a demanded condition (order, predication, lanes) for implied only if every result with the known conditions has it: a demanded order must be a prefix of the known one, and attributes demanded in either direction must be its first ones. What is kept of an order after attributes are projected away and renamed holds of the projected result. Two sets of conditions are equal iff they have the same conditions, and a second condition of one kind is refused.",
     ["inputs"], "for every two sets of conditions and every projection of attributes",
     "No unit test covers conditions.",
     ["include/mutable/IR/Condition.hpp", "src/IR/Condition.cpp"],
     [("Sortedness, ConditionSet, ConditionPropertyMap", "include/mutable/IR/Condition.hpp")])
prop("U01", "Command-line options are parsed position-independently and completely",
     "Parsing a command line invokes each option's handler once per occurrence in order with its argument converted to the option's type, passes every other argument through in order (ignoring unknown ones that start with a double dash), and takes everything after a lone double dash as it is; a missing, malformed or out-of-range argument is reported and ends the program with failure.",
     ["inputs", "configurations"], "for every command line over the registered options",
     "Tests parse fixed lines per option type.",
     ["src/util/ArgParser.cpp", "include/mutable/util/ArgParser.hpp"],
     [("ArgParser", "src/util/ArgParser.cpp")])
prop("W01", "The WebAssembly backend returns the same results as the interpreter",
     "Every query yields the same result bag when executed by the compiling WebAssembly backend and by the interpreter.",
     ["programs", "inputs", "configurations"], "for every query and database",
     "The integration tests compare fixed outputs.",
     ["src/backend/WasmOperator.cpp", "src/backend/WasmAlgo.cpp", "src/backend/V8Engine.cpp"],
     [("Wasm code generation", "src/backend/WasmOperator.cpp")])

NA = {
    "W01": "The backend needs V8 and Binaryen, which are not installed here and cannot be fetched: neither it nor its interpreter can be built, so no behaviour can be recorded or replayed.",
}
DEFAULT_NA = "No check is registered yet."

sys.path.insert(0, os.path.join(VERIF, "lib"))


def main():
    from registry import CHECKS
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        c = CHECKS.get(p["id"])
        if c:
            checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                           "thorough_cmd": "python3 check.py " + p["id"] + " --thorough",
                           "evidence_file": "evidence/%s.json" % p["id"], "technique": c["technique"],
                           "level": "model_checking", "level_note": c["note"]})
        else:
            na.append({"property": p["id"], "reason": NA.get(p["id"], DEFAULT_NA)})
    import subprocess
    m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
         "hooks": {"guard": "M_VERIF", "enable": "No hook is needed in /repo: the drivers in /verif/harness compile /repo's sources as they are; "
                   "-DM_VERIF is defined by /verif/harness/CMakeLists.txt for future use.", "source_commits": []}}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
