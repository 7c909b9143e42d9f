ENG = " Trusted: clang's lowering to LLVM IR, the VC generator, the SMT solvers; heap allocation succeeds."
prop("S01", "Set algebra on small integer sets agrees with mathematical sets",
     "For all sets over the integers 0 to 63, membership, element assignment, union, intersection, difference, complement, subset and equality tests, cardinality, singleton test, highest/lowest element extraction, prefix masks and successor/predecessor return exactly what mathematical set theory (respectively the numeric value of the set) prescribes. Checked access rejects exactly the out-of-range positions, and no other element is ever disturbed.",
     ["inputs"], "all pairs of 64-bit sets and all elements", "2^128 pairs of sets; the unit tests try about a dozen hand-picked ones with elements below 20.",
     ["include/mutable/util/ADT.hpp", "include/mutable/util/fn.hpp"], [("SmallBitset operators and factories", "include/mutable/util/ADT.hpp"), ("setbit", "include/mutable/util/fn.hpp")],
     note="Unbounded proof over all 64-bit sets, elementwise with a ghost element." + ENG)
prop("S02", "Iterating a small set yields each element once, in order, and ends",
     "Forward iteration over a set of integers 0 to 63 yields exactly its elements in ascending order, backward iteration exactly its elements in descending order, each once, and then reaches the end. Every position also gives the singleton set of its element.",
     ["inputs"], "all 64-bit sets, every iterator position", "Only a handful of sets are iterated in the tests, never with the top element.",
     ["include/mutable/util/ADT.hpp"], [("SmallBitset::iterator, reverse_iterator", "include/mutable/util/ADT.hpp")],
     note="Unbounded proof of the step contract of both iterators; the induction to a whole traversal is by hand." + ENG)
prop("S03", "Subset enumeration visits every wanted subset exactly once",
     "Enumerating the subsets of a set visits each of its subsets exactly once in strictly increasing numeric order and recognisably ends after the set itself. Enumerating the subsets of a given size does the same for exactly the subsets of that size, and terminates.",
     ["inputs"], "all base sets within 64 elements, all subset sizes, all positions of the enumeration", "The tests enumerate three base sets of at most five elements.",
     ["include/mutable/util/ADT.hpp"], [("least_subset, next_subset", "include/mutable/util/ADT.hpp"), ("GospersHack, SubsetEnumerator", "include/mutable/util/ADT.hpp")],
     note="Unbounded proof of the step contracts with an arbitrary ghost subset; induction to the whole enumeration by hand." + ENG)
AM = "include/mutable/util/AdjacencyMatrix.hpp"
prop("G01", "Graph reachability, neighbourhood and connectedness are exact",
     "On any graph of up to 64 vertices the set of vertices reachable from a source set (optionally restricted to a subgraph) is exactly the least set containing the sources and closed under edges, the neighbourhood of a set is exactly the adjacent vertices outside it, and a subgraph (or a pair of subgraphs) is reported connected exactly if it is. Reading, writing and comparing entries affects exactly the named entry, and checked access rejects exactly non-existing vertices.",
     ["inputs"], "all 64x64 edge relations, all vertex sets", "The tests use a few hand-written graphs of at most seven vertices.",
     [AM], [("AdjacencyMatrix::reachable, neighbors, is_connected", AM), ("AdjacencyMatrix::Proxy, at, operator==", AM)],
     note="Unbounded proof: loop invariants inferred (Houdini) and proved inductive; closedness via an arbitrary ghost vertex, leastness via an arbitrary ghost closed set." + ENG)
prop("G03", "Connected subgraph enumeration reports each connected subgraph exactly once",
     "For every undirected join graph, vertex subset and source set, the enumeration of connected subgraphs reports every nonempty connected vertex set within the subset that contains a source exactly once and reports nothing else. Without a source set, every connected vertex set within the subset is reported exactly once.",
     ["inputs"], "all graphs of up to 64 vertices, all vertex subsets and source sets", "Exponentially many subgraphs; the tests compare a few fixed graphs.",
     [AM], [("AdjacencyMatrix::for_each_CSG_undirected", AM)],
     note="Unbounded proof of exactly-once for an arbitrary ghost connected set by an inductive counting invariant; work list, callback and neighbors() by contract; termination not proved." + ENG)
prop("G04", "Enumeration of connected subgraph pairs reports each join candidate exactly once",
     "For every undirected join graph and vertex subset, the enumeration of pairs reports every unordered pair of disjoint connected vertex sets within the subset that are joined by an edge exactly once, in one of the two orders, and reports nothing else.",
     ["inputs"], "all graphs of up to 64 vertices, all vertex subsets", "Exponentially many pairs; the tests compare a few fixed graphs.",
     [AM], [("AdjacencyMatrix::for_each_CSG_pair_undirected", AM)],
     note="Unbounded proof against the contract of the connected-subgraph enumeration (G03), for an arbitrary ghost pair." + ENG)
SM = "src/backend/StackMachine.cpp"
prop("V01", "Expression operators compute exact results and propagate NULL",
     "For every pair of operands, each arithmetic, bitwise, comparison and conversion operator of the expression evaluator yields the result of that operation on its operands in their order. The result is NULL exactly if an operand is NULL; AND and OR follow three-valued logic, IS NULL is never NULL, and a NULL operand is never computed with. Everything else on the evaluation stack keeps its value and the evaluator can be run again.",
     ["inputs"], "all operand values and NULL bits, all stack depths and contents", "2^128 operand pairs per operator and NULL combination; the unit tests run a few constants.",
     [SM, "src/backend/StackMachine.hpp", "src/tables/Opcodes.tbl"], [("StackMachine::operator(): BINARY, UNARY, CMP, And_b, Or_b, Sel, Is_Null, Cast_*", SM), ("Value", "include/mutable/IR/Tuple.hpp")],
     note="Unbounded proof, one operation at a time on an arbitrary stack." + ENG)
prop("V02", "Values survive moves between tuples, memory, context and stack",
     "Loading a value from a tuple, a context slot or memory yields exactly the stored value and NULL bit (integers sign-extended, single bits isolated). Storing writes exactly the addressed bytes, bit or tuple slot and nothing else, and storing NULL writes nothing to memory; conditional stops end a program exactly on their condition.",
     ["inputs"], "all values, NULL bits, positions, memory contents, all stack depths and contents", "The unit tests store and load a few constants at fixed positions.",
     [SM, "include/mutable/IR/Tuple.hpp", "include/mutable/util/fn.hpp"], [("StackMachine::operator(): Ld_*, St_*, Ld_Tup, St_Tup_*, Ld_Ctx, Upd_Ctx, Stop_*", SM), ("Tuple::set, null, is_null", "include/mutable/IR/Tuple.hpp"), ("setbit", "include/mutable/util/fn.hpp")],
     note="Unbounded proof, one operation at a time on an arbitrary stack; strncpy by contract." + ENG)

CNF_ = "src/IR/CNF.cpp"
prop("V03", "Conditions keep their meaning when normalised and compiled",
     "Turning a condition into conjunctive normal form keeps its truth value under SQL's three-valued logic: for every condition built from literals with AND, OR, NOT, = and !=, and every value (TRUE, FALSE or NULL) of the literals, the clauses made evaluate to what the condition does, and nothing of a negation outlives it. Disjunction, conjunction and negation of clauses and of conjunctions are the logical ones. The program compiled from a normal form leaves exactly one value on the stack, the truth value of the conjunction.",
     ["inputs"], "all conditions, all truth values of the literals, all numbers of clauses and literals", "The tests normalise a few small conditions without NULL and compare the printed form.",
     [CNF_, "include/mutable/IR/CNF.hpp", SM], [("cnf::to_CNF, CNFGenerator, operator&&, operator||, operator!", CNF_), ("Predicate", "include/mutable/IR/CNF.hpp"), ("StackMachine::emit(const cnf::CNF&, ...)", SM)],
     note="Unbounded proof; loops over clauses and literals by inductive invariants, operands of an expression by induction (contract of the visitor)." + ENG)

prop("T01", "Tuples keep exactly the values and NULLs put into them",
     "A value is read back as it was written, with its type; values compare equal iff they hold the same, and equal values have equal hashes. Setting, clearing or nulling one attribute of a tuple changes that attribute only; inserting a tuple into another copies exactly the named attributes with their NULLs. Two tuples are equal iff the same attributes are NULL and all others are equal, whatever a NULL attribute holds, and the hash reads no NULL attribute. Every string attribute of a fresh tuple has a place of its own, large enough for its type and a terminator, inside the memory of the tuple and behind the values. A clone equals its original, NULLs included, and shares no memory with it.",
     ["inputs"], "all tuples of up to 64 attributes, all schemas, all values, every attribute", "The tests build a few tuples of two or three attributes; positions near 64, NULLs together with stale values, and several strings next to each other do not occur.",
     ["include/mutable/IR/Tuple.hpp", "src/IR/Tuple.cpp"], [("Value", "include/mutable/IR/Tuple.hpp"), ("Tuple", "include/mutable/IR/Tuple.hpp"), ("Tuple::Tuple, Tuple::clone", "src/IR/Tuple.cpp")],
     note="Unbounded proof for all tuples and schemas of up to 64 attributes; loops by inductive invariants. SQL types are modelled by their kind and fields." + ENG)
INT = "src/backend/Interpreter.cpp"; INTH = "src/backend/Interpreter.hpp"
prop("P01", "A filter keeps exactly the rows for which its condition is TRUE",
     "For every block of rows, a filter drops a row exactly if its condition is FALSE or NULL for it, whatever the conditions of the other rows are. A disjunctive filter keeps a row exactly if at least one of its conditions is TRUE for it. The rows kept are passed on once, unchanged and in place; nothing is passed on if no row is left.",
     ["inputs"], "all blocks with any set of the 64 slots in use, all conditions and their values, any number of disjuncts", "2^64 sets of slots and 3^64 values of the condition; the tests run a few queries on tiny tables.",
     [INT, INTH], [("Pipeline::operator()(FilterOperator), (DisjunctiveFilterOperator)", INT), ("Block", INTH)],
     note="Unbounded proof for an arbitrary row; the evaluation of the condition by contract (V01, V02)." + ENG)
prop("P02", "LIMIT and OFFSET pass on exactly the rows asked for",
     "Of all rows that reach a LIMIT operator, exactly those from position OFFSET on are passed on, and at most LIMIT of them, however they are spread over blocks. Evaluation is ended early exactly when all rows asked for were passed on.",
     ["inputs", "histories"], "all blocks with any set of slots in use, all limits and offsets including the largest, any number of rows seen before", "The interesting cases lie at block boundaries, blocks with holes and huge numbers.",
     [INT, INTH], [("Pipeline::operator()(LimitOperator)", INT), ("Block", INTH)],
     note="Unbounded proof of one block after any number of rows; induction over blocks by hand." + ENG)
prop("P03", "Scans and projections hand on every row exactly once, and every result row is delivered once",
     "A scan loads every row of a table exactly once and passes it on exactly once, whatever the number of rows and whatever the consumer does to the block. A projection evaluates every expression on every row, stores the value of the i-th expression as attribute i of the row at the same place, and passes on exactly these rows. Every row that reaches the end of a query is handed to the callback, printed on a line of its own, or counted exactly once.",
     ["inputs", "histories"], "all numbers of rows, all blocks with any set of slots in use, any number of projections", "Table sizes around multiples of the block size and blocks with holes hardly occur in tests.",
     [INT, INTH], [("Pipeline::operator()(ScanOperator), (ProjectionOperator), (CallbackOperator), (PrintOperator), (NoOpOperator)", INT), ("Block", INTH)],
     note="Unbounded proof for an arbitrary row; the loader and the evaluation of expressions by contract." + ENG)
prop("P04", "Aggregates account for every row of the input exactly once",
     "COUNT yields the number of rows, or of rows where its argument is not NULL. SUM, AVG, MIN and MAX yield the sum, running mean, least and greatest of the values that are not NULL, each computed in row order with the type of the aggregate; with no such value MIN and MAX are NULL, SUM and AVG 0. Every aggregate is computed from its own argument, independently of the others, and exactly one result row is passed on, after the whole input.",
     ["inputs", "histories"], "all numbers of aggregates and rows, all values and NULLs, all blocks", "Combinations of several aggregates, NULLs, types and block boundaries are hardly tested.",
     [INT], [("Pipeline::operator()(AggregationOperator), Interpreter::operator()(AggregationOperator), AggregationData", INT)],
     note="Unbounded proof of one block from any state for an arbitrary aggregate among any number, against a fold over the rows; compilation and evaluation of arguments by contract; integer sums assumed not to overflow." + ENG)
prop("P05", "Grouping puts every row into the group of its key and passes on every group exactly once",
     "For every GROUP BY, there is a group for a key iff some row has that key, where keys are compared by value (strings by their characters, NULL equal to NULL). A group holds its key and, per aggregate, what folding the aggregate over its rows, and no others, yields (as in P04). After the whole input every group is passed on exactly once, in blocks whose mask marks exactly the groups moved to them.",
     ["inputs", "histories"], "all numbers of keys, aggregates, rows and groups, all key values and NULLs, all blocks", "Tests group few rows by few short keys; equal strings at different addresses, NULL keys, many groups and partial last blocks are hardly covered.",
     [INT], [("Pipeline::operator()(GroupingOperator), Interpreter::operator()(GroupingOperator), GroupingData, KeyHash, KeyEqual", INT)],
     note="Unbounded proof of one block from any state for an arbitrary group, key attribute and aggregate, and of the emission of any number of groups; std::unordered_map and evaluation of expressions by contract." + ENG)
prop("P06", "Sorting passes on every row exactly once, in the order of the keys",
     "For every ORDER BY, every row of the input is kept and passed on exactly once, in blocks whose mask marks exactly the rows moved to them. The comparison of two rows is decided by the first key that tells them apart: NULL comes before every value whatever the direction, otherwise the values are compared as what they are (truth values, strings, integers, dates, floats) ascending or descending as asked. An empty input yields no row.",
     ["inputs", "histories"], "all numbers of keys and rows, all directions, all key types, values and NULLs", "Tests sort few rows by few keys; NULLs, ties on the first keys, partial last blocks and parents that clear rows of a block are hardly covered.",
     [INT], [("Pipeline::operator()(SortingOperator), Interpreter::operator()(SortingOperator), SortingData", INT)],
     note="Unbounded proof: the operations emitted for the comparator are run by contract on an arbitrary pair of rows; std::sort by contract." + ENG)
prop("H01", "The hash table of joins finds every element ever inserted",
     "For every history of insertions, with and without duplicates, and growing: every element inserted is found from the bucket of its key. find yields an element of the key whenever there is one, and the end otherwise; for_all calls back exactly once for every element of the key and for no other; insert_without_duplicates inserts if and only if there is no element of the key and yields the element there is otherwise. No operation loses, changes or duplicates an element; the size counts the elements. Rehashing takes every element over exactly once. Iterating reaches every element exactly once and nothing else.",
     ["inputs", "histories"], "all capacities, hash functions, contents and keys", "Tests insert few keys; colliding probe sequences, long chains of duplicates, wrap-around and tables whose first slot is free are hardly covered.",
     ["src/util/container/RefCountingHashMap.hpp"], [("RefCountingHashMap and its iterators", "src/util/container/RefCountingHashMap.hpp")],
     note="Unbounded proof: an arbitrary slot and an arbitrary step of an arbitrary probe sequence are followed through each operation; probe sequences by their triangular numbers, whose distinctness is proved in Lean; resize (floats) by contract." + ENG)
prop("P07", "Hash joins pass on every matching pair of rows exactly once",
     "For every join on a conjunction of equalities of attributes: the predicate is taken apart so that the key of a row is computed from the attributes of its own input, one attribute of the key per comparison, in the same order for both inputs. Every row of the left input is kept once with its key, every row of the right input looks its key up once, rows whose key is NULL anywhere are neither kept nor looked up. For every entry found, one joined row is made, with all attributes of both rows at their places, and every joined row is passed on exactly once in blocks whose mask marks exactly these rows, whatever the parent does to the mask of the block it got. The left input is produced before the right one, which is left out only if the left one is empty. Predicates of any other form, or comparing operands of different types, are not joined by hashing.",
     ["inputs", "histories"], "all block masks, rows and keys, all numbers of attributes, clauses and partners per row, all parents", "Tests join few rows; NULL keys, operands in different orders, partners of a row spanning several blocks and blocks of 32 and more joined rows are hardly covered.",
     [INT], [("Pipeline::operator()(JoinOperator), Interpreter::operator()(JoinOperator), SimpleHashJoinData, JoinData", INT)],
     note="Unbounded proof: the hash table and the programs run on rows by contract, one arbitrary row of the block followed." + ENG)
prop("P08", "Nested-loops joins pass on exactly the pairs of rows on which the condition is TRUE",
     "For every other join, with any condition or none: every row of the left input is kept once; for every pair of a row kept and a row of a block of the right input, the condition is evaluated on that pair, and the joined row, made of the attributes of both, is passed on exactly once if the condition is TRUE (or there is none) and never if it is FALSE or NULL, whatever the parent does to the block it got; the block of the right input is left alone.",
     ["inputs", "histories"], "all block masks, all numbers of rows of the left input, all results of the condition, all parents", "Tests join few rows with conditions that are never NULL, under parents that leave the block alone.",
     [INT], [("Pipeline::operator()(JoinOperator), NestedLoopsJoinData", INT)],
     note="Unbounded proof: an arbitrary pair of rows is followed through both loops; programs run on rows by contract." + ENG)
prop("N01", "Reader-writer locks exclude writers under every schedule",
     "For every number of threads and every interleaving of lock, unlock, upgrade: never a writer together with another holder, at most one upgrade succeeds, and a waiting thread is woken when the lock becomes free.",
     ["schedules"], "all schedules of any number of threads", "Tests run few threads under whatever schedules happen.",
     ["include/mutable/util/reader_writer_lock.hpp"], [("reader_writer_mutex", "include/mutable/util/reader_writer_lock.hpp")],
     na="the verification conditions are those of sequential code: atomics, std::mutex and std::condition_variable shared by threads need a concurrent program logic (ownership, rely and guarantee, fairness for the waking), which no verifier installed here offers for C++")
prop("N02", "Both back ends compute the same results",
     "For every query and all data, the WebAssembly back end yields the rows the interpreter yields.",
     ["inputs", "histories"], "all queries and data", "Tests compare fixed queries.",
     ["src/backend/WebAssembly.cpp"], [("WasmPlatform", "src/backend/WebAssembly.cpp")],
     na="the code that runs is made at run time by Binaryen and V8, neither of which is part of this build; a contract on the emitter would need a verified semantics of WebAssembly")
prop("N03", "Parsing and analysing SQL accept exactly the language documented",
     "For every text, lexer, parser and semantic analysis either yield the abstract syntax of the statement, with every name bound and every expression typed as documented, or a diagnostic, and never crash.",
     ["inputs"], "all texts", "Tests parse fixed statements.",
     ["src/parse/Parser.cpp", "src/lex/Lexer.cpp", "src/parse/Sema.cpp"], [("Lexer, Parser, Sema", "src/parse")],
     na="there is no independent grammar to hold the code against other than the code; the functions recurse over heap-allocated trees of polymorphic nodes, streams, hash maps and ostringstreams of the C++ library, for all of which contracts would be assumed rather than proved. (Evaluation of the trees is in V01, V02, V03, sizes and layouts are not claimed.)")
prop("N04", "Cardinality estimates are what their models define",
     "Sum-product networks and the other estimators compute the expectations their models define, and estimates are never negative.",
     ["inputs"], "all models and filters", "Tests compare few estimates.",
     ["src/util/Spn.cpp", "src/catalog/CardinalityEstimator.cpp"], [("Spn, SpnWrapper, CardinalityEstimator", "src/util/Spn.cpp")],
     na="floating-point learning on Eigen matrices; the back ends decide no arithmetic of floats beyond that equal operations yield equal results")
prop("N05", "A query returns exactly the rows its SQL text denotes",
     "For every query and every content of the tables, the rows returned are those of the SQL standard's semantics of the text.",
     ["inputs", "histories"], "all queries and data", "Tests run fixed queries on fixed data.",
     ["src/mutable.cpp"], [("m::execute_query", "src/mutable.cpp")],
     na="claimed operator by operator (P01 to P08, V01 to V03, T01, H01) and for the plan space (G03, G04); composing these into one statement about whole queries needs a contract of parser, analysis and query graph (N03), which is not within reach")
