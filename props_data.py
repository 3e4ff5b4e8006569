prop("C02", "Variable bindings never leak between inference attempts",
 "Every attempt to match or unify terms starts with no binding left over from an earlier, separate attempt, and every procedure that binds variables removes those bindings again before control returns to the search, whether the attempt succeeded or failed. A partial undo returns exactly to the binding level saved before the attempt it undoes, every binding is recorded for undoing, and a temporary renaming of clause variables is undone before the next one begins.",
 ["inputs", "histories"],
 "for every problem, strategy and derivation history: every sequence of successful and failed unification, subsumption, cutting, simplification and renaming attempts",
 "A leaked binding only shows when a particular later attempt reuses the same variable slot; the example problems exercise a few fixed histories and mostly still find a proof.",
 ["Reasoner/unify.c", "Reasoner/subsume.c", "Reasoner/resolve.c", "Reasoner/build.c", "Reasoner/analyze.c", "Reasoner/arithinst.c", "Reasoner/rgenloop.c", "Reasoner/clmeta.c", "Reasoner/strat.c"],
 [("trail of bound variable slots and its clearing operations", "Reasoner/unify.c"), ("attempt/clear pairing in each inference and simplification rule", "Reasoner/resolve.c, Reasoner/subsume.c"), ("variable renumbering of derived clauses", "Reasoner/build.c, Reasoner/rgenloop.c")],
 ["the proof or the 'proof not found' answer printed for a problem"],
 [("binding trail", "stack of variable slots bound so far", "Reasoner/glb.h"), ("variable banks", "slots per premise: given, active, derived", "Reasoner/glb.h")])
claim("C02", "path-sensitive interprocedural typestate analysis over LLVM IR",
 "All functions that bind or rename variables, all paths of their control-flow graphs with correlated return flags; loops by fixpoint. Trusts that the variable banks of different premises are disjoint and that the trail primitives do what their own trail rule says.")

prop("C01", "A query never modifies an attached shared knowledge base",
 "A segment attached from shared memory is mapped read-only and its address range is remembered for as long as it is attached. Everything a query run writes or allocates goes to its own memory or local database: clauses, histories, constants, hash caches, counters and error flags that may lie in the attached knowledge base are only written after the attached range, handle or flag was tested, prebuilt indexes are only read, and commands that work on an attached knowledge base never hand it to code that writes it.",
 ["inputs", "histories", "other"],
 "for every knowledge base, query, strategy and sequence of queries, by any number of processes attached at the same time",
 "A stray write needs a particular clause or constant of the knowledge base to reach a particular code path; the tests run a few tiny queries, mostly without an attached knowledge base.",
 ["Db/dbmem.c", "Db/dballoc.c", "Db/dbdata.c", "Db/dbmpool.c", "Reasoner/rmain.c", "Reasoner/rgenloop.c", "Reasoner/clstore.c", "Reasoner/history.c", "Reasoner/hash.c", "Reasoner/analyze.c", "Reasoner/build.c", "Reasoner/clterm.c", "Main/gkc.c"],
 [("read-only mapping and attached range bookkeeping", "Db/dbmem.c"), ("range tests before in-place updates of clauses, histories and string caches", "Reasoner/rgenloop.c, Reasoner/clstore.c, Reasoner/history.c, Reasoner/hash.c"), ("run-time allocation through the local database handle", "Reasoner/clterm.c, Reasoner/build.c, Reasoner/history.c")],
 ["contents of the shared memory segment before and after a query, results of later queries, crashes of a query process"],
 [("shared segment", "memory image of the knowledge base", "Db/dballoc.h"), ("wg_attached_kb_segment", "base of the attached range", "Db/dbmem.c")])
claim("C01", "whole-program pointer provenance and write-effect summaries over LLVM IR",
 "All stores, block copies and calls of functions with a write summary in everything reachable from wg_run_reasoner while a knowledge base is attached, all shmat/shmdt sites, all users of an attached handle in gkc_main. Process-local containers are told from shared ones by the allocation flag rule; values of at most 32 bits are taken to be encoded in place.")

prop("C04", "Inference, cutting and subsumption respect literal signs",
 "A negative literal is only resolved with, cut by or propagated into positive literals and the other way round, while merging, factoring, subsumption and clause equality only ever pair literals of equal sign. Literals are stored in and fetched from the index of the right sign, an atom that evaluates to true or false has the effect its sign calls for, and a literal copied into a derived clause keeps its own sign. What is allowed for one sign combination is also done for its mirror image.",
 ["inputs", "histories"],
 "for every clause set and every combination of signs, clause kinds (fact or rule) and indexes reached during a search",
 "A swapped or skipped sign test in one of the many cutting, subsumption or index routines only shows when literals of the particular signs meet in that routine with that strategy; otherwise the sample problems still get their proofs.",
 ["Reasoner/resolve.c", "Reasoner/subsume.c", "Reasoner/derive.c", "Reasoner/simp.c", "Reasoner/clstore.c", "Reasoner/propagate.c", "Reasoner/hash.c", "Reasoner/rgenloop.c"],
 [("sign-specific literal and unit indexes", "Reasoner/clstore.c, Reasoner/rgenloop.c, Reasoner/hash.c"), ("sign tests in inference rules", "Reasoner/resolve.c, Reasoner/propagate.c"), ("sign tests in subsumption and unit cutting", "Reasoner/subsume.c"), ("truth constants, duplicate literals and tautologies", "Reasoner/derive.c, Reasoner/simp.c")],
 ["a proof printed for a clause set that has none, or a refutation missed because an allowed sign combination is refused"],
 [("literal meta", "slot in front of each atom of a rule clause holding the sign", "Reasoner/clterm.h"), ("hash_pos_* / hash_neg_*", "indexes of positive and negative literals", "Reasoner/glb.h")])
claim("C04", "conditional constant propagation over LLVM IR under each assumption about literal signs",
 "Every function that reads literal signs and uses a sign index, an inference call or an equality answer; all sign combinations. Assumes facts are positive unit literals and that index primitives are those named in the check.")

prop("C03", "Conclusions are drawn only from comparisons that succeeded, and from the terms that were compared",
 "A resolvent, factor, paramodulant or propagated clause is only built while a successful unification or comparison made for it stands, and it is built from exactly the literals, clauses and equation sides that were compared. Every literal of a premise reaches the conclusion unless it is the literal resolved upon, an equal one is already there, or it evaluated to a truth constant. A clause or literal is only reported as subsumed, tautological, found or cut off after a comparison that succeeded, with the more general side as the pattern; every literal of a subsuming clause needs its own match. A term is only rewritten by the opposite side of an equation whose other side matched it. A literal may only be instantiated while being cut if no other literal of its clause has variables, and two literals are never dropped each with the help of the other.",
 ["inputs", "histories"],
 "for every clause set, strategy and reachable set of active clauses: every pair of literals or terms that are compared",
 "A missing or misdirected success test needs a clause of a particular shape (literal count, sides of an equation, repeated variables) to meet a particular rule; the sample problems mostly still get a proof, only an unsound one.",
 ["Reasoner/resolve.c", "Reasoner/derive.c", "Reasoner/subsume.c", "Reasoner/simp.c", "Reasoner/rewrite.c", "Reasoner/propagate.c", "Reasoner/hash.c"],
 [("inference loops and result builders", "Reasoner/resolve.c, Reasoner/derive.c"), ("subsumption, unit cutting, strong cutting", "Reasoner/subsume.c"), ("simplification and double cutting", "Reasoner/simp.c"), ("demodulation", "Reasoner/rewrite.c"), ("unit propagation", "Reasoner/propagate.c, Reasoner/resolve.c")],
 ["a proof printed for a satisfiable clause set, or a step of a printed proof that does not follow from its premises"],
 [("derived_termbuf", "literals of the clause under construction", "Reasoner/glb.h"), ("index node", "term, clause and position stored for a literal or subterm", "Reasoner/clstore.h")])
claim("C03", "typestate analysis and structural matching of operands over LLVM IR",
 "All call sites of the four result builders, all listed subsumption, cutting, lookup and rewriting routines, all paths with correlated flags. Trusts that the comparison primitives answer correctly.")

prop("C11", "An encoded value is only followed as what its type tag says it is",
 "Constants, numbers, strings, variables and compound terms share one encoding whose low bits tell the type. Wherever an argument of a term, a side of an equation, a field of a record or the value of a variable is dereferenced as a compound term, a stored integer, a stored double or a string, its tag was tested to be of that type on every path leading there, in the function itself or in each of its callers. In particular matching, unification, comparison, hashing, building and printing code never decodes a constant, number or variable as a record, nor a record as a string or number.",
 ["inputs", "histories", "other"],
 "for every input problem and knowledge base: every combination of kinds of terms (variable, constant, small or large integer, double, short or long string, compound term) that two operands of an operation may have",
 "A missing or wrong tag test is only felt when a value of one particular kind meets another particular kind in that routine (for instance an integer too large for an immediate against a compound term); tests use few kinds of constants and mostly names.",
 ["Reasoner/unify.c", "Reasoner/build.c", "Reasoner/subsume.c", "Reasoner/rewrite.c", "Reasoner/hash.c", "Reasoner/clmeta.c", "Reasoner/clstore.c", "Reasoner/derive.c", "Reasoner/resolve.c", "Db/dbdata.c", "Db/dbcompare.c", "Printer/dbotterprint.c", "Builtparser/dbparse.c"],
 [("comparison of terms of different kinds", "Reasoner/unify.c"), ("building and evaluating terms", "Reasoner/build.c"), ("type tags of encoded values", "Db/dbdata.h"), ("clause and term printing", "Printer/dbotterprint.c, Reasoner/printerrutils.c")],
 ["crashes, wild reads, or two different terms treated as equal"],
 [("encoded value", "64-bit integer whose low bits give its type", "Db/dbdata.h"), ("record", "array of encoded values holding a compound term", "Db/dballoc.h")])
claim("C11", "dataflow analysis of type-tag sets with branch refinement over LLVM IR, requirements propagated through the call graph",
 "All reads through decoded values in the five directories; values that hold clauses, atoms, histories or index nodes are records by construction and are trusted. The handling of a value once its type is known is not judged.")

prop("C12", "Built-in functions and predicates have exactly their documented value, or are left unevaluated",
 "A computed term takes the value its documented definition gives for all operands of the kinds it is defined on: sum, difference, product and integer quotient; quotient and remainder in their truncating, floor and nonnegative-remainder variants; real arithmetic; rounding in the direction of the name; comparisons by numeric value; type tests by the type of the argument; substring tests on the whole text of distinct symbols; equality true only for identical terms and false only between different numbers, distinct symbols and lists. On anything else (variables, ordinary constants, compound terms, too few arguments, a zero divisor, integer overflow, a result that is not finite or does not fit) the term is left as it is. No integer operation overflows on the way, and integer constants keep all their 64 bits between input, term and output.",
 ["inputs"],
 "for every operand value: all sign combinations, exact and inexact division, the extremes of the integer range, large and non-finite reals, mixed types, all kinds of terms",
 "Wrong values show only for particular operands: negative divisors with a remainder, the smallest integer, integers above 32 bits, a real equal to an integer, a name that is a prefix of another. The tests use small positive numbers.",
 ["Reasoner/build.c", "Reasoner/arithinst.c", "Parser/dbparse.c", "Builtparser/dbparse.c", "Printer/dbotterprint.c", "Db/dbutil.c"],
 [("evaluation of built-in terms", "Reasoner/build.c"), ("checked integer operations", "Reasoner/build.c, Reasoner/arithinst.c"), ("reading and printing integer constants", "Parser/dbparse.c, Printer/dbotterprint.c, Db/dbutil.c")],
 ["a proof that uses a false arithmetic fact, a crash on division, or an answer with a wrong number"],
 [("COMP_FUN_*", "code of a built-in function", "Reasoner/build.h"), ("distinct symbol", "name with the prefix #, a string", "Reasoner/build.c")])
claim("C12", "conditional constant propagation with interval and linear-form facts over LLVM IR, per class of operands",
 "Every built-in is followed from its name through the dispatcher under each class of operands (types, signs, sign of the remainder, zero, overflow, infinities) and the form of the encoded value is compared with its definition; operations on decoded integers are shown not to overflow. Real arithmetic is compared as expressions, not bit by bit; integer operands in the value rules are bounded by 1000 in size, the overflow rules cover the rest.")

prop("C05", "Unification, matching and equality of terms say yes exactly when the terms fit, and bind exactly what that takes",
 "Unification succeeds exactly when both terms can be made equal: a variable stands for the end of its chain of bindings, a free variable is bound to the other operand and to nothing else, never to a compound term that contains it, two different constants agree only if both are stored numbers or strings of the same kind and content, a constant never agrees with a compound term, and compound terms agree exactly when they have the same length and every element agrees with its counterpart, from the head to the last argument. Matching is one-sided: only variables of the pattern are bound, and a bound pattern variable only agrees with a term equal to its value. Equality binds nothing. Every binding is recorded at the next free place of the trail, and undoing clears every recorded slot above the kept level.",
 ["inputs", "histories"],
 "for every pair of terms: every combination of kinds of operands, chains of bindings, positions of elements, stored constants and repeated variables",
 "A comparison that goes wrong for one combination (a repeated pattern variable bound to a compound term, a variable found only through a chain of bindings, two large integers with equal low bits) shows only on input that has it, as an unsound or a lost proof.",
 ["Reasoner/unify.c", "Reasoner/unify.h", "Reasoner/glb.c"],
 [("unification with occurs check", "Reasoner/unify.c"), ("one-sided matching", "Reasoner/unify.c"), ("equality of terms and of stored constants", "Reasoner/unify.c, Reasoner/unify.h"), ("bindings and trail", "Reasoner/unify.c, Reasoner/unify.h")],
 ["a proof printed for a clause set that has none, or a proof missed"],
 [("variable bank", "slot per variable holding the term it is bound to or 'unassigned'", "Reasoner/glb.h"), ("trail", "stack of bound slots", "Reasoner/glb.h")])
claim("C05", "conditional constant propagation with symbolic operands over LLVM IR, per combination of operand kinds, bindings and answers of inner calls",
 "All functions of unify.c that the prover calls. Inner calls are judged separately and taken to answer as specified, which gives the result for all terms by induction on their size. Long strings are identical exactly when their stored handles are (uniqueness of names in memory is trusted). The instance generation comparison for equal-length clauses descends with plain matching, as written.")

# ---------------------------------------------------------------- C06
prop("C06", "Every proof step names the rule and exactly the clauses it was made from, and a proof is announced only when an empty clause was derived",
 "A derived clause is stored with the rule used, the parents given to that rule, the position of the literal used in each parent, and the clauses that cut off further literals or rewrote terms while it was made (as far as the fixed lists have room); every reader takes each of these from the slot it was written to, looks up every premise and nothing else, and prints each literal position with its own premise (positions above 255 as 255). A step with a goal clause (or a clause derived from one) as a parent is marked as coming from the goal. A proof is announced only where the clause just made has no literals left, or only answer literals, or is evaluated to false; the answer registered is that very clause with its last step.",
 ["inputs", "histories"],
 "for every derivation: every rule, every number of cutters, every literal position and both directions of paramodulation",
 "Printed proofs are what users and proof checkers rely on; the tests compare whether a proof is found, not whether the steps name the right premises, and a wrong slot shows only for one rule with cuts, in one output format.",
 ["Reasoner/history.c", "Reasoner/history.h", "Reasoner/derive.c", "Reasoner/simp.c", "Reasoner/subsume.c", "Reasoner/rewrite.c", "Reasoner/prop.c", "Reasoner/propagate.c", "Reasoner/arithinst.c", "Reasoner/genloop.c"],
 [("building history records", "Reasoner/history.c"), ("deriving clauses", "Reasoner/derive.c, Reasoner/simp.c, Reasoner/propagate.c, Reasoner/prop.c, Reasoner/arithinst.c"), ("recording cutters and rewriters", "Reasoner/simp.c, Reasoner/subsume.c, Reasoner/rewrite.c"), ("reading and printing proofs", "Reasoner/history.c")],
 ["a proof whose steps do not follow from the clauses they name, a proof with missing steps, or a proof announced without an empty clause"],
 [("history record", "record with rule tag, positions, role, parents, cutters and rewriters", "Reasoner/history.h"), ("cutter and rewriter lists", "clauses used to cut or rewrite while one clause is built", "Reasoner/glb.h"), ("answers", "registered answer clauses with their last steps", "Reasoner/glb.h")])
claim("C06", "symbolic value flow and conditional constant propagation over LLVM IR: record layout of writers against readers, premises of each step against the clauses the rule took literals from, must-record dataflow for cutters and rewriters, control conditions of every proof announcement",
 "Decides where each premise, position, role, cutter and rewriter goes and comes from. Not decided: whether the step is logically valid (see C04, C05), and cutters beyond the capacity of the fixed lists (100 and 10000 entries), which are dropped by design.")

# ---------------------------------------------------------------- C07
prop("C07", "A vector that grows moves as a whole: every element stays reachable and no old address is used",
 "The prover keeps clauses, index buckets, occurrence lists, propositional values, answers and scratch lists in vectors that are reallocated when full. A vector's block always holds as many elements as the length recorded in it; an element is stored only within that length or after growing to reach its position; the free position of a counted vector stays behind its last element. After any call that may grow a vector, directly or deep inside another function, the new address replaces the old one in the place the vector is kept (field, table slot, name record, caller's pointer), in the form kept there (pointer or offset), and nothing reads, writes, stores or hands on an address taken from the vector before.",
 ["inputs", "histories"],
 "for every problem size: every call that may reallocate a vector, every later use of an address into it, on every path where memory does not run out",
 "Initial sizes are large, so growing happens only on big problems or for one crowded bucket, and a stale address usually still reads the old contents; tests are small and rarely grow anything.",
 ["Reasoner/mem.c", "Reasoner/hash.c", "Reasoner/prop.c", "Reasoner/strat.c", "Reasoner/analyze.c", "Reasoner/history.c", "Reasoner/rmain.c", "Reasoner/rgenloop.c", "Reasoner/clstore.c", "Reasoner/subsume.c"],
 [("vector allocation and growth", "Reasoner/mem.c"), ("hash buckets", "Reasoner/hash.c, Reasoner/prop.c"), ("literal selection scratch vectors", "Reasoner/strat.c"), ("clause queues and answers", "Reasoner/rgenloop.c, Reasoner/clstore.c, Reasoner/history.c")],
 ["heap corruption, lost clauses or crashes on large problems"],
 [("vec, cvec", "length-prefixed array; a cvec has its first free position in element 1", "Reasoner/mem.h")])
claim("C07", "interprocedural effect summaries (which kept vectors a call may move) with forward dataflow of stale addresses over LLVM IR",
 "All growing calls in prover, printer and parsers, including growth inside callees. Paths on which memory runs out are not judged. Accesses by explicit subscript are checked for staleness, not for their index (see C06 for the cutter lists).")
# ---------------------------------------------------------------- C17
prop("C17", "Text is only written where there is room for it, and is never cut",
 "Proofs, clauses, formulas, converted problems and messages are put together in memory before they are printed. Whatever the length of the names, file names, strategy text and numbers in them: each piece appended to a growing buffer fits into room that was asked for before it on every path, counting that quoting may double a name and that a large double has over 300 digits; a printing function leaves its caller the room the caller relies on; text written into an array of fixed size stays inside it and is not cut by its size limit; strings joined into an allocated or fixed block fit; a buffer handed on with its size is that large; text copied up to a limit is ended inside it; and text coming from the input is never used as a print format.",
 ["inputs"],
 "for every input text, name length and proof: every write of text, every path to it",
 "Names in tests are short and buffers start with thousands of bytes, so a missing or too small request for room only shows with very long or quote-filled names, at the very moment the buffer is nearly full.",
 ["Printer/dbotterprint.c", "Reasoner/history.c", "Reasoner/rmain.c", "Reasoner/printerrutils.c", "Parser/dbparse.c", "Parser/jsparse.c", "Builtparser/dbparse.c", "Builtparser/jsparse.c", "Db/dbmpool.c", "Db/dbutil.c", "Main/gkc.c"],
 [("buffer growing", "Reasoner/mem.c wr_str_guarantee_space, Db/dbmpool.c wg_str_guarantee_space"), ("clause and formula printing", "Printer/dbotterprint.c, Db/dbmpool.c"), ("proof printing", "Reasoner/history.c"), ("converted problems", "Builtparser/dbparse.c, Builtparser/jsparse.c")],
 ["crashes or damaged memory on long names", "truncated names, formulas or proofs in the output"],
 [("growing buffer", "a pointer and its length, both passed by address and enlarged before an append", "Reasoner/mem.c")])
claim("C17", "forward dataflow of room bounds (linear forms over positions and string lengths) with summaries of the room each printing function needs and leaves, over LLVM IR",
 "All text writes of the prover, printer, parsers and database whose destination is a growing buffer, an array or a block of known size. The strategy text of make_auto_guide and the third-party json and cjson libraries are not judged.")
prop("C18", "A run starts from a fully defined state, and what is switched for a while is switched back",
 "A strategy run, a conversion and a parse use a run record with several hundred settings, counters, limits, tables and pointers. Every field of it is given a value before anything on the way from the entry functions reads it, so results never depend on what was in memory before or on an earlier strategy run; tables looked at by position are made from cleared memory; the record is not used after it was freed; a second search on the same record only starts after its queues and active lists were made anew. Modes switched for a while - allocating in private memory while analysing, not computing while an input is read, building instances with one constant, rewriting, probing for numeric instances, the buffer built into - are back at their former value on every return of the function that switched them, including failing ones, and the inference steps set the building modes (substituting, renaming with its counter and bank, rewriting) themselves instead of using what an earlier step left.",
 ["inputs", "strategy histories"],
 "for every input and every list of strategies: every path from the entry functions to a read of a field, and every return of a function switching a mode",
 "Fresh memory is mostly zero and tests run one short strategy, so a setting left undefined or a mode left on shows only when memory is reused by a later run or a rare failing return was taken.",
 ["Reasoner/glb.c", "Reasoner/rmain.c", "Reasoner/init.c", "Reasoner/analyze.c", "Reasoner/derive.c", "Reasoner/simp.c", "Reasoner/rewrite.c", "Reasoner/prop.c", "Reasoner/arithinst.c", "Builtparser/dbparse.c", "Builtparser/jsparse.c"],
 [("construction", "Reasoner/glb.c wr_glb_new_simple, wr_glb_init_shared_complex, wr_glb_init_local_complex"), ("strategy runs", "Reasoner/rmain.c wg_run_reasoner"), ("temporary modes", "Reasoner/analyze.c, Reasoner/prop.c, Reasoner/rewrite.c, Reasoner/arithinst.c, Builtparser/dbparse.c")],
 ["answers that change from machine to machine or between strategies", "crashes when a run record is taken down"],
 [("run record", "struct glb, one for each strategy run", "Reasoner/glb.h")])
claim("C18", "bottom-up must-definition analysis of record fields over the call graph and summaries of the values functions leave in a field, over LLVM IR",
 "R1 fields read before set (interprocedural, to a fixpoint); R2 no use after free; R3 value sets left in mode fields per return, calls composed, with branch refinement; R5 own setup of inference steps; R7 cleared tables.")
# ---------------------------------------------------------------- C13
prop("C13", "Input is read whole, or refused",
 "An answer is about the input the user gave. Whenever the input file or text, or a file it includes at any depth, cannot be opened, cannot be read to its end, is not accepted by the parser (TPTP, Otter or JSON), or has a formula which cannot be turned into clauses, every import function on the way returns an error, an error noticed in an included file is still known in the file that includes it, no proof search is started on the part that was read, and the program ends with a nonzero exit code. An include is never passed over: it reads the named file or reports an error. The statements of the input are gone through to the end of the list: leaving the loop early, or giving up a clause, reports an error. Every grammar rule computes the value it hands on, instead of passing on an undefined one or only its first part. A number out of the representable range, whole or floating, positive or negative, is refused and never replaced by another value, and an old error code does not refuse a good number. JSON nested deeper than the places for open lists is refused before those are overrun, and a second JSON value at the top level does not silently replace the first.",
 ["inputs"],
 "for every input file and text, every place where reading can fail and every path from there to the main program",
 "Tests read well-formed files and a few malformed ones, always from one place; whether an error deep in an included file, at the limit of a number or of nesting, or after the first thousand statements reaches the main program depends on every return on the way.",
 ["Main/gkc.c", "Reasoner/rmain.c", "Builtparser/dbparse.c", "Builtparser/jsparse.c", "Builtparser/dbotter.tab.c", "Builtparser/dbclausify.c", "Parser/dbparse.c", "Parser/jsparse.c", "Parser/dbotter.y", "json/yajl_all.c"],
 [("import of TPTP and Otter text", "Builtparser/dbparse.c wr_import_otter_file, wr_preprocess_clauselist, wr_parse_clauselist"), ("import of JSON", "Builtparser/jsparse.c wr_import_js_file, wr_yajl_parse_file and the parse_yajl_ callbacks"), ("grammar", "Parser/dbotter.y, Builtparser/dbotter.tab.c"), ("numbers", "Builtparser/dbparse.c wr_parse_primitive, json/yajl_all.c"), ("main program", "Main/gkc.c")],
 ["a proof, or no proof, reported for something other than the input given"],
 [("parse error flag", "g->parse_errflag, set by the functions which show errors", "Builtparser/dbparse.c")])
claim("C13", "interprocedural propagation of failure results: conditional constant propagation from each failing call up through its callers to the main program, with must-set analysis of the error flag, over LLVM IR of both parser builds",
 "P1-P3, P5 failures and flag; P4 bison tables against the action switch; J1/J2 stores reached from the yajl callbacks under assumed depth and result; N1/N2 conversion results under an assumed range error. Which clauses an accepted text stands for is not judged here (P4 apart), nor are JSON objects without any formula in them, which are empty.")
# ---------------------------------------------------------------- C16
prop("C16", "Parallel workers neither lose nor invent a result",
 "When several worker processes search at the same time, each run of the strategy list is made by exactly one worker, a process which starts workers makes no runs itself, and workers start no further workers. A worker ends with exit status 0 exactly when it found and showed a proof (as many answers as asked for); fewer answers, found before its time or clauses were used up, are shown as well. Ending without one, by an error or by a crash never stops the other workers and never counts as a proof. The parent counts every ended worker, however it ended, so it never waits for ever; after a proof it stops exactly the workers still running, reports success and ends; that no proof was found is reported by the parent only, after all workers have ended. A worker ends when its parent ends, and the overall time limit ends the parent and with it all workers.",
 ["schedules", "faults"],
 "for every number of workers, every list of strategy runs, every order in which workers end and every way in which they end (proof, no proof, error status, killed or crashed)",
 "Which worker ends first, and whether one crashes or gives up before another finds the proof, depends on timing and memory; tests look at the final answer of a few runs where the proof comes quickly.",
 ["Reasoner/rmain.c", "Main/gkc.c"],
 [("starting and waiting for workers", "Reasoner/rmain.c wg_run_reasoner"), ("division of the runs", "Reasoner/rmain.c wg_run_reasoner, the loop over iter"), ("exit status and final message", "Main/gkc.c gkc_main"), ("time limit", "Main/gkc.c gkc_main, sig_handler")],
 ["a proof lost, a search that never ends, processes left running, a wrong exit status"],
 [("workers", "processes made by fork(), their numbers kept in an array by the parent", "Reasoner/rmain.c")])
claim("C16", "conditional constant propagation over the process-control code under each outcome of fork, waitpid, the wait status, getpid and the search, over LLVM IR",
 "All functions that start workers and run the search, and their callers in the main program; three workers and seven runs stand for the division of runs (the test is periodic), the wait statuses 0, 1, 255, SIGKILL and SIGSEGV with core for the ways of ending. POSIX process calls are trusted.")
# ---------------------------------------------------------------- C14
prop("C14", "A search ends when its time, memory or clauses are used up, or enough is found",
 "Every round of the search compares the time used by the run, and by all runs together, with each limit given (max_seconds and max_dseconds of the run, the total limit) before a clause is picked: once any of them is over no further clause is picked and the search ends as out of time, and before that it goes on, whichever of the limits are given together. The clock of a run starts once, before its first round. The resolution and paramodulation loops over the active clauses look at the time of the run themselves and stop when it is over, and not earlier. After memory ran out no further clause is picked or derived and the search ends with an error; after as many answers were found as asked for, none is picked or derived and the search ends as proved; with fewer it goes on. It ends as proved only if there is a proof with as many answers as asked for, and the answers are counted rightly. A clause picked is used, an empty hyper queue does not end the search, and no clause left ends it. No further run is started once the total time is over. The program hands its own start time and -seconds limit to the search.",
 ["schedules", "inputs"],
 "for every combination of limits, every clock reading, every point of the search at which time or memory runs out, and every number of answers asked for and found",
 "Whether a limit is met in the first round, in a later one, or in the middle of a long step depends on the machine and the problem; tests solve their problems long before any limit, and never run out of memory.",
 ["Reasoner/rgenloop.c", "Reasoner/resolve.c", "Reasoner/rmain.c", "Reasoner/history.c", "Main/gkc.c"],
 [("main loop", "Reasoner/rgenloop.c wr_genloop"), ("long steps", "Reasoner/resolve.c wr_resolve_binary_all_active, wr_paramodulate_from_all_active, wr_paramodulate_into_subterms_all_active"), ("counting answers", "Reasoner/history.c wr_enough_answers, wr_have_answers"), ("runs", "Reasoner/rmain.c wg_run_reasoner")],
 ["a search which does not end in its time, ends early without trying, or ends with the wrong result"],
 [("limits", "g->max_run_seconds, max_run_dseconds, max_seconds, memory segment max_seconds and max_dseconds", "Reasoner/glb.h"), ("clocks", "run_start_clock, allruns_start_clock", "Reasoner/glb.h")])
claim("C14", "conditional constant propagation of the search loops in chosen states of the clock, the limits, the memory flag and the answers",
 "The main loop, the clause-making loops with a time test of their own, the loop over runs and the two counting functions. Six limits, each alone and together with the others, stand for all; that one inference over one clause ends by itself is trusted, and seconds are processor seconds as clock() gives them.")
# ---------------------------------------------------------------- C10
prop("C10", "A knowledge base is complete, or it is not used",
 "A knowledge base in shared memory or in a file is used only if it is complete. Writing one to a file reports success only after the whole used image, its checksum and closing the file succeeded, and the checksum covers everything the file holds. Loading only happens after header mark, version, features, size and checksum of that same file were found right, goes only into a segment just created, reports success only after the whole image was read, keeps the segment's own size and sets up its locks; an image larger than the segment is refused before anything is written. Any failure in reading the input, the guide, or building the indexes of a new kb makes -readkb and -readwritekb remove the kb, write no file and end with nonzero exit code; a kb is marked complete last of all, and only a marked one is used or written. Attaching an existing segment refuses a foreign header, version, features or too small a size. Every lock taken by dumping and loading is released, and every dump file opened is closed, on all paths.",
 ["inputs", "faults"],
 "for every kb and dump file, every step of building, writing, checking, loading and attaching that can fail, and every path from there to the exit of the command",
 "Tests build and query a kb when every step succeeds; a full disk, a cut or altered file, a segment left by another version, a failure in the middle of indexing or a crashed builder are not produced by them.",
 ["Db/dbdump.c", "Db/dbmem.c", "Db/dbmem.h", "Db/dblock.c", "Main/gkc.c", "Reasoner/init.c"],
 [("dump and import", "Db/dbdump.c wg_dump_internal, wg_check_dump, wg_import_dump"), ("attaching segments", "Db/dbmem.c wg_attach_memsegment, wg_check_header_compat"), ("commands", "Main/gkc.c -readkb -writekb -readwritekb -loadkb -usekb"), ("building", "Reasoner/init.c init_shared_database")],
 ["a wrong or missing proof, or a crash, from a damaged or half built knowledge base", "a damaged kb file reported as written"],
 [("segment header", "db_memsegment_header: mark, version, features, size, free, checksum, rglb", "Db/dballoc.h")])
claim("C10", "conditional constant propagation under each failing step, must-reach analysis and operand matching over LLVM IR",
 "All steps of building, dumping, verifying, loading and attaching that report failure by their result. The C library is trusted to report failures; that the allocator's `free` field covers every record in use is not judged here.")
# ---------------------------------------------------------------- C20
prop("C20", "Each setting, strategy name and command line option sets what it is documented to set, and nothing else",
 "Doc/strategy_reference.md and Doc/cli_reference.md say what each setting means. For whatever number is given: (1) each documented numeric setting of a strategy puts that number into its own field of the run and changes no other (print_json, print_tptp, max_seconds, max_dseconds and the arith_inst_* limits also set the flags documented for them; total_dseconds is rounded up to whole seconds and gives way to total_seconds), and each documented strategy name sets its own flags and no others; (2) an unknown setting or strategy name sets nothing and gives a warning; (3) limits of numeric instantiation not given get the default of the mode asked for, and limits given and within range stay; (4) a clause derived by a resolution, factoring or paramodulation step or by unit propagation which is over the max_weight, max_size, max_depth or max_length given is dropped, one at or below it is not dropped for that reason, 0 means no limit, and each search starts with the limits of its own strategy; (5) each print level switches on the amount of output documented for it, \"print\":0 switches it off; (6) each command line option sets its own value only, takes exactly its own argument, and a missing, non-numeric or out of range argument, and an unknown option, end the program with an error; an argument which is no option is a file name; (7) the values of the command line reach every search (segment size, parallel, seconds, printing, output format, strategy), and a print level on the command line wins over that of the strategy; (8) each command does its own work, does not create, delete, overwrite, dump or search otherwise, -json with -tptp is refused, and -convert and -clausify never search.",
 ["settings", "strategy names", "option values", "commands"],
 "for every documented setting, name, option and command, each alone, with values at and around its bounds, on every path of the parsers and of the dispatch; combinations of several settings only where one is documented to win over another",
 "Tests use a few strategies and options with one value each; a setting that lands in a neighbouring field, is off by one at its bound, or disturbs another setting still gives a proof in most of them.",
 ["Reasoner/guide.c", "Reasoner/rmain.c", "Reasoner/arithinst.c", "Reasoner/derive.c", "Main/gkc.c", "Doc/strategy_reference.md", "Doc/cli_reference.md"],
 [("settings", "Reasoner/guide.c wr_parse_guide_section, wr_parse_guide_strategy, wr_parse_guide_strategy_set"), ("numeric instantiation defaults", "Reasoner/arithinst.c wr_arithinst_configure"), ("limits", "Reasoner/derive.c wr_derived_weight_check, Reasoner/rmain.c before wr_genloop"), ("options and commands", "Main/gkc.c parse_cmdline, gkc_main")],
 ["a strategy that does something else than written", "a shared kb deleted or written by another command", "limits off by one"],
 [("run record", "settings in struct glb", "Reasoner/glb.h"), ("segment header", "max_forks, max_seconds, printlevel, tptp, json, convert, clausify", "Db/dballoc.h")])
claim("C20", "conditional constant propagation of the parsers of settings and options for each documented name and value",
 "One documented name or option with one value at a time; the JSON reader is taken to deliver keys and numbers. Where names are compared with a table instead of constants the part is reported as not decided.")
# ---------------------------------------------------------------- C08
prop("C08", "Memory or a file that could not be had is noticed before it is used",
 "Large problems run into the limits of memory, of the shared segment and of the reasoner's own clause buffers all the time; then a run has to end with a message or go on without the clause, never by following a pointer that is not there or writing at the start of the segment. On every path, whatever malloc, realloc, fopen, the vector constructors, the allocators of the segment, of a memory pool and of the clause buffers, the record and clause constructors, or a function handing on the result of one of them, returned is compared with nothing before it is read or written through, whether directly, through the local variable or field it was put into (until some other function is called), or by a function it is passed to which does not look itself. The cells of parser lists are not covered.",
 ["sizes of inputs", "failing allocations"],
 "for every call of an allocating function in the program: every path from it to a use of the result, with functions that hand a failed allocation on found by a fixpoint over the call graph",
 "Memory never runs out in the tests, so code after a failing allocation is never run by them.",
 ["Reasoner/mem.c", "Reasoner/glb.c", "Reasoner/rmain.c", "Reasoner/build.c", "Reasoner/derive.c", "Reasoner/simp.c", "Reasoner/analyze.c", "Reasoner/history.c", "Db/dballoc.c", "Db/dbdata.c", "Db/dbhash.c", "Db/dbindex.c", "Db/dbmpool.c", "Main/gkc.c"],
 [("clause buffers", "Reasoner/mem.c wr_alloc_from_cvec and its users"), ("segment objects", "Db/dballoc.c wg_alloc_gints, wg_alloc_fixlen_object"), ("run records", "Reasoner/glb.c wr_glb_new_simple, wr_glb_init_local_complex"), ("files", "every fopen")],
 ["a crash, or records written over the header of the segment, on large inputs or small -mbsize"],
 [("vectors and clause buffers", "cvec: length, next free position", "Reasoner/mem.h")])
claim("C08", "forward may-be-null dataflow with branch refinement, closed over functions that hand a failed allocation on and functions that use an argument unseen, over LLVM IR",
 "A value is followed through copies, phis, named fields and local variables; one loaded from memory through other pointers, or after a call that may have changed the field, is not followed. Functions that return nothing together with an error code in an argument are left to the check of that code.")
