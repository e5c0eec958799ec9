import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),observe_at=observe or [],hook_needed=None)))

p("C01","Direct simulation follows the Turing-machine definition step by step",
 "For every machine and every number of steps, the plain step-by-step simulator shows exactly the state, head position, tape contents and step count that the mathematical definition gives, and a copied simulation evolves independently of the original. It stops exactly when a halting or undefined cell is executed (an undefined cell acts like 'write 1, move right, halt'), and then reports the true number of steps, the number of non-blank cells and the state/symbol pair that halted.",
 ["programs","histories"],"every machine with at most 2x2 cells (every possible cell filling) and every tree-normal-form machine of the 3x2, 2x3 and 4x2 classes, at every step up to a bound past the longest halting run",
 "tests run a handful of champions and compare only final counts; a slip in tape growth, negative positions or undefined cells is invisible there",
 ["Code/Direct_Simulator.py","Code/Macro/Turing_Machine.py","Code/IO/TM_Record.py"],
 [("DirectSimulator.step/seek/copy","Code/Direct_Simulator.py"),("DirectTape lazy growth, read_pos/write_pos","Code/Direct_Simulator.py"),("tm_from_quintuples (undefined acts as 1RZ)","Code/Macro/Turing_Machine.py")],
 [("tape/index/position","lazily grown deque and head coordinates","DirectTape")],["DirectSimulator.state/tape/step_num/halted/halt_score/halt_from_*"])

p("C02","Block, offset and back-symbol macro machines mimic the base machine",
 "For every machine, block size, block offset and use of the back-symbol transformation, unaccelerated and chain-accelerated simulation of the macro machine passes only through true configurations of the base machine: after every macro step the expanded tape, state, head position and base-step count equal those of direct simulation, and so do per-state last-visit times. When it stops it reports the true halting steps, score and halting cell, 'infinite' is reported only if the base machine never halts, and giving up on a macro step is never reported as a result.",
 ["programs","configurations"],"all tree-normal-form machines of the small classes x block sizes 1..4 x every offset x back-symbol on/off, every macro step up to a bound",
 "tests check a few champions with one block size and compare only the final step/score pair",
 ["Code/Macro/Turing_Machine.py","Code/Macro/Tape.py","Code/Macro/Simulator.py"],
 [("sim_limited with repeat detection","Code/Macro/Turing_Machine.py"),("Block_Macro_Machine / Backsymbol_Macro_Machine eval_trans","Code/Macro/Turing_Machine.py"),("Chain_Tape single and chain moves","Code/Macro/Tape.py"),("Simulator.step","Code/Macro/Simulator.py")],
 [("trans_table","memoised macro transitions","Block_Macro_Machine"),("tape","run-length half tapes","Chain_Tape")],["Simulator.tape/state/dir/step_num/states_last_seen/op_state/op_details"])

p("C03","Rules found by the prover only jump to true configurations",
 "With the automatic rule prover on, in any of its modes (plain, recursive, limited rules, with or without step counting), every configuration the simulator reaches is one the machine really reaches, after exactly the number of base steps reported. Proving and applying rules never changes whether a machine is found to halt, its step count or its score, and never makes a halting machine look infinite.",
 ["programs","configurations"],"all tree-normal-form machines of the small classes x macro choices x prover modes, every simulator loop up to a bound; the reached configuration is compared with direct simulation",
 "tests exercise a few dozen hand-picked rules and champions; rule generalisation is quantified over all tapes and repetition counts",
 ["Code/Macro/Proof_System.py","Code/Macro/Simulator.py","Code/Macro/Rule_Func.py","Code/Algebraic_Expression.py"],
 [("Proof_System.log_and_apply / prove_rule / apply_rule","Code/Macro/Proof_System.py"),("applying a rule in Simulator.step","Code/Macro/Simulator.py")],
 [("rules/past_configs","proven rules and remembered configurations","Proof_System")],["Simulator.tape/state/step_num/op_state after every loop"])

p("C04","The simulation pipeline's verdict on a machine is always true",
 "Whatever filters and simulator options are chosen (block size or automatic block finder, back-symbol, prover modes, closed-tape-language, linear-recurrence and reverse-engineering filters, loop and tape limits), a machine record that comes out as halting really halts with exactly the recorded steps, score and halting cell (a step count that was deliberately not computed is recorded as 0 or left out, never as another number), and one that comes out as non-halting never halts. Anything else is left undecided.",
 ["programs","configurations"],"all tree-normal-form machines of the small classes x an option matrix through the whole pipeline, against exact ground truth obtained from the known busy-beaver step bounds",
 "tests run the pipeline on a few machines with default options",
 ["Code/Macro_Simulator.py","Code/Macro/Block_Finder.py","Code/Halting_Lib.py","Code/Macro/Simulator.py"],
 [("run_options filter cascade","Code/Macro_Simulator.py"),("simulate_machine result classification","Code/Macro_Simulator.py"),("block_finder","Code/Macro/Block_Finder.py"),("set_halting / set_not_halting","Code/Halting_Lib.py")],None,["record.proto.status"])

p("C05","Linear-recurrence detection is sound, accurate and finds what it must",
 "When the linear-recurrence filter reports that a machine repeats, the machine really does repeat from the reported start step with the reported period and tape shift and so never halts; when the minimum start is requested it is the first step from which that recurrence holds. A machine that halts within the step budget is reported halting with its true steps and score, and a recurrence whose start and period both fit into half the budget is found.",
 ["programs","configurations"],"all tree-normal-form machines of the small classes x all step budgets from a list of boundary values x minimum/non-minimum mode; recurrence verified by direct comparison of the configurations",
 "tests check about ten machines with known start/period",
 ["Code/Lin_Recur_Detect.py","Code/Direct_Simulator.py","Code/Halting_Lib.py"],
 [("lin_detect_not_min / check_recur","Code/Lin_Recur_Detect.py"),("period_search / minimum start search","Code/Lin_Recur_Detect.py")],None,["LinRecurFilterInfo.result, BBStatus"])

p("C06","Backtracking never calls a halting machine non-halting",
 "If the backtracking filter succeeds on a machine, then no run of that machine from the blank tape ever halts, for every depth and width limit; hitting a limit is reported as not-decided. The depth and node counts it reports are the true extent of the backward search.",
 ["programs","configurations"],"all tree-normal-form machines of the small classes with one or more halting/undefined cells x depth and width limits; exact halting truth plus an independent backward-reachability model",
 "the repository's own backtracking tests do not even run at this commit",
 ["Code/Backtracking_Filter.py"],[("backtrack_ttable / single-halt backward search","Code/Backtracking_Filter.py")],None,["backtrack result.success/max_steps/max_width/num_nodes, BBStatus"])

p("C07","Closed-tape-language filters never accept a halting machine",
 "If any of the four closed-tape-language filters reports success for a machine with any block size, offset, initial simulation length and back-symbol setting, then that machine never halts. Failure or a limit leaves the record undecided.",
 ["programs","configurations"],"all halting machines of the small tree-normal-form classes x four filters x block sizes, offsets and cut-offs, plus all machines with an independent closure check of the claimed language",
 "there are no tests of these filters at all",
 ["Code/CTL1.py","Code/CTL2.py","Code/CTL3.py","Code/CTL4.py","Code/CTL_Filter.py"],
 [("CTL closure step and initial pattern","Code/CTL1.py..CTL4.py"),("CTL_Filter.filter recording","Code/CTL_Filter.py")],None,["test_CTL result, record.proto.status"])

p("C08","Closed position-set search never accepts a halting machine",
 "If the closed-position-set (closed graph) decider succeeds for a machine with any block size, window and limits, then that machine never halts, every local neighbourhood occurring in its real run is contained in the found set, and its quasi-halting claim is true. Reaching a limit is reported as not-decided.",
 ["programs","configurations"],"all tree-normal-form machines of the small classes x block sizes x windows x limits against exact halting truth and against the local contexts of the real run",
 "there are no tests of this decider",
 ["Code/CPS.py","Code/CPS_Filter.py"],[("CPS.filter / graph closure","Code/CPS.py")],None,["ClosedGraphFilterInfo.result, BBStatus"])

p("C09","Reverse-engineering filter never accepts a halting machine",
 "If the reverse-engineering filter calls a machine infinite then no run of it from the blank tape reaches a halting or undefined cell. It decides every machine of which no halting cell can be entered given the directions and symbols that any other cell can leave.",
 ["programs"],"every machine of the small classes (all cell fillings for 2x2, tree normal form for 3x2, 2x3, 4x2)",
 "no tests",["Code/Reverse_Engineer_Filter.py"],[("is_infinite","Code/Reverse_Engineer_Filter.py")],None,["return value"])

p("C10","Quasi-halting claims are true",
 "Whenever a non-halting machine's record says that quasi-halting is decided, the claim is true: either every state that is ever visited keeps being visited forever, or the named state is visited for the last time exactly one step before the recorded quasi-halting step, and no other abandoned state is visited later.",
 ["programs","configurations"],"all tree-normal-form machines of small classes x pipeline option matrix and the recurrence filter, checked against the states visited in the real run on a long window (exact for recurrent machines)",
 "tests check a couple of quasi-halting machines",
 ["Code/Halting_Lib.py","Code/Macro/Simulator.py","Code/Macro/Proof_System.py","Code/Lin_Recur_Detect.py","Code/Macro/Turing_Machine.py"],
 [("set_inf_recur","Code/Halting_Lib.py"),("states_last_seen bookkeeping","Code/Macro/Simulator.py, Turing_Machine.py, Proof_System.py")],None,["BBStatus.quasihalt_status"])

p("C11","Enumeration covers every machine exactly once up to equivalence",
 "Enumerating an NxM class visits each tree-normal-form machine exactly once: every complete machine (with the restrictions requested) is represented, up to renaming of states and symbols and mirroring, by exactly one emitted machine with identical behaviour, and the number of concrete machines represented adds up to the closed formula for the class. The set of emitted machines and verdicts does not depend on queue order, randomisation, the number of machines enumerated at a time, resuming from a file of open machines, or on running several workers.",
 ["programs","configurations","schedules"],"all small classes x options (first-1RB, allow-no-halt, breadth/depth first, random order, split into rounds, restart from intermediate files)",
 "the test compares 4 record counts for two classes",
 ["Code/Enumerate.py","Code/TM_Enum.py","Code/Count.py","Code/Work_Queue.py"],
 [("TM_Enum.enum_children","Code/TM_Enum.py"),("Enumerator.enum / expand","Code/Enumerate.py"),("count","Code/Count.py")],None,["records written by the enumerator"])

p("C12","Parallel work queue executes every job exactly once and terminates",
 "For every number of workers, every set of jobs (each of which may create further jobs), every queue-size setting and every order in which messages are delivered and workers run, each job is handed out exactly once, none is lost or repeated, and all processes finish once all work is done, none earlier. The sequential queues likewise return every pushed job exactly once in their stated order.",
 ["schedules","histories","configurations"],"all interleavings of master and 1-3 workers over a simulated message layer for all small job trees and queue-size settings",
 "the only test is an mpirun smoke test that sees one schedule and fails at this commit",
 ["Code/MPI_Work_Queue.py","Code/Work_Queue.py"],
 [("Master.run_master / worker request protocol","Code/MPI_Work_Queue.py"),("Basic_LIFO/FIFO queues","Code/Work_Queue.py")],
 [("local queue","jobs not yet handed out","MPI_Work_Queue")],["jobs popped by workers, process exit"])

p("C13","Record files survive writing, reading and truncation intact",
 "Records written to a binary record file (plain or compressed) are read back in order, unchanged and complete, whether all are iterated, single ones are loaded by number, or some are skipped. A file cut off at any byte, or with an incomplete last record, never yields a wrong, partial or invented record: the reader returns exactly the complete leading records and then fails with an error, or ends if the cut is between two records. Machines in one-per-line text files and bbchallenge database files, too, are found by iteration, by record number and through index files, however long the file.",
 ["inputs","crash_points","histories"],"all record sequences up to a bound over a record alphabet, every truncation point, every reader call sequence up to a depth, both compression modes",
 "no test reads back a file, let alone a torn one",
 ["Code/IO/Proto.py","Code/IO/TM_Record.py","Code/IO/General.py"],
 [("length-delimited Writer/Reader","Code/IO/Proto.py"),("load_record","Code/IO/Proto.py, General.py")],None,["records returned / IO_Error"])

p("C14","Every machine survives conversion between representations",
 "Converting any machine to text, packed bytes, list form, Morphett or BBC database format and back, in any chain of formats able to express it, yields a machine with the same table (same writes, moves, next states, halting and undefined cells), and conversion never modifies the original. Two different machines never get the same text or packed form. Hand-written Morphett and CGA files (comments, blank lines, any state names) are read as the machine they describe.",
 ["inputs","configurations"],"every possible cell value in every position for each table shape (1..9 states x 2..9 symbols), all complete 2x2 tables, and all chains of formats up to length 3",
 "tests parse and print a few machines",
 ["Code/IO/TM_Record.py","Code/IO/StdText.py","Code/IO/Morphett.py","Code/IO/BBC.py","Code/Macro/Turing_Machine.py"],
 [("parse_tm / ttable_str","Code/IO/TM_Record.py, Code/Macro/Turing_Machine.py"),("pack_tm/unpack_tm, tm_to_list/tm_from_list","Code/IO/TM_Record.py"),("BBC and Morphett readers/writers","Code/IO")],None,["transition table after round trip"])

p("C15","Recorded numbers of any size read back exactly",
 "Any step count or score stored in a record, small, larger than 64 bits, or a huge formula-style number, reads back as exactly the same number, before and after serialisation to bytes, and an unset number reads back as absent rather than as zero. Numbers in the older encodings that the reader supports are still read correctly. Numbers below ten thousand million are displayed exactly, larger ones to five decimals of their logarithm.",
 ["inputs"],"all integers around every encoding boundary (powers of two up to 2^200, both signs) and all formula numbers up to a size bound, through every storage path",
 "tests check a few values",
 ["Code/Halting_Lib.py","Code/Exp_Int.py","Code/io.proto"],[("set_big_int/get_big_int, serialize/parse_exp_int","Code/Halting_Lib.py")],None,["value returned by get_big_int"])

p("C16","Huge-number arithmetic agrees with exact integer arithmetic",
 "For every pair of numbers kept in the compact exponential form, sums, differences, products, exact and floor quotients, remainders, powers, comparisons and signs agree with ordinary integer arithmetic on the values they stand for, whenever an answer is given at all. Operations never modify their operands.",
 ["inputs"],"all expressions up to a depth over small bases, exponents, coefficients, constants and denominators, compared with Python integers",
 "tests compare a few dozen values",
 ["Code/Exp_Int.py","Code/Math.py"],[("ExpInt/ExpTerm operators, mod, tower comparison","Code/Exp_Int.py")],None,["operator results"])

p("C17","Symbolic expressions and rule formulas agree with evaluation",
 "For every symbolic expression, arithmetic, substitution, equality, ordering bounds and lower bounds agree with evaluating both sides at every assignment of non-negative integers; closed forms for sums and repeated application of rule update functions equal the iterated result. If no exact closed form is available the operation refuses instead of approximating.",
 ["inputs"],"all expressions up to a size over two variables and small coefficients, all operators, all assignments in a box; all small update functions and repeat counts",
 "tests check a few identities",
 ["Code/Algebraic_Expression.py","Code/Macro/Proof_System.py","Code/Macro/Rule_Func.py"],
 [("Expression operators, substitute","Code/Algebraic_Expression.py"),("series_sum, config_fits_min","Code/Macro/Proof_System.py"),("Rule_Func apply_n","Code/Macro/Rule_Func.py")],None,["evaluated results"])

p("C18","Number-theory helpers return exact answers",
 "Greatest common divisors, least common multiples, prime factorisations, Carmichael exponents, modular powers (including exponents given as huge numbers), integer powers/roots and precision-limited products equal their mathematical definition for every argument in their domain.",
 ["inputs"],"all arguments in dense boxes (thousands per dimension) against naive definitions",
 "tests check a few values",
 ["Code/Math.py","Code/Exp_Int.py"],[("gcd/lcm/int_pow/exp_mod/carmichael/prime_factor","Code/Math.py")],None,["return values"])

p("C19","Normal forms and permutations preserve behaviour and are canonical",
 "Converting a machine to tree normal form only renames non-start states and non-blank symbols and mirrors directions (halting cells become the standard halt), so the run is the same step for step; in the result the first move goes right and states and symbols are numbered in the order in which executed transitions first use them; converting again changes nothing, and machines that differ only by renaming and mirroring get the same result. Lexicographic normal form yields the smallest table text among all renamings of states and symbols and mirroring, with the start state and blank symbol renamed accordingly. Start-state permutation yields, for every state, the machine started there; neighbour listing yields exactly the machines that differ in one non-halting cell, each once.",
 ["programs"],"all machines of small classes x all renamings of states and symbols x mirroring; result compared with the definition by brute force",
 "tests check three machines",
 ["Code/TNF.py","Code/LNF.py","Code/Permute.py","Code/Adjacent.py"],[("to_TNF/permute_table","Code/TNF.py"),("brute_lnf","Code/LNF.py"),("permute_start_state, adjacent","Code/Permute.py, Code/Adjacent.py")],None,["resulting machine"])

p("C20","C++ simulators agree with the Turing-machine definition",
 "For every machine text and step limit, the C++ programs that simulate a single machine, a file of machines, or check for linear recurrence report the true outcome: halted exactly when it halts within the limit, with the true step count, otherwise still running at the limit; recurrence reports give a true start, period and shift, and every recurrence whose start and period are at most half the limit is found. Reading and printing a machine preserves its table.",
 ["programs","configurations"],"all tree-normal-form machines of the small classes in one batch run per program x step limits including every boundary, against the reference model",
 "the C++ code has no automated tests at all",
 ["cpp/src/simulator.cpp","cpp/src/turing_machine.cpp","cpp/src/lin_recur.cpp","cpp/src/direct_sim.cpp","cpp/src/direct_sim_all.cpp","cpp/src/lin_recur_main.cpp"],
 [("DirectSimulator/Tape","cpp/src/simulator.cpp"),("ReadTuringMachine/WriteTuringMachine","cpp/src/turing_machine.cpp"),("LinRecurDetect","cpp/src/lin_recur.cpp")],None,["program output"])

p("C21","C++ enumerators classify every tree-normal-form machine correctly",
 "For every class size and step limit, the C++ enumerators visit every tree-normal-form machine exactly once and put it in the right output: halting, proven recurrent, or not decided; the lazy-beaver search prints the true lazy-beaver value and only after complete search. Splitting the work into an initial run plus continuation runs from its output gives the same machines and classification as one run.",
 ["programs","configurations","histories"],"small classes x step limits x allow-no-halt x every split depth, against an independent enumeration with exact classification",
 "no automated tests",
 ["cpp/src/enumerator.cpp","cpp/src/lin_recur_enumerator.cpp","cpp/src/lazy_beaver_enumerator.cpp","cpp/src/lr_enum.cpp","cpp/src/lr_enum_continue.cpp","cpp/src/lb_enum.cpp","cpp/src/lb_enum_continue.cpp"],
 [("Enumerator expansion","cpp/src/enumerator.cpp"),("LinRecurEnumerator / LazyBeaverEnum","cpp/src/*_enumerator.cpp")],None,["output files and printed counts"])

p("C22","Interrupting a run by its time limit never corrupts the record",
 "If the per-machine time limit fires at any moment while a machine is being analysed, the run ends normally, and the record either stays undecided with the time-out noted or holds only conclusions that are true for the machine; no alarm remains armed afterwards and the next machine is analysed exactly as if nothing had happened.",
 ["fault_sequences","programs"],"the time limit injected at every executed line event of the analysis, for a set of machines that covers every verdict kind",
 "tests cannot make the alarm fire at a chosen instruction",
 ["Code/Macro_Simulator.py","Code/Alarm.py","Code/Enumerate.py","Code/IO/Timer.py"],[("run_timer","Code/Macro_Simulator.py"),("Alarm","Code/Alarm.py")],None,["record.proto after interruption"])

p("C23","Record tools keep every record and change none",
 "The tools that convert, categorise, sort, count, find, sample, re-simulate and filter record files put every complete input record into exactly the outputs they are meant for, with machine and verdict intact: nothing else is lost, duplicated or altered. Categories match the recorded verdict; sorting orders by score; sampling yields a uniform sub-multiset and reports how many records it scanned; the text formats carry the machine and, for halting machines, steps and score. A filter pass keeps the order and number of records, and each undecided input record stays undecided or becomes correctly decided, independently of its neighbours; re-simulation gives only true verdicts. A torn input file keeps its complete prefix. Splitting two text files into common and one-sided lines, and sampling lines of a text file, puts every line where it belongs.",
 ["inputs","histories"],"all record sequences up to a length over an alphabet with every verdict kind, machine size and number size, through each tool; all choices of the random source; every truncation point of the input",
 "there are no tests of these tools",
 ["Code/IO_Convert.py","Code/IO_Categorize.py","Code/IO_Sort.py","Code/IO_Count.py","Code/IO_Sample.py","Code/IO_Find.py","Code/Find_Record.py","Code/TM_Analyze.py","Code/Re_Sim.py","Code/Zero_Reflexive.py","Code/CPS_Filter.py","Code/CTL_Filter.py","Code/Backtracking_Filter.py","Code/Lin_Recur_Detect.py","Code/Random_Sample.py","Tools/venn_diff.py"],
 [("OutputFiles.categorize_record","Code/IO_Categorize.py"),("sorting_func","Code/IO_Sort.py"),("filter mains","Code/*_Filter.py")],None,["output files","printed report"])

p("C24","The Rust rule validator accepts only true rules",
 "If the Rust validator accepts a set of rules with proofs (none of them admitted without proof) for a machine, then every rule in it is true: for every assignment of non-negative integers to its variables, running the machine from the initial configuration reaches the final configuration. Parsing and printing machines, configurations and counts preserves their meaning.",
 ["programs","inputs"],"all rule sets up to a bound over small machines, configurations and proof scripts; every accepted rule run concretely for all small assignments",
 "the Rust tests only validate true rules; they cannot be built offline as shipped",
 ["rust/src/validator.rs","rust/src/config.rs","rust/src/count_expr.rs","rust/src/tm.rs"],[("validate_rule_set / apply_proof_step","rust/src/validator.rs"),("HalfTape::replace/normalize","rust/src/config.rs"),("CountExpr subst/checked_sub/known_equal","rust/src/count_expr.rs")],None,["validate_rule_set result"])
p("C25","What the viewing programs print is the machine's real table and run",
 "For every machine, start configuration and display option, the viewing programs print the truth. The visual simulator starts from the configuration typed in (or the blank tape) and prints, for exactly the steps selected, the true step number, cells, head position, state and symbol read, and the true halting step. Step-by-step macro simulation (plain or HTML, any block size, with or without back symbol and prover) prints after each macro step a true configuration with the true total and difference of base steps and the true number of non-blank cells; the printed macro transition table lists true transitions with true step counts. Printed transition tables (plain, coloured, Markdown) show exactly the machine's table; printed and LaTeX formulas of huge numbers stand for the number; n-gram entropies are those of the true run.",
 ["inputs","programs"],"all small machines x display options x all short start configurations; every 2x2 table; every printed line compared with the definition",
 "there are no tests of what is displayed",
 ["Code/Visual_Simulator.py","Code/Quick_Sim.py","Code/Macro/Simulator.py","Code/Macro/Tape.py","Code/Macro/Turing_Machine.py","Code/TM_Print.py","Code/ngram_entropy.py","Code/Exp_Int.py"],[("print_tape / parse_config","Code/Visual_Simulator.py"),("print_with_state","Code/Macro/Tape.py"),("verbose_print / print_self","Code/Macro/Simulator.py"),("machine_ttable_to_str","Code/Macro/Turing_Machine.py"),("tm_to_markdown","Code/TM_Print.py"),("tex_formula","Code/Exp_Int.py")],None,["printed output"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
