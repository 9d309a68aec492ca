"""Writes properties.jsonl (kept as a script so that edits stay reviewable)."""
import json
import os

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe):
    P.append({
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    'observe_at': observe, 'hook_needed': None}})


prop('C01', 'Symbolic big-number arithmetic is exact',
     'Whenever an arithmetic operation on symbolic numbers (sum, difference, negation, product, exact quotient, power, divmod) returns, the returned number denotes exactly the integer that ordinary arithmetic on the operands gives, for numbers of the kind run counts are: powers large compared with the integers around them, and signed sums of these. The operation may instead refuse by raising, but it never returns a number with a different value, whatever sequence of operations built the operands and in whatever order the caches were filled.',
     ['inputs', 'histories'],
     'all expression trees over one base (2-9) with integer leaves, and all orders in which they are built',
     'test_num samples a few hundred hand-written identities; the rewriting rules interact, so exactness has to hold for every shape of tree and cache state.',
     ['tm/num.py'],
     [('operator rewriting per node kind (add, mul, div, exp)', 'tm/num.py: Add/Mul/Div/Exp __add__, __mul__, __floordiv__'),
      ('interning caches', 'tm/num.py: make_add, make_mul, make_div, make_exp'),
      ('common-factor extraction', 'tm/num.py: gcd, add_exponents')],
     ['value of the returned expression tree'])
prop('C02', 'Symbolic big-number comparisons agree with integer order',
     'For positive symbolic numbers of the kind run counts are (powers large compared with the integers around them, combined by sums, products, exact quotients and powers), every comparison that answers (<, <=, >, >=, ==, != against integers or other symbolic numbers) gives the answer the denoted integers give; a multiple of one power plus an integer compares rightly even with an integer next to it, and size estimates are ordered by size. A comparison may refuse by raising but never answers wrongly.',
     ['inputs'],
     'all pairs of symbolic counts over one base, and symbolic counts against integers',
     'tests compare a fixed list of pairs; the comparison code is a web of shape-specific shortcuts whose interplay only shows on unlisted shapes.',
     ['tm/num.py'],
     [('shape-directed comparison', 'tm/num.py: __lt__/__eq__ of Num, Add, Mul, Div, Exp')],
     ['results of comparison operators'])
prop('C03', 'Remainders of symbolic numbers are exact',
     'For every symbolic number and every positive modulus, a remainder operation that returns gives exactly the residue of the denoted integer, in the range 0 to modulus-1, including towers of exponents too large to write out. It may instead refuse by raising (not for a power and a modulus without common factor when the exponent\'s remainder by the order of the base is known), but never returns a wrong residue; quotient and remainder of a divmod fit together.',
     ['inputs'],
     'all expression trees over bases 2-9, including towers of exponents, and moduli 1 to several thousand',
     'the tests hold a table of known residues for chosen moduli; correctness must hold for all moduli and exponent shapes, which go through period tables and special cases.',
     ['tm/num.py'],
     [('modular exponentiation with period search and special-case tables', 'tm/num.py: Exp.__mod__, exp_mod_special_cases, find_period'),
      ('residues of sums, products, quotients', 'tm/num.py: Add/Mul/Div __mod__')],
     ['value of n % m'])
prop('C04', 'Symbolic numbers are canonical and print faithfully',
     'Two symbolic numbers built since the tables were last cleared compare equal exactly when they are the same expression, so they are interchangeable as dictionary keys and in containment tests, and what is built does not depend on what was built before. The printed form of a symbolic number, evaluated as ordinary integer arithmetic, denotes the same integer, human-readable rendering shows small counts literally, and a size estimate has about the right number of digits.',
     ['inputs', 'histories'],
     'all expression trees and all orders of construction, across cache clearing',
     'tests check a handful of printed strings; canonicity depends on every constructor path sharing the caches.',
     ['tm/num.py'],
     [('interning', 'tm/num.py: make_* caches'), ('printing', 'tm/num.py: __repr__/__str__, show_number'),
      ('containment', 'tm/num.py: __contains__')],
     ['str(n)', 'n == m', 'x in n'])
prop('C05', 'Run-length tape behaves as a plain tape',
     'Any sequence of write-and-move steps on the compressed tape leaves exactly the cells, head symbol and step count that the same moves leave on an uncompressed tape, including when a step skips over a whole run of the scanned symbol. The tape stays canonical: neighbouring runs differ in symbol, no run is empty, and blank runs never trail at the far ends, so blankness, edge tests, mark counts and signatures describe the real tape; copies are independent of the original.',
     ['histories', 'inputs'],
     'all step sequences (colour, direction, skip) from all reachable tapes, including clones',
     'test_tape walks a few short histories; the in-place block reuse only goes wrong after particular push/pull sequences.',
     ['tm/tape.py'],
     [('block-wise step with block reuse', 'tm/tape.py: Tape.step'), ('observers', 'tm/tape.py: marks, blank, at_edge, signature, counts, sig_compatible'),
      ('copying', 'tm/tape.py: Tape.clone, Block.clone')],
     ['tape contents after each step'])
prop('C06', 'The recorded footprint of a simulated stretch is sufficient',
     'When a stretch of steps is replayed on an instrumented tape, the recorded depth on each side and the edge flags cover everything the stretch depended on: any other tape that agrees on the covered part (same run colours, singleness of runs, same edges where flagged) goes through the same sequence of instructions when the runs it depends on are long enough. The instrumented tape itself evolves exactly like the plain tape.',
     ['histories', 'inputs'],
     'all tapes, all step sequences including skips, all rule-count reads in between',
     'tests check offsets on a few hand-made tapes; missing one touched run makes a proved rule fire where it does not hold.',
     ['tm/tape.py', 'tm/prover.py', 'src/tape.rs', 'src/prover.rs'],
     [('touch tracking', 'tm/tape.py: EnumTape.step, check_offsets, touch_edge, get_count'),
      ('minimal signatures', 'tm/prover.py: get_min_sig, get_rule')],
     ['offsets', 'edges'])
prop('C07', 'Applying a rule equals repeating it',
     'Applying an inferred rule to a tape gives exactly the counts obtained by performing the rule one application at a time as many times as it reports, for additive, multiplicative and symbolic rules alike. The reported number of times is the largest for which every decreasing count stays positive, and a rule that cannot be applied even once leaves the tape as it was.',
     ['inputs'],
     'all rules (plus, multiply-add, operation sequences) and all tapes with integer or symbolic counts',
     'test_rules samples a few count tuples; closed forms and the choice of limiting run must be right for all counts and remainders.',
     ['tm/rules.py', 'src/rules.rs'],
     [('number of applications', 'tm/rules.py: count_apps'), ('closed forms', 'tm/rules.py: apply_rule, apply_mult, apply_ops')],
     ['counts after application', 'number of applications'])
prop('C08', 'Inferred rules reproduce the observations they came from',
     'A rule inferred from four successive observations of the run counts reproduces each observation from the previous one, and runs it does not mention did not change. A run that changes by the same amount each time is always given that difference, one that grows by a constant factor and a constant smaller than its first value is given both, and one whose values are each written around the previous one in the same way is given the operations. A sequence is declared endless only if no run ever shrinks in it, and suspected of a fractional factor only if one run follows it.',
     ['inputs'],
     'all quadruples of observed counts, integer and symbolic',
     'tests list a few quadruples; inference must be sound for every pattern including near-miss patterns.',
     ['tm/rules.py'],
     [('difference inference', 'tm/rules.py: calculate_diff, calculate_op_seq'), ('rule assembly', 'tm/rules.py: make_rule')],
     ['returned rule', 'raised verdict'])
prop('C09', 'Accelerated simulation ends as the real machine ends',
     'When the accelerated simulator reports that a program reached an undefined instruction or spun out, the unaccelerated machine ends in exactly that way: same kind of ending, same slot, same number of marks on the tape, and the same step count and blank-tape events wherever a number is given for them (after a rule has been applied they are marked unknown). This holds for every program and simulation limit; ending counts too large to simulate agree between the independent accelerated simulators.',
     ['programs', 'configurations'],
     'all programs (2-7 states, 2-6 colours) and limits',
     'test_turing needs the compiled Rust module, so nothing of this runs in the stable tests; and it samples known programs only.',
     ['tm/machine.py', 'tm/prover.py', 'tm/rules.py', 'tm/tape.py'],
     [('simulation loop', 'tm/machine.py: Machine.run'), ('rule proving', 'tm/prover.py: Prover.try_rule')],
     ['undfnd', 'spnout', 'marks', 'steps', 'blanks'])
prop('C10', 'A machine is called endless only if it is',
     'When the simulator reports that a program runs forever (an endless rule, a repeated blank tape, an endless macro step), the real machine never reaches an undefined instruction and never spins out. Reaching a limit is reported as such and never as a verdict.',
     ['programs', 'configurations'],
     'all programs and limits, with and without macros',
     'a wrong verdict only shows on a program that runs long and then stops; tests sample known programs.',
     ['tm/machine.py', 'tm/prover.py', 'tm/rules.py', 'tm/macro.py'],
     [('endless-rule test', 'tm/rules.py: make_rule InfiniteRule'), ('blank-tape repetition', 'tm/machine.py: Machine.run'),
      ('macro loop detection', 'tm/macro.py: MacroProg.run_simulator')],
     ['infrul', 'limrul', 'cfglim', 'xlimit'])
prop('C11', 'The quick runner is a faithful simulator',
     'For every program and cycle limit the quick runner reports exactly what step-by-step simulation shows: how the run ended and where, how many steps and cycles it took, how many marks are on the tape, and at which step the tape first became blank in each state.',
     ['programs', 'configurations'],
     'all programs and cycle limits',
     'no stable test runs it; known champions do not exercise unusual tapes.',
     ['src/machine.rs', 'src/tape.rs', 'src/instrs.rs'],
     [('simulation loop', 'src/machine.rs: run_quick_machine'), ('run-length tape', 'src/tape.rs: Tape::step, Span::pull/push')],
     ['MachineResult'])
prop('C12', 'The fast accelerated runner agrees with the real machine',
     'When the fast accelerated runner reports an undefined instruction or a spin-out, the real machine ends in that way in that slot with that number of marks; when it reports an endless run the real machine never ends. When counts would leave the machine-word range it stops or declines to accelerate instead of reporting a wrong result. At the step limit it has applied as many rules and left as many marks as the arbitrary-precision accelerated run to the same limit.',
     ['programs', 'configurations'],
     'all programs and limits',
     'no stable test runs it; wrong rule arithmetic only shows on programs whose proved rules have unusual shapes or huge counts.',
     ['src/machine.rs', 'src/prover.rs', 'src/rules.rs', 'src/tape.rs'],
     [('rule proving', 'src/prover.rs: Prover::try_rule'), ('rule application', 'src/rules.rs: apply_rule, count_apps, make_rule')],
     ['MachineResult of run_prover'])
prop('C13', 'Macro machines simulate the base machine',
     'Running a program through a block macro, a back-symbol macro, an automatically chosen block size, or a nesting of these, gives the same ending and the same final tape as running the program itself, for every block size and look-back. Each macro instruction is exactly what the base machine does inside the macro cell until it leaves it; it is undefined exactly when the base machine hits an undefined instruction there, and endless exactly when it never leaves.',
     ['programs', 'configurations'],
     'all programs, block sizes 1-6, back-symbol lengths 1-4, nestings, stated or inferred dimensions',
     'tests run a few champions with chosen sizes and need the compiled module.',
     ['tm/macro.py', 'src/macros.rs', 'src/blocks.rs'],
     [('macro instruction computation', 'tm/macro.py: MacroProg.calculate_instr, run_simulator'),
      ('cell packing', 'tm/macro.py: TapeColorConverter, BlockLogic, BacksymbolLogic')],
     ['macro instructions', 'final tape'])
prop('C14', 'Quick termination-or-recurrence verdicts are sound',
     'When the quick recurrence test says yes, the machine really spins out or repeats a configuration (possibly shifted) and so never reaches an undefined instruction. It never says yes for a machine that halts, and a machine that spins out or visibly recurs within a small part of the limit is recognised.',
     ['programs', 'configurations'],
     'all programs starting with 1RB, all limits',
     'tests sample a list of known recurrent programs; soundness must hold for every halting program.',
     ['src/machine.rs', 'src/tape.rs'],
     [('growing-interval reference configuration', 'src/machine.rs: quick_term_or_rec'), ('shifted comparison', 'src/tape.rs: Alignment::aligns_with, get_slice')],
     ['returned verdict'])
prop('C15', 'Backward reasoning never excludes what happens',
     'When backward reasoning reports that a program cannot halt, cannot erase its tape to blank, or cannot spin out, then the program, started on the blank tape, never does that thing. This holds for every program and search depth, and verdicts for different depths agree: what a smaller depth settles, a larger one settles at the same step, which is within the depth.',
     ['programs', 'configurations'],
     'all programs starting with 1RB and depths',
     'tests list known halters and blankers; a missing predecessor only shows on programs whose last steps need it.',
     ['src/reason.rs', 'src/tape.rs'],
     [('predecessor search', 'src/reason.rs: cant_reach, get_valid_steps, step_configs'), ('partial tapes', 'src/reason.rs: Backstepper')],
     ['returned verdicts'])
prop('C16', 'Segment analysis never excludes a halting run',
     'When segment analysis reports that a program cannot halt, the program started on the blank tape never reaches an undefined instruction. This holds for every program and number of segments; the answer is the number of segments at which it was found, from 2 to the number allowed, and allowing more gives the same answer.',
     ['programs', 'configurations'],
     'all programs starting with 1RB, segment counts 2-12',
     'tests list known halters; the abstraction has to cover every way of entering a segment.',
     ['src/segment.rs'],
     [('segment reachability', 'src/segment.rs: all_segments_reached, branch_in, branch_out'), ('analysed program', 'src/segment.rs: AnalyzedProg')],
     ['returned verdict'])
prop('C17', 'Program enumeration is complete, valid and duplicate-free',
     'The enumeration for given dimensions yields exactly the programs of the tree: each reachable assignment of instructions in first-use order of states and colours, with every state and colour used, each listed once, whatever the thread schedule. Nothing outside the dimensions is produced and the set does not depend on scheduling.',
     ['configurations', 'schedules'],
     'all small dimensions, halt flag and simulation limits; repeated runs under parallel scheduling',
     'the Rust tests count programs for a few dimensions; counts cannot show that the right programs are listed, and no stable test runs them.',
     ['src/tree.rs'],
     [('branching on the reached undefined slot', 'src/tree.rs: branch, leaf, run_for_undefined'), ('parallel fan-out', 'src/tree.rs: build_tree, tree_progs')],
     ['list of programs'])
prop('C18', 'Program text, tables, slots and instructions round-trip',
     'Reading a program text and showing it again gives the same text, and showing a table and reading it gives the same table, for every rectangular program including undefined slots and stated dimensions. The same holds for single instructions, slots and states, and the separate parsers of the toolbox and of the simulator agree.',
     ['inputs'],
     'all programs up to 12 states and 10 colours, all instructions and slots',
     'tests list a dozen programs.',
     ['src/instrs.rs', 'src/lib.rs', 'tools/__init__.py', 'tools/normalize.py'],
     [('parse and show', 'src/instrs.rs: CompProg::from_str, show, read_*, show_*')],
     ['returned tables and texts'])
prop('C19', 'Control-flow graph facts are true of the program',
     'Entry and exit points, reflexive states, dispersal, normal order of first mention, connectedness, and reducibility reported for a program are those of the directed graph whose arrows are its instructions. The two connectivity tests agree: a program is called connected exactly when every state has an instruction to another state and state A can be reached from its last state.',
     ['programs'],
     'all programs 2-8 states, 2-5 colours',
     'tests list a few graphs.',
     ['tools/graph.py', 'src/graph.rs'],
     [('graph construction', 'tools/graph.py: Graph'), ('connectivity', 'tools/graph.py: is_connected; src/graph.rs: is_connected'), ('reduction', 'tools/graph.py: reduce_graph')],
     ['Graph properties', 'py_is_connected'])
prop('C20', 'Normalisation preserves behaviour and gives normal order',
     'Normalising a program yields a program that behaves the same from the blank tape (same kind of ending after the same number of steps with the same number of marks, up to mirror image), in which states and colours are first mentioned in order and the first move is to the right. Expanding a compact listing gives the standard text of the same program, and normalising twice changes nothing more.',
     ['programs'],
     'all programs whose states and colours are all in use, under all renamings and mirror images',
     'tests list some pairs and need the compiled module.',
     ['tools/normalize.py'],
     [('renaming', 'tools/normalize.py: Normalizer.swap_states, swap_colors, normalize_*'), ('expansion', 'tools/normalize.py: expand')],
     ['normalised program text'])
prop('C21', 'Instruction sequences and tree normal form follow execution',
     'The instruction sequence of a program lists, in order, exactly the undefined slots reached when the program is revealed one instruction at a time from the blank tape, each with the exact number of steps taken to reach it and the partial program at that point. Putting a program into tree normal form renames states and colours into the order in which the run first mentions them (as printed colour or next state) without changing what the machine does.',
     ['programs'],
     'all programs 2-6 states, 2-5 colours',
     'tests list a few programs and need the compiled module.',
     ['tools/instr_seq.py', 'tools/tree_norm.py', 'instr_seq.py'],
     [('progressive reveal', 'tools/instr_seq.py: instr_seq, run_for_undefined'), ('renaming along execution', 'tools/tree_norm.py: tree_norm')],
     ['yielded triples', 'renamed text'])
prop('C22', 'Generated C programs compute what the program computes',
     'The C source generated for a program, compiled against the structured-machine header, performs exactly the steps of that program from the blank tape: it stops exactly when the program reaches an undefined instruction or an erased tape, after the same number of steps and with the same marks.',
     ['programs'],
     'all programs 2-6 states, 2-5 colours that end within the tape of the generated source',
     'the stable tests only run hand-finished C files; the generator itself is compared with stored text by a test that needs the compiled module.',
     ['tools/c.py', 'c_prog.py', 'machines/structured/machine.h'],
     [('statement generation', 'tools/c.py: make_if_else, make_while, make_n_way_switch'), ('step macros', 'machines/structured/machine.h')],
     ['compiled program behaviour'])
prop('C23', 'The C batch runners report each program truthfully',
     'Fed a list of programs, each batch runner reports every program that stops within its step limit, in input order with the right running number, text, step count and mark count, and reports nothing else; programs do not influence one another through left-over tape or counters.',
     ['programs', 'histories'],
     'all lists of programs over the runner\'s dimensions',
     'the stable tests feed one fixed list and only check that the runner exits normally.',
     ['machines/2-2.c', 'machines/2-3.c', 'machines/2-4.c', 'machines/3-2.c', 'machines/4-2.c', 'machines/5-2.c', 'machines/machine.h'],
     [('step macros', 'machines/machine.h: INSTRUCTION, ACTION, CHECK_RECUR'), ('reset between programs', 'machines/machine.h: WIPE_AND_SCORE, RESET')],
     ['standard output'])
prop('C24', 'Structured C programs follow their Turing machines',
     'Every hand-structured C program performs, step for step, the same sequence of head moves and writes as the Turing machine named in it, from the blank tape (9340: from the tape it prepares) until it stops or for as long as it is followed, never leaving its tape array, and its own step and mark counters are right.',
     ['histories'],
     'every structured program and every prefix of its run, including the ones too long to finish',
     'the stable tests compare one final step count, and three of the programs return at once without running.',
     ['machines/structured'],
     [('structured control flow', 'machines/structured/*.c'), ('step macros', 'machines/structured/machine.h')],
     ['sequence of writes and moves'])
prop('C25', 'Predicted recurrence times continue the observed pattern',
     'Given the times at which a configuration signature was seen, the recurrence predictor answers only after five sightings of the same state that fit one recurrence x -> i*x + p + k*q with i from 1 to 4, and its three predictions (as differences) continue exactly that recurrence; otherwise, or if the continuation runs backwards or out of range, it declines. Forgetting a state makes it start afresh, and states do not influence one another.',
     ['histories'],
     'all call histories with times up to the integer range',
     'there is no stable test of it; fitting errors need particular arithmetic patterns.',
     ['src/prover.rs'],
     [('pattern fit', 'src/prover.rs: PastConfig::next_deltas'), ('per-state history', 'src/prover.rs: PastConfigs')],
     ['returned triples'])
prop('C26', 'Automatic block-size choice minimises the compressed tape',
     'The automatically chosen block size is at least 1, below half the tape length, and is the smallest size that minimises the compressed length of the tape left by the step that was taken from the most runs (the first such step of the probe), where the compressed length for size k is the length less k for every block at a multiple of k, more than 2k cells from the right end, that equals the next block. Programs that end or spin out within the probe get size 1. The choice never fails, whatever the program and probe length.',
     ['programs', 'configurations'],
     'all programs and probe lengths',
     'no stable test runs it.',
     ['src/blocks.rs'],
     [('probe', 'src/blocks.rs: measure_blocks, unroll_tape'), ('compression measure', 'src/blocks.rs: compr_eff, opt_block')],
     ['returned size'])
prop('C27', 'Graph drawings show exactly the program\'s transitions',
     'The drawing text generated for a program is accepted by the graph tool and has, for each defined instruction, exactly one edge from its state to its target in the colour assigned to the read symbol, and no other edges.',
     ['programs'],
     'all programs up to 10 states and 8 colours',
     'compared with five stored drawings by a test that needs the compiled module.',
     ['tools/dot.py', 'tools/graph.py'],
     [('edge listing', 'tools/dot.py: make_dot')],
     ['drawing text'])

prop('C28', 'Rust macro machines simulate the base machine',
     'Each instruction of a Rust block macro, back-symbol macro or nesting of them is exactly what the base machine does inside the macro cells until it leaves them; there is none exactly when the base machine meets an undefined instruction there or never leaves. A rule without end proved through such a macro is only found for a machine that never reaches an undefined instruction.',
     ['programs', 'inputs'],
     'all programs, block sizes and look-backs, and all orders in which macro instructions are asked for',
     'one Rust unit test builds a macro without asking it anything, one checks a single verdict; neither is among the stable tests.',
     ['src/macros.rs', 'src/machine.rs', 'src/prover.rs'],
     [('window simulation', 'src/macros.rs: MacroProg::run_simulator'), ('encoding of cells, states and sides', 'src/macros.rs: BlockLogic, BacksymbolLogic, TapeColorConverter')],
     ['macro instructions', 'endless verdict'])

prop('C29', 'Answers do not depend on what was asked before',
     'What the library answers about a program or a number (run results, symbolic sums, verdicts, normal forms, instruction sequences, C texts, drawings, graph facts) is the same whatever was asked earlier in the process and in whatever order: its caches, interned numbers and lazily built tables never show.',
     ['programs', 'histories'],
     'all sequences of requests in one process',
     'each test asks in one fixed order and compares with results recorded in that order.',
     ['tm/num.py', 'tm/macro.py', 'tm/machine.py', 'tm/prover.py', 'tools'],
     [('interned numbers', 'tm/num.py: make_add, make_mul, make_div, make_exp and their caches'), ('macro caches', 'tm/macro.py: tape colour converters, instruction cache'), ('lazily built tables', 'tm/num.py: exp_mod_special_cases')],
     ['results of two orders'])
prop('C30', 'Command-line tools answer each input line, once and in order',
     'Each command-line tool that reads programs from its input prints, for every line and in the order of the lines, what the library says about that program alone, whatever the other lines are, whether the last line ends or not, and wherever the output goes; just_so prints exactly the programs about which nothing was shown; dump_graphs leaves one picture for each program.',
     ['programs', 'inputs', 'schedules'],
     'all inputs of programs the library accepts, any number of lines and of workers',
     'no test starts a tool.',
     ['normalize.py', 'c_prog.py', 'instr_seq.py', 'just_so.py', 'run.py', 'measure.py', 'dump_macros.py', 'dump_graphs.py', 'tm/machine.py'],
     [('worker pool', 'just_so.py: worker'), ('summary', 'tm/machine.py: Machine.__str__, show_tape'), ('line handling', 'the scripts\' main loops')],
     ['standard output', 'files left'])
prop('C31', 'Regular growth is noticed and skipped',
     'When a run, followed move by move, comes back to the same state with the same tape outline again and again, at distances that are equal or change by a constant, while every count changes linearly, the accelerated simulators (Python and Rust, plain or through a macro) do not creep along for ever: within the same number of cycles they skip ahead by a rule or settle the run. The same goes for what is left after skipping: no repetition of the accelerated run itself, with counts growing by a constant or a constant factor, goes unskipped for ever. A rule once used is used again at every later arrival at the same state and outline with counts no smaller.',
     ['programs'],
     'all programs, run limits and macro sizes; nine sightings in a row, outlines with more than one block on some side',
     'the stable tests run no machine; a rule that is no longer found or no longer matched leaves every answer right and only fails to give one.',
     ['tm/prover.py', 'tm/machine.py', 'src/prover.rs', 'src/machine.rs', 'tm/rules.py', 'src/rules.rs'],
     [('noticing', 'src/prover.rs: PastConfigs; Prover.try_rule'), ('matching of known rules', 'tm/prover.py, src/prover.rs: get_rule'), ('use', 'tm/machine.py: Machine.run, tm/rules.py: apply_rule')],
     ['rule applications', 'ending', 'shown configurations'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as fp:
    for p in P:
        assert len(p['title']) <= 80
        fp.write(json.dumps(p) + '\n')
print(len(P))
