"""The properties, as published in properties.jsonl and MANIFEST.json."""

NOTES = 'Every check is python3 check.py <ID>; sa/ holds the analysers. No hooks in /repo.'
NOT_APPLICABLE = {
    'C06': 'the comparison operators decide by heuristics that presume every expression outweighs every integer and that bases agree '
           '(a power is never less than an integer, whatever the integer); which operands reach them depends on the values met in a run, '
           'so no static argument bounds them and the property, stated for all operands, is false by design',
}
PROPS = []


def prop(id, title, statement, over, quant, why, files, mechanism, technique, level_note):
    PROPS.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': quant},
        'why_tests_cant': why,
        'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]},
        'technique': technique, 'level_note': level_note,
    })


AI = ('Path-sensitive abstract interpretation of the current source over an algebraic value-numbering domain; '
      'every obligation is discharged by rewriting, refuted by a witness valuation of the abstract state, or reported undecided. '
      'Trusts the analyser\'s model of the language; undecided obligations are counted in the evidence and raise no alarm. ')

prop(
    'C01', 'A tape step writes, moves and extends the tape as a Turing machine does',
    'On every run-length compressed tape, one step in either direction, single or skipping over a run of the scanned colour, '
    'leaves exactly the tape that the corresponding one-cell steps of a Turing machine would leave on an infinite tape with '
    'blanks beyond both ends, and reports how many of those one-cell steps it stands for. '
    'Neighbouring runs of one colour are always merged, no run is empty, and no blank run is kept at the far end of either side.',
    ['inputs'], 'every tape in normal form (any number of runs, any colours, any run lengths), both directions, any printed colour, single step or skip',
    'the unit tests run a few short tapes; the shapes (empty side, run of length one, run exhausted, merge with the neighbour, blank at the edge) combine freely with unbounded lengths',
    ['tm/tape.py'],
    [('run-length step', 'tm/tape.py Tape.step, EnumTape.step')],
    'shape analysis by abstract interpretation of the step',
    AI + 'Spans are materialised lazily, so the proof covers spans of any length; lengths and colours are symbolic.')

prop(
    'C04', 'Arithmetic on symbolic counts denotes integer arithmetic',
    'Whenever adding, subtracting, multiplying, negating, exactly dividing or raising to a power symbolic counts (sums, products, exact quotients and powers of '
    'arbitrary size, in any nesting) gives an answer, the answer denotes exactly the integer that the same operation on the denoted integers gives; '
    'otherwise the operation refuses by raising.',
    ['inputs'], 'every pair of operands built from sums, products, exact quotients and powers, and every integer operand',
    'the tests compare some hundred concrete expressions; each operator is a case analysis over the shape of both operands with rewriting shortcuts, and a wrong shortcut needs one specific shape and one specific arithmetic coincidence',
    ['tm/num.py'],
    [('operators of the count classes', 'tm/num.py Add, Mul, Div, Exp'), ('constructors', 'tm/num.py make_add, make_mul, make_div, make_exp, add_exponents')],
    'compositional (assume/guarantee) abstract interpretation of every operator over denotations',
    AI + 'Each operator is analysed with the other operators summarised by their contract, so the claim is partial correctness: termination is not covered.')

prop(
    'C02', 'What a tape reports about itself is true of the tape it denotes',
    'Whatever a tape reports about itself agrees with the infinite tape it denotes: blank exactly when no cell holds a mark; the number of marks; '
    'at the edge in a direction exactly when everything under and beyond the head in that direction is blank; the colours and run lengths in order in its signature; '
    'the run lengths in order in its counts; the count found at an index is the one set there. A copy equals the original and shares no run with it, '
    'and turning a tape into the dependency-recording form or back changes no cell.',
    ['inputs'], 'every tape in normal form, every index within it, every value stored',
    'a handful of short tapes are compared in the tests; the reports are folds over spans of any length, and the answers that matter (edge, blank) come from one special shape each',
    ['tm/tape.py', 'tm/prover.py'],
    [('blank, marks, at_edge, signature, counts', 'tm/tape.py HeadTape, Tape'), ('get_count, set_count', 'tm/tape.py Tape, EnumTape'),
     ('conversions and copies', 'tm/tape.py Tape.copy, to_enum')],
    'shape analysis by abstract interpretation of every observer',
    AI + 'Observers that fold over a whole span are analysed on spans of up to three runs with symbolic colours and lengths.')

prop(
    'C03', 'The dependency-recording tape records every run and end a computation relied on',
    'A tape that records dependencies moves exactly like an ordinary tape, and after any sequence of steps and reads of run lengths its record covers every '
    'original run whose presence or length influenced what happened and every tape end that was reached or consulted; '
    'the record only ever grows and the origin of each surviving run is kept through splits and merges.',
    ['inputs', 'histories'], 'every tape in normal form, every sequence of up to three recorded steps and reads, either direction, any colours, single step or skip',
    'a rule generalises to other tapes only if nothing it relied on went unrecorded; an omission shows only on a different tape than the one observed',
    ['tm/tape.py', 'tm/prover.py'],
    [('recording step', 'tm/tape.py EnumTape.step'), ('recording read', 'tm/tape.py EnumTape.get_count'), ('what was touched', 'tm/tape.py EnumTape.offsets, edges')],
    'shape analysis with a shadow provenance domain',
    AI + 'Sequences are explored to a bounded depth; each step is analysed from an arbitrary record, which makes longer sequences follow by induction.')

prop(
    'C09', 'Applying a rule equals applying it one application at a time',
    'Applying an inferred rule to a tape, when it is applied at all, gives every run the count that results from applying the rule\'s operation that many times in a row, '
    'leaves every run the rule does not mention alone, uses the largest number of applications that keeps every shrinking run at least one, '
    'and reports exactly that number. When some shrinking run is too small for one application the tape is left untouched.',
    ['inputs'], 'every additive, multiplicative and sequence rule over up to three runs, every count, integer or symbolic',
    'the closed forms (geometric sums, remainder of the limiting run) must agree with iteration for every number of repetitions; tests try a few',
    ['tm/rules.py'],
    [('number of applications', 'tm/rules.py count_apps'), ('application', 'tm/rules.py apply_rule, apply_mult, apply_ops')],
    'abstract interpretation against closed forms',
    AI + 'Rules with up to three entries are explored; operation sequences up to two operations and three repetitions; geometric closed forms use exact rational identities.')

prop(
    'C10', 'An inferred rule reproduces every observed change',
    'When the counts of a run over four successive visits are turned into an operation, that operation takes each observed count to the next one; '
    'counts reported as unchanging are all equal; counts that change by a fixed amount are recognised with that amount. '
    'A rule holds an operation for exactly the runs that change, there is no rule if some run is not understood, '
    'and a rule is declared endless exactly when no run shrinks by a fixed amount.',
    ['inputs'], 'every quadruple of positive integer counts and every quadruple of symbolic counts',
    'an operation that fits three of four observations is a wrong rule, and it takes particular count sequences to meet one; tests sample a few sequences',
    ['tm/rules.py'],
    [('operation of one run', 'tm/rules.py calculate_diff, calculate_op_seq'), ('whole rule', 'tm/rules.py make_rule')],
    'abstract interpretation of the inference with the arithmetic summarised',
    AI + 'Expression descents deeper than two levels are left undecided.')

prop(
    'C11', 'A rule is adopted after three agreeing replays and reused only where it fits',
    'The prover adopts a rule only when a configuration of the same signature recurred and three replays of the observed numbers of steps, on a copy of the tape, '
    'each come back to the same state with the runs of the signature in place; the rule is made from the counts of the tape and of those three replays. '
    'It is stored with the part of the signature that one replay of the first interval on a dependency-recording copy relied upon, and the ends that it reached. '
    'A stored rule is answered only for the same state and scanned colour, where every recorded run agrees and, at a recorded end, the tape ends too; '
    'the first such rule is answered. Replaying follows known rules where they apply and single instructions elsewhere, for exactly the number of steps asked, '
    'and never touches the machine\'s own tape.',
    ['inputs', 'histories'], 'every program, every tape, every history of past configurations, every set of stored rules',
    'a rule adopted on too little evidence, or reused on a tape that differs in a run it relied upon, is wrong only on particular machines deep into a run; the tests of the repository that exercise the prover need the compiled extension',
    ['tm/prover.py'],
    [('looking a rule up', 'tm/prover.py Prover.get_rule'), ('adopting a rule', 'tm/prover.py Prover.try_rule, get_min_sig, set_rule'), ('replay', 'tm/prover.py Prover.run_simulator')],
    'differential abstract interpretation against a reference protocol',
    AI + 'Replays of up to two steps per interval and signatures of up to three runs are explored, over arbitrary answers of tape, program and rule inference.')

prop(
    'C12', 'The verdict of a machine run is what happened in the run',
    'A machine run is said to spin out exactly when it would repeat its state moving outward over an edge beyond which all is blank; '
    'undefined exactly when the instruction of the current state and scanned colour is missing, naming that slot; '
    'endless exactly when a rule that nothing bounds was found, the tape came back blank in a state in which it had been blank before or in the start state, or a macro cell loops; '
    'limited when a rule or configuration limit was hit, and out of budget exactly when the cycle budget ran out first. '
    'The step count is the number of base steps made as long as no rule was applied and is marked unknown from then on; rule applications add up the repetitions they stand for. '
    'Each cycle applies one rule or one instruction, that of the current state and colour, and only an instruction that keeps its state skips over a run.',
    ['inputs', 'histories'], 'every program, every sequence of outcomes of the prover, every tape behaviour, within four cycles',
    'verdicts are combinations of events (a rule limit after a suspected rule, a blank tape after a rule application) that particular machines must produce; the repository\'s machine tests need the compiled extension',
    ['tm/machine.py'],
    [('run loop', 'tm/machine.py Machine.run'), ('simple_termination', 'tm/machine.py Machine')],
    'differential abstract interpretation against a reference classification',
    AI + 'Two cycles with every outcome and up to four with fewer are explored over arbitrary answers of tape, prover and program.')

prop(
    'C13', 'A macro machine does what its base machine does on the grouped cells',
    'The instruction of a block macro or back-symbol macro is the net effect of the base machine on the grouped cells: entered on the side and in the state the macro state names, '
    'it runs until it leaves the cells, and printed colour, direction and next macro state stand for the cells left, the side left and the state reached; '
    'if an instruction of the base machine is missing on the way that slot is reported. It is declared looping only after more steps than a one-cell or block window has configurations. '
    'Cells and macro colours correspond one to one, blank cells to colour zero, also when several macros are in use. '
    'Layers are built over the parameters of the layer below, and those of a program cover every state and colour it can reach.',
    ['inputs'], 'every base program, every entry state and side, every content of up to three cells, any number of states and colours',
    'tests compare whole runs of a few machines; an error in one corner of the window simulation or in the encoding shows on particular cell contents only',
    ['tm/macro.py'],
    [('window simulation', 'tm/macro.py MacroProg.run_simulator'), ('encoding', 'tm/macro.py TapeColorConverter'), ('logics', 'tm/macro.py BlockLogic, BacksymbolLogic'),
     ('parameters', 'tm/macro.py prog_params, make_macro')],
    'differential abstract interpretation against the base machine',
    AI + 'Windows of up to three cells and up to four turns of the simulation loop are explored; the base program is arbitrary.')

prop(
    'C05', 'Remainders, periods and common divisors of counts are exact',
    'When the remainder of a symbolic count by an integer modulus is answered at all, it is the remainder of the integer the count denotes, in [0, modulus): '
    'for sums, products and exact quotients from the remainders of their parts, for powers by the special cases, the periods and the constant tables of powers, however large the exponent. '
    'A period answered by find_period is one, and what gcd answers divides both of its arguments. A limit is reported by raising, never by a wrong remainder.',
    ['inputs'], 'every exponent, for bases up to 13 and moduli up to 162 and every modulus 2 * 3 ** k with a table; every sum, product and quotient',
    'the exponents that matter are themselves towers; the tables have 800 entries and the special cases depend on residues of exponents that tests pick by hand',
    ['tm/num.py'],
    [('remainders', 'tm/num.py Add/Mul/Div/Exp.__mod__'), ('tables', 'tm/num.py exp_mod_special_cases'), ('period', 'tm/num.py find_period'), ('gcd', 'tm/num.py gcd')],
    'residue-class abstract interpretation',
    'Exponents are unbounded (residue classes); bases and moduli are enumerated within the stated range. Integer exponents on moduli without a period are followed for listed exponents up to 97.')

prop(
    'C07', 'A symbolic count is one object per expression',
    'Building a sum, product, quotient or power twice from the same operands gives the same object, from different operands never one that stands for another value, in whatever order calls are made. '
    'Operators build expressions only through that interning, so equality by identity holds for equal expressions; equal counts hash alike; the fields of an expression never change after construction.',
    ['inputs', 'histories'], 'every pair of calls of a factory with arbitrary operands; every operator on every kind of operand; every assignment in the package',
    'counts compare by identity, so one bypass of the cache makes equal counts unequal; tests compare results of single computations',
    ['tm/num.py'],
    [('factories', 'tm/num.py make_add, make_mul, make_div, make_exp'), ('equality', 'tm/num.py Num.__eq__, Tet.__eq__'), ('hash', 'tm/num.py __hash__')],
    'abstract interpretation of factories and operators; effect analysis of field assignments',
    AI + 'Pairs of calls are explored; operands are opaque objects or symbolic integers.')

prop(
    'C17', 'What a program\'s graph says is true of its transitions',
    'The exit points and entry points of a state are exactly the states its instructions go to and those with an instruction going to it. '
    'A state is reflexive exactly when one of its instructions stays in it, zero-reflexive exactly when its blank instruction does. '
    'Exits or entries are dispersed exactly when every state has as many of them as there are colours. '
    'The program is connected exactly when every state has an instruction leaving it and the last state can reach the first; '
    'it is normal exactly when the states after the first occur as targets, first occurrences in increasing order. '
    'Reducing the graph leaves an arrow only where the program has a path.',
    ['inputs'], 'every program with up to three states and two colours, with and without a missing instruction',
    'the tests compare a few programs of each class; an error shows on particular patterns of self loops and missing instructions',
    ['tools/graph.py'],
    [('graph', 'tools/graph.py Graph'), ('reduction', 'tools/graph.py reduce_graph')],
    'abstract interpretation over arbitrary transition targets',
    AI + 'Targets are symbolic; conditions over them are decided by exhausting their ranges.')

prop(
    'C18', 'Normalizing a program only renames its states and colours',
    'Swapping two states or colours renames them everywhere, slots and instructions alike, and nothing else. '
    'Normalizing states, colours or directions yields the same program up to a renaming that keeps the start state and the blank, with all shifts kept or, when the first instruction goes left, all turned round; '
    'states then first occur as targets in increasing order if all can be reached, and colours likewise. Cutting removes only states no instruction goes to. '
    'The tree normal form names states and colours in the order in which the program, started on the blank tape, first enters and scans them.',
    ['inputs', 'histories'], 'every program of up to four states or four colours (sizes in the evidence), with and without undefined instructions; tree normal form over up to five steps',
    'the tests compare listed programs with listed normal forms; renamings compose, and errors need particular orders of first occurrence',
    ['tools/normalize.py', 'tools/tree_norm.py'],
    [('swaps', 'tools/normalize.py Normalizer.swap_states, swap_colors'), ('normal forms', 'tools/normalize.py Normalizer.normalize*'), ('tree normal form', 'tools/tree_norm.py tree_norm')],
    'abstract interpretation; instructions carry names and are traced to where they end up',
    AI + 'Every instruction has a symbolic colour and target and a shift that identifies it. Programs with states that are wholly undefined are refused by normalize and out of scope.')

prop(
    'C23', 'The Rust tapes step and report as the tape of a Turing machine does',
    'A step of the Rust run-length tape, either direction, single or skipping, leaves the tape that the one-cell steps of a Turing machine would leave, '
    'merged and without blank runs at the ends, and reports how many of those steps it stands for. The head-tracking tape moves its head by as much. '
    'Blank, at-edge, signature, counts, marks, length, compatibility with a signature, equality and copying say what is true of the cells; setting a count changes that run only.',
    ['inputs'], 'every tape in normal form (any number of runs, colours, run lengths), both directions, any printed colour, single step or skip',
    'the Rust unit tests check a few listed tapes; shapes and unbounded lengths combine freely',
    ['src/tape.rs'],
    [('step', 'src/tape.rs Tape::step, HeadTape::step'), ('reports', 'src/tape.rs impl of BasicTape and Alignment traits')],
    'shape analysis by abstract interpretation of the Rust source',
    AI + 'The Rust front end parses the source itself; integers are unbounded except for checked subtraction and listed casts.')

prop(
    'C24', 'The Rust recorder depends on every cell and count that was looked at',
    'After any steps and reads of a recording tape, every run touched, counted or found empty beyond the edge is among the reported offsets and edges: '
    'a tape agreeing with the original in what is reported takes the same steps. Reading or setting the count of an original run records it.',
    ['inputs', 'histories'], 'every tape in normal form, steps and skips in both directions, every position of count read',
    'a missing dependency shows only on tapes that differ beyond what was recorded, where a rule is then applied wrongly',
    ['src/tape.rs'],
    [('recorder', 'src/tape.rs EnumTape')],
    'shape analysis with a shadow recorder',
    AI + 'Known findings: blank-on-empty at either end is not recorded (pinned by test_offsets).')

prop(
    'C25', 'Rust rules reproduce the counts they were inferred from and apply exactly',
    'An operation the Rust code infers from four counts takes each of them to the next; no operation is inferred otherwise. '
    'A rule applied to a tape is applied as many times as leaves every shrinking count positive and no more, changes every count by exactly that many applications, '
    'and reports that number; if a rule cannot be applied the tape is left as it was.',
    ['inputs'], 'every quadruple of counts, every rule of up to a few operations with arbitrary amounts, every tape count',
    'counts are unbounded; which count bounds the application depends on all quotients and remainders at once',
    ['src/rules.rs'],
    [('inference', 'src/rules.rs calculate_diff, make_rule'), ('application', 'src/rules.rs ApplyRule::apply_rule')],
    'value analysis by abstract interpretation of the Rust source',
    AI + 'Known finding: counts are narrowed to 32 bits before inference.')

prop(
    'C26', 'The Rust prover applies a rule only where its premises hold',
    'A rule is stored under a state and the least signature its simulations depended on, and only when four visits at equal intervals changed the counts regularly '
    'and simulating the interval from each, with the recorder on, led to the same places and the same kinds of runs. '
    'A stored rule is answered exactly for tapes in that state that match its signature.',
    ['inputs', 'histories'], 'every answer of tapes, program and inference, over histories of up to five visits',
    'unsound acceptance shows on tapes that nearly repeat; tests run few programs',
    ['src/prover.rs'],
    [('prover', 'src/prover.rs Prover::get_rule, try_rule, run_simulator'), ('visits', 'src/prover.rs PastConfigs::next_deltas')],
    'differential abstract interpretation against a reference protocol',
    AI + 'Tapes are stand-ins that answer anything, consistently for the same history.')

prop(
    'C27', 'A Rust run reports what happened',
    'The accelerated and the plain Rust runs make exactly the steps the program says, count cycles, rule applications and steps, '
    'and end with the reason that applies first: undefined slot, blank tape in a state seen blank before, spin-out, rule without end, configuration or cycle limit. '
    'The cycles, slot, marks and blank states reported are those of the run.',
    ['inputs', 'histories'], 'every answer of program, tape and prover over runs of a few cycles',
    'end conditions coincide only in rare configurations; tests list known machines',
    ['src/machine.rs'],
    [('run', 'src/machine.rs run_prover, run_quick_machine')],
    'differential abstract interpretation against a reference classification',
    AI + 'Runs are followed for up to four cycles.')

prop(
    'C28', 'A run the Rust code calls recurrent or spinning does not halt',
    'When the quick test answers that a program recurs or spins out, the run really came to a configuration whose scanned window recurs, shifted, '
    'in the same state, with everything looked at since lying within that window, or it skips over blanks for ever at the edge in one state. '
    'Two visits align only when the windows they are compared on agree cell by cell, out to the end in whose direction the machine drifts.',
    ['inputs', 'histories'], 'every answer of program and tape over runs of up to six cycles; every pair of tapes of up to a few runs for alignment, with arbitrary rest',
    'a false positive needs tapes that agree near the head and differ just beyond the window',
    ['src/machine.rs', 'src/tape.rs'],
    [('test', 'src/machine.rs quick_term_or_rec'), ('alignment', 'src/tape.rs HeadTape::aligns_with')],
    'abstract interpretation with a shadow run',
    AI + 'The analysis of alignment enumerates head positions and window bounds up to four cells apart.')

prop(
    'C19', 'The instruction sequence lists the instructions in the order they are met',
    'Running a partial program to its first missing instruction makes the steps the program says, and answers the number of steps and the slot, or nothing if the run spins out. '
    'The sequence starts from 1RB alone; each member is the partial program so far with the steps and slot at which it stops, '
    'and the next one differs by exactly the instruction the whole program has in that slot. It ends where the whole program has none, the run spins out, or no slot is left.',
    ['inputs', 'histories'], 'every answer of tape and program over runs of up to four steps; every order of slots for programs of up to three states or colours, with and without missing instructions',
    'the tests compare the sequences of listed programs; ends of the sequence and skipped runs combine in other ways',
    ['tools/instr_seq.py'],
    [('sequence', 'tools/instr_seq.py instr_seq'), ('run', 'tools/instr_seq.py run_for_undefined')],
    'differential abstract interpretation against a reference',
    AI + 'Runs are followed for up to four steps.')

prop(
    'C20', 'The C and dot texts written for a program denote that program',
    'In the C text, from the label of every state and for every scanned colour, what is written, the direction and the label reached are those of the instruction; '
    'missing instructions and halting ones lead to H; the program starts at A and every label occurs once. '
    'In the dot text there is exactly one edge per instruction, from its state to its target, in the tint of its colour.',
    ['inputs'], 'programs in which one state runs through all combinations of instructions, up to seven states or four colours',
    'the tests compare the texts of five programs; loops on one or both colours, erasing, missing instructions combine in other ways',
    ['tools/c.py', 'tools/dot.py'],
    [('C', 'tools/c.py make_c'), ('dot', 'tools/dot.py make_dot')],
    'abstract interpretation of the generators and of the generated text',
    AI + 'Instructions are enumerated; the C text is read by a parser of the statements and macros it uses. Known finding: with eight states the label of state H is that of the halt.')

prop(
    'C14', 'What backward reasoning calls unreachable is never reached',
    'When the Rust analyses answer that a program never halts, never erases its tape or never spins out, no run of it from the blank tape does. '
    'A step is undone exactly when the tape can have been left by it, and undoing it gives the tape before it with everything else in place, on tapes that are blank or unknown beyond their ends. '
    'The search starts from every slot in which the event happens, goes back along every instruction by which a run of the program can have come, '
    'and answers "never" only when every way back ends, without meeting the blank tape in the first state. '
    'The functions Python calls ask the analysis of their name about the whole program, with every state and colour it mentions.',
    ['inputs', 'histories'],
    'every backstep tape of up to two runs a side, any lengths, any ends; programs of up to three states; every answer of the tapes in searches up to three steps deep',
    'the tests know single programs; a wrong "never" needs a program that reaches the event by the one way back that was left out',
    ['src/reason.rs', 'src/lib.rs'],
    [('backstep', 'src/reason.rs Backstepper'), ('starting points', 'src/reason.rs halt_configs, erase_configs, zero_reflexive_configs'),
     ('entries', 'src/reason.rs get_entrypoints'), ('search', 'src/reason.rs cant_reach'), ('parameters', 'src/lib.rs py_segment_cant_halt')],
    'shape analysis and differential abstract interpretation over arbitrary answers of tapes',
    AI + 'Searches are followed up to three steps back. That a blank tape in a state in which a blank tape was met before need not be followed is taken over from the code. '
    'Programs are assumed to define their first instruction.')

prop(
    'C06', 'Comparing symbolic counts orders the integers they denote',
    'Whenever comparing two symbolic counts, or a symbolic count and an integer, gives an answer, it is the order of the integers denoted.',
    ['inputs'], 'every pair of operands that come up in a run of the prover',
    'the integers denoted cannot be computed',
    ['tm/num.py'],
    [('order', 'tm/num.py Num.__lt__ and its overrides')],
    'none', '')
