"""Which analyses decide which property."""

CHECKS = {
    'C01': {
        'parts': ['c01_py:check'],
        'rule': 'Shape analysis of the tape step.',
        'min_proved': 5,
    },
    'C02': {
        'parts': ['c02_py:check'],
        'rule': 'Shape analysis of what a tape reports about itself.',
        'min_proved': 5,
    },
    'C03': {
        'parts': ['c03_py:check'],
        'rule': 'Shape analysis of the dependency recorder.',
        'min_proved': 5,
    },
    'C09': {
        'parts': ['c09_py:check'],
        'rule': 'Value analysis of rule application.',
        'min_proved': 5,
    },
    'C10': {
        'parts': ['c10_py:check'],
        'rule': 'Value analysis of rule inference.',
        'min_proved': 5,
    },
    'C11': {
        'parts': ['c11_py:check'],
        'rule': 'Differential abstract interpretation of the prover against a reference protocol over arbitrary answers of tapes, program and inference.',
        'min_proved': 5,
    },
    'C12': {
        'parts': ['c12_py:check'],
        'rule': 'Differential abstract interpretation of the run loop against a reference classification over arbitrary answers of tape, prover and program.',
        'min_proved': 5,
    },
    'C13': {
        'parts': ['c13_py:check'],
        'rule': 'Differential abstract interpretation of macro machines against the base machine they stand for.',
        'min_proved': 5,
    },
    'C05': {
        'parts': ['c05_py:check'],
        'rule': 'Residue-class analysis of remainders, periods and common divisors: exponents and parts of expressions are abstracted to residue classes, every path of the remainder operators is followed, and the answer must be the only residue possible.',
        'min_proved': 5,
    },
    'C07': {
        'parts': ['c07_py:check'],
        'rule': 'Abstract interpretation of the interning factories over arbitrary operands, of equality and hashing, and of every operator for constructions that bypass the factories; effect analysis of field assignments.',
        'min_proved': 5,
    },
    'C04': {
        'parts': ['c_num:arithmetic', 'c_num:functions'],
        'rule': 'Value analysis of the arithmetic of counts.',
        'min_proved': 5,
    },
    'C17': {
        'parts': ['c18_py:check_graph'],
        'rule': 'Abstract interpretation of the graph of a program with arbitrary targets.',
        'min_proved': 100,
    },
    'C18': {
        'parts': ['c18_py:check'],
        'rule': 'Abstract interpretation of normalization: named instructions are traced through every swap and cut.',
        'min_proved': 100,
    },
    'C23': {
        'parts': ['rs_tape:check_step', 'rs_tape:check_reports', 'rs_tape:check_head'],
        'rule': 'Shape analysis of the Rust tapes.',
        'min_proved': 5,
    },
    'C24': {
        'parts': ['rs_tape:check_recorder'],
        'rule': 'Shape analysis of the Rust dependency recorder.',
        'min_proved': 5,
    },
    'C25': {
        'parts': ['rs_rules:check_infer', 'rs_rules:check_apply'],
        'rule': 'Value analysis of inferring and applying rules in the Rust code.',
        'min_proved': 5,
    },
    'C26': {
        'parts': ['rs_prover:check'],
        'rule': 'Differential abstract interpretation of the Rust prover against a reference protocol over arbitrary answers of tapes, program and inference.',
        'min_proved': 5,
    },
    'C27': {
        'parts': ['rs_run:check'],
        'rule': 'Differential abstract interpretation of the Rust runs against a reference classification over arbitrary answers of tape, prover and program.',
        'min_proved': 5,
    },
    'C28': {
        'parts': ['rs_run:check_recurrence', 'rs_tape:check_aligns'],
        'rule': 'Abstract interpretation of the recurrence test: every positive answer is backed by the window that recurs.',
        'min_proved': 5,
    },
    'C19': {
        'parts': ['c20_py:check_seq'],
        'rule': 'Differential abstract interpretation of the instruction sequence against a reference over arbitrary answers of tape and program.',
        'min_proved': 5,
    },
    'C20': {
        'parts': ['c20_py:check_c', 'c20_py:check_dot', 'c20_py:check_labels'],
        'rule': 'The generators are interpreted on programs that run through all instructions of a state; the text is read back by the meaning of its statements.',
        'min_proved': 5,
    },
    'C14': {
        'parts': ['rs_reason:check_backstep', 'rs_reason:check_starts', 'rs_reason:check_entries', 'rs_reason:check_search', 'rs_reason:check_wrappers'],
        'rule': 'Undoing a step is compared with the definition on tapes of unknown runs; starting points and entries with the program; the search over arbitrary answers of its tapes.',
        'min_proved': 5,
    },
}
