"""A stand-in for tm.rust_stuff (the compiled extension), enough to import the Python modules.

import rust_shim before tm.machine / tm.macro / tools.*; run from the repository root.
"""
import os
import sys
import types

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())

m = types.ModuleType('tm.rust_stuff')


def read_instr(s):
    if '.' in s:
        return None
    return int(s[0]), s[1] == 'R', ord(s[2]) - 65


def tcompile(prog):
    return {(st, co): i
            for st, instrs in enumerate(prog.strip().split('  '))
            for co, s in enumerate(instrs.split(' '))
            if (i := read_instr(s)) is not None}


def read_slot(s):
    return ord(s[0]) - 65, int(s[1])


def show_state(s):
    return '.' if s is None else chr(65 + s)


def show_slot(slot):
    return f'{show_state(slot[0])}{slot[1]}'


def show_instr(i):
    return '...' if i is None else f'{i[0]}{"R" if i[1] else "L"}{show_state(i[2])}'


def py_show_comp(comp, params=None):
    if params is None:
        ms = max([1] + [max(s, i[2]) for (s, _), i in comp.items()])
        mc = max([1] + [max(c, i[0]) for (_, c), i in comp.items()])
        params = 1 + ms, 1 + mc
    return '  '.join(' '.join(show_instr(comp.get((s, c))) for c in range(params[1])) for s in range(params[0]))


class PastConfigs:
    def __init__(self, state, cycle):
        self.configs = {state: [cycle]}

    def next_deltas(self, state, cycle):
        cycles = self.configs.setdefault(state, [cycle])
        cycles.append(cycle)
        if len(cycles) < 5:
            return None
        e, d, c, b, a = cycles
        cycles.pop(0)
        for i in range(1, 5):
            p1, p2, p3, p4 = a - b * i, b - c * i, c - d * i, d - e * i
            diff = p1 - p2
            if p2 - p3 != diff or p3 - p4 != diff:
                continue
            n1 = a * i + p1 + diff
            n2 = n1 * i + p1 + 2 * diff
            n3 = n2 * i + p1 + 3 * diff
            if a > n1 or n1 > n2 or n2 > n3:
                return None
            return n1 - a, n2 - n1, n3 - n2
        return None

    def delete_configs(self, state):
        self.configs.pop(state, None)


def py_is_connected(prog, states):
    raise NotImplementedError


def py_opt_block(prog, steps):
    return 1


m.read_instr, m.tcompile, m.read_slot, m.show_state, m.show_slot, m.show_instr = \
    read_instr, tcompile, read_slot, show_state, show_slot, show_instr
m.py_show_comp, m.PastConfigs, m.py_is_connected, m.py_opt_block = py_show_comp, PastConfigs, py_is_connected, py_opt_block
for n in ('run_prover', 'run_quick_machine', 'MachineResult', 'TermRes', 'tree_progs', 'py_quick_term_or_rec',
          'py_cant_halt', 'py_cant_blank', 'py_cant_spin_out', 'py_segment_cant_halt'):
    setattr(m, n, lambda *a, **k: None)
import tm  # noqa: E402
sys.modules['tm.rust_stuff'] = m
tm.rust_stuff = m
