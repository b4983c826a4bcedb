"""Macro machines (tm/macro.py) against the base machine they stand for."""

from __future__ import annotations

import itertools

from . import terms as T
from .pyai import Fake, Native, PyExc, Undecided, Obj, PDict, explore
from .c02_py import flat
from .num_ai import repo
from .c12_py import rust_stub
from .c11_py import eqs

M = 'tm.macro'


def dom(a):
    if a.kind == 'bool':
        return None
    n = a.args[0]
    if n.startswith('S'):
        return [3, 1, 2]
    if n.startswith('B'):
        return [3, 2, 4]
    if n.startswith('st') or n.startswith('s.'):
        return [0, 1, 2]
    if n.startswith('b.'):
        return [1, 2, 0, 3, 5, 7]
    if n.startswith('par'):
        return [2, 3, 10, 18, 1, 4, 5, 258, 6, 7, 12, 16, 17, 34, 66, 130]
    return [0, 1, 2, 3]


def run(rep, rule, where, body, **kw):
    for p in explore(repo(), body, hooks={}, externs={'tm.rust_stuff': rust_stub}, max_iter=40, **kw):
        rep.paths += 1
        rep.units.update(p.i.visited)
        if p.undecided:
            rep.unknown(rule, p.undecided)
            continue
        if p.exc:
            rep.oblige(rule, where, p.facts, False, f'raises {p.exc.name} on {p.describe()}', dom)
            continue
        if rep.settled(rule, where):
            return
        for ok, text in p.result:
            rep.oblige(rule, where, p.facts, ok, lambda: f'{text}, on {p.describe()}'[:900], dom)


class Base:
    """The base program: arbitrary, the same slot always answered alike."""

    def __init__(self, i, undefined=True):
        self.i, self.shown, self.undefined = i, [], undefined
        self.fake = Fake('base program', None, self.item)

    def look(self, s, c):
        i = self.i
        for (s2, c2), v in self.shown:
            if i.truth(T.land(T.eq(s, s2), T.eq(c, c2))):
                return v
        if self.undefined and i.choose_n(2, f'instruction {len(self.shown)} undefined'):
            v = None
        else:
            n = len(self.shown)
            v = (T.var(f'c.p{n}'), bool(i.choose_n(2, f'instruction {n} moves right')), T.var(f's.n{n}'))
            i.assume(T.le(0, v[0]))
            i.assume(T.le(0, v[2]))
        self.shown.append(((s, c), v))
        return v

    def item(self, i, slot):
        s, c = flat(slot)
        v = self.look(s, c)
        if v is None:
            raise PyExc(KeyError, ((s, c),))
        return v

    def step(self, cfg):
        """One base step inside the cells: configuration, or the way out."""
        s, tape, pos = cfg
        v = self.look(s, tape[pos])
        if v is None:
            return 'undefined', (s, tape[pos])
        c, right, n = v
        tape = tape[:pos] + (c,) + tape[pos + 1:]
        pos += 1 if right else -1
        if pos < 0 or pos >= len(tape):
            return 'out', (n, pos >= 0, tape)
        return 'in', (n, tape, pos)


def simulate(rep, rule, logic, cells, lim):
    """The macro instruction is the net effect of the base machine on the cells."""
    where = f'{M}.MacroProg.run_simulator'
    n = cells + (logic == 'BacksymbolLogic')

    def body(i):
        env = i.load(M).env.vars
        base = Base(i)
        # colours of tapes are tokens: what they stand for is kept aside
        seen = {}

        def encode(i, a, k):
            t = flat(tuple(a[1]) if isinstance(a[1], tuple) else tuple(a[1].items))
            t = flat(t)
            tok = T.var(f'c.tok{len(seen)}')
            seen[tok] = t
            return tok

        def decode(i, a, k):
            for tok, t in seen.items():
                if i.truth(T.eq(tok, a[1])):
                    return t
            raise Undecided('colour not seen')
        i.hooks[f'{M}.TapeColorConverter.tape_to_color'] = encode
        i.hooks[f'{M}.TapeColorConverter.color_to_tape'] = decode
        S, C = T.var('S'), T.var('B')
        i.assume(T.le(1, S))
        i.assume(T.le(2, C))
        lg = i.call(env[logic], [cells, S, C])
        m = i.call(env['MacroProg'], [base.fake, lg])
        m.f['sim_lim'] = lim
        st = T.var('st')
        i.assume(T.le(0, st))
        right = bool(i.choose_n(2, 'enters at the right end'))
        tape = tuple(T.var(f'c.cell{j}') for j in range(n))
        for c in tape:
            i.assume(T.le(0, c))
        if logic == 'BlockLogic':
            tok = T.var('c.tok0')
            seen[tok] = tape
            slot = (T.add(T.mul(2, st), int(right)), tok)
        else:
            # the head is on the macro cell, the back symbol lies behind it
            N = T.power(C, cells)
            b = T.var('b.back')
            i.assume(T.le(0, b))
            i.assume(T.lt(b, N))
            seen[b] = tape[:-1] if right else tape[1:]
            slot = (T.add(T.mul(2, T.add(T.mul(st, N), b)), int(not right)), tape[-1] if right else tape[0])
        try:
            got, e = i.getitem(m, slot), None
        except PyExc as x:
            got, e = None, x
        kind, cfg = 'in', (st, tape, n - 1 if right else 0)
        steps = 0
        while kind == 'in' and steps < (lim if e is not None and e.name == 'MacroInfLoop' else lim * n + 2):
            kind, cfg = base.step(cfg)
            steps += 1
        if e is not None and e.name == 'MacroInfLoop':
            return [(kind == 'in', f'declared looping, though the base machine is {kind} after {steps} of at most {lim} steps')]
        if e is not None:
            if e.name == 'KeyError' and kind == 'undefined':
                return [(eqs(e.args_[0], cfg), f'reports {e.args_[0]} undefined, the base machine stops at {cfg}')]
            return [(False, f'raises {e.name}, the base machine is {kind} {cfg}')]
        if kind != 'out':
            return [(False, f'answers {got!r}, the base machine is {kind} {cfg}')]
        s, at_right, t = cfg
        color, shift, nxt = flat(got)
        shift = bool(i.truth(shift))
        if logic == 'BlockLogic':
            want = T.add(T.mul(2, s), int(not at_right))
            return [(shift == at_right, f'moves {"right" if shift else "left"}, the base machine leaves the cells {t} at the other end'),
                    (eqs(seen.get(color, ('?',)), t), f'writes {seen.get(color)}, the base machine leaves {t}'),
                    (eqs(nxt, want), f'next state {nxt!r}, expected {want!r}')]
        # the macro tape is the mirror image: leaving the window to the right, the cell left behind is
        # printed and the macro head moves left
        out, back = (t[0], t[1:]) if at_right else (t[-1], t[:-1])
        tok = [k for k, v in seen.items() if k is not T.var('b.back') and v == back]
        return [(shift != at_right, f'moves {"right" if shift else "left"}, which on the mirrored tape is not where the base machine leaves the cells'),
                (eqs(color, out), f'prints {color!r}, expected {out!r} of {t}'),
                (bool(tok), f'no back symbol for {back} was formed, only {seen}'),
                (T.lor(*[eqs(nxt, T.add(T.mul(2, T.add(T.mul(s, T.power(C, cells)), k)), int(not at_right))) for k in tok]) if tok else True,
                 f'next state {nxt!r} does not stand for base state {s!r} with back symbol {back}')]
    run(rep, rule, where, body, max_paths=6000)


def encoding(rep):
    """Cells to colour: injective, blank to blank, and undone by the way back."""
    rule = 'py:encoding'
    where = f'{M}.TapeColorConverter'
    for cells in (1, 2, 3):
        def body(i):
            env = i.load(M).env.vars
            B = T.var('B')
            i.assume(T.le(2, B))
            conv = i.call(env['TapeColorConverter'], [B, cells])
            out = []
            ts = []
            for k in range(2):
                t = tuple(T.var(f'c.{k}{j}') for j in range(cells))
                for c in t:
                    i.assume(T.le(0, c))
                    i.assume(T.lt(c, B))
                ts.append(t)
            c0 = i.call(i.getattr(conv, 'tape_to_color'), [ts[0]])
            back = flat(i.call(i.getattr(conv, 'color_to_tape'), [c0]))
            out.append((eqs(back, ts[0]), f'cells {ts[0]} become colour {c0!r}, which is read back as {back}'))
            # positional: the colour is a sum of digits times distinct powers of the base
            forms = [T.add(0, *[T.mul(d, T.power(B, e)) for d, e in zip(ts[0], perm)]) for perm in itertools.permutations(range(cells))]
            c1 = i.call(i.getattr(conv, 'tape_to_color'), [ts[1]])
            pos = any(i.facts.proved_equal(c0, f) for f in forms) if isinstance(c0, (int, T.Term)) else False
            if pos:
                out.append((True, ''))
            else:
                # not recognised as positional: a collision refutes it
                out.append((T.lor(T.lnot(eqs(c0, c1)), eqs(ts[0], ts[1])), f'cells {ts[0]} and {ts[1]} become colours {c0!r} and {c1!r}'))
            back = flat(i.call(i.getattr(conv, 'color_to_tape'), [c0]))
            out.append((T.lor(eqs(back, ts[0]), eqs(c0, c1)), f'cells {ts[0]} become colour {c0!r}, which is read back as {back} once {ts[1]} has been seen'))
            zero = (0,) * cells
            z = i.call(i.getattr(conv, 'tape_to_color'), [zero])
            out.append((T.eq(z, 0), f'blank cells become colour {z!r}'))
            blank = flat(i.call(i.getattr(i.call(env['TapeColorConverter'], [B, cells]), 'color_to_tape'), [0]))
            out.append((eqs(blank, zero), f'colour 0 is read as {blank}'))
            return out
        run(rep, rule, where, body, max_paths=600)


def sharing(rep):
    """Converters, and macros made with different parameters, do not share their tables."""
    rule = 'py:sharing'
    for fn, args in (('make_converter', [((3, 2), (3, 3)), ((3, 2), (2, 2)), ((2, 3), (3, 2)), ((3, 2), (3, 2))]),
                     ('make_block', [((2, (2, 3)), (3, (2, 3))), ((2, (2, 3)), (2, (3, 3))), ((2, (2, 3)), (2, (2, 4))), ((2, (3, 2)), (2, (2, 3)))]),
                     ('make_backsym', [((2, (2, 3)), (3, (2, 3))), ((2, (2, 3)), (2, (3, 3))), ((2, (2, 3)), (2, (2, 4))), ((2, (3, 2)), (2, (2, 3)))])):
        for a, b in args:
            def body(i):
                env = i.load(M).env.vars
                x, y = i.call(env[fn], list(a)), i.call(env[fn], list(b))
                out = []
                for v, (p, q) in ((x, a), (y, b)):
                    if fn == 'make_converter':
                        d = {'base_colors': p}
                        blank = flat(i.call(i.getattr(v, 'color_to_tape'), [0]))
                        out.append((blank == (0,) * q, f'{fn}{(p, q)} after {fn}{a} reads colour 0 as {blank}'))
                    else:
                        d = {'cells': p, 'base_states': q[0], 'base_colors': q[1]}
                    for k, w in d.items():
                        g = flat(i.getattr(v, k))
                        out.append((g == w, f'{fn}{(p, q)} after {fn}{a} has {k} {g}'))
                    if fn != 'make_converter':
                        blank = flat(i.call(i.getattr(i.getattr(v, 'converter'), 'color_to_tape'), [0]))
                        out.append((blank == (0,) * p, f'{fn}{(p, q)} after {fn}{a} reads colour 0 as {blank}'))
                return out
            run(rep, rule, f'{M}.{fn}', body)


def sharing_keys(rep):
    """Whatever the parameters: what is answered was made for these parameters."""
    rule = 'py:sharing'
    for fn, cls in (('make_converter', 'TapeColorConverter'), ('make_block', 'BlockLogic'), ('make_backsym', 'BacksymbolLogic')):
        def body(i):
            env = i.load(M).env.vars
            made = {}

            def make(i, a, k):
                f = Fake(f'object {len(made)}')
                made[f] = flat(tuple(a))
                return f
            i.hooks[f'{M}.{cls}'] = make
            out = []
            for j in (0, 1):
                v = [T.var(f'par{x}{j}') for x in 'abc']
                for x in v:
                    i.assume(T.le(1, x))
                a = [v[0], v[1]] if fn == 'make_converter' else [v[0], (v[1], v[2])]
                want = (v[0], v[1]) if fn == 'make_converter' else tuple(v)
                r = i.call(env[fn], a)
                out.append((eqs(made.get(r, ()), want), f'{fn}{want} answers what was made for {made.get(r)}'))
            return out
        run(rep, rule, f'{M}.{fn}', body)


def sizes(rep):
    """How many macro states and colours there are, and when a macro cell counts as looping."""
    rule = 'py:sizes'
    for logic in ('BlockLogic', 'BacksymbolLogic'):
        for cells in (1, 2, 3):
            def body(i):
                env = i.load(M).env.vars
                S, B = T.var('S'), T.var('B')
                i.assume(T.le(1, S))
                i.assume(T.le(2, B))
                lg = i.call(env[logic], [cells, S, B])
                N = T.power(B, cells)
                g = {k: i.getattr(lg, k) for k in ('macro_states', 'macro_colors', 'sim_lim', 'cells')}
                # every macro state and colour an instruction can name lies below these
                want = {'macro_states': T.mul(2, S), 'macro_colors': N} if logic == 'BlockLogic' else \
                    {'macro_states': T.mul(2, S, N), 'macro_colors': B}
                out = [(T.le(w, g[k]), f'{logic} of {cells} cells: {k} is {g[k]!r}, {w!r} can occur') for k, w in want.items()]
                out.append((T.eq(g['cells'], cells), f'{logic}: cells is {g["cells"]!r}'))
                if logic == 'BlockLogic' or cells == 1:
                    n = cells + (logic != 'BlockLogic')
                    w = T.mul(n, S, T.power(B, n))
                    out.append((T.le(w, g['sim_lim']), f'{logic} of {cells} cells is declared looping after {g["sim_lim"]!r} steps, '
                                                       f'there are {w!r} configurations'))
                return out
            run(rep, rule, f'{M}.{logic}', body)


def params(rep):
    """The parameters of a program cover every state and colour it can reach."""
    rule = 'py:params'
    for slots in (((0, 0),), ((0, 0), (0, 1)), ((0, 0), (1, 1)), ((0, 0), (1, 0), (1, 2))):
        def body(i):
            env = i.load(M).env.vars
            prog = PDict()
            vals = [(0, 0)] + list(slots)
            for j, s in enumerate(slots):
                c, n = T.var(f'c.{j}'), T.var(f's.{j}')
                i.assume(T.le(0, c))
                i.assume(T.le(0, n))
                prog.pairs.append([s, (c, bool(j % 2), n)])
                vals.append((n, c))
            st, co = flat(i.call(env['prog_params'], [prog]))
            return [(T.land(*[T.lt(s, st) for s, _ in vals]), f'{prog!r} is taken to have {st!r} states'),
                    (T.land(*[T.lt(c, co) for _, c in vals]), f'{prog!r} is taken to have {co!r} colours')]
        run(rep, rule, f'{M}.prog_params', body)

    # macros of macros
    for logic in ('BlockLogic', 'BacksymbolLogic'):
        def body(i):
            env = i.load(M).env.vars
            lg = i.call(env[logic], [2, 3, 2])
            m = i.call(env['MacroProg'], [PDict(), lg])
            got = flat(i.call(env['prog_params'], [m]))
            want = (i.getattr(lg, 'macro_states'), i.getattr(lg, 'macro_colors'))
            return [(got == want, f'parameters of a {logic} macro are {got}, it has {want}')]
        run(rep, rule, f'{M}.prog_params', body)


def making(rep):
    """make_macro builds the layers asked for, each over the parameters of the layer below."""
    rule = 'py:make'
    cases = [(None, None, None, None), (1, None, None, None), (2, None, None, None), (None, 1, None, None), (3, 2, None, None), (None, None, 10, None),
             (None, 1, 10, None), (2, None, None, (5, 4)), (None, 2, None, (5, 4)), (2, 1, None, (5, 4))]
    for blocks, backsym, opt, par in cases:
        for opted in ((1, 4) if opt else (None,)):
            def body(i):
                rs = i.load('tm.rust_stuff').env.vars
                comp = PDict([[(0, 0), (1, True, 1)], [(1, 0), (2, False, 0)], [(1, 2), (0, True, 2)]])
                env = i.load(M).env.vars
                env['tcompile'] = rs['tcompile'] = Native('tcompile', lambda i, a, k: comp)
                env['opt_block'] = rs['py_opt_block'] = Native('opt_block', lambda i, a, k: opted)
                m = i.call(env['make_macro'], ['prog'], {'blocks': blocks, 'backsym': backsym, 'opt_macro': opt, 'params': par})
                b = opted if opt else blocks
                layers = []
                base = (3, 3)
                p = par or base
                if b is not None and b > 1:
                    layers.append(('BlockLogic', b, p))
                    base = p = (2 * p[0], p[1] ** b)
                if backsym is not None:
                    layers.append(('BacksymbolLogic', backsym, p))
                got = []
                while isinstance(m, Obj):
                    lg = i.getattr(m, 'logic')
                    got.insert(0, (lg.cls.name, i.getattr(lg, 'cells'), (i.getattr(lg, 'base_states'), i.getattr(lg, 'base_colors'))))
                    if not i.truth(T.eq(i.getattr(m, 'sim_lim'), i.getattr(lg, 'sim_lim'))):
                        got.append('limit of another logic')
                    m = i.getattr(m, 'comp')
                return [(m is comp, 'the program at the bottom is another one'),
                        (got == layers, f'blocks={blocks} backsym={backsym} opt_macro={opt} (answer {opted}) params={par}: layers {got}, expected {layers}')]
            run(rep, rule, f'{M}.make_macro', body)


def caching(rep):
    """A slot asked for twice is answered alike; different slots are not confused."""
    rule = 'py:cache'

    def body(i):
        env = i.load(M).env.vars
        calls = []
        m = i.call(env['MacroProg'], [PDict(), i.call(env['BlockLogic'], [2, 2, 2])])

        def calc(i, a, k):
            calls.append(flat(a[1]))
            return (len(calls), True, 0)
        i.hooks[f'{M}.MacroProg.calculate_instr'] = calc
        s = [(T.var('st0'), T.var('c.0')), (T.var('st1'), T.var('c.1'))]
        r = [flat(i.getitem(m, x)) for x in (s[0], s[1], s[0])]
        same = i.truth(eqs(s[0], s[1]))
        return [(r[0] == r[2], f'{s[0]} is answered {r[0]} and later {r[2]}'), (same or r[0] != r[1], f'{s[0]} and {s[1]} get the same instruction')]
    run(rep, rule, f'{M}.MacroProg.__getitem__', body)


def check(rep):
    encoding(rep)
    sharing(rep)
    sharing_keys(rep)
    sizes(rep)
    params(rep)
    making(rep)
    caching(rep)
    for logic, cells, lim in (('BlockLogic', 1, 3), ('BlockLogic', 2, 4), ('BlockLogic', 3, 4), ('BacksymbolLogic', 1, 3), ('BacksymbolLogic', 2, 4)):
        simulate(rep, 'py:macro-step', logic, cells, lim)
