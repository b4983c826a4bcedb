"""What is written out for a program: C (tools/c.py) and dot (tools/dot.py); and the order in which its instructions are met (tools/instr_seq.py).

The generators are interpreted on every choice of instructions for one state; the
text is then read back: the C text by the meaning of its statements, from every
label and every scanned colour up to the next test of the scanned cell.
"""

from __future__ import annotations

import re

from . import terms as T
from .pyai import Env, Fake, Module, Native, PyExc, Undecided, explore
from .num_ai import repo
from .c02_py import flat


def letter(s):
    return '.' if s is None else '_' if s < 0 else chr(65 + s)


def stub(i):
    m = Module('tm.rust_stuff', None, None)
    m.env = Env(module=m)

    def other(n):
        def f(i, a, k):
            raise Undecided(f'call of {n}')
        return f
    for n in ('tcompile', 'read_slot', 'read_instr', 'py_show_comp', 'show_slot', 'show_instr', 'py_opt_block', 'PastConfigs',
              'run_prover', 'py_quick_term_or_rec', 'py_is_connected', 'py_cant_halt', 'py_cant_blank', 'py_cant_spin_out', 'py_segment_cant_halt'):
        m.env.vars[n] = Native(n, other(n))
    m.env.vars['show_state'] = Native('show_state', lambda i, a, k: letter(a[0]))

    def instr(i, a, k):
        return i.table[a[0]]
    m.env.vars['read_instr'] = Native('read_instr', instr)
    return m


# reading the C text

TOK = re.compile(r'//[^\n]*|#[^\n]*|"[^"]*"|(?P<t>\w+|[{}();:!])|\s+')


class Bad(Exception):
    pass


def tokens(text):
    out, k = [], 0
    while k < len(text):
        m = TOK.match(text, k)
        if not m:
            raise Bad(f'cannot read {text[k:k + 20]!r}')
        if m.group('t'):
            out.append(m.group('t'))
        k = m.end()
    return out


class C:
    def __init__(self, text):
        self.t, self.k = tokens(text), 0
        try:
            head = [self.eat() for _ in range(6)]
            if head != ['int', 'main', '(', 'void', ')', '{']:
                raise Bad(f'starts {head}')
            self.body = self.block()
        except IndexError:
            raise Bad('ends too early') from None
        if self.k != len(self.t):
            raise Bad('goes on after main')
        self.labels = {}
        self.find(self.body, ())

    def eat(self, want=None):
        t = self.t[self.k]
        self.k += 1
        if want is not None and t != want:
            raise Bad(f'{t} instead of {want}')
        return t

    def block(self):
        out = []
        while self.t[self.k] != '}':
            out.append(self.stmt())
        self.k += 1
        return tuple(out)

    def cond(self):
        self.eat('(')
        t = self.eat()
        neg = t == '!'
        if neg:
            t = self.eat()
        if t != 'BLANK':
            raise Bad(f'test {t}')
        self.eat(')')
        return neg

    def stmt(self):
        t = self.eat()
        if t == 'while':
            neg = self.cond()
            self.eat('{')
            return 'while', neg, self.block()
        if t == 'if':
            neg = self.cond()
            self.eat('{')
            a = self.block()
            b = ()
            if self.t[self.k] == 'else':
                self.k += 1
                self.eat('{')
                b = self.block()
            return 'if', neg, a, b
        if t == 'switch':
            for w in ('(', 'SCAN', ')', '{'):
                self.eat(w)
            cases = []
            while self.t[self.k] != '}':
                self.eat('case')
                n = int(self.eat())
                self.eat(':')
                body = []
                while self.t[self.k] not in ('case', '}'):
                    body.append(self.stmt())
                cases.append((n, tuple(body)))
            self.k += 1
            if len({n for n, _ in cases}) != len(cases):
                raise Bad('a case occurs twice')
            return 'switch', tuple(cases)
        if t == 'goto':
            l = self.eat()
            self.eat(';')
            return 'goto', l
        if t == 'WRITE':
            self.eat('(')
            n = int(self.eat())
            for w in (')', ';'):
                self.eat(w)
            return 'write', n
        n = self.eat()
        if n == ':':
            return 'label', t
        if n != ';' or t not in ('PRINT', 'ERASE', 'LEFT', 'RIGHT', 'CHECK_STEPS'):
            raise Bad(f'statement {t} {n}')
        return {'PRINT': ('write', 1), 'ERASE': ('write', 0), 'LEFT': ('shift', False), 'RIGHT': ('shift', True), 'CHECK_STEPS': ('end',)}[t]

    def find(self, stmts, after):
        for k, s in enumerate(stmts):
            rest = stmts[k + 1:] + after
            if s[0] == 'label':
                if s[1] in self.labels:
                    raise Bad(f'label {s[1]} occurs twice')
                self.labels[s[1]] = rest
            elif s[0] == 'while':
                self.find(s[2], (s, *rest))
            elif s[0] == 'if':
                self.find(s[2], rest)
                self.find(s[3], rest)
            elif s[0] == 'switch':
                for k2, (_, b) in enumerate(s[1]):
                    self.find(b, sum((c for _, c in s[1][k2 + 1:]), ()) + rest)

    def norm(self, p):
        seen = 0
        while p and p[0][0] in ('label', 'goto'):
            seen += 1
            if seen > 200:
                raise Bad('goes round without a step')
            if p[0][0] == 'goto':
                if p[0][1] not in self.labels:
                    raise Bad(f'goes to {p[0][1]}, which is no label')
                p = self.labels[p[0][1]]
            else:
                p = p[1:]
        return p

    def step(self, point, colour):
        """What happens from a point with a colour scanned: colour left, direction, next point."""
        p, now, moved = self.norm(point), colour, None
        for _ in range(100):
            p = self.norm(p)
            if not p:
                raise Bad('runs off the end')
            s, rest = p[0], p[1:]
            if s[0] == 'end':
                return now, moved, p
            if s[0] in ('while', 'if', 'switch') and moved is not None:
                return now, moved, p
            if s[0] == 'while':
                p = s[2] + p if (now == 0) != s[1] else rest
            elif s[0] == 'if':
                p = (s[2] if (now == 0) != s[1] else s[3]) + rest
            elif s[0] == 'switch':
                ns = [n for n, _ in s[1]]
                if now not in ns:
                    p = rest
                else:
                    p = sum((b for _, b in s[1][ns.index(now):]), ()) + rest
            elif s[0] == 'write':
                if moved is not None:
                    raise Bad('writes after moving')
                now, p = s[1], rest
            elif s[0] == 'shift':
                if moved is not None:
                    raise Bad('moves twice')
                moved, p = s[1], rest
        raise Bad('no end in sight')


def tables(states, colors, full):
    """Programs in which one state runs through all instructions (full) and the others stay."""
    base = {(s, c): ((s + c + 1) % colors, (s + c) % 2 == 0, (s + 1) % states) for s in range(states) for c in range(colors)}
    for st in full:
        opts = [(w, d, t) for w in range(colors) for d in (False, True) for t in range(-1, states) if t >= -1] + [None]
        if colors > 2:
            opts = [o for k, o in enumerate(opts) if o is None or o[1] or o[0] != 1]
        idx = [0] * colors

        def rec(c, acc):
            if c == colors:
                yield {**base, **{(st, k): v for k, v in enumerate(acc)}}
                return
            for o in opts:
                yield from rec(c + 1, [*acc, o])
        del idx
        yield from rec(0, [])


def text_of(table, states, colors):
    names = {}
    rows = []
    for s in range(states):
        row = []
        for c in range(colors):
            ins = table[s, c]
            n = '...' if ins is None else f'{ins[0]}{"R" if ins[1] else "L"}{letter(ins[2])}'
            names[n] = ins
            row.append(n)
        rows.append(' '.join(row))
    return '  '.join(rows), names


def interpret(rep, mod, fn, table, states, colors):
    prog, names = text_of(table, states, colors)

    def body(i):
        i.table = names
        r = i.call(i.load(mod).env.vars[fn], [prog], {})
        if not isinstance(r, str):
            raise Undecided(f'text is {r!r}'[:80])
        return r
    out = []
    for p in explore(repo(), body, hooks={}, externs={'tm.rust_stuff': stub}, max_iter=200):
        rep.paths += 1
        rep.units.update(p.i.visited)
        out.append(p)
    return prog, out


def check_c(rep):
    rule, where = 'c:transition', 'tools.c.make_c'
    for states, colors, full in ((2, 2, (0, 1)), (3, 2, (1,)), (7, 2, (6,)), (1, 2, (0,)), (2, 3, (1,)), (2, 4, ())):
        if (states, colors) == (7, 2):
            tabs = [t for k, t in enumerate(tables(states, colors, full)) if k % 5 == 0]
        elif colors == 4:
            tabs = [t for k, t in enumerate(tables(2, 4, (1,))) if k % 97 == 0]
        else:
            tabs = tables(states, colors, full)
        for table in tabs:
            if rep.settled(rule, where):
                return
            prog, paths = interpret(rep, 'tools.c', 'make_c', table, states, colors)
            for p in paths:
                if p.undecided:
                    rep.unknown(rule, p.undecided)
                    continue
                if p.exc:
                    rep.oblige(rule, where, p.facts, False, f'raises {p.exc.name} on {prog}')
                    continue
                try:
                    c = C(p.result)
                    start = c.norm(c.body)
                    if start != c.norm((('goto', 'A'),)):
                        raise Bad('does not start at A')
                    for (s, k), ins in sorted(table.items()):
                        w, d, t = ins or (1, True, -1)
                        got = c.step((('goto', letter(s)),), k)
                        want = w, d, c.norm((('goto', letter(t) if t >= 0 else 'H'),))
                        if got != want:
                            raise Bad(f'in state {letter(s)} scanning {k} it writes {got[0]}, moves {got[1]}'
                                      + ('' if got[2] == want[2] else ' and goes on elsewhere') + f'; the program says {ins}')
                    if c.norm((('goto', 'H'),)) != (('end',),):
                        raise Bad('after H it goes on')
                    rep.ok(rule)
                except Bad as e:
                    rep.oblige(rule, where, p.facts, False, f'C of {prog}: {e}')


def check_labels(rep):
    """Label H is the halt, and the eighth state's."""
    table = {(s, c): ((s + c) % 2, True, (s + 1) % 8) for s in range(8) for c in range(2)}
    prog, paths = interpret(rep, 'tools.c', 'make_c', table, 8, 2)
    for p in paths:
        if p.undecided or p.exc:
            rep.unknown('c:labels', p.undecided or p.exc.name)
            continue
        try:
            C(p.result)
            rep.ok('c:labels')
        except Bad as e:
            rep.oblige('c:labels', 'tools.c.make_c of eight states', p.facts, False, f'C of {prog}: {e}')


def check_dot(rep):
    rule, where = 'dot:edges', 'tools.dot.make_dot'
    edge = re.compile(r'^\s*(\w+)\s*->\s*(\w+)\s*\[\s*color\s*=\s*"\s*(\w+)\s*"\s*\]\s*;?\s*$')
    for states, colors, full in ((2, 2, (0, 1)), (3, 2, (2,)), (2, 3, (1,)), (2, 4, (0,)), (6, 2, (5,))):
        tint = {}
        seen = set()
        for table in tables(states, colors, full):
            key = tuple(ins and ins[2] for ins in table.values())
            if -1 in key or key in seen:
                continue
            seen.add(key)
            if rep.settled(rule, where):
                return
            prog, paths = interpret(rep, 'tools.dot', 'make_dot', table, states, colors)
            for p in paths:
                if p.undecided:
                    rep.unknown(rule, p.undecided)
                    continue
                if p.exc:
                    rep.oblige(rule, where, p.facts, False, f'raises {p.exc.name} on {prog}')
                    continue
                got = []
                for line in p.result.split('\n'):
                    if '->' in line:
                        m = edge.match(line)
                        got.append(m.groups() if m else line)
                # one colour of edge per colour of the tape
                ok = len(got) == sum(v is not None for v in key)
                rest = list(got)
                for (s, c), ins in sorted(table.items()):
                    if ins is None:
                        continue
                    hits = [g for g in rest if len(g) == 3 and g[:2] == (letter(s), letter(ins[2])) and tint.setdefault(c, g[2]) == g[2]]
                    if not hits:
                        ok = False
                        break
                    rest.remove(hits[0])
                if len(set(tint.values())) != len(tint):
                    ok = False
                rep.oblige(rule, where, p.facts, ok, f'dot of {prog} has edges {got}')
                lines = p.result.split('\n')
                rep.oblige('dot:frame', where, p.facts, lines[0].startswith('digraph') and lines[0].count('{') == 1 and lines[-1] == '}',
                           f'dot of {prog} is no digraph')


def check_seq(rep):
    """tools/instr_seq.py: the run of a partial program to its first missing instruction, and the sequence of them."""
    mod = 'tools.instr_seq'
    rule, where = 'seq:run', f'{mod}.run_for_undefined'

    for n in (0, 1, 2, 3, 4):
        def body(i):
            v, memo, events, states = [0], {}, [], {0: 0}

            def ask(key, make):
                if key not in memo:
                    memo[key] = make()
                return memo[key]

            def instr(v):
                if v >= n or not ask(('def', v), lambda: bool(i.choose_n(2, f'configuration {v}: instruction defined'))):
                    return None

                def mk():
                    c, s = T.var(f'c.print{v}'), T.var(f's.next{v}')
                    i.assume(T.le(0, c))
                    i.assume(T.le(0, s))
                    return c, bool(i.choose_n(2, f'configuration {v}: moves right')), s
                return ask(('instr', v), mk)

            def edge(v, d):
                return ask(('edge', v, d), lambda: bool(i.choose_n(2, f'configuration {v}: at the {"right" if d else "left"} edge')))

            def item(i, key):
                key = flat(key)
                if not (isinstance(key, tuple) and len(key) == 2):
                    raise Undecided('slot')
                events.append((T.land(T.eq(key[0], states[v[0]]), T.eq(key[1], T.var(f'c.scan{v[0]}'))), f'configuration {v[0]}: looks up {key}'))
                ins = instr(v[0])
                if ins is None:
                    raise PyExc(KeyError, (key,))
                return ins

            def attr(i, name):
                now = v[0]
                if name == 'scan':
                    return T.var(f'c.scan{now}')
                if name == 'at_edge':
                    return Native(name, lambda i, a, k: edge(now, bool(i.truth((list(a) + list(k.values()))[0]))))
                if name == 'step':
                    def f(i, a, k):
                        a = list(a) + [k[x] for x in ('shift', 'color', 'skip') if x in k]
                        ins = instr(now)
                        if ins is None:
                            raise Undecided('no instruction')
                        events.append((T.land(bool(i.truth(a[0])) == ins[1], T.eq(a[1], ins[0])), f'configuration {now}: steps {a[:2]}, the instruction is {ins}'))
                        same = T.eq(states[now], ins[2])
                        if i.truth(a[2]):
                            events.append((same, f'configuration {now}: skips although the state changes'))
                        d = T.var(f'n.step{now}')
                        i.assume(T.le(1, d))
                        states[now + 1] = ins[2]
                        v[0] += 1
                        return d
                    return Native(name, f)
                return NotImplemented
            tape = Fake('tape', attr)
            i.hooks['tm.tape.Tape'] = lambda i, a, k: tape
            got = i.call(i.load(mod).env.vars['run_for_undefined'], [Fake('program', None, item)], {})
            g = flat(got) if got is not None else None
            st, total, exp = 0, 0, None
            for u in range(n + 1):
                ins = instr(u)
                if ins is None:
                    exp = (total, (st, T.var(f'c.scan{u}')))
                    break
                if i.truth(T.eq(st, ins[2])) and edge(u, ins[1]):
                    break
                total, st = T.add(total, T.var(f'n.step{u}')), ins[2]
            ok = (g is None) == (exp is None) and (g is None or T.land(T.eq(g[0], exp[0]), T.eq(g[1][0], exp[1][0]), T.eq(g[1][1], exp[1][1])))
            return [*events, (ok, f'answers {g}, expected {exp}')]
        settle(rep, rule, where, body)

    rule, where = 'seq:sequence', f'{mod}.instr_seq'
    for states, colors, holes in ((2, 2, ()), (2, 2, ((1, 1),)), (2, 2, ((1, 0), (1, 1))), (2, 3, ()), (3, 2, ((2, 1),)), (2, 3, ((0, 2), (1, 1)))):
        def body2(i):
            slots = [(s, c) for s in range(states) for c in range(colors)]
            names = {slot: f'<{slot[0]}{slot[1]}>' if slot not in holes else '...' for slot in slots}
            names[0, 0] = '1RB'
            i.table = {names[x]: (T.var(f'c.w{x[0]}{x[1]}'), T.var(f'right{x[0]}{x[1]}', 'bool'), T.var(f's.t{x[0]}{x[1]}')) for x in slots}
            i.table['1RB'] = (1, True, 1)
            i.table['...'] = None
            back = {v: k for k, v in i.table.items()}

            def show(i, a, k):
                v = None if a[0] is None else flat(a[0])
                if v not in back:
                    raise Undecided('instruction')
                return back[v]
            i.load('tm.rust_stuff').env.vars['show_instr'] = Native('show_instr', show)

            def text(have):
                return '  '.join(' '.join(names[s, c] if (s, c) in have else '...' for c in range(colors)) for s in range(states))
            have, exp, log, over = [(0, 0)], [], [], []

            def runs(i, a, k):
                log.append(len(exp))
                left = [x for x in slots if x not in have]
                if over:
                    over.append('goes on')
                    return None if len(over) > 3 else (1, exp[-1][2] if exp else (0, 0))
                w = i.choose_n(len(left) + 1, f'run {len(log)}')
                if w == len(left):
                    over.append('stops')
                    return None
                exp.append((text(have), 10 * len(log), left[w], left[w] in holes))
                have.append(left[w])
                if left[w] in holes or len(have) == len(slots):
                    over.append('stops')
                return (10 * len(log), left[w])
            i.hooks[f'{mod}.run_for_undefined'] = runs
            prog = '  '.join(' '.join(names[s, c] for c in range(colors)) for s in range(states))
            gen = i.call(i.load(mod).env.vars['instr_seq'], [prog], {})
            got = []
            for x in i.iterate(gen):
                got.append(flat(x))
            return [(over[:1] == ['stops'], f'the sequence ends after {got}'), (len(got) == len(exp) and all(isinstance(x, tuple) and x == e[:3] for x, e in zip(got, exp)), f'the sequence is {got}, expected {[e[:3] for e in exp]}')]
        settle(rep, rule, where, body2, max_paths=1500)


def settle(rep, rule, where, body, **kw):
    from .c12_py import dom
    for p in explore(repo(), body, hooks={}, externs={'tm.rust_stuff': stub}, max_iter=60, **kw):
        rep.paths += 1
        rep.units.update(p.i.visited)
        if p.undecided:
            rep.unknown(rule, p.undecided)
            continue
        if p.exc:
            rep.oblige(rule, where, p.facts, False, f'raises {p.exc.name} on {p.describe()}'[:400], dom)
            continue
        for ok, text in p.result:
            rep.oblige(rule, where, p.facts, ok, lambda: f'{text}, on {p.describe()}'[:500], dom)
