"""The tapes of src/tape.rs: the step, the normal form, what a tape reports, recording and alignment."""

from __future__ import annotations

import itertools

from . import terms as T
from .c01_py import expected_step
from .c03_py import Shadow
from .pyai import Obj, PList, Undecided
from .rs_common import explore_shapes, readspan, colour_domain, flat, same, iff, owed, inner, cn, RShapes
from .rustai import RVec, Variant
from .tape_py import merged, same_run_lengths

TAPE = 'src/tape.rs::Tape'


def long(p):
    return p.undecided and (p.undecided.startswith('span longer') or p.undecided.startswith('not there'))


def check_step(rep):
    rule = 'rs:step'
    for shift in (True, False):
        for skip in (True, False):
            def body(i, sh):
                t = sh.tape()
                color = T.var('color')
                i.assume(T.le(0, color))
                for l in (sh.l, sh.r):
                    for k in range(2):
                        if len(l.items) == k and not i.expand(l):
                            break
                before = {s: sh.cells_of(s) for s in 'lr'}
                exp = expected_step(i, (before['l'], sh.l.tail), t.f['scan'], (before['r'], sh.r.tail), shift, color, skip)
                ret = i.method(t, 'step', shift, color, skip)
                return t, exp, ret, before
            where = f'{TAPE}::step(shift={shift}, skip={skip})'.lower().replace('src/tape.rs::tape', TAPE)
            for p, sh in explore_shapes(rep, body):
                if p.undecided:
                    rep.unknown(rule, p.undecided)
                    continue
                if p.exc:
                    rep.oblige(rule, where, p.facts, False, f'panics on {p.describe()}', colour_domain)
                    continue
                t, (el, es, er, en), ret, before = p.result
                i = p.i

                def descr(what):
                    return lambda: (f'{what}: from {before["l"]} [scan] {before["r"]} got {t!r} returning {ret!r}, '
                                    f'expected left {el[0]}, scan {es!r}, right {er[0]}, {en!r} cells')
                owed(rep, rule, where, p, colour_domain)
                rep.oblige(rule, where + ' return', p.facts, same(i.strip(ret), en), descr('wrong step count'), colour_domain)
                rep.oblige(rule, where + ' scan', p.facts, T.eq(t.f['scan'], es), descr('wrong scanned colour'), colour_domain)
                for name, ex in (('lspan', el), ('rspan', er)):
                    got, tail = readspan(t.f[name])
                    if (tail is None) != (ex[1] is None) or tail is not None and (tail.side, tail.k) != (ex[1].side, ex[1].k):
                        if ex[1] is None or tail is not None and tail.side != ex[1].side:
                            rep.oblige(rule, f'{where} {name}', p.facts, False, descr('lost the rest of the tape'), colour_domain)
                            continue
                        # expanded further than the definition needs
                        cells = sh.cells_of(ex[1].side)
                        ex = (list(ex[0]) + cells[ex[1].k:tail.k if tail is not None else None], tail)
                    a, b = merged(i, got, tail), merged(i, ex[0], ex[1])
                    rep.oblige(rule, f'{where} {name}', p.facts, same_run_lengths(i, a, b), descr(f'wrong {name}'), colour_domain)
                    cond = T.land(*[T.le(1, n) for c, n in got],
                                  *[T.ne(got[k][0], got[k + 1][0]) for k in range(len(got) - 1)],
                                  *([T.ne(got[-1][0], 0)] if got and tail is None else []))
                    rep.oblige('rs:normal-form', f'{where} {name}', p.facts, cond, descr('not in normal form'), colour_domain)
                rep.sample(f'{where}: {p.describe()} -> {t!r}, {ret!r}')
    fresh(rep)


def fresh(rep):
    """The tapes a run starts from."""
    rule = 'rs:fresh-tape'

    def body(i, sh):
        sc = T.var('scan')
        i.assume(T.le(0, sc))
        ty = i.adt('tape', 'Tape', i.adt('tape', 'BasicBlock'))
        a = i.run('tape::Tape::init', [sc], selfty=ty)
        b = i.run('tape::Tape::init_stepped', [], selfty=ty)
        c = i.run('tape::HeadTape::init_stepped', [], selfty=i.adt('tape', 'HeadTape'))
        return sc, a, b, c
    for p, sh in explore_shapes(rep, body):
        if p.undecided or p.exc:
            rep.unknown(rule, p.undecided or 'panics')
            continue
        sc, a, b, c = p.result
        rep.oblige(rule, f'{TAPE}::init', p.facts, same([a.f['scan'], readspan(a.f['lspan'])[0], readspan(a.f['rspan'])[0]], [sc, [], []]),
                   f'a fresh tape is {a!r}', colour_domain)
        first = [0, [(1, 1)], []]
        rep.oblige(rule, f'{TAPE}::init_stepped', p.facts,
                   same([b.f['scan'], readspan(b.f['lspan'])[0], readspan(b.f['rspan'])[0]], first), f'the tape after 1R is {b!r}', colour_domain)
        t = c.f['tape']
        rep.oblige(rule, 'src/tape.rs::HeadTape::init_stepped', p.facts,
                   same([c.f['head'], t.f['scan'], readspan(t.f['lspan'])[0], readspan(t.f['rspan'])[0]], [1] + first),
                   f'the tape after 1R is {c!r}', colour_domain)


# ---------------------------------------------------------------- what a tape reports

def unroll_len(n, i):
    """A run length made concrete."""
    for k in range(1, 4):
        if i.truth(T.eq(n, k)):
            return k
    raise Undecided('span longer: run')


def check_reports(rep):
    def go(rule, fn, want, canonical=True, cells=4, name=None):
        def body(i, sh):
            t = sh.tape()
            l, r = sh.lists()
            s = t.f['scan']
            exp = want(i, l, s, r)
            got = flat(i, fn(i, t))
            return t, l, s, r, exp, got
        where = f'{TAPE}::{name or rule.split(":")[1]}'
        for p, sh in explore_shapes(rep, body, canonical=canonical, cells=cells):
            if p.undecided:
                if not long(p):
                    rep.unknown(rule, p.undecided)
                continue
            if p.exc:
                rep.oblige(rule, where, p.facts, False, f'panics on {p.describe()}', colour_domain)
                continue
            t, l, s, r, exp, got = p.result
            rep.oblige(rule, where, p.facts, same(got, exp), lambda: f'for {l} [{s!r}] {r} answers {got!r}, not {exp!r}', colour_domain)
            unchanged(rep, where, p, t, l, s, r)

    def m(n, *a):
        return lambda i, t: i.method(t, n, *a)

    def sig(i, l, s, r):
        def side(cells):
            return [('Just' if i.truth(T.eq(n, 1)) else 'Mult', c) for c, n in cells]
        return {'scan': s, 'lspan': side(l), 'rspan': side(r)}

    go('rs:blank', m('blank'), lambda i, l, s, r: T.land(*[T.eq(c, 0) for c, _ in l + [(s, 1)] + r]))
    go('rs:marks', m('marks'), lambda i, l, s, r: T.add(*[n for c, n in l + [(s, 1)] + r if i.truth(T.ne(c, 0))], 0), canonical=False)
    go('rs:blocks', m('blocks'), lambda i, l, s, r: len(l) + len(r))
    for shift in (True, False):
        go('rs:at_edge', m('at_edge', shift), lambda i, l, s, r: T.land(*[T.eq(c, 0) for c, _ in [(s, 1)] + (r if shift else l)]))
    go('rs:span_lens', m('span_lens'), lambda i, l, s, r: (len(l), len(r)))
    go('rs:counts', m('counts'), lambda i, l, s, r: ([n for _, n in l], [n for _, n in r]))
    go('rs:signature', m('signature'), sig, canonical=False, cells=3)

    def cells_(i, l, s, r):
        def side(span):
            return [c for c, n in span for _ in range(unroll_len(n, i))]
        return side(l)[::-1] + [s] + side(r)
    go('rs:unroll', m('unroll'), cells_, canonical=False, cells=3)

    for side in (False, True):
        for pos in (0, 1):
            def want(i, l, s, r):
                span = r if side else l
                if pos >= len(span):
                    raise Undecided('not there')
                return span[pos][1]
            go('rs:get_count', lambda i, t: i.method(t, 'get_count', (side, pos)), want, canonical=False, cells=3)
    set_count(rep)
    compatible(rep)
    clone(rep)


def unchanged(rep, where, p, t, l, s, r):
    rep.oblige('rs:observers-pure', where, p.facts,
               same([t.f['scan'], readspan(t.f['lspan'])[0], readspan(t.f['rspan'])[0]], [s, [tuple(x) for x in l], [tuple(x) for x in r]]),
               lambda: f'changes the tape {l} [{s!r}] {r} into {t!r}', colour_domain)


def set_count(rep):
    rule = 'rs:set_count'
    for side in (False, True):
        for pos in (0, 1):
            def body(i, sh):
                t = sh.tape()
                l, r = sh.lists()
                if pos >= len(r if side else l):
                    raise Undecided('not there')
                v = T.var('n.new')
                i.assume(T.le(1, v))
                i.method(t, 'set_count', (side, pos), v)
                return t, l, r, v
            for p, sh in explore_shapes(rep, body, canonical=False, cells=3):
                where = f'{TAPE}::set_count'
                if p.undecided:
                    if not long(p):
                        rep.unknown(rule, p.undecided)
                    continue
                if p.exc:
                    rep.oblige(rule, where, p.facts, False, 'panics', colour_domain)
                    continue
                t, l, r, v = p.result
                want = [list(l), list(r)]
                span = want[side]
                span[pos] = (span[pos][0], v)
                got = [readspan(t.f['lspan'])[0], readspan(t.f['rspan'])[0]]
                rep.oblige(rule, where, p.facts, same(got, want),
                           lambda: f'setting side {side} run {pos} of {l} | {r} gives {got}', colour_domain)


def compatible(rep):
    rule = 'rs:sig_compatible'
    shapes = [(), ('Mult',), ('Just',), ('Mult', 'Mult'), ('Just', 'Mult')]
    for ls in shapes:
        for rs in shapes:
            def body(i, sh):
                t = sh.tape()
                l, r = sh.lists()

                def mk(side, shape):
                    out = []
                    for k, x in enumerate(shape):
                        c = T.var(f'col.{side}{k}')
                        i.assume(T.le(0, c))
                        out.append(i.variant('tape', 'ColorCount', x, c))
                    return RVec(out)
                sc = T.var('col.scan')
                i.assume(T.le(0, sc))
                sg = Obj(i.struct('tape', 'Signature'), {'scan': sc, 'lspan': mk('l', ls), 'rspan': mk('r', rs)})
                return t, l, r, sg, i.strip(i.method(t, 'sig_compatible', sg))
            for p, sh in explore_shapes(rep, body, canonical=False, cells=3):
                where = f'{TAPE}::sig_compatible'
                if p.undecided:
                    if not long(p):
                        rep.unknown(rule, p.undecided)
                    continue
                if p.exc:
                    rep.oblige(rule, where, p.facts, False, f'panics on {p.describe()}', colour_domain)
                    continue
                t, l, r, sg, got = p.result
                if len(l) < len(ls) or len(r) < len(rs):
                    exp = False
                else:
                    exp = T.land(T.eq(t.f['scan'], sg.f['scan']),
                                 *[T.eq(c, x.args[0]) for (c, _), x in zip(l, sg.f['lspan'].items)],
                                 *[T.eq(c, x.args[0]) for (c, _), x in zip(r, sg.f['rspan'].items)])
                rep.oblige(rule, where, p.facts, iff(got, exp), lambda: f'{l} [scan] {r} against {sg} answers {got!r}', colour_domain)


def clone(rep):
    rule = 'rs:clone'

    def body(i, sh):
        t = sh.tape()
        l, r = sh.lists()
        u = i.strip(i.method(t, 'clone'))
        eq = i.strip(i.equal(t, u))
        return t, l, r, u, eq
    for p, sh in explore_shapes(rep, body, canonical=False, cells=3):
        where = f'{TAPE}::clone'
        if p.undecided:
            if not long(p):
                rep.unknown(rule, p.undecided)
            continue
        if p.exc:
            rep.oblige(rule, where, p.facts, False, 'panics', colour_domain)
            continue
        t, l, r, u, eq = p.result
        rep.oblige(rule, where, p.facts, same([u.f['scan'], readspan(u.f['lspan'])[0], readspan(u.f['rspan'])[0]], [t.f['scan'], l, r]),
                   lambda: f'the copy of {l} [scan] {r} is {u!r}', colour_domain)
        rep.oblige(rule, f'{TAPE}::eq', p.facts, eq, lambda: f'{l} [scan] {r} differs from its copy', colour_domain)
    equality(rep)


def equality(rep):
    """Tapes in normal form are equal exactly when their cells are."""
    rule = 'rs:equality'

    def body(i, sh):
        a = sh.tape()
        la = sh.lists()
        s2 = T.var('col.scan')
        i.assume(T.le(0, s2))
        b = sh.tape(('L', 'R'), s2)
        lb = sh.lists()
        return a, b, la, lb, i.strip(i.equal(a, b))
    for p, sh in explore_shapes(rep, body, cells=3):
        if p.undecided or p.exc:
            if not long(p):
                rep.unknown(rule, p.undecided or 'panics')
            continue
        a, b, la, lb, got = p.result
        exp = T.land(T.eq(a.f['scan'], b.f['scan']), same(list(la), list(lb)))
        rep.oblige(rule, f'{TAPE}::eq', p.facts, iff(got, exp), lambda: f'{a!r} == {b!r} answers {got!r}', colour_domain)


# ---------------------------------------------------------------- recording what was used

ENUM = 'src/tape.rs::EnumTape'


def check_recorder(rep):
    rule = 'rs:recorded-reach'
    combos = list(itertools.product((True, False), repeat=2))
    seqs = [(a,) for a in combos] + [(a, b) for a in combos for b in combos]
    for seq in seqs:
        cells = 3

        def body(i, sh):
            t = sh.tape()
            l, r = sh.lists()
            s = t.f['scan']
            e = enum(i, t)
            shadow = Shadow(i, l, s, r)
            for k, (shift, skip) in enumerate(seq):
                color = T.var(f'col.{k}')
                i.assume(T.le(0, color))
                i.method(e, 'step', shift, color, skip)
                shadow.step(shift, color, skip)
            return t, l, s, r, e, shadow, flat(i, i.method(e, 'offsets')), flat(i, i.method(e, 'edges'))
        for p, sh in explore_shapes(rep, body, cells=cells, max_paths=4000):
            where = f'{ENUM}::step'
            if p.undecided:
                if not long(p):
                    rep.unknown(rule, p.undecided)
                continue
            if p.exc:
                rep.oblige(rule, where, p.facts, False, f'panics on {p.describe()}', colour_domain)
                continue
            t, l, s, r, e, shadow, offs, edges = p.result
            owed(rep, rule, where, p, colour_domain)
            for k, name in enumerate(('left', 'right')):
                rep.oblige(rule, f'{where} ({name} blocks)', p.facts, T.le(shadow.need[k], offs[k]),
                           lambda: f'after steps {seq} on {l} [{s!r}] {r} ({p.describe()}) the {name} reach is {offs[k]!r} runs, '
                                   f'the steps depend on {shadow.need[k]}', colour_domain)
                rep.oblige('rs:recorded-within', f'{where} ({name} blocks)', p.facts, T.le(offs[k], len((l, r)[k])),
                           lambda: f'after steps {seq} on {l} [{s!r}] {r} the {name} reach is {offs[k]!r} runs, more than there are', colour_domain)
                for rl, met in (('rs:recorded-ends', shadow.edge[k]),
                                ('rs:recorded-blank-beyond-end', shadow.swallowed[k] and not shadow.edge[k])):
                    if met:
                        rep.oblige(rl, f'{where} ({name} end)', p.facts, edges[k],
                                   lambda: f'after steps {seq} on {l} [{s!r}] {r} ({p.describe()}) the {name} end was met and not recorded',
                                   colour_domain)
            tape = i_tape(e)
            if tape is None:
                rep.unknown('rs:recorder-steps', 'no inner tape')
                continue
            got = [tape.f['scan'], readspan(tape.f['lspan'])[0], readspan(tape.f['rspan'])[0]]
            want = [shadow.scan, [x[:2] for x in shadow.side[0]], [x[:2] for x in shadow.side[1]]]
            rep.oblige('rs:recorder-steps', where, p.facts, same(got, want),
                       lambda: f'after steps {seq} on {l} [{s!r}] {r} the tape is {tape!r}', colour_domain)
            rep.oblige('rs:recorder-copies', f'{ENUM}::from', p.facts,
                       same([t.f['scan'], readspan(t.f['lspan'])[0], readspan(t.f['rspan'])[0]], [s, l, r]),
                       lambda: f'stepping the recorder changed the original {l} [{s!r}] {r}', colour_domain)
    counts(rep)
    recorder_fresh(rep)


def enum(i, t):
    return i.into(t, i.adt('tape', 'EnumTape'))


def i_tape(e):
    vs = [v for v in e.f.values() if isinstance(v, Obj) and {'scan', 'lspan', 'rspan'} <= set(v.f)]
    return vs[0] if len(vs) == 1 else None


def recorder_fresh(rep):
    rule = 'rs:recorder-fresh'

    def body(i, sh):
        t = sh.tape()
        l, r = sh.lists()
        e = enum(i, t)
        return (l, t.f['scan'], r, flat(i, i.method(e, 'offsets')), flat(i, i.method(e, 'edges')),
                i.strip(i.method(e, 'scan')), flat(i, i.method(e, 'signature')), flat(i, i.method(t, 'signature')))
    for p, sh in explore_shapes(rep, body, cells=3):
        if p.undecided or p.exc:
            if not long(p):
                rep.unknown(rule, p.undecided or 'panics')
            continue
        l, s, r, offs, edges, scan, sg, sg0 = p.result
        rep.oblige(rule, ENUM, p.facts, same(offs, (0, 0)), f'a fresh recorder has reach {offs}')
        rep.oblige(rule, ENUM, p.facts, same(edges, (False, False)), f'a fresh recorder has met ends {edges}')
        rep.oblige('rs:recorder-reports', ENUM, p.facts, T.land(T.eq(scan, s), same(sg, sg0)),
                   lambda: f'the recorder of {l} [{s!r}] {r} reports scan {scan!r} and signature {sg}', colour_domain)


def counts(rep):
    rule = 'rs:recorded-count'
    for side in (False, True):
        for pos in (0, 1, 2):
            for also in ((), (0,), (1,)):
                def body(i, sh):
                    t = sh.tape()
                    l, r = sh.lists()
                    if pos >= len(r if side else l) or any(len((l, r)[a]) < 1 for a in also):
                        raise Undecided('not there')
                    e = enum(i, t)
                    for a in also:
                        i.method(e, 'get_count', (bool(a), 0))
                    got = i.strip(i.method(e, 'get_count', (side, pos)))
                    v = T.var('n.new')
                    i.assume(T.le(1, v))
                    i.method(e, 'set_count', (side, pos), v)
                    again = i.strip(i.method(e, 'get_count', (side, pos)))
                    return l, r, got, v, again, flat(i, i.method(e, 'offsets'))
                for p, sh in explore_shapes(rep, body, cells=3, canonical=False):
                    where = f'{ENUM}::get_count'
                    if p.undecided:
                        if not long(p):
                            rep.unknown(rule, p.undecided)
                        continue
                    if p.exc:
                        rep.oblige(rule, where, p.facts, False, 'panics', colour_domain)
                        continue
                    l, r, got, v, again, offs = p.result
                    want = (r if side else l)[pos][1]
                    rep.oblige(rule, where, p.facts, T.eq(got, want), f'count {pos} of side {side} of {l} | {r} is {got!r}', colour_domain)
                    rep.oblige(rule, f'{ENUM}::set_count', p.facts, T.eq(again, v),
                               f'count {pos} of side {side} set to {v!r} reads {again!r}', colour_domain)
                    need = [1 if k in also else 0 for k in (0, 1)]
                    need[side] = max(need[side], pos + 1)
                    rep.oblige(rule, f'{where} (reach)', p.facts, T.land(T.le(need[0], offs[0]), T.le(need[1], offs[1])),
                               f'reading count {pos} of side {side} after {also} records reach {offs}', colour_domain)


# ---------------------------------------------------------------- the head's place, and recurrences

HEAD = 'src/tape.rs::HeadTape'


def check_head(rep):
    """A HeadTape steps as its tape does, and its head moves by the cells stepped."""
    rule = 'rs:head'
    for shift in (True, False):
        for skip in (True, False):
            def body(i, sh):
                t = sh.tape()
                sh.lists()
                l0, r0, s0 = sh.l, sh.r, t.f['scan']
                l, r = [cn(b) for b in l0.items], [cn(b) for b in r0.items]
                h = T.var('head')
                ht = Obj(i.struct('tape', 'HeadTape'), {'head': h, 'tape': t})
                color = T.var('color')
                i.assume(T.le(0, color))
                exp = expected_step(i, (l, None), s0, (r, None), shift, color, skip)
                ret = i.strip(i.method(ht, 'step', shift, color, skip))
                return ht, h, exp, ret, l, s0, r, i.strip(i.method(ht, 'head')), i.strip(i.method(ht, 'scan'))
            where = f'{HEAD}::step'
            for p, sh in explore_shapes(rep, body, cells=3):
                if p.undecided:
                    if not long(p):
                        rep.unknown(rule, p.undecided)
                    continue
                if p.exc:
                    rep.oblige(rule, where, p.facts, False, f'panics on {p.describe()}', colour_domain)
                    continue
                ht, h, (el, es, er, en), ret, l, s0, r, hd, scan = p.result
                t = ht.f['tape']
                i = p.i

                def d(w):
                    return lambda: f'{w}: {l} [{s0!r}] {r} stepped right={shift} skip={skip} gives {ht!r}'
                rep.oblige(rule, where, p.facts, T.eq(ret, en), d('cells stepped'), colour_domain)
                rep.oblige(rule, f'{where} (head)', p.facts, T.eq(hd, T.add(h, en) if shift else T.sub(h, en)), d('head'), colour_domain)
                rep.oblige(rule, f'{where} (tape)', p.facts, T.land(
                    T.eq(scan, es), *[same_run_lengths(i, merged(i, readspan(t.f[n])[0], None), merged(i, x[0], None))
                                      for n, x in (('lspan', el), ('rspan', er))]), d('tape'), colour_domain)


def lens(i, span, cap=3):
    return [(c, unroll_len(n, i)) for c, n in span]


def check_aligns(rep):
    """Two visits align exactly when the scanned window recurs, whatever lies beyond it."""
    rule = 'rs:aligns'

    def window(i, cells, lo, hi):
        return [cells.get(k, 0) for k in range(lo, hi + 1)]
    heads = [(0, 0), (0, 1), (1, 0), (0, 2), (2, 0)]
    cfgs = [(ph, ch, lo, hi) for ph, ch in heads for lo in (-1, 0) for hi in (2, 3)] + [(0, 1, -2, 1), (0, -1, -1, 2)]
    for ph, ch, lo, hi in cfgs:
        if not (lo <= ph <= hi and lo <= ch <= hi):
            continue

        def body(i, sh):
            def mk(names, scan, h):
                t = sh.tape(names, scan)
                l, r = sh.lists()
                for side, span in (('l', sh.l), ('r', sh.r)):
                    for b in span.items:
                        b.f['count'] = unroll2(i, b.f['count'])
                l = [cn(b) for b in sh.l.items]
                r = [cn(b) for b in sh.r.items]
                cells = {h: scan}
                k = h
                for c, n in r:
                    for _ in range(n):
                        k += 1
                        cells[k] = c
                k = h
                for c, n in l:
                    for _ in range(n):
                        k -= 1
                        cells[k] = c
                return Obj(i.struct('tape', 'HeadTape'), {'head': h, 'tape': t}), cells
            s1, s2 = T.var('scan'), T.var('col.scan')
            i.assume(T.le(0, s1))
            i.assume(T.le(0, s2))
            prev, pc = mk(('l', 'r'), s1, ph)
            cur, cc = mk(('L', 'R'), s2, ch)
            got = i.strip(i.method(cur, 'aligns_with', prev, lo, hi))
            if not isinstance(got, bool):
                got = i.truth(got)
            return prev, cur, pc, cc, got
        where = f'{HEAD}::aligns_with'
        for p, sh in explore_shapes(rep, body, cells=2, max_paths=3000):
            if p.undecided:
                if not long(p):
                    rep.unknown(rule, p.undecided)
                continue
            if p.exc:
                rep.oblige(rule, where, p.facts, False, f'panics on {p.describe()}', colour_domain)
                continue
            prev, cur, pc, cc, got = p.result
            if not got:
                rep.ok('rs:aligns-refused')
                continue
            d = ch - ph
            # what the run between the two visits looked at must recur, shifted, out to where it keeps moving
            ks = range(min([*pc, *cc, lo]) - abs(d) - 1, max([*pc, *cc, hi]) + abs(d) + 2)
            if d > 0:
                need = [k for k in ks if k >= lo]
            elif d < 0:
                need = [k for k in ks if k <= hi]
            else:
                need = [k for k in ks if lo <= k <= hi]
            cond = T.land(*[T.eq(pc.get(k, 0), cc.get(k + d, 0)) for k in need])
            rep.oblige(rule, where, p.facts, cond,
                       lambda: f'{cur!r} is said to align with {prev!r} over [{lo}, {hi}], and what was visited does not recur', colour_domain)


def unroll2(i, n):
    for k in (1, 2):
        if i.truth(T.eq(n, k)):
            return k
    raise Undecided('span longer: run')
