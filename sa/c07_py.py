"""One object per expression: interning, equality, hashing and immutability of counts (tm/num.py)."""

from __future__ import annotations

import ast
import os

from . import terms as T
from .pyai import Fake, Native, Obj, Cls, Func, IdOf, PyExc, Undecided, explore
from .num_ai import MODNAME, repo, contracts, NumDomain, SNum
from . import c_num

KINDS = ('Add', 'Mul', 'Div', 'Exp')


class Part:
    """An operand: an expression object known only by its identity."""

    def __init__(self, w, name, mult=1, root=None):
        self.name, self.mult = name, mult
        self.root = root or self
        self.fake = Fake(name, self.attr)
        self.fake.part = self
        self.w = w
        self.d = {}
        self.kind = None
        w.parts.append(self)

    FIELDS = {'Add': ('l', 'r'), 'Mul': ('l', 'r'), 'Div': ('num', 'den'), 'Exp': ('base', 'exp')}

    def kind_of(self, i):
        if self.kind is None:
            if self.root is not self:
                raise Undecided('class of a multiple')
            self.kind = KINDS[i.choose_n(4, f'class of {self.name}')]
        return self.kind

    def value(self):
        if self.root is not self:
            return T.mul(self.mult, self.root.value())
        f = [self.d.get(n) for n in self.FIELDS[self.kind]] if self.kind else [None]
        if any(x is None for x in f):
            return T.var(self.name)
        return value(self.kind, f)

    def attr(self, i, name):
        if name in ('l', 'r', 'num', 'den', 'base', 'exp') and name in self.FIELDS[self.kind_of(i)]:
            for n in self.FIELDS[self.kind]:
                if n not in self.d:
                    if n in ('den', 'base'):
                        self.d[n] = T.var(f'{self.name}.{n}')
                        i.assume(T.le(2, self.d[n]))
                    else:
                        self.d[n] = Part(self.w, f'{self.name}.{n}').fake
            return self.d[name]
        if name in ('depth', 'leaves', 'tower_est'):
            if name not in self.d:
                self.d[name] = T.var(f'{self.name}.{name}')
                i.assume(T.le(1, self.d[name]))
            return self.d[name]
        raise Undecided(f'{name} of a part')


def value(kind, ops):
    """What an expression denotes."""
    x, y = (o.part.value() if isinstance(o, Fake) else o for o in ops)
    return {'Add': T.add, 'Mul': T.mul, 'Div': T.quo, 'Exp': T.power}[kind](x, y)


class World:
    def __init__(self, i):
        self.i = i
        self.parts = []
        self.made = {}
        self.times = {}
        self.v = i.load(MODNAME).env.vars
        for k in KINDS:
            if not isinstance(self.v.get(k), Cls):
                raise Undecided(f'no class {k}')
            i.hooks[f'{MODNAME}.{k}'] = self.maker(k)
        i.isinstance_hook = self.isinstance
        i.binop_hook = self.binop
        i.cmp_hook = self.compare

    def maker(self, kind):
        def make(i, a, k):
            f = Fake(f'{kind} {len(self.made)}')
            names = {'Add': 'lr', 'Mul': 'lr', 'Div': ('num', 'den'), 'Exp': ('base', 'exp')}[kind]
            a = list(a) + [k[n] for n in list(names)[len(a):]]
            self.made[f] = (kind, tuple(a))
            return f
        return make

    def isinstance(self, i, v, c):
        if isinstance(v, Fake) and hasattr(v, 'part'):
            if c is int:
                return False
            if isinstance(c, Cls):
                if c.name == 'Num':
                    return True
                return c.name in KINDS and v.part.kind_of(i) == c.name
        if isinstance(v, T.Term) and isinstance(c, Cls):
            return False
        return NotImplemented

    def binop(self, i, op, l, r):
        for x, y in ((l, r), (r, l)):
            if isinstance(x, Fake) and hasattr(x, 'part') and isinstance(y, int) and op == '*':
                if y == 1:
                    return x
                p = x.part
                m = p.mult * y
                key = (p.root, m)
                if key not in self.times:
                    self.times[key] = Part(self, f'{m}{p.root.name}', m, p.root)
                return self.times[key].fake
        return NotImplemented

    def compare(self, i, op, l, r):
        lp, rp = hasattr(l, 'part'), hasattr(r, 'part')
        if op == '==' and (lp or rp) and isinstance(l, (int, T.Term, Fake)) and isinstance(r, (int, T.Term, Fake)):
            return l is r
        return NotImplemented


def same(a, b):
    """Condition for two operands to be the same."""
    if isinstance(a, Fake) or isinstance(b, Fake):
        return a is b
    return T.eq(a, b)


def factories(rep):
    rule = 'num:one object per expression'
    for kind in KINDS:
        name = 'make_' + kind.lower()
        bases = [(None, None)] if kind != 'Exp' else [(x, y) for x in (2, 3, 4, 6, 8, 9, 16, 64) for y in (2, 3, 4, 6, 8, 9, 16, 64)]
        for b1, b2 in bases:
            def body(i):
                w = World(i)
                if name not in w.v:
                    raise Undecided(f'no {name}')
                pool = [Part(w, 'p').fake, Part(w, 'q').fake]
                calls = []
                for j in (0, 1):
                    # the second call may also be about parts the first one looked into
                    pool += [x.fake for x in w.parts if x.fake not in pool and x.root is x]

                    def count(what):
                        c = i.choose_n(len(pool) + 1, f'{what}{j} of {pool} or an integer')
                        if c < len(pool):
                            return pool[c]
                        n = T.var(f'{what}{j}')
                        i.assume(T.le(2, n))
                        return n
                    if kind in ('Add', 'Mul'):
                        a = [count('l'), pool[i.choose_n(len(pool), f'r{j}')]]
                    elif kind == 'Div':
                        d = T.var(f'den{j}')
                        i.assume(T.le(2, d))
                        a = [pool[i.choose_n(len(pool), f'num{j}')], d]
                    else:
                        a = [(b1, b2)[j], count('exp')]
                    calls.append((a, i.call(w.v[name], a)))
                out = []
                for a, r in calls:
                    if r not in w.made:
                        raise Undecided(f'answer {r!r}')
                    k, b = w.made[r]
                    if kind == 'Exp' and k == 'Exp':
                        out.append((power_same(a, b), f'{name}{a} answers the power {b}'))
                    else:
                        out.append((T.eq(value(k, b), value(kind, a)), f'{name}{a} answers what was made of {b}'))
                (a1, r1), (a2, r2) = calls
                if r1 is not r2:
                    eq = T.land(same(a1[0], a2[0]), same(a1[1], a2[1]))
                    out.append((T.lnot(eq) if isinstance(eq, T.Term) else not eq, f'{name}{a1} makes a second object for the same operands'))
                made = list(w.made.values())
                for x, (k1, o1) in enumerate(made):
                    for k2, o2 in made[:x]:
                        if k1 == k2:
                            eq = T.land(same(o1[0], o2[0]), same(o1[1], o2[1]))
                            out.append((T.lnot(eq) if isinstance(eq, T.Term) else not eq, f'two objects are made of {o1} and {o2}'))
                return out

            for p in explore(repo(), body, hooks={}, max_iter=40):
                rep.paths += 1
                rep.units.update(p.i.visited)
                if p.undecided:
                    rep.unknown(rule, p.undecided)
                    continue
                if p.exc:
                    continue
                for ok, text in p.result:
                    rep.oblige(rule, f'{MODNAME}.{name}', p.facts, ok, lambda: f'{text}, on {p.describe()}'[:600],
                               lambda a: [2, 3, 4, 5] if a.kind != 'bool' else None)


def power_same(a, b):
    (b1, e1), (b2, e2) = a, b
    if not isinstance(b2, int):
        return False
    m = 1
    while b2 ** m < b1:
        m += 1
    if b2 ** m != b1:
        return False
    if isinstance(e1, Fake):
        return isinstance(e2, Fake) and e2.part.root is e1.part.root and e2.part.mult == m * e1.part.mult
    if isinstance(e2, Fake):
        return False
    return T.eq(T.mul(m, e1), e2)


def equality(rep):
    """Equal counts hash alike; distinct objects of a class that shares are not equal."""
    rule = 'num:equal counts hash alike'
    for kind in (*KINDS, 'Tet'):
        def body(i):
            v = i.load(MODNAME).env.vars
            c = v[kind]
            xs = []
            for j in (0, 1):
                s = Obj(c, {})
                fields = {'Div': ('num', 'den'), 'Exp': ('base', 'exp'), 'Tet': ('base', 'height')}.get(kind, ('l', 'r'))
                for f in (*fields, 'depth', 'leaves', 'tower_est'):
                    s.f[f] = T.var(f'{f}{j}')
                    i.assume(T.le(1, s.f[f]))
                xs.append(s)
            e = i.truth(i.equal(*xs))
            if not e:
                return None
            h, _ = c.find('__hash__')
            return i.call_func(h, [xs[0]], {}), i.call_func(h, [xs[1]], {})
        for p in explore(repo(), body, hooks={}, max_iter=40):
            rep.paths += 1
            rep.units.update(p.i.visited)
            if p.undecided:
                rep.unknown(rule, p.undecided)
                continue
            if p.exc:
                rep.bad(rule, f'{MODNAME}.{kind}', f'comparing or hashing raises {p.exc.name}')
                continue
            if p.result is None:
                rep.ok(rule)
                continue
            a, b = p.result
            same_ = hash_same(p.facts, a, b)
            if same_:
                rep.ok(rule)
            else:
                rep.bad(rule, f'{MODNAME}.{kind}.__hash__', f'two equal {kind} hash to {a!r} and {b!r}')


def hash_same(facts, a, b):
    if isinstance(a, (int, T.Term)) and isinstance(b, (int, T.Term)):
        return facts.proved_equal(a, b)
    ao, bo = getattr(a, 'o', a), getattr(b, 'o', b)
    if type(a) is type(b) and isinstance(ao, tuple) and isinstance(bo, tuple) and len(ao) == len(bo):
        return all(hash_same(facts, x, y) for x, y in zip(ao, bo))
    return ao is bo or (type(ao) is type(bo) and isinstance(ao, (int, str, bool)) and ao == bo)


def direct(rep):
    """No operator builds an expression without looking it up."""
    rule = 'num:built only by its factory'
    for kind in KINDS:
        for name, (okind, _) in c_num.ARITH.items():
            if name == '__pow__' and kind != 'Exp' or name in ('__divmod__', '__int__'):
                continue

            def setup(i, x, s, o):
                def direct_(k):
                    def h(i2, a, kw):
                        x.n += 1
                        r = SNum(f'direct{x.n}', T.var(f'direct{x.n}'), x.cls[k])
                        x.direct.append(k)
                        return r
                    return h
                x.direct = []
                for k in KINDS:
                    i.hooks[f'{MODNAME}.{k}'] = direct_(k)
                if name == '__floordiv__':
                    i.assume(T.le(1, c_num.den(o)))
            for p in c_num.method_paths(rep, kind, name, okind, setup, max_paths=1500):
                if p.undecided or p.exc:
                    continue
                d = getattr(p.i.num_domain, 'direct', [])
                if d:
                    rep.bad(rule, f'{MODNAME}.{kind}.{name}', f'makes a {d[0]} of its own, which equals no other, on {p.describe()}'[:400])
                else:
                    rep.ok(rule)


def sites(rep):
    """Constructors are called by the factories only."""
    rule = 'num:built only by its factory'
    r = repo()
    for sub in ('tm', 'tools'):
        for fn in sorted(os.listdir(os.path.join(r.root, sub))):
            if not fn.endswith('.py'):
                continue
            with open(os.path.join(r.root, sub, fn), encoding='utf-8') as fh:
                t = ast.parse(fh.read())
            names = {}              # local name -> class
            if (sub, fn) == ('tm', 'num.py'):
                names = {k: k for k in KINDS}
            for n in ast.walk(t):
                if isinstance(n, ast.ImportFrom) and n.module == MODNAME:
                    names.update({a.asname or a.name: a.name for a in n.names if a.name in KINDS})
            if not names:
                continue
            funcs, stored, called = [], set(), {}

            def visit(n, owner):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    owner = n.name if owner is None else owner
                elif isinstance(n, ast.ClassDef):
                    for c in ast.iter_child_nodes(n):
                        if isinstance(c, ast.FunctionDef):
                            visit_method(c, f'{n.name}.{c.name}')
                    return
                note(n, owner)
                for c in ast.iter_child_nodes(n):
                    visit(c, owner)

            def visit_method(n, owner):
                for c in ast.walk(n):
                    note(c, owner)

            def note(n, owner):
                if isinstance(n, ast.Call):
                    f = n.func
                    if isinstance(f, ast.Name) and f.id in names:
                        funcs.append((n, owner))
                    called.setdefault(f.id if isinstance(f, ast.Name) else getattr(f, 'attr', None), set()).add(owner)
                    if isinstance(f, ast.Attribute) and f.attr == 'setdefault':
                        stored.add(owner)
                elif isinstance(n, ast.Assign) and any(isinstance(x, ast.Subscript) for x in n.targets):
                    stored.add(owner)
            visit(t, None)
            for n, owner in funcs:
                # a function that files what it makes, or a helper of such functions alone
                ok, todo, seen = True, [owner], set()
                while todo:
                    o = todo.pop()
                    if o in stored or o in seen:
                        continue
                    seen.add(o)
                    up = called.get(o.split('.')[-1], set()) if o else set()
                    if not up:
                        ok = False
                    todo += up
                if ok:
                    rep.ok(rule)
                else:
                    rep.bad(rule, f'{sub}/{fn}:{owner}', f'makes {ast.unparse(n)[:60]} without filing it', f'{sub}/{fn}:{n.lineno}')


FIELDS = {'l', 'r', 'num', 'den', 'base', 'exp', 'depth', 'leaves', 'tower_est'}


def frozen(rep):
    """No field of an expression is assigned after construction, anywhere in the package."""
    rule = 'num:fields fixed at construction'
    r = repo()
    tree = r.tree(MODNAME).tree
    classes = {}
    for n in tree.body:
        if isinstance(n, ast.ClassDef):
            bases = {b.id for b in n.bases if isinstance(b, ast.Name)}
            if n.name == 'Num' or bases & ({'Num'} | set(classes)):
                classes[n.name] = n
    rep.require(len(classes) >= 5, 'expression classes not found')
    ctor = reach_from_init(classes)
    for cname, c in classes.items():
        for f in c.body:
            if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            rep.unit(f'{MODNAME}.{cname}.{f.name}')
            for n in ast.walk(f):
                for t in targets(n):
                    if isinstance(t, ast.Attribute) and f.name not in ctor and t.attr in FIELDS | {'height'}:
                        rep.bad(rule, f'{MODNAME}.{cname}.{f.name}', f'assigns {ast.unparse(t)} outside construction', f'tm/num.py:{t.lineno}')
                    elif isinstance(t, ast.Attribute):
                        rep.ok(rule)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr'):
                    rep.bad(rule, f'{MODNAME}.{cname}.{f.name}', f'{ast.unparse(n)[:60]}', f'tm/num.py:{n.lineno}')
    for fn in sorted(os.listdir(os.path.join(r.root, 'tm'))):
        if not fn.endswith('.py'):
            continue
        with open(os.path.join(r.root, 'tm', fn), encoding='utf-8') as fh:
            t = ast.parse(fh.read())
        for n in ast.walk(t):
            for x in targets(n):
                if isinstance(x, ast.Attribute) and x.attr in ('num', 'den', 'exp', 'tower_est', 'leaves') \
                        and not (isinstance(x.value, ast.Name) and x.value.id == 'self'):
                    rep.bad(rule, f'tm/{fn}', f'assigns {ast.unparse(x)}', f'tm/{fn}:{x.lineno}')
        rep.ok(rule)


def reach_from_init(classes):
    """__init__/__new__ and the private helpers only they call."""
    names = {'__init__', '__new__', '__post_init__'}
    calls = {}
    for c in classes.values():
        for f in c.body:
            if isinstance(f, ast.FunctionDef):
                for n in ast.walk(f):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                        calls.setdefault(n.attr, set()).add(f.name)
    changed = True
    while changed:
        changed = False
        for m, callers in calls.items():
            if m not in names and callers and callers <= names and any(
                    isinstance(f, ast.FunctionDef) and f.name == m for c in classes.values() for f in c.body):
                names.add(m)
                changed = True
    return names


def targets(n):
    if isinstance(n, ast.Assign):
        ts = n.targets
    elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
        ts = [n.target] if getattr(n, 'value', None) is not None else []
    elif isinstance(n, ast.Delete):
        ts = n.targets
    elif isinstance(n, (ast.For, ast.comprehension)):
        ts = [n.target]
    else:
        return
    for t in ts:
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in ast.walk(t):
                if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Store):
                    yield e
        else:
            yield t


def check(rep):
    factories(rep)
    equality(rep)
    frozen(rep)
    direct(rep)
    sites(rep)
