"""Path-sensitive abstract interpreter for the repository's Rust.

Shares the value domain of sa.pyai (constants, Terms, lists with an unexpanded
tail, dictionaries, path splitting); adds what Rust has on top: places and
references, enums, generics resolved per value, expected types for `collect`,
`into` and trait constructors, and the iterator and collection methods the
sources use.
"""

from __future__ import annotations

import itertools
import os
import re

from . import terms as T
from .terms import Term
from . import pyai
from .pyai import (Cls, Cut, Fake, Infeasible, Interp, Obj, PDict, PList, PSet, PyExc, Return, SRange, Str, Undecided, hashable,
                   mkstr, str_parts)
from . import rustfe
from .rustfe import N


class Panic(Exception):
    pass


class RBreak(Exception):
    def __init__(self, label, v):
        self.label, self.v = label, v


class RContinue(Exception):
    def __init__(self, label):
        self.label = label


class RStruct(Cls):
    def __init__(self, node, mod):
        super().__init__(node.name, [], None)
        self.node, self.mod = node, mod
        self.fields = [n for n, _ in node.fields]
        self.ftypes = dict(node.fields)
        self.generics = [n for n, _ in node.generics]
        self.derives = derives(node)
        self.copy = 'Copy' in self.derives
        self.tuple = node.tuple

    def find(self, name, after=None):
        return None, None


class REnum(Cls):
    def __init__(self, node, mod):
        super().__init__(node.name, [], None)
        self.node, self.mod = node, mod
        self.generics = [n for n, _ in node.generics]
        self.variants = {v: (f, tup) for v, f, tup in node.variants}
        self.derives = derives(node)
        self.copy = 'Copy' in self.derives

    def find(self, name, after=None):
        return None, None


class RTrait:
    def __init__(self, node, mod):
        self.node, self.mod, self.name = node, mod, node.name
        self.methods = {}


class RFn:
    def __init__(self, node, mod, impl=None, owner=None):
        self.node, self.mod, self.impl, self.owner = node, mod, impl, owner
        self.name = node.name

    @property
    def qual(self):
        return f'src/{self.mod}.rs::{self.owner + "::" if self.owner else ""}{self.name}'

    def __repr__(self):
        return f'<fn {self.qual}>'


class RImpl:
    def __init__(self, node, mod):
        self.node, self.mod = node, mod
        self.methods = {}


class BoundFn:
    """A function with its Self type and generics fixed (Type::method used as a value)."""

    def __init__(self, fn, selfty, generics):
        self.fn, self.selfty, self.generics = fn, selfty, generics


class Closure:
    def __init__(self, node, scope, frame):
        self.node, self.scope, self.frame = node, scope, frame


class Ctor:
    def __init__(self, f):
        self.f = f


class Variant:
    def __init__(self, enum, name, args=(), targs=None):
        self.enum, self.name, self.args = enum, name, list(args)
        self.names = None           # field names of a struct-like variant

    def __repr__(self):
        return f'{self.name}({", ".join(map(repr, self.args))})' if self.args else self.name


OPTION, RESULT, ORDERING = 'Option', 'Result', 'Ordering'


def some(v):
    return Variant(OPTION, 'Some', [v])


def none():
    return Variant(OPTION, 'None')


class Ref:
    """A mutable reference: where to read and to write."""

    def __init__(self, get, set_):
        self.get, self.set = get, set_

    def __repr__(self):
        return f'&mut {self.get()!r}'


class RcBox:
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f'Rc({self.v!r})'


class CellBox:
    """Cell, RefCell, Mutex"""

    def __init__(self, v, kind='Cell'):
        self.v, self.kind = v, kind

    def __repr__(self):
        return f'{self.kind}({self.v!r})'


class RChar:
    """A character given by its code."""

    def __init__(self, code):
        self.code = code

    def __repr__(self):
        return f'chr({self.code!r})'


class RMap(PDict):
    def __init__(self, pairs=(), kind='B', kty=None, vty=None):
        super().__init__(pairs)
        self.kind, self.kty, self.vty = kind, kty, vty


class RSet(PSet):
    def __init__(self, items=(), kind='B', ty=None):
        super().__init__(items)
        self.kind, self.ty = kind, ty


class RVec(PList):
    """Vec, slice or array; knows its element type and whether it is an array."""

    def __init__(self, items=None, tail=None, ty=None, arr=False):
        super().__init__(items, tail)
        self.ty, self.arr = ty, arr


class StrBuf:
    """Formatter, or a growing String"""

    def __init__(self, parts=()):
        self.parts = list(parts)

    def value(self):
        return mkstr(self.parts)


class RIter:
    def __init__(self, gen, src=None):
        self.gen, self.buf = iter(gen), []

    def __iter__(self):
        return self

    def __next__(self):
        if self.buf:
            return self.buf.pop(0)
        return next(self.gen)

    def rest(self):
        out = self.buf + list(self.gen)
        self.buf = []
        return out


class Box_:
    """A variable."""
    __slots__ = ('v', 'ty')

    def __init__(self, v, ty=None):
        self.v, self.ty = v, ty


UNINIT = object()


class Scope:
    def __init__(self, parent=None):
        self.parent, self.vars = parent, {}

    def find(self, name):
        s = self
        while s is not None:
            if name in s.vars:
                return s.vars[name]
            s = s.parent
        return None


class Frame:
    def __init__(self, mod, generics, selfty, ret=None, fn=None):
        self.mod, self.generics, self.selfty, self.ret, self.fn = mod, generics, selfty, ret, fn
        self.items = {}


def derives(node):
    out = set()
    for a in getattr(node, 'attrs', ()):
        m = re.match(r'derive\((.*)\)', a)
        if m:
            out |= {x.strip().split('::')[-1] for x in m.group(1).split(',')}
    return out


INT = {'u8': (8, 0), 'u16': (16, 0), 'u32': (32, 0), 'u64': (64, 0), 'u128': (128, 0), 'usize': (64, 0),
       'i8': (8, 1), 'i16': (16, 1), 'i32': (32, 1), 'i64': (64, 1), 'i128': (128, 1), 'isize': (64, 1)}
MAPS = {'BTreeMap': 'B', 'HashMap': 'H', 'IndexMap': 'I', 'AHashMap': 'H', 'FxHashMap': 'H'}
SETS = {'BTreeSet': 'B', 'HashSet': 'H', 'IndexSet': 'I', 'AHashSet': 'H', 'FxHashSet': 'H'}


class Crate:
    """The items of src/, and what names mean in each module."""

    def __init__(self, root='/repo'):
        self.root = root
        self.mods = {}
        self.impls = []
        self.traits = {}
        for m, items in rustfe.parse_crate(root).items():
            self.mods.setdefault(m, {})
            self.load(m, items)
        for tr in self.traits.values():
            pass

    def load(self, m, items):
        ns = self.mods.setdefault(m, {})
        ns.setdefault('#glob', [])
        for it in items:
            k = it.kind
            if k == 'items':
                self.load(m, it.items)
            elif k == 'fn':
                ns[it.name] = RFn(it, m)
            elif k == 'struct':
                ns[it.name] = RStruct(it, m)
            elif k == 'enum':
                ns[it.name] = REnum(it, m)
            elif k == 'trait':
                t = RTrait(it, m)
                for f in it.items:
                    if f.kind == 'fn':
                        t.methods[f.name] = RFn(f, m, owner=it.name)
                ns[it.name] = t
                self.traits[it.name] = t
            elif k == 'impl':
                i = RImpl(it, m)
                for f in it.items:
                    if f.kind in ('fn', 'const', 'type'):
                        i.methods[f.name] = RFn(f, m, i, tyname(it.ty)) if f.kind == 'fn' else f
                self.impls.append(i)
            elif k == 'type':
                ns[it.name] = ('alias', it, m)
            elif k == 'const':
                ns[it.name] = ('const', it, m)
            elif k == 'use':
                for path, alias in it.uses:
                    if alias == '*':
                        ns['#glob'].append(path)
                    elif alias != '_':
                        ns.setdefault(alias, ('use', path))
            elif k == 'mod':
                if it.items is not None:
                    sub = m + '::' + it.name
                    self.load(sub, it.items)
                    ns[it.name] = ('mod', sub)
                elif it.name in self.mods or True:
                    ns.setdefault(it.name, ('mod', it.name))

    def lookup(self, mod, name, seen=()):
        """The item a name means in a module: an object, ('std', path) or None."""
        ns = self.mods.get(mod)
        if ns is None:
            return None
        v = ns.get(name)
        if isinstance(v, tuple) and v[0] == 'use':
            return self.path_item(mod, v[1], seen)
        if v is not None:
            return v
        for g in ns.get('#glob', ()):
            if (mod, tuple(g)) in seen:
                continue
            base = self.path_item(mod, g, seen + ((mod, tuple(g)),))
            if isinstance(base, REnum) and name in base.variants:
                return ('variant', base, name)
            if isinstance(base, tuple) and base[0] == 'mod':
                r = self.lookup(base[1], name, seen + ((mod, tuple(g)),))
                if r is not None and not (isinstance(r, tuple) and r[0] == 'std'):
                    return r
        return None

    def path_item(self, mod, path, seen=()):
        path = list(path)
        if path[0] in ('std', 'core', 'alloc', 'pyo3', 'rayon', 'itertools', 'ahash'):
            return ('std', path)
        cur = None
        if path[0] == 'crate':
            path = path[1:]
            if not path:
                return ('mod', 'lib')
            cur = ('mod', path[0]) if path[0] in self.mods else None
            if cur is None:
                cur = self.lookup('lib', path[0], seen + ((mod, 'c'),))
            path = path[1:]
        elif path[0] == 'self':
            cur, path = ('mod', mod), path[1:]
        elif path[0] == 'super':
            cur, path = ('mod', mod.rsplit('::', 1)[0] if '::' in mod else 'lib'), path[1:]
        elif path[0] in self.mods and '::' not in path[0] and path[0] not in self.mods.get(mod, {}):
            cur, path = ('mod', path[0]), path[1:]
        else:
            if (mod, path[0], 'p') in seen:
                return None
            cur = self.lookup(mod, path[0], seen + ((mod, path[0], 'p'),))
            path = path[1:]
        for p in path:
            if isinstance(cur, tuple) and cur[0] == 'mod':
                cur = self.lookup(cur[1], p, seen)
            elif isinstance(cur, REnum) and p in cur.variants:
                cur = ('variant', cur, p)
            elif isinstance(cur, tuple) and cur[0] == 'std':
                cur = ('std', cur[1] + [p])
            else:
                return None
        return cur


def tyname(t):
    if t.kind == 'tref':
        return tyname(t.ty)
    if t.kind == 'tpath':
        return t.segs[-1][0]
    return t.kind


LAZY = {}


def crate(root):
    if root not in LAZY:
        LAZY[root] = Crate(root)
    return LAZY[root]


class RInterp(Interp):
    def __init__(self, repo, prefix=(), **kw):
        kw.setdefault('max_steps', 400000)
        super().__init__(repo, prefix, **kw)
        self.crate = repo
        self.consts = {}
        self.calls = []
        self.loop_hook = None
        self.narrow = []            # casts to narrower types taken as exact
        self.strong = {}

    # ------------------------------------------------------------ types

    def rty(self, t, frame):
        """Type syntax -> type value."""
        if t is None or t.kind == 'tinfer':
            return None
        if not isinstance(t, N):
            return t
        k = t.kind
        if k == 'tref':
            return self.rty(t.ty, frame)
        if k == 'ttuple':
            return ('tuple', [self.rty(x, frame) for x in t.tys])
        if k == 'tslice':
            return ('vec', self.rty(t.ty, frame))
        if k in ('timpl', 'tfn', 'tnever'):
            return (k, t)
        if k == 'tpath':
            return self.rty_path(t.segs, frame)
        return None

    def rty_path(self, segs, frame):
        segs = list(segs)
        name, args = segs[0]
        if name == '<>':
            base = self.rty(args[0], frame)
            return base if len(segs) == 1 else None
        if name == 'Self':
            if len(segs) == 1:
                return frame.selfty if frame else None
            return self.assoc_type(frame, segs[1][0])
        if len(segs) == 1:
            if frame and name in frame.generics:
                return frame.generics[name]
            if name in INT:
                return ('int', name)
            if name in ('bool', 'char', 'f64', 'f32'):
                return (name,)
            if name == 'str':
                return ('string',)
        it = self.type_item([s[0] for s in segs], frame)
        args = segs[-1][1]
        ra = [self.rty(a, frame) for a in args if a.kind not in ('tassoc', 'tconst')]
        if isinstance(it, (RStruct, REnum)):
            if not ra and it.generics and frame and frame.selfty and frame.selfty[0] == 'adt' and frame.selfty[1] is it:
                ra = frame.selfty[2]
            return ('adt', it, ra)
        if isinstance(it, tuple) and it[0] == 'alias':
            sub = Frame(it[2], {g: (ra[k] if k < len(ra) else None) for k, (g, _) in enumerate(it[1].generics)}, None)
            return self.rty(it[1].ty, sub)
        if isinstance(it, RTrait):
            return ('trait', it)
        last = segs[-1][0]
        if isinstance(it, tuple) and it[0] == 'std':
            last = it[1][-1]
        g = lambda k: ra[k] if k < len(ra) else None
        if last == 'Vec' or last == 'VecDeque' or last == 'BinaryHeap':
            return ('vec', g(0))
        if last == 'Option':
            return ('opt', g(0))
        if last == 'Result':
            return ('res', g(0), g(1))
        if last in MAPS:
            return ('map', MAPS[last], g(0), g(1))
        if last in SETS:
            return ('set', SETS[last], g(0))
        if last == 'String' or last == 'str':
            return ('string',)
        if last in ('Box',):
            return g(0)
        if last in ('Rc', 'Arc'):
            return ('rc', g(0))
        if last in ('Cell', 'RefCell', 'Mutex', 'OnceCell', 'RwLock'):
            return ('cell', last, g(0))
        if last in INT:
            return ('int', last)
        return ('other', last)

    def assoc_type(self, frame, name):
        fn = frame.fn
        if fn is not None and getattr(fn, 'impl', None) is not None:
            m = fn.impl.methods.get(name)
            if isinstance(m, N) and m.kind == 'type':
                return self.rty(m.ty, frame)
        return None

    def type_item(self, path, frame):
        if frame is None:
            return None
        if path[0] in frame.items:
            it = frame.items[path[0]]
        else:
            it = self.crate.lookup(frame.mod, path[0])
            if it is None:
                if path[0] == 'crate' or path[0] in ('self', 'super') or path[0] in self.crate.mods:
                    return self.crate.path_item(frame.mod, path)
                if path[0] in ('std', 'core', 'alloc'):
                    return ('std', path)
        for p in path[1:]:
            if isinstance(it, tuple) and it[0] == 'mod':
                it = self.crate.lookup(it[1], p)
            elif isinstance(it, REnum):
                it = ('variant', it, p)
            elif isinstance(it, tuple) and it[0] == 'std':
                it = ('std', it[1] + [p])
            else:
                return None
        return it

    def ftype(self, o, name):
        """Type of a field of an object, its generics filled in."""
        c = o.cls
        t = c.ftypes.get(name) if isinstance(c, RStruct) else None
        if t is None:
            return None
        return self.rty(t, Frame(c.mod, getattr(o, 'targs', None) or {}, ('adt', c, [])))

    # ------------------------------------------------------------ values

    def strip(self, v):
        """Through references and owners to the value."""
        while True:
            if isinstance(v, Ref):
                v = v.get()
            elif isinstance(v, RcBox):
                v = v.v
            else:
                return v

    def unref(self, v):
        while isinstance(v, Ref):
            v = v.get()
        return v

    def copied(self, v):
        if isinstance(v, Obj) and isinstance(v.cls, RStruct) and v.cls.copy:
            return self.shallow(v)
        if isinstance(v, tuple):
            return tuple(self.copied(x) for x in v)
        if isinstance(v, RVec) and v.arr:
            return RVec([self.copied(x) for x in v.items], None, v.ty, True)
        if isinstance(v, Variant) and v.args:
            w = Variant(v.enum, v.name, [self.copied(x) for x in v.args])
            w.names = v.names
            return w
        return v

    def shallow(self, v):
        o = Obj(v.cls, {k: self.copied(x) for k, x in v.f.items()})
        for a in ('targs', 'tag'):
            if hasattr(v, a):
                setattr(o, a, getattr(v, a))
        return o

    def clone(self, v):
        if isinstance(v, Ref):
            return self.clone(v.get())
        if isinstance(v, Fake):
            f = getattr(v, 'methods', {}).get('clone') or (v.attr(self, 'clone') if v.attr is not None else None)
            return v if f is None else f(self, [])
        if isinstance(v, Obj):
            if isinstance(v.cls, RStruct) and 'Clone' not in v.cls.derives:
                m = self.find_method(v, 'clone')
                if m is not None:
                    return self.call_fn(m[0], [v], selfty=m[1])
            o = Obj(v.cls, {k: self.clone(x) for k, x in v.f.items()})
            for a in ('targs', 'tag'):
                if hasattr(v, a):
                    setattr(o, a, getattr(v, a))
            return o
        if isinstance(v, RVec):
            return RVec([self.clone(x) for x in v.items], v.tail, v.ty, v.arr)
        if isinstance(v, PList):
            return RVec([self.clone(x) for x in v.items], v.tail)
        if isinstance(v, RMap):
            return RMap([(self.clone(a), self.clone(b)) for a, b in v.pairs], v.kind, v.kty, v.vty)
        if isinstance(v, RSet):
            return RSet([self.clone(a) for a in v.items], v.kind, v.ty)
        if isinstance(v, tuple):
            return tuple(self.clone(x) for x in v)
        if isinstance(v, Variant):
            w = Variant(v.enum, v.name, [self.clone(x) for x in v.args])
            w.names = v.names
            return w
        if isinstance(v, CellBox):
            return CellBox(self.clone(v.v), v.kind)
        if isinstance(v, RIter):
            rest = v.rest()
            v.buf = list(rest)
            return RIter(iter(list(rest)))
        if isinstance(v, StrBuf):
            return StrBuf(v.parts)
        return v

    def equal(self, l, r):
        l, r = self.strip(l), self.strip(r)
        if isinstance(l, RChar) or isinstance(r, RChar):
            return T.eq(self.code(l), self.code(r))
        if isinstance(l, StrBuf):
            l = l.value()
        if isinstance(r, StrBuf):
            r = r.value()
        if isinstance(l, Variant) or isinstance(r, Variant):
            if not (isinstance(l, Variant) and isinstance(r, Variant)):
                if isinstance(l, Fake) or isinstance(r, Fake):
                    return super().equal(l, r)
                raise Undecided('equality of an enum and something else')
            if l.name != r.name:
                return False
            return T.land(*[self.equal(a, b) for a, b in zip(l.args, r.args)])
        if isinstance(l, Obj) and isinstance(r, Obj) and isinstance(l.cls, RStruct) and l is not r:
            m = self.find_method(l, 'eq')
            if m is not None:
                return self.call_fn(m[0], [l, r], selfty=m[1])
            if l.cls is not r.cls:
                return False
            return T.land(*[self.equal(l.f[n], r.f[n]) for n in l.cls.fields])
        if isinstance(l, RIter) and isinstance(r, RIter):
            l, r = RVec(l.rest()), RVec(r.rest())
        if isinstance(l, (Str, str)) and isinstance(r, (Str, str)) and not (isinstance(l, str) and isinstance(r, str)):
            return self.str_equal(l, r)
        if isinstance(l, PList) and isinstance(r, PList) and l is not r:
            # short-circuit, cell by cell
            k = 0
            if l.tail is not None and l.tail is r.tail and len(l.items) == len(r.items):
                return T.land(*[self.equal(a, b) for a, b in zip(l.items, r.items)])
            while True:
                a, b = self.has(l, k), self.has(r, k)
                if not a or not b:
                    if a != b:
                        return False
                    break
                k += 1
                if l.tail is not None and l.tail is r.tail and len(l.items) == len(r.items):
                    break
            return T.land(*[self.equal(a, b) for a, b in zip(l.items, r.items)])
        return super().equal(l, r)

    def str_equal(self, l, r):
        if l == r:
            return True
        raise Undecided('equality of symbolic strings')

    def has(self, l, k):
        while len(l.items) <= k:
            if not self.expand(l):
                return False
        return True

    def length(self, v):
        """Number of elements, forcing the tail."""
        if isinstance(v, PList):
            while v.tail is not None and self.expand(v):
                pass
            return len(v.items)
        if isinstance(v, PDict):
            return len(v.pairs)
        if isinstance(v, PSet):
            return len(v.items)
        if isinstance(v, str):
            return len(v)
        if isinstance(v, (range,)):
            return len(v)
        raise Undecided(f'length of {v!r}')

    def code(self, c):
        if isinstance(c, RChar):
            return c.code
        if isinstance(c, str) and len(c) == 1:
            return ord(c)
        raise Undecided('code of a string')

    def iterate(self, v):
        v = self.strip(v)
        if isinstance(v, RMap):
            return iter([(k, x) for k, x in self.sorted_pairs(v)])
        if isinstance(v, RSet):
            return iter(self.sorted_items(v))
        if isinstance(v, Variant):
            return iter(list(v.args) if v.name in ('Some', 'Ok') else [])
        if isinstance(v, Obj) and isinstance(v.cls, RStruct):
            m = self.find_method(v, 'next')
            if m is not None:
                return self.iter_user(v, m)
        if isinstance(v, Fake) and v.attr is not None:
            f = v.attr(self, 'into_iter')
            if f is not None:
                return self.iterate(f(self, []))
        if isinstance(v, (str, Str, Term, Obj)) or v is None:
            raise Undecided(f'iteration over {type(v).__name__}')
        return super().iterate(v)

    def iter_user(self, v, m):
        n = 0
        while True:
            r = self.call_fn(m[0], [v], selfty=m[1])
            if r.name == 'None':
                return
            n += 1
            if n > self.max_iter:
                raise Cut('iterator bound')
            yield r.args[0]

    def key_less(self, a, b):
        return self.truth(self.compare('<', a, b))

    def sorted_by(self, items, key):
        out = []
        concrete = all(hashable(key(x)) is not None for x in items)
        if concrete:
            try:
                return sorted(items, key=lambda x: key(x))
            except TypeError:
                pass
        for x in items:
            k = len(out)
            while k > 0 and self.key_less(key(x), key(out[k - 1])):
                k -= 1
            out.insert(k, x)
        return out

    def sorted_pairs(self, d):
        if d.kind == 'B':
            d.pairs[:] = self.sorted_by(d.pairs, lambda p: p[0])
        return list(d.pairs)

    def sorted_items(self, s):
        if s.kind == 'B':
            s.items[:] = self.sorted_by(s.items, lambda x: x)
        return list(s.items)

    def compare(self, op, l, r):
        l, r = self.strip(l), self.strip(r)
        if op in ('<', '<=', '>', '>='):
            if isinstance(l, RChar) or isinstance(r, RChar):
                return super().compare(op, self.code(l), self.code(r))
            if isinstance(l, Variant) and isinstance(r, Variant):
                o = self.ordering(l, r)
                return {'<': o < 0, '<=': o <= 0, '>': o > 0, '>=': o >= 0}[op]
            if isinstance(l, (PList, Obj)) and isinstance(r, (PList, Obj)):
                o = self.ordering(l, r)
                return {'<': o < 0, '<=': o <= 0, '>': o > 0, '>=': o >= 0}[op]
            if isinstance(l, Term) and l.kind == 'bool':
                l = int(self.truth(l))
            if isinstance(r, Term) and r.kind == 'bool':
                r = int(self.truth(r))
        return super().compare(op, l, r)

    def ordering(self, l, r):
        l, r = self.strip(l), self.strip(r)
        if isinstance(l, (int, Term, str)) and not isinstance(l, bool) or isinstance(l, RChar):
            if self.truth(self.compare('<', l, r)):
                return -1
            return 0 if self.truth(self.equal(l, r)) else 1
        if isinstance(l, bool) or isinstance(l, Term):
            return int(self.truth(l)) - int(self.truth(r))
        if isinstance(l, Variant):
            names = list(l.enum.variants) if isinstance(l.enum, REnum) else ['None', 'Some', 'Ok', 'Err', 'Less', 'Equal', 'Greater']
            a, b = names.index(l.name), names.index(r.name)
            if a != b:
                return -1 if a < b else 1
            xs, ys = l.args, r.args
        elif isinstance(l, Obj):
            xs, ys = [l.f[n] for n in l.cls.fields], [r.f[n] for n in l.cls.fields]
        elif isinstance(l, tuple):
            xs, ys = l, r
        else:
            xs, ys = list(self.iterate(l)), list(self.iterate(r))
        for x, y in zip(xs, ys):
            o = self.ordering(x, y)
            if o:
                return o
        return (len(xs) > len(ys)) - (len(xs) < len(ys))

    def truth(self, v):
        v = self.strip(v)
        if isinstance(v, (bool, Term)):
            return super().truth(v)
        if isinstance(v, Variant):
            raise Undecided('truth of an enum')
        return super().truth(v)

    def panic(self, why=''):
        raise PyExc(Panic, (why,))

    # ------------------------------------------------------------ functions

    def fn(self, qual):
        """'module::name' or 'module::Type::name'"""
        parts = qual.split('::')
        if len(parts) == 2:
            it = self.crate.lookup(parts[0], parts[1])
            if not isinstance(it, RFn):
                raise Undecided(f'{qual} is gone')
            return it
        it = self.crate.lookup('::'.join(parts[:-1]), parts[-1])
        if isinstance(it, RFn):
            return it
        it = self.crate.lookup(parts[0], parts[1])
        for im in self.crate.impls:
            if im.mod == parts[0] and parts[2] in im.methods and tyname(im.node.ty) == parts[1]:
                return im.methods[parts[2]]
        raise Undecided(f'{qual} is gone')

    def struct(self, mod, name):
        it = self.crate.lookup(mod, name)
        if isinstance(it, tuple) and it[0] == 'alias':
            ty = self.rty(it[1].ty, Frame(it[2], {}, None))
            it = ty[1] if ty and ty[0] == 'adt' else None
        if not isinstance(it, (RStruct, REnum)):
            raise Undecided(f'{mod}::{name} is gone')
        return it

    def adt(self, mod, name, *targs):
        return ('adt', self.struct(mod, name), list(targs))

    def variant(self, mod, enum, name, *args):
        return Variant(self.struct(mod, enum), name, args)

    def run(self, qual, args, generics=None, selfty=None):
        return self.call_fn(self.fn(qual), args, selfty=selfty, generics=generics)

    def method(self, o, name, *args):
        return self.mcall(o, name, list(args))

    def impl_generics(self, im, selfv, selfty):
        """Bind an impl's generics from the Self value or type."""
        g = {}
        for n, _ in im.node.generics:
            g[n] = None
        t = im.node.ty
        args = []
        if t.kind == 'tpath':
            args = [a for a in t.segs[-1][1]]
        targs = None
        if isinstance(selfv, Obj):
            targs = getattr(selfv, 'targs', None)
            names = getattr(selfv.cls, 'generics', [])
            vals = [(targs or {}).get(n) for n in names]
        elif selfty and selfty[0] == 'adt':
            vals = list(selfty[2])
        else:
            vals = []
        for a, v in zip(args, vals):
            if a.kind == 'tpath' and len(a.segs) == 1 and a.segs[0][0] in g:
                g[a.segs[0][0]] = v
        return g

    def call_fn(self, fn, args, selfty=None, generics=None, exp=None):
        self.visited.add(fn.qual)
        hook = self.hooks.get(fn.qual)
        if hook is None and fn.owner:
            hook = self.hooks.get(f'{fn.owner}::{fn.name}')
        if hook is not None:
            r = hook(self, args)
            if r is not NotImplemented:
                return r
        node = fn.node
        if node.body is None:
            raise Undecided(f'{fn.qual} has no body')
        g = {}
        selfv = None
        if node.selfp:
            selfv = self.strip(args[0])
        if fn.impl is not None:
            if selfty is None and selfv is not None:
                selfty = self.typeof(selfv)
            g.update(self.impl_generics(fn.impl, selfv, selfty))
            st = self.rty(fn.impl.node.ty, Frame(fn.mod, g, None))
            if selfty is None or st and st[0] != 'other':
                selfty = st or selfty
        elif selfty is None and selfv is not None:
            selfty = self.typeof(selfv)
        if generics:
            g.update(generics)
        for n, bounds in node.generics:
            g.setdefault(n, None)
        fr = Frame(fn.mod, g, selfty, None, fn)
        # generics of the function, from its arguments
        scope = Scope()
        params = list(node.params)
        vals = list(args)
        if node.selfp:
            scope.vars['self'] = Box_(vals.pop(0) if node.selfp != 'own' else self.copied(vals.pop(0)), selfty)
        if len(params) != len(vals):
            raise Undecided(f'{fn.qual}: argument count')
        for (pat, ty), v in zip(params, vals):
            self.bind_generic(ty, v, fr)
        for (pat, ty), v in zip(params, vals):
            t = self.rty(ty, fr)
            if not self.match(pat, v, scope, fr, t):
                raise Undecided('refutable parameter')
        fr.ret = self.rty(node.ret, fr) if node.ret is not None else ('tuple', [])
        if (fr.ret is None or fr.ret[0] in ('timpl',)) and exp is not None:
            fr.ret = exp
        n = self.active.get(fn.qual, 0)
        if n >= self.max_rec:
            if self.cut_hook is not None:
                return self.cut_hook(self, fn, args)
            raise Cut(f'recursion of {fn.qual}')
        self.active[fn.qual] = n + 1
        self.depth += 1
        try:
            if self.depth > 120:
                raise Cut('call depth')
            return self.block(node.body, scope, fr, fr.ret)
        except Return as e:
            return e.v
        finally:
            self.depth -= 1
            self.active[fn.qual] = n

    def bind_generic(self, ty, v, fr):
        """Learn a function's type parameter from an argument."""
        while ty.kind == 'tref':
            ty = ty.ty
        if ty.kind == 'tpath' and len(ty.segs) == 1 and ty.segs[0][0] in fr.generics and fr.generics[ty.segs[0][0]] is None:
            fr.generics[ty.segs[0][0]] = self.typeof(self.strip(v))

    def typeof(self, v):
        """Type of a value, as far as it shows."""
        v = self.unref(v)
        if isinstance(v, Obj) and isinstance(v.cls, RStruct):
            targs = getattr(v, 'targs', None) or {}
            return ('adt', v.cls, [targs.get(n) for n in v.cls.generics])
        if isinstance(v, Variant):
            if isinstance(v.enum, REnum):
                return ('adt', v.enum, [])
            return ('opt', None) if v.enum == OPTION else ('res', None, None)
        if isinstance(v, RMap):
            return ('map', v.kind, v.kty, v.vty)
        if isinstance(v, RSet):
            return ('set', v.kind, v.ty)
        if isinstance(v, RVec):
            return ('vec', v.ty)
        if isinstance(v, PList):
            return ('vec', None)
        if isinstance(v, (str, Str, StrBuf)):
            return ('string',)
        if isinstance(v, bool) or isinstance(v, Term) and v.kind == 'bool':
            return ('bool',)
        if isinstance(v, tuple):
            return ('tuple', [self.typeof(x) for x in v])
        if isinstance(v, RcBox):
            return ('rc', self.typeof(v.v))
        if isinstance(v, CellBox):
            return ('cell', v.kind, self.typeof(v.v))
        if isinstance(v, Fake):
            return ('fake', v)
        return None

    def head(self, ty):
        if ty is None:
            return None
        return ty[1] if ty[0] == 'adt' else ty[0]

    def impl_head(self, im):
        if not hasattr(im, 'head'):
            im.head = self.impl_head0(im)
        return im.head

    def impl_head0(self, im):
        t = im.node.ty
        while t.kind == 'tref':
            t = t.ty
        names = {n for n, _ in im.node.generics}
        if t.kind == 'tpath' and len(t.segs) == 1 and t.segs[0][0] in names:
            return '*'
        return self.head(self.rty(t, Frame(im.mod, {n: None for n in names}, None)))

    def find_in(self, ty, name, trait=None):
        """(function, Self type) of a method or associated function of a type."""
        h = self.head(ty)
        if h is None:
            return None
        cache = self.crate.__dict__.setdefault('found', {})
        key = (h, name, trait)
        if key not in cache:
            cache[key] = self.candidates(h, name, trait)
        own, default = cache[key]
        best = None
        for im in own:
            if not self.impl_fits(im, ty):
                continue
            if im.node.trait is None:
                return im.methods[name], ty
            best = best or (im.methods[name], ty)
        if best is not None:
            return best
        return (default, ty) if default is not None else None

    def candidates(self, h, name, trait):
        own = []
        for im in self.crate.impls:
            if trait is not None and (im.node.trait is None or tyname(im.node.trait) != trait):
                continue
            if isinstance(im.methods.get(name), RFn) and self.impl_head(im) == h:
                own.append(im)
        default = None
        for im in self.crate.impls:
            if im.node.trait is None or self.impl_head(im) not in (h, '*'):
                continue
            tr = self.trait_of(im)
            if tr is not None and name in tr.methods and (trait is None or tr.name == trait) and tr.methods[name].node.body is not None:
                default = tr.methods[name]
                break
        return own, default

    def impl_fits(self, im, ty):
        """`impl Tape<X>` against the type arguments at hand."""
        if ty[0] != 'adt':
            return True
        if not hasattr(im, 'self_ty'):
            im.self_ty = self.rty(im.node.ty, Frame(im.mod, {n: None for n, _ in im.node.generics}, None))
        st = im.self_ty
        if st is None or st[0] != 'adt':
            return True
        for a, b in zip(st[2], ty[2]):
            if a is not None and b is not None and self.head(a) != self.head(b):
                return False
        return True

    def trait_of(self, im):
        it = self.crate.lookup(im.mod, tyname(im.node.trait))
        return it if isinstance(it, RTrait) else None

    def find_method(self, v, name):
        if isinstance(v, Obj) and not isinstance(v.cls, RStruct):
            return None
        ty = self.typeof(v)
        if ty is None or ty[0] in ('fake',):
            return None
        return self.find_in(ty, name)

    # ------------------------------------------------------------ blocks and statements

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Cut('step bound')

    def block(self, b, scope, fr, exp=None):
        sc = Scope(scope)
        label = getattr(b, 'label', None)
        try:
            for st in b.stmts:
                if st.kind == 'item':
                    self.local_item(st.item, fr)
            for st in b.stmts:
                if st.kind == 'let':
                    sc = self.let(st, sc, fr)
                elif st.kind == 'expr':
                    self.expr(st.e, sc, fr)
            if b.tail is not None:
                return self.expr(b.tail, sc, fr, exp)
            return ()
        except RBreak as e:
            if label is not None and e.label == label:
                return e.v
            raise

    def local_item(self, it, fr):
        if it.kind == 'fn':
            fr.items[it.name] = RFn(it, fr.mod)
        elif it.kind == 'const':
            fr.items[it.name] = ('const', it, fr.mod)
        elif it.kind == 'struct':
            fr.items[it.name] = RStruct(it, fr.mod)
        elif it.kind == 'enum':
            fr.items[it.name] = REnum(it, fr.mod)
        elif it.kind == 'type':
            fr.items[it.name] = ('alias', it, fr.mod)
        elif it.kind == 'use':
            for path, alias in it.uses:
                if alias == '*':
                    base = self.type_item(path, fr)
                    if isinstance(base, REnum):
                        for n in base.variants:
                            fr.items[n] = ('variant', base, n)
                else:
                    fr.items[alias] = self.type_item(path, fr) or ('std', path)

    def let(self, st, sc, fr):
        ty = self.rty(st.ty, fr) if st.ty is not None else None
        new = Scope(sc)
        if st.init is None:
            self.declare(st.pat, new, ty)
            return new
        v = self.expr(st.init, sc, fr, ty)
        if ty is None:
            ty = self.static(st.init, sc, fr)
        if st.els is not None:
            if not self.match(st.pat, v, new, fr, ty):
                self.block(st.els, sc, fr)
                raise Undecided('let-else falls through')
            return new
        if not self.match(st.pat, v, new, fr, ty):
            raise Undecided('let pattern does not match')
        return new

    def declare(self, pat, sc, ty):
        if pat.kind == 'pid':
            sc.vars[pat.name] = Box_(UNINIT, ty)
        elif pat.kind == 'ptuple':
            for k, p in enumerate(pat.ps):
                self.declare(p, sc, ty[1][k] if ty and ty[0] == 'tuple' and k < len(ty[1]) else None)

    # ------------------------------------------------------------ patterns

    def match(self, pat, v, sc, fr, ty=None):
        """Bind pat to v in sc; bool."""
        k = pat.kind
        if k == 'pwild' or k == 'prest':
            return True
        if k == 'pref':
            return self.match(pat.p, self.copied(self.unref(v)), sc, fr, ty)
        if k == 'pid':
            it = None
            if pat.name[0].isupper() and pat.sub is None:
                it = fr.items.get(pat.name) or self.crate.lookup(fr.mod, pat.name)
                if it is not None or pat.name == 'None':
                    return self.match_path([pat.name], it, v, fr)
            if pat.sub is not None and not self.match(pat.sub, v, sc, fr, ty):
                return False
            sc.vars[pat.name] = Box_(v, ty)
            return True
        if k == 'ppath':
            return self.match_path([s[0] for s in pat.path.segs], None, v, fr, pat.path)
        if k == 'plit':
            w = self.expr(pat.e, Scope(), fr)
            return self.truth(self.equal(v, w))
        if k == 'prange':
            u = self.strip(v)
            if pat.lo is not None:
                lo = self.expr(pat.lo, Scope(), fr)
                if not self.truth(self.compare('<=', lo, u)):
                    return False
            if pat.hi is not None:
                hi = self.expr(pat.hi, Scope(), fr)
                return self.truth(self.compare('<=' if pat.incl else '<', u, hi))
            return True
        if k == 'por':
            for p in pat.alts:
                if self.match(p, v, sc, fr, ty):
                    return True
            return False
        if k == 'ptuple':
            u = self.strip_ref(v)
            if not isinstance(u, tuple):
                raise Undecided(f'tuple pattern on {type(u).__name__}')
            vals = [self.part(v, u, n) for n in range(len(u))]
            tys = ty[1] if ty and ty[0] == 'tuple' else [None] * len(u)
            return self.match_seq(pat.ps, vals, sc, fr, tys)
        if k == 'pts':
            u = self.strip_ref(v)
            it = self.path_ctor(pat.path, fr)
            if isinstance(u, Variant):
                name = it[2] if isinstance(it, tuple) and it[0] == 'variant' else pat.path.segs[-1][0]
                if u.name != name:
                    return False
                vals = [self.part(v, u, n) for n in range(len(u.args))]
                return self.match_seq(pat.ps, vals, sc, fr, [self.arg_type(u, ty, n) for n in range(len(vals))])
            if isinstance(u, Obj):
                vals = [self.part(v, u, n) for n in u.cls.fields]
                return self.match_seq(pat.ps, vals, sc, fr, [self.ftype(u, n) for n in u.cls.fields])
            raise Undecided(f'pattern {pat.path.segs[-1][0]} on {type(u).__name__}')
        if k == 'pstruct':
            u = self.strip_ref(v)
            it = self.path_ctor(pat.path, fr)
            if isinstance(u, Variant):
                name = it[2] if isinstance(it, tuple) and it[0] == 'variant' else pat.path.segs[-1][0]
                if u.name != name:
                    return False
                names = u.names or []
                for n, p in pat.fields:
                    if not self.match(p, self.part(v, u, names.index(n) if n in names else int(n)), sc, fr):
                        return False
                return True
            if isinstance(u, Obj):
                for n, p in pat.fields:
                    if not self.match(p, self.part(v, u, n), sc, fr, self.ftype(u, n)):
                        return False
                return True
            raise Undecided(f'struct pattern on {type(u).__name__}')
        if k == 'pslice':
            u = self.strip_ref(v)
            if not isinstance(u, PList):
                raise Undecided('slice pattern')
            rest = [n for n, p in enumerate(pat.ps) if p.kind == 'prest' or p.kind == 'pid' and p.sub is not None and p.sub.kind == 'prest']
            if rest:
                r = rest[0]
                pre, post = pat.ps[:r], pat.ps[r + 1:]
                for n in range(len(pre)):
                    if not self.has(u, n):
                        return False
                if post:
                    n = self.length(u)
                    if n < len(pre) + len(post):
                        return False
                    mid = RVec(u.items[len(pre):n - len(post)])
                else:
                    mid = RVec(u.items[len(pre):], u.tail)
                vals = [self.part(v, u, n) for n in range(len(pre))]
                vals2 = [self.part(v, u, len(u.items) - len(post) + n) for n in range(len(post))]
                p = pat.ps[r]
                if p.kind == 'pid':
                    sc.vars[p.name] = Box_(mid, None)
                return all(self.match(a, b, sc, fr) for a, b in zip(list(pre) + list(post), vals + vals2))
            n = 0
            for n in range(len(pat.ps)):
                if not self.has(u, n):
                    return False
            if self.has(u, len(pat.ps)):
                return False
            return self.match_seq(pat.ps, [self.part(v, u, n) for n in range(len(pat.ps))], sc, fr, [None] * len(pat.ps))
        raise Undecided(f'pattern {k}')

    def arg_type(self, u, ty, n):
        if ty and ty[0] == 'opt':
            return ty[1]
        if ty and ty[0] == 'res':
            return ty[1] if u.name == 'Ok' else ty[2]
        if isinstance(u.enum, REnum):
            f, _ = u.enum.variants[u.name]
            return self.rty(f[n][1], Frame(u.enum.mod, {g: None for g in u.enum.generics}, None))
        return None

    def match_seq(self, ps, vals, sc, fr, tys):
        rest = [n for n, p in enumerate(ps) if p.kind == 'prest']
        if rest:
            r = rest[0]
            post = len(ps) - r - 1
            ps2 = ps[:r] + ps[r + 1:]
            vals2 = vals[:r] + (vals[len(vals) - post:] if post else [])
            tys2 = list(tys[:r]) + (list(tys[len(vals) - post:]) if post else [])
            return all(self.match(p, x, sc, fr, t) for p, x, t in zip(ps2, vals2, tys2))
        if len(ps) != len(vals):
            raise Undecided('pattern arity')
        return all(self.match(p, x, sc, fr, t) for p, x, t in zip(ps, vals, tys))

    def strip_ref(self, v):
        return self.strip(v)

    def part(self, v, u, n):
        """Component n of u; through a mutable reference, a reference to it."""
        if isinstance(v, Ref):
            if isinstance(u, tuple):
                def setp(x, n=n):
                    w = list(v.get())
                    w[n] = x
                    v.set(tuple(w))
                return Ref(lambda: v.get()[n], setp) if not isinstance(u[n], Ref) else u[n]
            if isinstance(u, Variant):
                a = u.args
                return Ref(lambda: a[n], lambda x: a.__setitem__(n, x)) if not isinstance(a[n], Ref) else a[n]
            if isinstance(u, Obj):
                f = u.f
                return Ref(lambda: f[n], lambda x: f.__setitem__(n, x)) if not isinstance(f[n], Ref) else f[n]
            if isinstance(u, PList):
                it = u.items
                return Ref(lambda: it[n], lambda x: it.__setitem__(n, x)) if not isinstance(it[n], Ref) else it[n]
        if isinstance(u, tuple):
            return u[n]
        if isinstance(u, Variant):
            return u.args[n]
        if isinstance(u, Obj):
            return u.f[n]
        return u.items[n]

    def path_ctor(self, path, fr):
        segs = [s[0] for s in path.segs]
        if segs[0] == 'Self' and fr.selfty and fr.selfty[0] == 'adt':
            base = fr.selfty[1]
            if len(segs) == 1:
                return base
            return ('variant', base, segs[1]) if isinstance(base, REnum) and segs[1] in base.variants else None
        it = self.type_item(segs, fr)
        if isinstance(it, tuple) and it[0] == 'alias':
            t = self.rty(it[1].ty, Frame(it[2], {}, None))
            return t[1] if t and t[0] == 'adt' else None
        if it is None and len(segs) > 1:
            b = self.type_item(segs[:-1], fr)
            if isinstance(b, tuple) and b[0] == 'alias':
                t = self.rty(b[1].ty, Frame(b[2], {}, None))
                if t and t[0] == 'adt' and isinstance(t[1], REnum):
                    return ('variant', t[1], segs[-1])
        return it

    def match_path(self, segs, it, v, fr, path=None):
        u = self.strip(v)
        if it is None and path is not None:
            it = self.path_ctor(path, fr)
        if isinstance(it, tuple) and it[0] == 'const' or isinstance(it, N):
            return self.truth(self.equal(u, self.const(it)))
        if isinstance(u, Variant):
            name = it[2] if isinstance(it, tuple) and it[0] == 'variant' else segs[-1]
            return u.name == name
        if isinstance(it, RStruct):
            return True
        if path is not None:
            return self.truth(self.equal(u, self.expr(path, Scope(), fr)))
        raise Undecided(f'pattern {segs} on {type(u).__name__}')

    def const(self, it):
        _, node, mod = it
        key = (mod, node.name)
        if key not in self.consts:
            fr = Frame(mod, {}, None)
            self.consts[key] = self.expr(node.e, Scope(), fr, self.rty(node.ty, fr) if node.ty is not None else None)
        return self.consts[key]

    # ------------------------------------------------------------ places

    def place(self, e, sc, fr):
        """A Ref to the place e denotes."""
        k = e.kind
        if k == 'paren':
            return self.place(e.e, sc, fr)
        if k == 'path' and len(e.segs) == 1:
            b = sc.find(e.segs[0][0])
            if b is not None:
                return Ref(lambda: b.v, lambda x: setattr(b, 'v', x))
        if k == 'field':
            base = self.place_value(e.e, sc, fr)
            u = self.strip(base)
            n = e.name
            if isinstance(u, Obj):
                if n not in u.f:
                    raise Undecided(f'no field {n}')
                return Ref(lambda: u.f[n], lambda x: u.f.__setitem__(n, x))
            if isinstance(u, tuple):
                p = self.place(e.e, sc, fr)
                while isinstance(p.get(), Ref):
                    p = p.get()

                def sett(x):
                    w = list(p.get())
                    w[int(n)] = x
                    p.set(tuple(w))
                return Ref(lambda: p.get()[int(n)], sett)
            if isinstance(u, Fake) and u.attr is not None:
                return Ref(lambda: u.attr(self, n), lambda x: u.set(self, n, x))
            raise Undecided(f'field {n} of {type(u).__name__}')
        if k == 'index':
            base = self.strip(self.place_value(e.e, sc, fr))
            i = self.unref(self.expr(e.i, sc, fr))
            return self.index_place(base, i)
        if k == 'deref':
            v = self.place_value(e.e, sc, fr)
            if isinstance(v, Ref):
                return v
            if isinstance(v, RcBox):
                return Ref(lambda: v.v, lambda x: setattr(v, 'v', x))
            return Ref(lambda: v, lambda x: self.no_store(v, x))
        v = self.expr(e, sc, fr)
        if isinstance(v, Ref):
            w = [v]
            return Ref(lambda: w[0], lambda x: w.__setitem__(0, x))
        w = [v]
        return Ref(lambda: w[0], lambda x: w.__setitem__(0, x))

    def no_store(self, v, x):
        """`*r = x` where r was handed over as the object itself."""
        if isinstance(v, Obj) and isinstance(x, Obj):
            v.f.clear()
            v.f.update(x.f)
            v.cls = x.cls
            return
        if isinstance(v, PList) and isinstance(x, PList):
            v.items[:] = x.items
            v.tail = x.tail
            return
        if isinstance(v, PDict) and isinstance(x, PDict):
            v.pairs[:] = x.pairs
            return
        if isinstance(v, PSet) and isinstance(x, PSet):
            v.items[:] = x.items
            return
        raise Undecided('store through an unknown reference')

    def index_place(self, base, i):
        if isinstance(base, PList):
            if isinstance(i, (range, SRange, tuple)) or isinstance(i, RRange):
                v = self.slice(base, i)
                return Ref(lambda: v, lambda x: self.no_store(v, x))
            n = self.list_index(base, i)
            return Ref(lambda: base.items[n], lambda x: base.items.__setitem__(n, x))
        if isinstance(base, PDict):
            p = self.dict_find(base, i)
            if p is None:
                self.panic('missing key')
            return Ref(lambda: p[1], lambda x: p.__setitem__(1, x))
        if isinstance(base, (str, Str)):
            v = self.slice(base, i)
            return Ref(lambda: v, lambda x: self.no_store(v, x))
        if isinstance(base, Fake) and base.item is not None:
            v = base.item(self, i)
            return Ref(lambda: v, lambda x: base.set(self, i, x))
        if isinstance(base, Obj):
            m = self.find_method(base, 'index')
            if m is not None:
                v = self.call_fn(m[0], [base, i], selfty=m[1])
                return Ref(lambda: v, lambda x: self.no_store(v, x))
        raise Undecided(f'index of {type(base).__name__}')

    def list_index(self, base, i):
        n = i
        if isinstance(i, Term):
            nn = self.facts.norm(i)
            if not nn:
                n = 0
            elif list(nn) == [()]:
                n = nn[()]
            else:
                # split over the cells
                k = 0
                while True:
                    if not self.has(base, k):
                        self.panic('index out of bounds')
                    if self.decide(T.eq(i, k)):
                        return k
                    k += 1
        if isinstance(n, bool) or not isinstance(n, int):
            raise Undecided(f'index {i!r}')
        if n < 0 or not self.has(base, n):
            self.panic('index out of bounds')
        return n

    def place_value(self, e, sc, fr):
        """The value at e, not copied."""
        if e.kind in ('path', 'field', 'index', 'deref', 'paren'):
            if e.kind == 'path' and (len(e.segs) > 1 or sc.find(e.segs[0][0]) is None):
                return self.expr(e, sc, fr)
            v = self.place(e, sc, fr).get()
            if v is UNINIT:
                raise Undecided('use before initialisation')
            return v
        return self.expr(e, sc, fr)

    # ------------------------------------------------------------ expressions

    def expr(self, e, sc, fr, exp=None):
        self.tick()
        m = getattr(self, 'x_' + e.kind, None)
        if m is None:
            raise Undecided(f'{e.kind} at line {e.line}')
        return m(e, sc, fr, exp)

    def x_paren(self, e, sc, fr, exp):
        return self.expr(e.e, sc, fr, exp)

    def x_lit(self, e, sc, fr, exp):
        return e.v

    def x_block(self, e, sc, fr, exp):
        return self.block(e, sc, fr, exp)

    def x_tuple(self, e, sc, fr, exp):
        tys = exp[1] if exp and exp[0] == 'tuple' and len(exp[1]) == len(e.es) else [None] * len(e.es)
        return tuple(self.expr(x, sc, fr, t) for x, t in zip(e.es, tys))

    def elem(self, exp):
        return exp[1] if exp and exp[0] == 'vec' else None

    def x_array(self, e, sc, fr, exp):
        et = self.elem(exp)
        return RVec([self.expr(x, sc, fr, et) for x in e.es], None, et, arr=True)

    def x_repeat(self, e, sc, fr, exp):
        et = self.elem(exp)
        v = self.expr(e.e, sc, fr, et)
        n = self.unref(self.expr(e.n, sc, fr, ('int', 'usize')))
        return self.repeat(v, n, et)

    def repeat(self, v, n, et=None):
        if isinstance(n, int):
            if n > 4096:
                raise Cut('long vector')
            return RVec([self.clone(v) for _ in range(n)], None, et)
        nn = self.facts.norm(n)
        if not nn:
            return RVec([], None, et)
        if list(nn) == [()]:
            return self.repeat(v, nn[()], et)
        k = 0
        out = RVec([], None, et)
        while self.decide(T.lt(k, n)):
            out.items.append(self.clone(v))
            k += 1
            if k > self.max_iter:
                raise Cut('length of a vector')
        return out

    def x_path(self, e, sc, fr, exp):
        segs = e.segs
        if len(segs) == 1:
            name = segs[0][0]
            b = sc.find(name)
            if b is not None:
                if b.v is UNINIT:
                    raise Undecided('use before initialisation')
                return self.copied(b.v)
            if name == 'None':
                return none()
            if name in ('Some', 'Ok', 'Err'):
                return Ctor(lambda a: Variant(OPTION if name == 'Some' else RESULT, name, a))
        return self.path_value(e, sc, fr, exp)

    def path_value(self, e, sc, fr, exp):
        segs = e.segs
        names = [s[0] for s in segs]
        if names[0] != '<>':
            it = self.path_ctor(e, fr)
            if isinstance(it, RFn):
                g = None
                if segs[-1][1]:
                    g = {n: self.rty(a, fr) for (n, _), a in zip(it.node.generics, segs[-1][1])}
                return BoundFn(it, None, g)
            if isinstance(it, tuple) and it[0] == 'const':
                return self.copied(self.const(it))
            if isinstance(it, tuple) and it[0] == 'variant':
                return self.variant_value(it[1], it[2], exp)
            if isinstance(it, RStruct):
                return self.struct_ctor(it, fr, exp)
            if len(names) == 1:
                if isinstance(it, tuple) and it[0] == 'std':
                    return ('std', '::'.join(it[1]))
                raise Undecided(f'unknown name {names[0]} at line {e.line}')
        # Type::function
        ty = self.rty_path(segs[:-1], fr) if names[0] != '<>' or len(segs) > 2 else self.rty(segs[0][1][0], fr)
        trait = None
        if names[0] == '<>' and segs[0][1][1] is not None:
            trait = tyname(segs[0][1][1])
        f = names[-1]
        if ty is not None and ty[0] == 'trait':
            return TraitFn(ty[1], f)
        if ty is not None:
            m = self.find_in(ty, f, trait)
            if m is not None:
                g = None
                if segs[-1][1]:
                    g = {n: self.rty(a, fr) for (n, _), a in zip(m[0].node.generics, segs[-1][1])}
                return BoundFn(m[0], self.fill_targs(ty, fr), g)
            c = self.assoc_const(ty, f)
            if c is not None:
                return c
            return TypeFn(ty, f)
        b = self.type_item(names[:-1], fr)
        if isinstance(b, tuple) and b[0] == 'std':
            return ('std', '::'.join(b[1] + [f]))
        if names[0] in fr.generics:
            tr = self.bound_trait(fr, names[0], f)
            if tr is not None:
                return TraitFn(tr, f)
        return ('std', '::'.join(names))

    def bound_trait(self, fr, name, f):
        for node in [fr.fn.node if fr.fn else None, fr.fn.impl.node if fr.fn and fr.fn.impl else None]:
            if node is None:
                continue
            for n, bounds in node.generics:
                if n == name:
                    for b in bounds:
                        it = self.crate.lookup(fr.mod, tyname(b))
                        if isinstance(it, RTrait) and f in it.methods:
                            return it
        return None

    def fill_targs(self, ty, fr):
        if ty[0] == 'adt' and ty[1].generics and not ty[2] and fr.selfty and fr.selfty[0] == 'adt':
            # the enclosing impl's arguments, where the names agree
            g = fr.generics
            return ('adt', ty[1], [g.get(n) for n in ty[1].generics])
        return ty

    def assoc_const(self, ty, name):
        if ty[0] == 'int':
            bits, signed = INT[ty[1]]
            if name == 'MAX':
                return 2 ** (bits - signed) - 1
            if name == 'MIN':
                return -2 ** (bits - 1) if signed else 0
            if name == 'BITS':
                return bits
        h = self.head(ty)
        for im in self.crate.impls:
            if self.impl_head(im) == h and isinstance(im.methods.get(name), N) and im.methods[name].kind == 'const':
                fr = Frame(im.mod, {}, ty)
                return self.expr(im.methods[name].e, Scope(), fr, self.rty(im.methods[name].ty, fr))
        return None

    def variant_value(self, enum, name, exp=None):
        f, tup = enum.variants.get(name, (None, None))
        if f is None:
            raise Undecided(f'{enum.name}::{name}')
        if tup is None:
            return Variant(enum, name)
        return Ctor(lambda a: Variant(enum, name, a))

    def struct_ctor(self, st, fr, exp):
        def mk(a):
            return self.mkobj(st, dict(zip(st.fields, a)), fr, exp)
        if not st.fields:
            return self.mkobj(st, {}, fr, exp)
        c = Ctor(mk)
        c.struct = st
        return c

    def mkobj(self, st, f, fr=None, exp=None):
        o = Obj(st, f)
        o.targs = self.targs_for(st, fr, exp)
        return o

    def targs_for(self, st, fr, exp):
        if not st.generics:
            return {}
        if exp and exp[0] == 'adt' and exp[1] is st and any(x is not None for x in exp[2]):
            return dict(zip(st.generics, exp[2]))
        if fr and fr.selfty and fr.selfty[0] == 'adt' and fr.selfty[1] is st and any(x is not None for x in fr.selfty[2]):
            return dict(zip(st.generics, fr.selfty[2]))
        g = fr.generics if fr else {}
        return {n: g.get(n) for n in st.generics}

    def x_struct_lit(self, e, sc, fr, exp):
        it = self.path_ctor(e.path, fr)
        if isinstance(it, tuple) and it[0] == 'variant':
            f, tup = it[1].variants[it[2]]
            names = [n for n, _ in f]
            vals = {n: self.expr(x, sc, fr, self.rty(dict(f)[n], Frame(it[1].mod, {g: None for g in it[1].generics}, None)))
                    for n, x in e.fields}
            v = Variant(it[1], it[2], [vals[n] for n in names])
            v.names = names
            return v
        if not isinstance(it, RStruct):
            raise Undecided(f'struct {e.path.segs[-1][0]} at line {e.line}')
        lit = e.path.segs[-1][1]
        ex = exp
        t = self.rty_path(e.path.segs, fr)
        if t is not None and t[0] == 'adt' and any(x is not None for x in t[2]):
            ex = t
        targs = self.targs_for(it, fr, ex)
        ffr = Frame(it.mod, targs, ('adt', it, [targs.get(n) for n in it.generics]))
        f = {}
        for n, x in e.fields:
            if n not in it.ftypes:
                raise Undecided(f'no field {n} in {it.name}')
            f[n] = self.expr(x, sc, fr, self.rty(it.ftypes[n], ffr))
        if e.base is not None:
            b = self.strip(self.expr(e.base, sc, fr, ('adt', it, [])))
            for n in it.fields:
                f.setdefault(n, b.f[n])
        if set(f) != set(it.fields):
            raise Undecided(f'fields of {it.name}')
        o = Obj(it, {n: f[n] for n in it.fields})
        o.targs = targs
        return o

    def x_field(self, e, sc, fr, exp):
        return self.copied(self.unref_field(self.place(e, sc, fr).get()))

    def unref_field(self, v):
        return v

    def x_index(self, e, sc, fr, exp):
        return self.copied(self.place(e, sc, fr).get())

    def x_deref(self, e, sc, fr, exp):
        return self.copied(self.place(e, sc, fr).get())

    def x_ref(self, e, sc, fr, exp):
        if e.mut:
            if e.e.kind in ('path', 'field', 'index', 'deref', 'paren'):
                p = self.place(e.e, sc, fr)
                v = p.get()
                if e.e.kind == 'deref' and isinstance(v, Ref):
                    return v
                return p
            v = self.expr(e.e, sc, fr, exp)
            if isinstance(v, Ref):
                return v
            w = [v]
            return Ref(lambda: w[0], lambda x: w.__setitem__(0, x))
        if e.e.kind in ('path', 'field', 'index', 'deref', 'paren'):
            v = self.place_value(e.e, sc, fr)
        else:
            v = self.expr(e.e, sc, fr, exp)
        return self.unref(v)

    def x_unary(self, e, sc, fr, exp):
        v = self.strip(self.expr(e.e, sc, fr, exp))
        if e.op == '!':
            if isinstance(v, bool):
                return not v
            if isinstance(v, Term) and v.kind == 'bool':
                return T.lnot(v)
            t = self.static(e.e, sc, fr)
            if isinstance(v, int) and t and t[0] == 'int':
                bits, signed = INT[t[1]]
                return ~v if signed else (2 ** bits - 1) ^ v
            raise Undecided('bitwise not')
        if isinstance(v, (int, float)):
            return -v
        if isinstance(v, Term):
            return T.mul(-1, v)
        if isinstance(v, Obj):
            return self.mcall(v, 'neg', [])
        raise Undecided('negation')

    def x_bin(self, e, sc, fr, exp):
        op = e.op
        if op == '&&':
            l = self.expr(e.l, sc, fr)
            if not self.truth(l):
                return False
            return self.expr(e.r, sc, fr)
        if op == '||':
            l = self.expr(e.l, sc, fr)
            if self.truth(l):
                return True
            return self.expr(e.r, sc, fr)
        cmp_ = op in ('==', '!=', '<', '<=', '>', '>=')
        l = self.operand(e.l, sc, fr, None if cmp_ else exp)
        r = self.operand(e.r, sc, fr, None if cmp_ else exp)
        if cmp_:
            return self.compare(op, l, r)
        if op == '-' and self.under is not None:
            t = self.static(e.l, sc, fr) or self.static(e.r, sc, fr)
            if t and t[0] == 'int' and not INT[t[1]][1]:
                self.under(self, l, r, e, fr)
        return self.rbin(op, l, r, e, sc, fr)

    under = None

    def operand(self, e, sc, fr, exp):
        if e.kind in ('path', 'field', 'index', 'deref', 'paren', 'ref'):
            v = self.place_value(e, sc, fr) if e.kind != 'ref' else self.expr(e, sc, fr)
        else:
            v = self.expr(e, sc, fr, exp)
        return self.strip(v)

    def rbin(self, op, l, r, e=None, sc=None, fr=None):
        l, r = self.strip(l), self.strip(r)
        lb = isinstance(l, bool) or isinstance(l, Term) and l.kind == 'bool'
        rb = isinstance(r, bool) or isinstance(r, Term) and r.kind == 'bool'
        if lb and rb and op in '&|^':
            if op == '&':
                return T.land(l, r)
            if op == '|':
                return T.lor(l, r)
            return T.lnot(self.equal(l, r))
        if op == '/':
            return self.rdiv(l, r)
        if op == '%':
            return self.rmod(l, r)
        if op in ('<<', '>>') and isinstance(r, int) and isinstance(l, Term):
            return T.mul(l, 2 ** r) if op == '<<' else T.fdiv(l, 2 ** r)
        if isinstance(l, Obj):
            m = self.find_method(l, {'+': 'add', '-': 'sub', '*': 'mul', '&': 'bitand', '|': 'bitor'}.get(op, '?'))
            if m is not None:
                return self.call_fn(m[0], [l, r], selfty=m[1])
        if isinstance(l, (str, Str, StrBuf)) and op == '+':
            return mkstr(str_parts(self.text(l)) + str_parts(self.text(r)))
        if isinstance(l, PSet) and isinstance(r, PSet):
            if op == '&':
                return RSet([x for x in l.items if self.contains(r, x)], getattr(l, 'kind', 'B'))
            if op == '|':
                return RSet(list(l.items) + [x for x in r.items if not self.contains(l, x)], getattr(l, 'kind', 'B'))
            if op == '-':
                return RSet([x for x in l.items if not self.contains(r, x)], getattr(l, 'kind', 'B'))
        return self.binop(op, l, r)

    def rdiv(self, l, r):
        if isinstance(l, float) or isinstance(r, float):
            return l / r
        if isinstance(l, int) and isinstance(r, int):
            if r == 0:
                self.panic('division by zero')
            q = abs(l) // abs(r)
            return q if (l < 0) == (r < 0) else -q
        if self.truth(T.eq(r, 0)):
            self.panic('division by zero')
        if self.truth(T.lt(l, 0)):
            return T.mul(-1, self.rdiv(T.mul(-1, l), r))
        if self.truth(T.lt(r, 0)):
            return T.mul(-1, self.rdiv(l, T.mul(-1, r)))
        return self.int_div('//', l, r)

    def rmod(self, l, r):
        if isinstance(l, int) and isinstance(r, int):
            if r == 0:
                self.panic('remainder by zero')
            m = abs(l) % abs(r)
            return m if l >= 0 else -m
        if self.truth(T.eq(r, 0)):
            self.panic('remainder by zero')
        if self.truth(T.lt(l, 0)):
            return T.mul(-1, self.rmod(T.mul(-1, l), r))
        if self.truth(T.lt(r, 0)):
            return self.rmod(l, T.mul(-1, r))
        return self.int_div('%', l, r)

    def x_assign(self, e, sc, fr, exp):
        if not e.op:
            if e.l.kind == 'path' and e.l.segs[0][0] == '_' and len(e.l.segs) == 1:
                self.expr(e.r, sc, fr)
                return ()
            if e.l.kind == 'tuple':
                v = self.expr(e.r, sc, fr)
                v = self.strip(v)
                ps = [self.place(x, sc, fr) if not (x.kind == 'path' and x.segs[0][0] == '_') else None for x in e.l.es]
                for p, x in zip(ps, v):
                    if p is not None:
                        p.set(x)
                return ()
            t = self.static(e.l, sc, fr)
            v = self.expr(e.r, sc, fr, t)
            p = self.place(e.l, sc, fr)
            p.set(v)
            return ()
        t = self.static(e.l, sc, fr)
        r = self.strip(self.expr(e.r, sc, fr, t))
        p = self.place(e.l, sc, fr)
        while isinstance(p.get(), Ref):
            p = p.get()
        l = self.strip(p.get())
        if e.op == '-' and self.under is not None and t and t[0] == 'int' and not INT[t[1]][1]:
            self.under(self, l, r, e, fr)
        if isinstance(l, StrBuf) and e.op == '+':
            l.parts += str_parts(self.text(r))
            return ()
        p.set(self.rbin(e.op, l, r, e, sc, fr))
        return ()

    def x_cast(self, e, sc, fr, exp):
        v = self.strip(self.expr(e.e, sc, fr))
        return self.cast(v, self.rty(e.ty, fr), self.static(e.e, sc, fr))

    def cast(self, v, ty, src=None):
        if ty is None:
            return v
        if ty[0] == 'char':
            if isinstance(v, int):
                return chr(v)
            if isinstance(v, Term):
                return RChar(v)
            return v
        if ty[0] in ('f64', 'f32'):
            if isinstance(v, int):
                return float(v)
            raise Undecided('cast to float')
        if ty[0] != 'int':
            return v
        if isinstance(v, Variant) and not v.args and isinstance(v.enum, REnum):
            return list(v.enum.variants).index(v.name)
        if isinstance(v, (str, RChar)):
            v = self.code(v)
        if isinstance(v, Term) and v.kind == 'bool':
            return int(self.truth(v))
        if isinstance(v, bool):
            return int(v)
        bits, signed = INT[ty[1]]
        if isinstance(v, float):
            return int(v)
        if isinstance(v, int):
            v &= 2 ** bits - 1
            if signed and v >= 2 ** (bits - 1):
                v -= 2 ** bits
            return v
        if isinstance(v, Term):
            if bits < 64:
                self.narrow.append((ty[1], v))
            return v
        raise Undecided('cast')

    # ---- control

    def cond(self, e, sc, fr):
        """Condition with its bindings; (bool, scope)."""
        if e.kind == 'iflet':
            s = Scope(sc)
            v = self.place_value(e.e, sc, fr) if e.e.kind in ('path', 'field', 'index', 'deref') else self.expr(e.e, sc, fr)
            ty = self.static(e.e, sc, fr)
            return self.match(e.pat, v, s, fr, ty), s
        if e.kind == 'conds':
            s = sc
            for p in e.parts:
                ok, s = self.cond(p, s, fr)
                if not ok:
                    return False, s
            return True, s
        return self.truth(self.expr(e, sc, fr, ('bool',))), sc

    def x_iflet(self, e, sc, fr, exp):
        return self.cond(e, sc, fr)[0]

    def x_conds(self, e, sc, fr, exp):
        return self.cond(e, sc, fr)[0]

    def x_if(self, e, sc, fr, exp):
        ok, s = self.cond(e.c, sc, fr)
        if ok:
            return self.block(e.a, s, fr, exp)
        if e.b is not None:
            return self.expr(e.b, sc, fr, exp)
        return ()

    def x_match(self, e, sc, fr, exp):
        v = self.place_value(e.e, sc, fr) if e.e.kind in ('path', 'field', 'index', 'deref') else self.expr(e.e, sc, fr)
        ty = self.static(e.e, sc, fr)
        for pat, guard, body in e.arms:
            s = Scope(sc)
            if not self.match(pat, v, s, fr, ty):
                continue
            if guard is not None:
                ok, s = self.cond(guard, s, fr)
                if not ok:
                    continue
            return self.expr(body, s, fr, exp)
        raise Undecided(f'no arm matches at line {e.line}')

    def x_matches(self, e, sc, fr, exp):
        v = self.place_value(e.e, sc, fr) if e.e.kind in ('path', 'field', 'index', 'deref') else self.expr(e.e, sc, fr)
        s = Scope(sc)
        if not self.match(e.pat, v, s, fr):
            return False
        return e.guard is None or self.cond(e.guard, s, fr)[0]

    def looping(self, e, n):
        if n > self.max_iter:
            raise Cut(f'loop bound at line {e.line}')

    def x_loop(self, e, sc, fr, exp):
        n = 0
        while True:
            n += 1
            self.looping(e, n)
            try:
                self.block(e.body, sc, fr)
            except RBreak as b:
                if b.label is None or b.label == e.label:
                    return b.v
                raise
            except RContinue as c:
                if c.label is not None and c.label != e.label:
                    raise

    def x_while(self, e, sc, fr, exp):
        n = 0
        while True:
            ok, s = self.cond(e.c, sc, fr)
            if not ok:
                return ()
            n += 1
            self.looping(e, n)
            try:
                self.block(e.body, s, fr)
            except RBreak as b:
                if b.label is None or b.label == e.label:
                    return ()
                raise
            except RContinue as c:
                if c.label is not None and c.label != e.label:
                    raise

    def x_for(self, e, sc, fr, exp):
        src = self.expr(e.e, sc, fr)
        if self.loop_hook is not None:
            r = self.loop_hook(self, e, src, sc, fr)
            if r is not NotImplemented:
                return r
        ty = self.static(e.e, sc, fr)
        et = ty[1] if ty and ty[0] in ('vec', 'range', 'iter') else None
        for x in self.iterate_for(src):
            self.tick()
            s = Scope(sc)
            if not self.match(e.pat, x, s, fr, et):
                raise Undecided('for pattern')
            try:
                self.block(e.body, s, fr)
            except RBreak as b:
                if b.label is None or b.label == e.label:
                    return ()
                raise
            except RContinue as c:
                if c.label is not None and c.label != e.label:
                    raise
        return ()

    def iterate_for(self, src):
        if isinstance(src, Ref):
            u = self.strip(src)
            if isinstance(u, PList):
                return self.iter_mut(u)
            if isinstance(u, PDict):
                return iter([(k[0], self.pair_ref(k)) for k in (self.sorted_pairs(u) if isinstance(u, RMap) else u.pairs)])
            return self.iterate(u)
        return self.iterate(src)

    def pair_ref(self, p):
        return Ref(lambda: p[1], lambda x: p.__setitem__(1, x))

    def iter_mut(self, u):
        k = 0
        while self.has(u, k):
            yield (lambda k: Ref(lambda: u.items[k], lambda x: u.items.__setitem__(k, x)))(k)
            k += 1

    def x_break(self, e, sc, fr, exp):
        v = self.expr(e.e, sc, fr) if e.e is not None else ()
        raise RBreak(e.label, v)

    def x_continue(self, e, sc, fr, exp):
        raise RContinue(e.label)

    def x_return(self, e, sc, fr, exp):
        raise Return(self.expr(e.e, sc, fr, fr.ret) if e.e is not None else ())

    def x_try(self, e, sc, fr, exp):
        ex = None
        if fr.ret and fr.ret[0] == 'res':
            ex = ('res', exp, fr.ret[2])
        elif fr.ret and fr.ret[0] == 'opt':
            ex = ('opt', exp)
        v = self.strip(self.place_value(e.e, sc, fr) if e.e.kind in ('path', 'field', 'index', 'deref') else self.expr(e.e, sc, fr, ex))
        if not isinstance(v, Variant):
            raise Undecided(f'? on {type(v).__name__} at line {e.line}')
        if v.name in ('Some', 'Ok'):
            return v.args[0]
        if v.name == 'None':
            raise Return(none())
        raise Return(Variant(RESULT, 'Err', v.args))

    def x_range(self, e, sc, fr, exp):
        lo = self.strip(self.expr(e.lo, sc, fr)) if e.lo is not None else None
        hi = self.strip(self.expr(e.hi, sc, fr)) if e.hi is not None else None
        if isinstance(lo, str) and isinstance(hi, str):
            return RVec([chr(c) for c in range(ord(lo), ord(hi) + e.incl)])
        if e.incl and hi is not None:
            hi = T.add(hi, 1)
        if isinstance(lo, int) and isinstance(hi, int):
            return range(lo, hi)
        if lo is not None and hi is not None:
            return RSRange(lo, hi)
        return RRange(lo, hi)

    def x_closure(self, e, sc, fr, exp):
        return Closure(e, sc, fr)

    def x_macro(self, e, sc, fr, exp):
        n = e.name
        if n in ('println', 'eprintln', 'print', 'eprint', 'debug_assert', 'debug_assert_eq', 'debug_assert_ne', 'dbg'):
            return ()
        if n == 'assert':
            if not self.truth(self.expr(e.args[0], sc, fr)):
                self.panic('assertion')
            return ()
        if n in ('assert_eq', 'assert_ne'):
            c = self.truth(self.equal(self.expr(e.args[0], sc, fr), self.expr(e.args[1], sc, fr)))
            if c != (n == 'assert_eq'):
                self.panic('assertion')
            return ()
        if n in ('panic', 'unreachable', 'unimplemented', 'todo'):
            self.panic(n)
        if n == 'format':
            return self.fmt(e.args, sc, fr)
        if n in ('write', 'writeln'):
            f = self.strip(self.expr(e.args[0], sc, fr))
            s = self.fmt(e.args[1:], sc, fr)
            if not isinstance(f, StrBuf):
                raise Undecided('write! target')
            f.parts += str_parts(s) + (['\n'] if n == 'writeln' else [])
            return Variant(RESULT, 'Ok', [()])
        raise Undecided(f'macro {n}! at line {e.line}')

    def fmt(self, args, sc, fr):
        if not args:
            return ''
        spec = args[0].v
        pos = [a for a in args[1:] if a.kind != 'named']
        named = {a.name: a.e for a in args[1:] if a.kind == 'named'}
        out, k = [], 0
        for m in re.finditer(r'\{\{|\}\}|\{([^{}]*)\}|[^{}]+', spec):
            t = m.group(0)
            if t in ('{{', '}}'):
                out.append(t[0])
            elif t[0] != '{':
                out.append(t)
            else:
                name, _, opt = m.group(1).partition(':')
                name = name.strip()
                if name == '':
                    if k >= len(pos):
                        raise Undecided('format arguments')
                    v = self.expr(pos[k], sc, fr)
                    k += 1
                elif name.isdigit():
                    v = self.expr(pos[int(name)], sc, fr)
                elif name in named:
                    v = self.expr(named[name], sc, fr)
                else:
                    v = self.expr(N('path', 0, segs=[(name, [])]), sc, fr)
                if '?' in opt:
                    out += str_parts(Str([('debug', repr(self.strip(v)))]))
                    continue
                s = self.text(v)
                if opt:
                    mo = re.match(r'(.?[<>^])?(0)?(\d+)?$', opt)
                    if not mo or not isinstance(s, str):
                        raise Undecided('format options')
                    w = int(mo.group(3) or 0)
                    al = mo.group(1)
                    num = isinstance(self.strip(v), int)
                    if mo.group(2):
                        s = s.rjust(w, '0')
                    else:
                        fill = al[0] if al and len(al) == 2 else ' '
                        d = al[-1] if al else ('>' if num else '<')
                        s = {'<': s.ljust, '>': s.rjust, '^': s.center}[d](w, fill)
                out += str_parts(s)
        return mkstr(out)

    def text(self, v):
        """Display"""
        v = self.strip(v)
        if isinstance(v, (str, Str)):
            return v
        if isinstance(v, bool):
            return 'true' if v else 'false'
        if isinstance(v, int):
            return str(v)
        if isinstance(v, RChar):
            return Str([v])
        if isinstance(v, Term):
            if v.kind == 'bool':
                return 'true' if self.truth(v) else 'false'
            return Str([v])
        if isinstance(v, StrBuf):
            return v.value()
        if isinstance(v, (Obj, Variant)):
            m = self.find_method(v, 'fmt')
            if m is not None:
                b = StrBuf()
                self.call_fn(m[0], [v, b], selfty=m[1])
                return b.value()
        raise Undecided(f'display of {type(v).__name__}')

    # ------------------------------------------------------------ static types of expressions (as far as cheap)

    def static(self, e, sc, fr):
        k = e.kind
        if k == 'paren':
            return self.static(e.e, sc, fr)
        if k == 'path' and len(e.segs) == 1:
            b = sc.find(e.segs[0][0])
            if b is not None:
                if b.ty is None and b.v is not UNINIT:
                    return self.typeof(b.v)
                return b.ty
            it = self.crate.lookup(fr.mod, e.segs[0][0])
            if isinstance(it, tuple) and it[0] == 'const' and it[1].ty is not None:
                return self.rty(it[1].ty, Frame(it[2], {}, None))
            return None
        if k in ('ref', 'deref'):
            return self.static(e.e, sc, fr)
        if k == 'lit':
            if getattr(e, 'suf', ''):
                return ('int', e.suf)
            return {'bool': ('bool',), 'str': ('string',), 'char': ('char',)}.get(e.t)
        if k == 'cast':
            return self.rty(e.ty, fr)
        if k == 'field':
            t = self.static(e.e, sc, fr)
            if t and t[0] == 'rc':
                t = t[1]
            if t and t[0] == 'adt' and isinstance(t[1], RStruct) and e.name in t[1].ftypes:
                st = t[1]
                return self.rty(st.ftypes[e.name], Frame(st.mod, dict(zip(st.generics, t[2])) if t[2] else {}, t))
            if t and t[0] == 'tuple' and e.name.isdigit() and int(e.name) < len(t[1]):
                return t[1][int(e.name)]
            return None
        if k == 'index':
            t = self.static(e.e, sc, fr)
            if t and t[0] == 'vec':
                return t if e.i.kind == 'range' else t[1]
            if t and t[0] == 'map':
                return t[3]
            return None
        if k == 'bin':
            if e.op in ('==', '!=', '<', '>', '<=', '>=', '&&', '||'):
                return ('bool',)
            return self.static(e.l, sc, fr) or self.static(e.r, sc, fr)
        if k == 'unary':
            return self.static(e.e, sc, fr)
        if k == 'range':
            t = None
            for x in (e.lo, e.hi):
                if x is not None:
                    t = t or self.static(x, sc, fr)
            return ('range', t)
        if k == 'mcall':
            t = self.static(e.e, sc, fr)
            if t and t[0] == 'rc' and e.name != 'clone':
                t = t[1]
            if e.name in ('clone', 'min', 'max', 'abs', 'pow', 'copied', 'cloned', 'unsigned_abs', 'rem_euclid', 'iter', 'into_iter',
                          'to_vec', 'as_ref', 'as_mut', 'saturating_sub', 'wrapping_add', 'borrow', 'rev', 'skip', 'take', 'drain'):
                if e.name == 'unsigned_abs' and t and t[0] == 'int':
                    return ('int', 'u' + t[1][1:])
                if t and t[0] == 'cell':
                    return t[2]
                return t
            if e.name in ('len', 'count'):
                if t is None or t[0] != 'adt':
                    return ('int', 'usize')
            if t and t[0] == 'vec' and e.name in ('pop', 'first', 'last', 'get', 'first_mut', 'last_mut', 'get_mut'):
                return ('opt', t[1])
            if t and t[0] == 'map' and e.name in ('get', 'get_mut', 'remove', 'insert'):
                return ('opt', t[3])
            if t and t[0] == 'opt' and e.name in ('unwrap', 'expect', 'unwrap_or', 'unwrap_or_default'):
                return t[1]
            if t and t[0] in ('adt', 'map', 'vec'):
                m = self.find_in(t, e.name)
                if m is not None and m[0].node.ret is not None:
                    g = dict(zip(getattr(t[1], 'generics', []), t[2])) if t[0] == 'adt' else {}
                    return self.rty(m[0].node.ret, Frame(m[0].mod, g, t, None, m[0]))
            return None
        if k == 'call' and e.f.kind == 'path':
            try:
                f = self.path_value(e.f, sc, fr, None)
            except (Undecided, PyExc):
                return None
            if isinstance(f, BoundFn) and f.fn.node.ret is not None:
                return self.rty(f.fn.node.ret, Frame(f.fn.mod, f.generics or {}, f.selfty, None, f.fn))
            if isinstance(f, TypeFn) and f.name in ('from', 'new', 'default', 'with_capacity'):
                return f.ty
            return None
        if k == 'struct_lit':
            return self.rty_path(e.path.segs, fr)
        if k == 'tuple':
            return ('tuple', [self.static(x, sc, fr) for x in e.es])
        if k == 'if':
            return self.static(e.a.tail, sc, fr) if e.a.tail is not None and not e.a.stmts else None
        return None

    # ------------------------------------------------------------ calls

    def x_call(self, e, sc, fr, exp):
        if e.f.kind == 'path' and len(e.f.segs) == 1 and sc.find(e.f.segs[0][0]) is None:
            n = e.f.segs[0][0]
            if n in ('Some', 'Ok', 'Err') and len(e.args) == 1:
                ex = None
                if exp and exp[0] == 'opt' and n == 'Some':
                    ex = exp[1]
                if exp and exp[0] == 'res':
                    ex = exp[1] if n == 'Ok' else exp[2]
                v = self.expr(e.args[0], sc, fr, ex)
                return Variant(OPTION if n == 'Some' else RESULT, n, [v])
        f = self.expr(e.f, sc, fr) if e.f.kind != 'path' or len(e.f.segs) == 1 else self.path_value(e.f, sc, fr, exp)
        f = self.unref(f)
        tys = self.param_types(f, exp, fr)
        args = [self.expr(a, sc, fr, tys[k] if k < len(tys) else None) for k, a in enumerate(e.args)]
        return self.apply(f, args, exp, fr)

    def param_types(self, f, exp, fr):
        if isinstance(f, BoundFn):
            node = f.fn.node
            g = dict(f.generics or {})
            st = f.selfty
            if f.fn.impl is not None:
                g.update({k: v for k, v in self.impl_generics(f.fn.impl, None, st).items() if v is not None or k not in g})
                if st is None:
                    st = self.rty(f.fn.impl.node.ty, Frame(f.fn.mod, g, None))
            fr2 = Frame(f.fn.mod, g, st, None, f.fn)
            t = [self.rty(ty, fr2) for _, ty in node.params]
            return ([None] if node.selfp else []) + t
        if isinstance(f, Ctor) and getattr(f, 'struct', None) is not None:
            st = f.struct
            targs = self.targs_for(st, fr, exp)
            ffr = Frame(st.mod, targs, ('adt', st, [targs.get(n) for n in st.generics]))
            return [self.rty(st.ftypes[n], ffr) for n in st.fields]
        if isinstance(f, TypeFn) and f.name == 'from' and f.ty[0] in ('map', 'set', 'vec'):
            if f.ty[0] == 'map':
                return [('vec', ('tuple', [f.ty[2], f.ty[3]]))]
            return [('vec', f.ty[-1])]
        if isinstance(f, TypeFn) and f.name == 'new' and f.ty[0] in ('rc', 'cell'):
            return [f.ty[-1] if f.ty[-1] is not None else (exp[-1] if exp and exp[0] == f.ty[0] else None)]
        return []

    def apply(self, f, args, exp=None, fr=None):
        """Call any callable value."""
        f = self.unref(f)
        if isinstance(f, BoundFn):
            st = f.selfty
            return self.call_fn(f.fn, args, selfty=st, generics=f.generics, exp=exp)
        if isinstance(f, RFn):
            return self.call_fn(f, args, exp=exp)
        if isinstance(f, Ctor):
            return f.f(args)
        if isinstance(f, Closure):
            return self.call_closure(f, args, exp)
        if isinstance(f, TraitFn):
            return self.trait_call(f, args, exp, fr)
        if isinstance(f, TypeFn):
            return self.type_call(f.ty, f.name, args, exp, fr)
        if isinstance(f, tuple) and f and f[0] == 'std':
            return self.std_call(f[1], args, exp, fr)
        if isinstance(f, Fake) and f.attr is not None:
            g = f.attr(self, '()')
            if g is not None:
                return g(self, args)
        if callable(f):
            return f(self, args)
        raise Undecided(f'call of {type(f).__name__}')

    def call_closure(self, f, args, exp=None):
        sc = Scope(f.scope)
        ps = f.node.params
        if len(ps) != len(args):
            raise Undecided('closure arity')
        for (pat, ty), v in zip(ps, args):
            t = self.rty(ty, f.frame) if ty is not None else None
            if not self.match(pat, v, sc, f.frame, t):
                raise Undecided('closure pattern')
        self.depth += 1
        try:
            if self.depth > 120:
                raise Cut('call depth')
            fr = Frame(f.frame.mod, f.frame.generics, f.frame.selfty, self.rty(f.node.ret, f.frame) if f.node.ret is not None else exp,
                       f.frame.fn)
            fr.items = f.frame.items
            return self.expr(f.node.body, sc, fr, fr.ret)
        except Return as e:
            return e.v
        finally:
            self.depth -= 1

    def trait_call(self, f, args, exp, fr):
        node = f.trait.methods.get(f.name)
        if node is None:
            raise Undecided(f'{f.trait.name}::{f.name}')
        if node.node.selfp:
            return self.mcall(args[0], f.name, args[1:], exp)
        ty = exp
        if ty is None or ty[0] != 'adt':
            # a generic of the enclosing function bounded by the trait
            cands = []
            if fr is not None:
                for n, v in fr.generics.items():
                    if v is not None and self.find_in(v, f.name, f.trait.name):
                        cands.append(v)
            if len(cands) == 1:
                ty = cands[0]
            else:
                impls = [im for im in self.crate.impls if im.node.trait is not None and tyname(im.node.trait) == f.trait.name]
                if len(impls) == 1:
                    ty = self.rty(impls[0].node.ty, Frame(impls[0].mod, {n: None for n, _ in impls[0].node.generics}, None))
        if ty is None:
            raise Undecided(f'{f.trait.name}::{f.name}: Self unknown')
        m = self.find_in(ty, f.name, f.trait.name)
        if m is None:
            raise Undecided(f'{f.trait.name}::{f.name} not implemented')
        return self.call_fn(m[0], args, selfty=ty, exp=exp)

    def default(self, ty):
        if ty is None:
            raise Undecided('default of an unknown type')
        k = ty[0]
        if k == 'int':
            return 0
        if k == 'bool':
            return False
        if k == 'vec':
            return RVec([], None, ty[1])
        if k == 'map':
            return RMap([], ty[1], ty[2], ty[3])
        if k == 'set':
            return RSet([], ty[1], ty[2])
        if k == 'opt':
            return none()
        if k == 'string':
            return ''
        if k == 'tuple':
            return tuple(self.default(t) for t in ty[1])
        if k == 'adt':
            m = self.find_in(ty, 'default')
            if m is not None:
                return self.call_fn(m[0], [], selfty=ty)
            if isinstance(ty[1], RStruct) and 'Default' in ty[1].derives:
                st = ty[1]
                o = Obj(st, {n: self.default(self.rty(st.ftypes[n], Frame(st.mod, dict(zip(st.generics, ty[2])), ty))) for n in st.fields})
                o.targs = dict(zip(st.generics, ty[2]))
                return o
        raise Undecided(f'default of {k}')

    def type_call(self, ty, name, args, exp, fr):
        """An associated function of a library type (or Type::method with an explicit receiver)."""
        k = ty[0]
        if name in ('new', 'with_capacity', 'default') and k in ('vec', 'map', 'set', 'string', 'opt', 'int', 'bool', 'adt'):
            if exp and exp[0] == k and k in ('vec', 'map', 'set') and ty[-1] is None:
                ty = exp
            if k == 'string':
                return StrBuf()
            return self.default(ty)
        if k == 'rc':
            if name == 'new':
                return RcBox(args[0])
            if name == 'clone':
                v = self.unref(args[0])
                return v if isinstance(v, RcBox) else RcBox(v)
            if name in ('try_unwrap', 'unwrap_or_clone', 'into_inner'):
                v = self.unref(args[0]).v
                return Variant(RESULT, 'Ok', [v]) if name == 'try_unwrap' else v
            if name == 'ptr_eq':
                return self.unref(args[0]) is self.unref(args[1])
        if k == 'cell' and name == 'new':
            return CellBox(args[0], ty[1])
        if k == 'other' and ty[1] == 'Box' and name == 'new':
            return args[0]
        if name == 'new' and k is None:
            return args[0]
        if name == 'from':
            return self.into(args[0], ty)
        if name == 'from_iter':
            return self.collect(self.iterate(args[0]), ty)
        if name == 'try_from' and k == 'int':
            v = self.strip(args[0])
            bits, signed = INT[ty[1]]
            lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if signed else (0, 2 ** bits - 1)
            if isinstance(v, int):
                return Variant(RESULT, 'Ok', [v]) if lo <= v <= hi else Variant(RESULT, 'Err', [()])
            if self.truth(T.le(lo, v)) and self.truth(T.le(v, hi)):
                return Variant(RESULT, 'Ok', [v])
            return Variant(RESULT, 'Err', [()])
        if args:
            return self.mcall(args[0], name, args[1:], exp, ty=ty)
        raise Undecided(f'{k}::{name}')

    def std_call(self, name, args, exp, fr):
        last = name.split('::')[-1]
        q = name.split('::')[-2] if '::' in name else ''
        if last == 'once':
            return RIter([args[0]])
        if last == 'empty':
            return RIter([])
        if last in ('repeat', 'repeat_n', 'repeat_with', 'from_fn', 'successors'):
            if last == 'repeat':
                return RIter(self.forever(args[0]))
            if last == 'repeat_n':
                return RIter(itertools.islice(self.forever(args[0]), self.index_of(self.strip(args[1]))))
            if last == 'repeat_with':
                return RIter(self.calls_forever(args[0]))
            if last == 'from_fn':
                return RIter(self.from_fn(args[0]))
            return RIter(self.successors(args[0], args[1]))
        if last in ('max', 'min') and len(args) == 2:
            return self.minmax2(last, args[0], args[1])
        if last == 'zip' and len(args) == 2:
            return self.mcall(self.mcall(args[0], 'into_iter', []), 'zip', [args[1]])
        if last == 'swap':
            a, b = args[0].get(), args[1].get()
            args[0].set(b)
            args[1].set(a)
            return ()
        if last in ('replace', 'take'):
            old = args[0].get()
            if last == 'replace':
                args[0].set(args[1])
            else:
                t = self.typeof(old)
                if t is None and isinstance(old, (int, Term)):
                    t = ('int', 'u64')
                args[0].set(self.default(t))
            return old
        if last == 'drop':
            return ()
        if last == 'identity':
            return args[0]
        if last in ('into', 'from', 'to_string', 'clone', 'into_iter', 'next', 'cmp', 'is_some', 'is_none', 'as_ref', 'eq', 'to_owned',
                    'len', 'unwrap', 'not', 'is_empty', 'default', 'rev') or q in ('Iterator', 'Option', 'ToString', 'Into', 'Clone', 'From'):
            if last == 'default':
                return self.default(exp)
            if last == 'from' and len(args) == 1:
                return self.into(args[0], exp)
            return self.mcall(args[0], last, args[1:], exp)
        raise Undecided(f'library function {name}')

    def forever(self, v):
        while True:
            yield self.clone(v)

    def calls_forever(self, f):
        while True:
            yield self.apply(f, [])

    def from_fn(self, f):
        n = 0
        while True:
            r = self.apply(f, [])
            if r.name == 'None':
                return
            n += 1
            if n > self.max_iter * 4:
                raise Cut('iterator bound')
            yield r.args[0]

    def successors(self, first, f):
        cur = self.strip(first)
        while cur.name == 'Some':
            yield cur.args[0]
            cur = self.strip(self.apply(f, [cur.args[0]]))

    def minmax2(self, which, a, b):
        a, b = self.strip(a), self.strip(b)
        if isinstance(a, int) and isinstance(b, int):
            return max(a, b) if which == 'max' else min(a, b)
        less = self.truth(self.compare('<=', a, b))
        # equal operands: max gives the second, min the first
        if which == 'max':
            return b if less else a
        return a if less else b

    def into_target(self, u):
        """The one type of the crate a value can be converted to, where the context does not say."""
        if not isinstance(u, Obj) or not isinstance(u.cls, RStruct):
            return None
        src = self.typeof(u)
        out = []
        for im in self.crate.impls:
            if im.node.trait is None or tyname(im.node.trait) != 'From':
                continue
            gen = dict(im.node.generics)
            a = im.node.trait.segs[-1][1][0]
            while a.kind == 'tref':
                a = a.ty
            if a.kind == 'tpath' and len(a.segs) == 1 and a.segs[0][0] in gen:
                need = [tyname(b) for b in gen[a.segs[0][0]]]
                have = {tyname(x.node.trait) for x in self.crate.impls if x.node.trait is not None and self.impl_head(x) == self.head(src)}
                if not all(n in have for n in need):
                    continue
            else:
                t = self.rty(a, Frame(im.mod, {n: None for n in gen}, None))
                if self.head(t) != self.head(src):
                    continue
            out.append(self.rty(im.node.ty, Frame(im.mod, {n: None for n in gen}, None)))
        if len(out) > 1:
            raise Undecided('conversion to an unknown type')
        return out[0] if out else None

    def into(self, v, ty):
        u = self.unref(v)
        if ty is None:
            ty = self.into_target(u)
            if ty is None:
                return u
        k = ty[0]
        if k == 'int':
            if isinstance(u, Term) and u.kind == 'bool':
                return int(self.truth(u))
            if isinstance(u, bool):
                return int(u)
            if isinstance(u, (str, RChar)):
                return self.code(u)
            return u
        if k == 'adt':
            src = self.typeof(u)
            cands = []
            for im in self.crate.impls:
                if im.node.trait is not None and tyname(im.node.trait) == 'From' and self.impl_head(im) == self.head(ty):
                    cands.append(im)
            if len(cands) > 1:
                def ok(im):
                    a = im.node.trait.segs[-1][1][0]
                    t = self.rty(a, Frame(im.mod, {n: None for n, _ in im.node.generics}, None))
                    return t is None or self.head(t) == self.head(src)
                cands = [c for c in cands if ok(c)]
            if cands:
                return self.call_fn(cands[0].methods['from'], [u], selfty=ty)
            if src is not None and self.head(src) == self.head(ty):
                return u
            # into() implemented by the source
            raise Undecided('conversion')
        if k in ('vec', 'map', 'set'):
            if isinstance(u, (PList, PDict, PSet)) and k == 'vec' and isinstance(u, PList):
                return self.clone(u) if isinstance(v, Ref) else u
            return self.collect(self.iterate(u), ty)
        if k == 'string':
            return self.text(u)
        if k == 'opt':
            return u if isinstance(u, Variant) and u.enum == OPTION else some(u)
        if k == 'rc':
            return RcBox(u)
        return u

    def collect(self, it, ty):
        if ty is None or ty[0] == 'other':
            return RVec(list(it))
        k = ty[0]
        if k == 'vec':
            return RVec(list(it), None, ty[1])
        if k == 'map':
            d = RMap([], ty[1], ty[2], ty[3])
            for p in it:
                p = self.strip(p)
                self.setitem(d, p[0], p[1])
            return d
        if k == 'set':
            s = RSet([], ty[1], ty[2])
            for x in it:
                self.set_add(s, self.unref(x))
            return s
        if k == 'string':
            parts = []
            for x in it:
                parts += str_parts(self.text(x))
            return mkstr(parts)
        if k in ('opt', 'res'):
            out = []
            for x in it:
                x = self.strip(x)
                if x.name in ('None', 'Err'):
                    return Variant(x.enum, x.name, x.args)
                out.append(x.args[0])
            r = self.collect(iter(out), ty[1])
            return some(r) if k == 'opt' else Variant(RESULT, 'Ok', [r])
        if k == 'adt':
            m = self.find_in(ty, 'from_iter')
            if m is not None:
                return self.call_fn(m[0], [RIter(it)], selfty=ty)
        raise Undecided(f'collect into {k}')

    def x_mcall(self, e, sc, fr, exp):
        if e.e.kind in ('path', 'field', 'index', 'deref', 'paren'):
            if e.e.kind == 'path' and (len(e.e.segs) > 1 or sc.find(e.e.segs[0][0]) is None):
                recv = self.expr(e.e, sc, fr)
            else:
                recv = self.place(e.e, sc, fr)
                v = recv.get()
                if v is UNINIT:
                    raise Undecided('use before initialisation')
                if isinstance(v, Ref):
                    recv = v
        else:
            ex = None
            if e.name in ('unwrap', 'expect', 'unwrap_or_default') and exp is not None:
                ex = ('opt', exp)
            recv = self.expr(e.e, sc, fr, ex)
        u = self.strip(recv)
        targs = [self.rty(t, fr) for t in e.targs]
        # a field holding a function is called as (self.f)(x); methods only here
        m = self.user_method(recv, e.name)
        if m is not None:
            fn, selfty, obj = m
            g = {}
            if fn.impl is not None:
                g = self.impl_generics(fn.impl, self.strip(obj), selfty)
            if targs:
                g.update({n: t for (n, _), t in zip(fn.node.generics, targs)})
            fr2 = Frame(fn.mod, g, selfty, None, fn)
            tys = [self.rty(t, fr2) for _, t in fn.node.params]
            args = [self.expr(a, sc, fr, tys[k] if k < len(tys) else None) for k, a in enumerate(e.args)]
            return self.call_fn(fn, [obj] + args, selfty=selfty, generics={n: t for (n, _), t in zip(fn.node.generics, targs)} if targs else None,
                                exp=exp)
        at = self.arg_types(recv, u, e.name)
        st = self.static(e.e, sc, fr) if e.name in ('checked_sub', 'checked_add', 'checked_mul', 'checked_neg', 'checked_div', 'saturating_sub',
                                                     'wrapping_sub', 'abs', 'checked_pow', 'is_negative', 'is_positive') else None
        args = [self.expr(a, sc, fr, at[k] if k < len(at) else None) for k, a in enumerate(e.args)]
        if st is not None and st[0] != 'int':
            st = None
        if st is None and e.args and e.name.startswith(('checked', 'saturating', 'wrapping')):
            st = self.static(e.args[0], sc, fr)
        return self.mcall(recv, e.name, args, exp, targs, st, frame=fr)

    def arg_types(self, recv, u, name):
        if isinstance(u, RMap) and name in ('insert', 'entry', 'get', 'contains_key', 'remove'):
            return [u.kty, u.vty]
        if isinstance(u, RVec) and name in ('push', 'insert', 'extend', 'resize'):
            return [u.ty] if name == 'push' else [None, u.ty] if name in ('insert', 'resize') else [('vec', u.ty)]
        if isinstance(u, RSet) and name in ('insert', 'contains'):
            return [u.ty]
        return []

    def user_method(self, recv, name):
        """(function, Self type, receiver) of a method the crate defines for the receiver."""
        v = recv
        while True:
            u = self.unref(v)
            if isinstance(u, (Obj, Variant, PDict, PList, PSet, RcBox, CellBox)) and not isinstance(u, Fake):
                m = self.find_method(u, name)
                if m is not None:
                    if name in ('clone', 'eq', 'ne', 'hash', 'to_string') and m[0].node.body is None:
                        return None
                    return m[0], m[1], v
            if isinstance(u, RcBox):
                v = u.v
                continue
            if isinstance(u, (int, Term, str, tuple)) and not isinstance(u, bool):
                for im in self.crate.impls:
                    if name in im.methods and self.head_matches(im, u):
                        return im.methods[name], None, v
            return None

    def head_matches(self, im, u):
        t = im.node.ty
        h = self.head(self.rty(t, Frame(im.mod, {}, None)))
        if isinstance(u, tuple):
            return h == 'tuple'
        if isinstance(u, str):
            return h == 'string'
        return h == 'int'

    # ------------------------------------------------------------ library methods

    def mcall(self, recv, name, args, exp=None, targs=(), st=None, ty=None, frame=None):
        m = self.user_method(recv, name)
        if m is not None:
            return self.call_fn(m[0], [m[2]] + list(args), selfty=m[1], exp=exp)
        u = self.unref(recv)
        if name == 'clone' or name == 'to_owned' and not isinstance(u, Variant):
            return self.clone(u)
        if isinstance(u, RcBox):
            if name in ('as_ref', 'borrow', 'deref'):
                return u.v
            return self.mcall(u.v, name, args, exp, targs, st, ty, frame)
        if name in ('borrow', 'borrow_mut', 'lock', 'get', 'set', 'replace', 'take', 'into_inner', 'get_mut', 'update', 'read', 'write') and isinstance(u, CellBox):
            return self.cell_method(u, name, args)
        if isinstance(u, Fake):
            f = getattr(u, 'methods', {}).get(name) or (u.attr(self, name) if u.attr is not None else None)
            if f is None:
                raise Undecided(f'{u.name}.{name}')
            return f(self, args)
        if name in ('into',):
            return self.into(u, exp if exp is not None else (targs[0] if targs else None))
        if name in ('iter', 'into_iter', 'par_iter', 'into_par_iter', 'iter_mut', 'par_iter_mut', 'by_ref', 'drain', 'values', 'keys', 'values_mut',
                    'into_values', 'into_keys') or isinstance(u, (RIter, range, SRange, RRange)):
            r = self.iter_method(recv, u, name, args, exp, targs)
            if r is not NotImplemented:
                return r
        if name in ('eq', 'ne'):
            c = self.equal(u, args[0])
            return c if name == 'eq' else T.lnot(c)
        if name in ('lt', 'le', 'gt', 'ge'):
            return self.compare({'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[name], u, args[0])
        if name in ('cmp', 'partial_cmp', 'total_cmp'):
            o = Variant(ORDERING, {-1: 'Less', 0: 'Equal', 1: 'Greater'}[self.ordering(u, args[0])])
            return some(o) if name == 'partial_cmp' else o
        if name in ('borrow', 'borrow_mut', 'as_ref', 'as_mut', 'deref', 'as_slice', 'as_str', 'as_mut_slice', 'as_deref', 'as_deref_mut', 'to_owned') \
                and not isinstance(u, Variant):
            return recv if name in ('borrow_mut', 'as_mut') else u
        if name == 'to_string':
            return self.text(u)
        if isinstance(u, Variant):
            return self.variant_method(recv, u, name, args, exp)
        if isinstance(u, PList):
            return self.vec_method(recv, u, name, args, exp, targs)
        if isinstance(u, PDict):
            return self.map_method(u, name, args, exp)
        if isinstance(u, PSet):
            return self.set_method(u, name, args, exp)
        if isinstance(u, bool) or isinstance(u, Term) and u.kind == 'bool':
            if name == 'then':
                return some(self.apply(args[0], [])) if self.truth(u) else none()
            if name == 'then_some':
                return some(args[0]) if self.truth(u) else none()
            if name == 'not':
                return T.lnot(u)
            if name in ('min', 'max'):
                return T.land(u, args[0]) if name == 'min' else T.lor(u, args[0])
        if isinstance(u, (int, Term, float)):
            return self.int_method(u, name, args, st)
        if isinstance(u, (str, Str, StrBuf)):
            return self.str_method(recv, u, name, args, exp)
        if isinstance(u, RChar):
            return self.char_method(u, name, args)
        if isinstance(u, tuple) and name in ('max', 'min'):
            return self.minmax2(name, u, args[0])
        if isinstance(u, Entry):
            return self.entry_method(u, name, args)
        if isinstance(u, Obj) and isinstance(u.cls, RStruct):
            if self.find_method(u, 'next') is not None:
                return self.iter_method(recv, RIter(self.iterate(u)), name, args, exp, targs)
        raise Undecided(f'method {name} on {type(u).__name__}')

    def cell_method(self, u, name, args):
        if name in ('borrow', 'get') and u.kind != 'Mutex':
            return self.copied(u.v) if name == 'get' else u.v
        if name in ('borrow_mut', 'get_mut'):
            return Ref(lambda: u.v, lambda x: setattr(u, 'v', x))
        if name in ('lock', 'read', 'write'):
            return Variant(RESULT, 'Ok', [Ref(lambda: u.v, lambda x: setattr(u, 'v', x))])
        if name == 'set':
            u.v = args[0]
            return ()
        if name == 'replace':
            old, u.v = u.v, args[0]
            return old
        if name == 'take':
            old, u.v = u.v, self.default(self.typeof(u.v) or ('int', 'u64'))
            return old
        if name == 'update':
            u.v = self.apply(args[0], [u.v])
            return ()
        if name == 'into_inner':
            return Variant(RESULT, 'Ok', [u.v]) if u.kind == 'Mutex' else u.v
        raise Undecided(name)

    def iter_of(self, recv, u, name):
        """A Python iterator over what `name` iterates."""
        if name in ('iter_mut', 'par_iter_mut') or name == 'into_iter' and isinstance(recv, Ref) and isinstance(u, PList):
            if name == 'into_iter':
                return self.iterate(u)
            if isinstance(u, PDict):
                return iter([(p[0], self.pair_ref(p)) for p in (self.sorted_pairs(u) if isinstance(u, RMap) else u.pairs)])
            if isinstance(u, Variant):
                return iter([Ref(lambda: u.args[0], lambda x: u.args.__setitem__(0, x))] if u.name == 'Some' else [])
            return self.iter_mut(u)
        if name in ('values', 'into_values'):
            return iter([p[1] for p in (self.sorted_pairs(u) if isinstance(u, RMap) else u.pairs)])
        if name in ('keys', 'into_keys'):
            return iter([p[0] for p in (self.sorted_pairs(u) if isinstance(u, RMap) else u.pairs)])
        if name == 'values_mut':
            return iter([self.pair_ref(p) for p in (self.sorted_pairs(u) if isinstance(u, RMap) else u.pairs)])
        return self.iterate(u)

    def call_bool(self, f, args):
        return self.truth(self.apply(f, args, ('bool',)))

    def iter_method(self, recv, u, name, args, exp, targs):
        ap = self.apply
        if name in ('iter', 'into_iter', 'par_iter', 'into_par_iter', 'iter_mut', 'par_iter_mut', 'values', 'keys', 'values_mut', 'into_values',
                    'into_keys'):
            if isinstance(u, RIter):
                return u
            return RIter(self.iter_of(recv, u, name))
        if name == 'drain':
            if isinstance(u, PList):
                sl = args[0]
                lo, hi = self.bounds(u, sl)
                out = u.items[lo:hi] if hi is not None else u.items[lo:]
                if hi is None and u.tail is not None:
                    self.length(u)
                    out = u.items[lo:]
                del u.items[lo:hi if hi is not None else len(u.items)]
                return RIter(out)
            if isinstance(u, PDict):
                out = [tuple(p) for p in u.pairs]
                u.pairs[:] = []
                return RIter(out)
            if isinstance(u, PSet):
                out = list(u.items)
                u.items[:] = []
                return RIter(out)
        if name == 'by_ref':
            return recv
        if isinstance(u, (range, SRange, RRange)):
            if name == 'contains':
                x = self.strip(args[0])
                lo, hi = self.range_ends(u)
                c = True
                if lo is not None:
                    c = T.land(c, self.compare('<=', lo, x))
                if hi is not None:
                    c = T.land(c, self.compare('<', x, hi))
                return c
            if name == 'len' and isinstance(u, range):
                return len(u)
            if name == 'is_empty':
                lo, hi = self.range_ends(u)
                return T.le(hi, lo)
            if name == 'rev' and isinstance(u, range):
                return RIter(iter(reversed(u)))
            if name == 'rev' and isinstance(u, SRange):
                return RIter(self.rev_range(u))
            if name == 'clone':
                return u
            if name == 'step_by' and isinstance(u, range):
                return RIter(iter(range(u.start, u.stop, self.index_of(self.strip(args[0])))))
            if name == 'step_by' and isinstance(u, SRange):
                return RIter(self.step_range(u, self.strip(args[0])))
            it = self.iterate(u)
            if name == 'next' and isinstance(recv, Ref):
                raise Undecided('next on a range')
            u = RIter(it)
        if not isinstance(u, RIter):
            return NotImplemented
        it = u
        if name == 'next':
            for x in it:
                return some(x)
            return none()
        if name == 'next_back':
            rest = it.rest()
            if not rest:
                return none()
            it.buf = rest[:-1]
            return some(rest[-1])
        if name == 'map':
            return RIter(ap(args[0], [x]) for x in it)
        if name == 'filter':
            return RIter(x for x in it if self.call_bool(args[0], [x]))
        if name == 'filter_map':
            return RIter(y for x in it for y in self.opt_items(ap(args[0], [x])))
        if name == 'flat_map':
            return RIter(y for x in it for y in self.iterate(ap(args[0], [x])))
        if name == 'flatten':
            return RIter(y for x in it for y in self.iterate(x))
        if name == 'enumerate':
            return RIter(enumerate(it))
        if name == 'zip':
            return RIter(self.zip2(it, args[0]))
        if name == 'chain':
            return RIter(itertools.chain(it, self.lazy_iter(args[0])))
        if name == 'take':
            n = self.strip(args[0])
            return RIter(self.take_n(it, n))
        if name == 'skip':
            return RIter(self.skip_n(it, self.strip(args[0])))
        if name == 'step_by':
            return RIter(itertools.islice(it, 0, None, self.index_of(self.strip(args[0]))))
        if name == 'take_while':
            return RIter(itertools.takewhile(lambda x: self.call_bool(args[0], [x]), it))
        if name == 'skip_while':
            return RIter(itertools.dropwhile(lambda x: self.call_bool(args[0], [x]), it))
        if name == 'map_while':
            return RIter(self.map_while(it, args[0]))
        if name == 'inspect':
            return RIter(self.inspect(it, args[0]))
        if name == 'scan':
            return RIter(self.scan(it, args[0], args[1]))
        if name == 'rev':
            return RIter(iter(list(reversed(it.rest()))))
        if name in ('copied', 'cloned'):
            return RIter((self.copied(self.unref(x)) if name == 'copied' else self.clone(x)) for x in it)
        if name in ('fuse', 'peekable', 'by_ref'):
            return it
        if name == 'peek':
            for x in it:
                it.buf.insert(0, x)
                return some(x)
            return none()
        if name == 'next_if':
            for x in it:
                if self.call_bool(args[0], [x]):
                    return some(x)
                it.buf.insert(0, x)
                break
            return none()
        if name == 'cycle':
            return RIter(itertools.cycle(list(it)))
        if name == 'all':
            for x in it:
                if not self.call_bool(args[0], [x]):
                    return False
            return True
        if name == 'any':
            for x in it:
                if self.call_bool(args[0], [x]):
                    return True
            return False
        if name in ('find', 'find_any', 'find_first'):
            for x in it:
                if self.call_bool(args[0], [x]):
                    return some(x)
            return none()
        if name == 'find_map':
            for x in it:
                r = self.strip(ap(args[0], [x]))
                if r.name == 'Some':
                    return r
            return none()
        if name == 'position':
            for k, x in enumerate(it):
                if self.call_bool(args[0], [x]):
                    return some(k)
            return none()
        if name == 'rposition':
            rest = it.rest()
            for k in range(len(rest) - 1, -1, -1):
                if self.call_bool(args[0], [rest[k]]):
                    return some(k)
            return none()
        if name in ('fold', 'rfold'):
            acc = args[0]
            for x in (it if name == 'fold' else reversed(it.rest())):
                acc = ap(args[1], [acc, x])
            return acc
        if name == 'try_fold':
            acc = args[0]
            for x in it:
                r = self.strip(ap(args[1], [acc, x]))
                if r.name in ('None', 'Err'):
                    return r
                acc = r.args[0]
            return some(acc) if exp and exp[0] == 'opt' else Variant(RESULT if exp and exp[0] == 'res' else OPTION, 'Ok' if exp and exp[0] == 'res' else 'Some', [acc])
        if name in ('try_for_each',):
            for x in it:
                r = self.strip(ap(args[0], [x]))
                if r.name in ('None', 'Err'):
                    return r
            return some(())
        if name == 'reduce':
            acc = None
            for x in it:
                acc = x if acc is None else ap(args[0], [acc, x])
            return none() if acc is None else some(acc)
        if name in ('sum', 'product'):
            acc = 0 if name == 'sum' else 1
            for x in it:
                acc = self.rbin('+' if name == 'sum' else '*', acc, self.strip(x))
            return acc
        if name == 'count':
            return sum(1 for _ in it)
        if name == 'last':
            r = none()
            for x in it:
                r = some(x)
            return r
        if name == 'nth':
            n = self.index_of(self.strip(args[0]))
            for k, x in enumerate(it):
                if k == n:
                    return some(x)
            return none()
        if name in ('min', 'max', 'min_by_key', 'max_by_key', 'min_by', 'max_by'):
            return self.extremum(name, list(it), args)
        if name == 'collect':
            return self.collect(it, targs[0] if targs and targs[0] is not None and not (targs[0][0] == 'vec' and targs[0][1] is None and exp and exp[0] == 'vec') else (exp if not targs else targs[0]))
        if name == 'for_each':
            for x in it:
                ap(args[0], [x])
            return ()
        if name == 'partition':
            a, b = [], []
            for x in it:
                (a if self.call_bool(args[0], [x]) else b).append(x)
            tys = exp[1] if exp and exp[0] == 'tuple' else [None, None]
            return (self.collect(iter(a), tys[0]), self.collect(iter(b), tys[1]))
        if name == 'unzip':
            ps = [self.strip(x) for x in it]
            tys = exp[1] if exp and exp[0] == 'tuple' else [None, None]
            return (self.collect(iter([p[0] for p in ps]), tys[0]), self.collect(iter([p[1] for p in ps]), tys[1]))
        if name == 'len':
            rest = it.rest()
            it.buf = rest
            return len(rest)
        if name in ('eq', 'ne'):
            c = self.equal(RVec(it.rest()), RVec(list(self.iterate(args[0]))))
            return c if name == 'eq' else T.lnot(c)
        if name == 'size_hint':
            raise Undecided('size_hint')
        if name == 'sorted':
            return RIter(iter(self.sorted_by(list(it), lambda x: self.strip(x))))
        if name == 'as_str':
            return mkstr([p for x in it.rest() for p in str_parts(self.text(x))])
        return NotImplemented

    def lazy_iter(self, v):
        yield from self.iterate(v)

    def range_ends(self, r):
        if isinstance(r, range):
            return r.start, r.stop
        return r.lo, r.hi

    def rev_range(self, r):
        hi, n = r.hi, 0
        while self.decide(T.lt(r.lo, hi)):
            hi = T.sub(hi, 1)
            n += 1
            if n > self.max_iter:
                raise Cut('range bound')
            yield hi

    def step_range(self, r, k):
        x, n = r.lo, 0
        while self.decide(T.lt(x, r.hi)):
            yield x
            x = T.add(x, k)
            n += 1
            if n > self.max_iter:
                raise Cut('range bound')

    def opt_items(self, r):
        r = self.strip(r)
        return [r.args[0]] if r.name == 'Some' else []

    def zip2(self, a, b):
        b = self.iterate_for(b) if isinstance(b, Ref) else self.iterate(b)
        for x in a:
            for y in b:
                yield (x, y)
                break
            else:
                return

    def take_n(self, it, n):
        k = 0
        while True:
            if isinstance(n, int):
                if k >= n:
                    return
            elif not self.decide(T.lt(k, n)):
                return
            k += 1
            if not isinstance(n, int) and k > self.max_iter:
                raise Cut('take bound')
            for x in it:
                yield x
                break
            else:
                return

    def skip_n(self, it, n):
        k = 0
        for x in it:
            if isinstance(n, int) and k < n or not isinstance(n, int) and self.decide(T.lt(k, n)):
                k += 1
                continue
            yield x

    def map_while(self, it, f):
        for x in it:
            r = self.strip(self.apply(f, [x]))
            if r.name == 'None':
                return
            yield r.args[0]

    def inspect(self, it, f):
        for x in it:
            self.apply(f, [x])
            yield x

    def scan(self, it, init, f):
        w = [init]
        st = Ref(lambda: w[0], lambda x: w.__setitem__(0, x))
        for x in it:
            r = self.strip(self.apply(f, [st, x]))
            if r.name == 'None':
                return
            yield r.args[0]

    def extremum(self, name, items, args):
        if not items:
            return none()
        key = (lambda x: self.strip(self.apply(args[0], [x]))) if name.endswith('key') else (lambda x: self.strip(x))
        best, bk = items[0], key(items[0]) if not name.endswith('_by') else None
        for x in items[1:]:
            if name.endswith('_by'):
                o = self.strip(self.apply(args[0], [best, x])).name
                if name == 'min_by' and o == 'Greater' or name == 'max_by' and o in ('Less', 'Equal'):
                    best = x
                continue
            k = key(x)
            if name.startswith('min'):
                if self.truth(self.compare('<', k, bk)):
                    best, bk = x, k
            elif self.truth(self.compare('<=', bk, k)):
                best, bk = x, k
        return some(best)

    def variant_method(self, recv, u, name, args, exp):
        ap = self.apply
        pos = u.name in ('Some', 'Ok')
        opt = u.enum == OPTION
        if u.enum == ORDERING:
            if name == 'reverse':
                return Variant(ORDERING, {'Less': 'Greater', 'Greater': 'Less'}.get(u.name, u.name))
            if name in ('is_lt', 'is_le', 'is_gt', 'is_ge', 'is_eq', 'is_ne'):
                return {'is_lt': u.name == 'Less', 'is_le': u.name != 'Greater', 'is_gt': u.name == 'Greater', 'is_ge': u.name != 'Less',
                        'is_eq': u.name == 'Equal', 'is_ne': u.name != 'Equal'}[name]
            if name in ('then', 'then_with'):
                return u if u.name != 'Equal' else (args[0] if name == 'then' else ap(args[0], []))
        if u.enum not in (OPTION, RESULT):
            if name in ('eq', 'ne'):
                return self.equal(u, args[0])
            raise Undecided(f'{name} on {u.name}')
        if name in ('is_some', 'is_ok'):
            return pos
        if name in ('is_none', 'is_err'):
            return not pos
        if name in ('is_some_and', 'is_ok_and'):
            return pos and ap(args[0], [u.args[0]])
        if name == 'is_none_or':
            return not pos or ap(args[0], [u.args[0]])
        if name in ('unwrap', 'expect', 'unwrap_unchecked'):
            if not pos:
                self.panic(f'{name} on {u.name}')
            return u.args[0]
        if name == 'unwrap_err':
            if pos:
                self.panic('unwrap_err')
            return u.args[0]
        if name == 'unwrap_or':
            return u.args[0] if pos else args[0]
        if name == 'unwrap_or_else':
            return u.args[0] if pos else ap(args[0], [] if opt else [u.args[0]], exp)
        if name == 'unwrap_or_default':
            return u.args[0] if pos else self.default(exp)
        if name == 'map':
            return Variant(u.enum, u.name, [ap(args[0], [u.args[0]])]) if pos else u
        if name == 'map_err':
            return u if pos else Variant(u.enum, u.name, [ap(args[0], [u.args[0]])])
        if name == 'map_or':
            return ap(args[1], [u.args[0]]) if pos else args[0]
        if name == 'map_or_else':
            return ap(args[1], [u.args[0]]) if pos else ap(args[0], [] if opt else [u.args[0]])
        if name == 'and_then':
            return ap(args[0], [u.args[0]]) if pos else u
        if name == 'and':
            return args[0] if pos else u
        if name == 'or':
            return u if pos else args[0]
        if name == 'or_else':
            return u if pos else ap(args[0], [] if opt else [u.args[0]])
        if name == 'xor':
            o = self.strip(args[0])
            return u if pos and o.name == 'None' else o if not pos and o.name == 'Some' else none()
        if name == 'filter':
            return u if pos and self.call_bool(args[0], [u.args[0]]) else none()
        if name in ('copied', 'cloned'):
            return Variant(u.enum, u.name, [self.clone(x) if name == 'cloned' else self.copied(self.unref(x)) for x in u.args])
        if name in ('as_ref', 'as_deref', 'as_slice'):
            return Variant(u.enum, u.name, list(u.args))
        if name in ('as_mut', 'as_deref_mut'):
            a = u.args
            return Variant(u.enum, u.name, [Ref(lambda: a[0], lambda x: a.__setitem__(0, x))] if pos else [])
        if name == 'ok':
            return some(u.args[0]) if pos else none()
        if name == 'err':
            return none() if pos else some(u.args[0])
        if name in ('ok_or', 'ok_or_else'):
            return Variant(RESULT, 'Ok', u.args) if pos else Variant(RESULT, 'Err', [args[0] if name == 'ok_or' else ap(args[0], [])])
        if name == 'flatten':
            return u.args[0] if pos else u
        if name == 'zip':
            o = self.strip(args[0])
            return some((u.args[0], o.args[0])) if pos and o.name == 'Some' else none()
        if name in ('iter', 'into_iter'):
            return RIter(list(u.args) if pos else [])
        if name in ('take', 'replace', 'insert', 'get_or_insert', 'get_or_insert_with'):
            if not isinstance(recv, Ref):
                raise Undecided(name)
            if name == 'take':
                recv.set(none())
                return u
            if name == 'replace':
                recv.set(some(args[0]))
                return u
            if name == 'insert' or u.name == 'None':
                recv.set(some(args[0] if name != 'get_or_insert_with' else ap(args[0], [])))
            w = recv.get()
            return Ref(lambda: w.args[0], lambda x: w.args.__setitem__(0, x))
        if name == 'inspect':
            if pos:
                ap(args[0], [u.args[0]])
            return u
        raise Undecided(f'{name} on an Option')

    def bounds(self, u, r):
        """(lo, hi) of a slice; hi None when open."""
        if isinstance(r, range):
            lo, hi = r.start, r.stop
        elif isinstance(r, (SRange, RRange)):
            lo, hi = r.lo, r.hi
        else:
            raise Undecided('slice')
        lo = 0 if lo is None else self.int_of(lo)
        hi = None if hi is None else self.int_of(hi)
        if isinstance(u, PList):
            if hi is not None:
                if lo > hi or hi > 0 and not self.has(u, hi - 1):
                    self.panic('slice out of range')
            elif lo > 0 and not self.has(u, lo - 1):
                self.panic('slice out of range')
        return lo, hi

    def int_of(self, v):
        """A concrete integer, splitting a bounded symbolic one over its values."""
        v = self.strip(v)
        if isinstance(v, int):
            return int(v)
        try:
            return self.index_of(v)
        except Undecided:
            pass
        for k in range(0, self.max_iter + 1):
            if self.decide(T.eq(v, k)):
                return k
        raise Cut('value bound')

    def slice(self, u, r):
        if isinstance(u, (str, Str)):
            s = self.cells(u)
            lo, hi = self.bounds(None, r)
            if (hi if hi is not None else len(s)) > len(s) or lo > len(s):
                self.panic('slice out of range')
            return mkstr(s[lo:hi])
        lo, hi = self.bounds(u, r)
        if hi is None:
            return RView(u, lo, None)
        return RView(u, lo, hi)

    def cells(self, u):
        """Characters of a string with symbolic characters."""
        out = []
        for p in str_parts(u):
            if isinstance(p, str):
                out += list(p)
            elif isinstance(p, RChar):
                out.append(p)
            else:
                raise Undecided('characters of a symbolic string')
        return out

    def vec_method(self, recv, u, name, args, exp, targs):
        ap = self.apply
        if name == 'len':
            return self.length(u)
        if name == 'is_empty':
            return not self.has(u, 0)
        if name == 'push':
            if u.tail is not None:
                self.length(u)
            u.items.append(args[0])
            return ()
        if name in ('push_front',):
            u.items.insert(0, args[0])
            return ()
        if name == 'push_back':
            self.length(u)
            u.items.append(args[0])
            return ()
        if name in ('pop', 'pop_back'):
            if u.tail is not None:
                self.length(u)
            return some(u.items.pop()) if u.items else none()
        if name == 'pop_front':
            return some(u.items.pop(0)) if self.has(u, 0) else none()
        if name == 'insert':
            n = self.int_of(args[0])
            if n > 0 and not self.has(u, n - 1):
                self.panic('insert out of bounds')
            u.items.insert(n, args[1])
            return ()
        if name == 'remove':
            n = self.list_index(u, self.strip(args[0]))
            return u.items.pop(n)
        if name == 'swap_remove':
            self.length(u)
            n = self.list_index(u, self.strip(args[0]))
            v = u.items[n]
            last = u.items.pop()
            if n < len(u.items):
                u.items[n] = last
            return v
        if name in ('first', 'front'):
            return some(u.items[0]) if self.has(u, 0) else none()
        if name in ('last', 'back'):
            self.length(u)
            return some(u.items[-1]) if u.items else none()
        if name in ('first_mut', 'last_mut', 'front_mut', 'back_mut'):
            if name[0] in 'lb':
                self.length(u)
            if not self.has(u, 0):
                return none()
            k = 0 if name[0] == 'f' else len(u.items) - 1
            return some(Ref(lambda: u.items[k], lambda x: u.items.__setitem__(k, x)))
        if name in ('get', 'get_mut', 'get_unchecked'):
            i = self.strip(args[0])
            if isinstance(i, (range, SRange, RRange)):
                lo, hi = i.start if isinstance(i, range) else i.lo, i.stop if isinstance(i, range) else i.hi
                lo, hi = 0 if lo is None else self.int_of(lo), None if hi is None else self.int_of(hi)
                if hi is not None and (lo > hi or hi > 0 and not self.has(u, hi - 1)) or lo > 0 and not self.has(u, lo - 1):
                    return none()
                return some(self.slice(u, i))
            try:
                k = self.list_index(u, i)
            except PyExc:
                return none()
            if name == 'get_mut':
                return some(Ref(lambda: u.items[k], lambda x: u.items.__setitem__(k, x)))
            return some(u.items[k])
        if name in ('split_first', 'split_last', 'split_first_mut'):
            if name == 'split_last':
                self.length(u)
            if not self.has(u, 0):
                return none()
            if name == 'split_last':
                return some((u.items[-1], RVec(u.items[:-1], None, getattr(u, 'ty', None))))
            return some((u.items[0], RVec(u.items[1:], u.tail, getattr(u, 'ty', None))))
        if name in ('split_at', 'split_off', 'split_at_mut'):
            n = self.int_of(args[0])
            if n > 0 and not self.has(u, n - 1):
                self.panic('split out of bounds')
            a, b = RVec(u.items[:n], None, getattr(u, 'ty', None)), RVec(u.items[n:], u.tail, getattr(u, 'ty', None))
            if name == 'split_off':
                u.items[:] = a.items
                u.tail = None
                return b
            return (a, b)
        if name == 'extend' or name == 'extend_from_slice' or name == 'append':
            if u.tail is not None:
                self.length(u)
            src = args[0]
            s = self.strip(src)
            if isinstance(s, PList) and s.tail is not None and name != 'append':
                u.items.extend(self.clone(x) for x in s.items)
                u.tail = s.tail
                return ()
            u.items.extend(self.clone(x) if name == 'extend_from_slice' else self.unref(x) for x in list(self.iterate(s)))
            if name == 'append':
                s.items[:] = []
            return ()
        if name == 'truncate':
            n = self.int_of(args[0])
            if n == 0 or self.has(u, n - 1):
                del u.items[n:]
                u.tail = None
            return ()
        if name == 'resize':
            n = self.int_of(args[0])
            self.length(u)
            del u.items[n:]
            while len(u.items) < n:
                u.items.append(self.clone(args[1]))
            return ()
        if name == 'clear':
            u.items[:] = []
            u.tail = None
            return ()
        if name in ('sort', 'sort_unstable'):
            self.length(u)
            u.items[:] = self.sorted_by(u.items, lambda x: self.strip(x))
            return ()
        if name in ('sort_by_key', 'sort_unstable_by_key', 'sort_by_cached_key'):
            self.length(u)
            u.items[:] = self.sorted_by(u.items, lambda x: self.strip(ap(args[0], [x])))
            return ()
        if name in ('sort_by', 'sort_unstable_by'):
            self.length(u)
            out = []
            for x in u.items:
                k = len(out)
                while k > 0 and self.strip(ap(args[0], [x, out[k - 1]])).name == 'Less':
                    k -= 1
                out.insert(k, x)
            u.items[:] = out
            return ()
        if name in ('dedup', 'dedup_by_key'):
            self.length(u)
            key = (lambda x: x) if name == 'dedup' else (lambda x: ap(args[0], [x]))
            out = []
            for x in u.items:
                if not out or not self.truth(self.equal(key(out[-1]), key(x))):
                    out.append(x)
            u.items[:] = out
            return ()
        if name in ('retain', 'retain_mut'):
            self.length(u)
            u.items[:] = [x for x in u.items if self.call_bool(args[0], [x])]
            return ()
        if name == 'reverse':
            self.length(u)
            u.items.reverse()
            return ()
        if name == 'contains':
            return any(self.truth(self.equal(x, args[0])) for x in self.iter_list(u))
        if name in ('starts_with', 'ends_with'):
            o = self.strip(args[0])
            if name == 'ends_with':
                self.length(u)
                n = self.length(o)
                return len(u.items) >= n and self.equal(RVec(u.items[len(u.items) - n:]), o)
            k = 0
            while self.has(o, k):
                if not self.has(u, k) or not self.truth(self.equal(u.items[k], o.items[k])):
                    return False
                k += 1
            return True
        if name in ('to_vec', 'into_vec', 'into_boxed_slice', 'into_owned'):
            return self.clone(u)
        if name == 'concat':
            if any(isinstance(self.strip(x), (str, Str)) for x in u.items):
                return mkstr([p for x in u.items for p in str_parts(self.text(x))])
            return RVec([y for x in self.iter_list(u) for y in self.iterate(x)])
        if name == 'join':
            self.length(u)
            sep = self.text(args[0])
            parts = []
            for k, x in enumerate(u.items):
                if k:
                    parts += str_parts(sep)
                parts += str_parts(self.text(x))
            return mkstr(parts)
        if name in ('windows', 'chunks', 'chunks_exact'):
            n = self.int_of(args[0])
            self.length(u)
            it = u.items
            if name == 'windows':
                return RIter([RVec(it[k:k + n]) for k in range(len(it) - n + 1)])
            return RIter([RVec(it[k:k + n]) for k in range(0, len(it), n) if name == 'chunks' or k + n <= len(it)])
        if name == 'swap':
            a, b = self.list_index(u, self.strip(args[0])), self.list_index(u, self.strip(args[1]))
            u.items[a], u.items[b] = u.items[b], u.items[a]
            return ()
        if name == 'fill':
            self.length(u)
            u.items[:] = [self.clone(args[0]) for _ in u.items]
            return ()
        if name in ('rotate_left', 'rotate_right'):
            self.length(u)
            n = self.int_of(args[0])
            n = n if name == 'rotate_left' else len(u.items) - n
            u.items[:] = u.items[n:] + u.items[:n]
            return ()
        if name in ('reserve', 'shrink_to_fit'):
            return ()
        if name == 'capacity':
            raise Undecided('capacity')
        if name == 'repeat':
            return RVec(list(u.items) * self.int_of(args[0]))
        if name in ('iter', 'into_iter'):
            return RIter(self.iterate(u))
        if name == 'binary_search':
            for k, x in enumerate(self.iter_list(u)):
                if self.truth(self.equal(x, args[0])):
                    return Variant(RESULT, 'Ok', [k])
            return Variant(RESULT, 'Err', [sum(1 for x in u.items if self.truth(self.compare('<', x, args[0])))])
        if name == 'map':
            return RVec([ap(args[0], [x]) for x in u.items], None, None, True)
        raise Undecided(f'{name} on a vector')

    def map_method(self, u, name, args, exp):
        if name in ('get', 'get_mut', 'contains_key', 'remove', 'insert', 'entry', 'get_key_value', 'remove_entry', 'get_or_insert_with'):
            k = self.strip(args[0])
            if name == 'entry':
                return Entry(u, k)
            p = self.dict_find(u, k)
            if name == 'get':
                return none() if p is None else some(p[1])
            if name == 'get_mut':
                return none() if p is None else some(self.pair_ref(p))
            if name == 'contains_key':
                return p is not None
            if name == 'get_key_value':
                return none() if p is None else some((p[0], p[1]))
            if name in ('remove', 'remove_entry'):
                if p is None:
                    return none()
                for k2, q in enumerate(u.pairs):
                    if q is p:
                        del u.pairs[k2]
                        break
                return some(p[1]) if name == 'remove' else some(tuple(p))
            if name == 'insert':
                if p is None:
                    u.pairs.append([k, args[1]])
                    return none()
                old, p[1] = p[1], args[1]
                return some(old)
        if name == 'len':
            return len(u.pairs)
        if name == 'is_empty':
            return not u.pairs
        if name == 'clear':
            u.pairs[:] = []
            return ()
        if name == 'retain':
            u.pairs[:] = [p for p in (self.sorted_pairs(u) if isinstance(u, RMap) else u.pairs) if self.call_bool(args[0], [p[0], self.pair_ref(p)])]
            return ()
        if name == 'extend':
            for p in self.iterate(args[0]):
                p = self.strip(p)
                self.setitem(u, self.unref(p[0]), self.unref(p[1]))
            return ()
        if name in ('first_key_value', 'last_key_value', 'pop_first', 'pop_last'):
            ps = self.sorted_pairs(u)
            if not ps:
                return none()
            p = ps[0] if 'first' in name else ps[-1]
            if name.startswith('pop'):
                u.pairs.remove(p)
            return some((p[0], p[1]))
        if name == 'reserve':
            return ()
        raise Undecided(f'{name} on a map')

    def set_method(self, u, name, args, exp):
        if name == 'contains':
            return self.contains(u, self.strip(args[0]))
        if name == 'insert':
            x = self.unref(args[0])
            if self.contains(u, x):
                return False
            u.items.append(x)
            return True
        if name == 'remove':
            x = self.strip(args[0])
            for k, y in enumerate(u.items):
                if self.truth(self.equal(x, y)):
                    del u.items[k]
                    return True
            return False
        if name == 'len':
            return len(u.items)
        if name == 'is_empty':
            return not u.items
        if name == 'extend':
            for x in self.iterate(args[0]):
                self.set_add(u, self.unref(x))
            return ()
        if name == 'clear':
            u.items[:] = []
            return ()
        if name in ('is_subset', 'is_superset', 'is_disjoint'):
            o = self.strip(args[0])
            if name == 'is_subset':
                return all(self.contains(o, x) for x in u.items)
            if name == 'is_superset':
                return all(self.contains(u, x) for x in o.items)
            return not any(self.contains(o, x) for x in u.items)
        if name in ('union', 'intersection', 'difference'):
            r = self.rbin({'union': '|', 'intersection': '&', 'difference': '-'}[name], u, args[0])
            return RIter(r.items)
        if name == 'retain':
            u.items[:] = [x for x in u.items if self.call_bool(args[0], [x])]
            return ()
        if name in ('first', 'last', 'pop_first', 'pop_last'):
            xs = self.sorted_items(u)
            if not xs:
                return none()
            x = xs[0] if 'first' in name else xs[-1]
            if name.startswith('pop'):
                u.items.remove(x)
            return some(x)
        raise Undecided(f'{name} on a set')

    def entry_method(self, e, name, args):
        u, k = e.map, e.key
        if name == 'and_modify':
            p = self.dict_find(u, k)
            if p is not None:
                self.apply(args[0], [self.pair_ref(p)])
            return e
        if name in ('or_insert', 'or_insert_with', 'or_default', 'or_insert_with_key'):
            p = self.dict_find(u, k)
            if p is None:
                if name == 'or_insert':
                    v = args[0]
                elif name == 'or_default':
                    t = getattr(u, 'vty', None)
                    if t is None and u.pairs:
                        t = self.typeof(u.pairs[0][1])
                    v = self.default(t)
                else:
                    v = self.apply(args[0], [] if name == 'or_insert_with' else [k])
                p = [k, v]
                u.pairs.append(p)
            return self.pair_ref(p)
        if name == 'key':
            return k
        raise Undecided(f'entry.{name}')

    def int_method(self, u, name, args, st):
        a = self.strip(args[0]) if args else None
        signed = bool(st and st[0] == 'int' and INT[st[1]][1])
        bits = INT[st[1]][0] if st and st[0] == 'int' else 64
        if name in ('min', 'max'):
            return self.minmax2(name, u, a)
        if name == 'clamp':
            return self.minmax2('min', self.minmax2('max', u, a), self.strip(args[1]))
        if name in ('pow', 'checked_pow'):
            r = u ** a if isinstance(u, int) and isinstance(a, int) else T.power(u, a)
            return r if name == 'pow' else some(r)
        if name in ('abs', 'unsigned_abs'):
            if isinstance(u, int):
                return abs(u)
            return u if self.truth(T.le(0, u)) else T.mul(-1, u)
        if name in ('signum',):
            return 0 if self.truth(T.eq(u, 0)) else 1 if self.truth(T.lt(0, u)) else -1
        if name in ('is_negative', 'is_positive'):
            return T.lt(u, 0) if name == 'is_negative' else T.lt(0, u)
        if name == 'abs_diff':
            return T.sub(u, a) if self.truth(T.le(a, u)) else T.sub(a, u)
        op = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'rem': '%'}.get(name.split('_')[-1])
        if name.startswith('checked_') and op:
            if op in '/%':
                if self.truth(T.eq(a, 0)):
                    return none()
                return some(self.rdiv(u, a) if op == '/' else self.rmod(u, a))
            if op == '-' and not signed and self.truth(T.lt(u, a)):
                return none()
            return self.ranged(self.rbin(op, u, a), bits, signed, st)
        if name.startswith('saturating_') and op:
            if op == '-' and not signed and self.truth(T.lt(u, a)):
                return 0
            return self.rbin(op, u, a)
        if name.startswith(('wrapping_', 'strict_', 'unchecked_')) and op:
            return self.rbin(op, u, a)
        if name == 'checked_neg':
            return some(T.mul(-1, u))
        if name in ('rem_euclid', 'div_euclid'):
            if self.truth(T.eq(a, 0)):
                self.panic('division by zero')
            if isinstance(u, int) and isinstance(a, int):
                return u % abs(a) if name == 'rem_euclid' else (u - u % abs(a)) // a
            if self.truth(T.lt(a, 0)):
                raise Undecided('euclidean division by a negative')
            return self.int_div('%' if name == 'rem_euclid' else '//', u, a)
        if name == 'div_ceil':
            return self.rdiv(T.sub(T.add(u, a), 1), a)
        if name in ('is_multiple_of',):
            return T.eq(self.rmod(u, a), 0)
        if name == 'next_multiple_of':
            return T.mul(self.rdiv(T.sub(T.add(u, a), 1), a), a)
        if name in ('count_ones', 'leading_zeros', 'trailing_zeros', 'ilog2', 'ilog10', 'isqrt', 'is_power_of_two') and isinstance(u, int):
            import math
            if name == 'count_ones':
                return bin(u).count('1')
            if name == 'is_power_of_two':
                return u > 0 and u & (u - 1) == 0
            if name == 'isqrt':
                return math.isqrt(u)
            if name == 'ilog2':
                return u.bit_length() - 1
        if name in ('sqrt', 'floor', 'ceil', 'ln', 'log10', 'log2', 'powi', 'round') and isinstance(u, float):
            raise Undecided('float')
        if name in ('try_into',):
            return Variant(RESULT, 'Ok', [u])
        if name in ('cmp',):
            return Variant(ORDERING, {-1: 'Less', 0: 'Equal', 1: 'Greater'}[self.ordering(u, a)])
        raise Undecided(f'{name} on a number')

    def ranged(self, v, bits, signed, st):
        """Some(v) if it fits; beyond the type's range None."""
        if isinstance(v, int):
            lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if signed else (0, 2 ** bits - 1)
            return some(v) if lo <= v <= hi else none()
        return some(v)

    def char_method(self, u, name, args):
        if name in ('to_digit',):
            base = self.int_of(args[0])
            c = self.code(u)
            if self.truth(T.land(T.le(48, c), T.le(c, 47 + min(base, 10)))):
                return some(T.sub(c, 48))
            if base > 10:
                raise Undecided('digit base')
            return none()
        c = self.code(u)
        if name == 'is_ascii_digit' or name == 'is_numeric':
            return T.land(T.le(48, c), T.le(c, 57))
        if name == 'is_ascii_uppercase' or name == 'is_uppercase':
            return T.land(T.le(65, c), T.le(c, 90))
        if name == 'is_ascii_alphabetic' or name == 'is_alphabetic':
            return T.lor(T.land(T.le(65, c), T.le(c, 90)), T.land(T.le(97, c), T.le(c, 122)))
        if name == 'is_whitespace':
            return T.lor(T.eq(c, 32), T.land(T.le(9, c), T.le(c, 13)))
        raise Undecided(f'{name} on a character')

    def str_method(self, recv, u, name, args, exp):
        if isinstance(u, StrBuf):
            if name in ('push', 'push_str', 'write_str', 'write_char', 'pad'):
                u.parts += str_parts(self.text(args[0]))
                return Variant(RESULT, 'Ok', [()]) if name.startswith('write') else ()
            if name == 'clear':
                u.parts = []
                return ()
            if name == 'write_fmt':
                u.parts += str_parts(self.text(args[0]))
                return Variant(RESULT, 'Ok', [()])
            u = u.value()
        if name in ('push_str', 'push') and isinstance(recv, Ref):
            recv.set(mkstr(str_parts(u) + str_parts(self.text(args[0]))))
            return ()
        if name in ('len', 'chars', 'bytes', 'is_empty', 'char_indices', 'as_bytes', 'first'):
            cs = self.cells(u)
            if name == 'len':
                return len(cs)
            if name == 'is_empty':
                return not cs
            if name == 'bytes' or name == 'as_bytes':
                b = [self.code(c) for c in cs]
                return RIter(b) if name == 'bytes' else RVec(b)
            if name == 'char_indices':
                return RIter(list(enumerate(cs)))
            return RIter(cs)
        if name in ('to_owned', 'to_string', 'into_string', 'as_str', 'trim_end_matches'):
            return u
        if name in ('contains',):
            pat = self.strip(args[0])
            cs = self.cells(u)
            if isinstance(pat, (RChar, str)) and not (isinstance(pat, str) and len(pat) != 1):
                return any(self.truth(self.equal(c, pat)) for c in cs)
            if isinstance(u, str) and isinstance(pat, str):
                return pat in u
            if isinstance(pat, Closure):
                return any(self.call_bool(pat, [c]) for c in cs)
            raise Undecided('contains')
        if name in ('trim', 'trim_start', 'trim_end'):
            cs = self.cells(u)
            ws = lambda c: isinstance(c, str) and c.isspace()
            if name != 'trim_end':
                while cs and ws(cs[0]):
                    cs.pop(0)
            if name != 'trim_start':
                while cs and ws(cs[-1]):
                    cs.pop()
            return mkstr(cs)
        if name in ('split', 'split_whitespace', 'splitn', 'lines', 'split_once', 'split_terminator'):
            return self.split(u, name, args)
        if name in ('starts_with', 'ends_with'):
            pat = self.strip(args[0])
            cs = self.cells(u)
            ps = self.cells(pat) if isinstance(pat, (str, Str)) else [pat]
            if len(cs) < len(ps):
                return False
            part = cs[:len(ps)] if name == 'starts_with' else cs[len(cs) - len(ps):]
            return T.land(*[self.equal(a, b) for a, b in zip(part, ps)])
        if name in ('parse',):
            if isinstance(u, str):
                try:
                    return Variant(RESULT, 'Ok', [int(u)])
                except ValueError:
                    return Variant(RESULT, 'Err', [()])
            raise Undecided('parse')
        if name in ('to_uppercase', 'to_lowercase', 'replace', 'repeat') and isinstance(u, str):
            if name == 'repeat':
                return u * self.int_of(args[0])
            if name == 'replace':
                return u.replace(self.text(args[0]), self.text(args[1]))
            return u.upper() if name == 'to_uppercase' else u.lower()
        if name == 'find' and isinstance(u, str):
            k = u.find(self.text(args[0]))
            return none() if k < 0 else some(k)
        if name == 'get':
            cs = self.cells(u)
            return some(self.slice(u, args[0]))
        if name in ('to_digit', 'is_ascii_digit', 'is_ascii_uppercase', 'is_ascii_alphabetic', 'is_uppercase', 'is_alphabetic', 'is_numeric', 'is_whitespace'):
            return self.char_method(u, name, args)
        raise Undecided(f'{name} on a string')

    def split(self, u, name, args):
        cs = self.cells(u)
        if name == 'split_whitespace':
            out, cur = [], []
            for c in cs:
                if isinstance(c, str) and c.isspace():
                    if cur:
                        out.append(mkstr(cur))
                    cur = []
                else:
                    cur.append(self.nospace(c))
            if cur:
                out.append(mkstr(cur))
            return RIter(out)
        sep = self.strip(args[0]) if args else '\n'
        limit = None
        if name == 'splitn':
            limit, sep = self.int_of(args[0]), self.strip(args[1])
        if not isinstance(sep, str):
            raise Undecided('split pattern')
        out, cur, k = [], [], 0
        while k < len(cs):
            part = cs[k:k + len(sep)]
            hit = len(part) == len(sep)
            if hit:
                for a, b in zip(part, sep):
                    if isinstance(a, str):
                        if a != b:
                            hit = False
                            break
                    elif not self.truth(self.equal(a, b)):
                        hit = False
                        break
            if hit and (limit is None or len(out) < limit - 1):
                out.append(mkstr(cur))
                cur = []
                k += len(sep)
            else:
                cur.append(cs[k])
                k += 1
        out.append(mkstr(cur))
        if name == 'split_once':
            if len(out) < 2:
                return none()
            return some((out[0], sep.join(out[1:]))) if all(isinstance(x, str) for x in out) else some((out[0], mkstr([p for n, x in enumerate(out[1:]) for p in ([sep] if n else []) + str_parts(x)])))
        return RIter(out)

    def nospace(self, c):
        return c


class TypeFn:
    def __init__(self, ty, name):
        self.ty, self.name = ty, name


class TraitFn:
    def __init__(self, trait, name):
        self.trait, self.name = trait, name


class Entry:
    def __init__(self, map_, key):
        self.map, self.key = map_, key


class RSRange(SRange):
    pass


class RRange:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


def RView(u, lo, hi):
    """A slice: its own cells (writes to it are not written back)."""
    if hi is None:
        return RVec(u.items[lo:], u.tail, getattr(u, 'ty', None))
    return RVec(u.items[lo:hi], None, getattr(u, 'ty', None))


def explore(root, body, **kw):
    """All paths of body(interp) over the crate at root."""
    kw.setdefault('max_paths', 6000)
    yield from pyai.explore(crate(root), body, interp=RInterp, **kw)
