"""Obligation book-keeping, known findings, evidence, exit status."""

from __future__ import annotations

import json
import os
import re
import sys
import time

from . import terms as T
from .terms import Term

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
KNOWN = os.path.join(VERIF, 'known_findings.txt')


DEADLINE = float(os.environ.get('SA_DEADLINE', '780'))


class AnalysisBroken(Exception):
    """A construct the rule is about is gone, or a rule matches too little."""


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.proved = 0
        self.undecided = {}
        self.findings = {}          # key -> dict
        self.tries = {}
        self.units = set()          # functions analysed
        self.paths = 0
        self.infeasible = 0
        self.rules = {}             # rule -> instances
        self.notes = []
        self.samples = []
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1'))

    def ok(self, rule, n=1):
        self.proved += n
        self.rules.setdefault(rule, [0, 0, 0])[0] += n

    def unknown(self, rule, why):
        why = re.sub(r'#\d+', '', str(why))[:120]
        self.undecided[(rule, why)] = self.undecided.get((rule, why), 0) + 1
        self.rules.setdefault(rule, [0, 0, 0])[1] += 1

    def bad(self, rule, construct, detail, where=None):
        """A definite contradiction; keyed by rule and construct."""
        self.rules.setdefault(rule, [0, 0, 0])[2] += 1
        key = f'{rule} @ {construct}'
        if key not in self.findings:
            self.findings[key] = {'rule': rule, 'construct': construct, 'detail': detail, 'where': where, 'count': 1}
        else:
            self.findings[key]['count'] += 1

    def settled(self, rule, construct):
        """This instance is known to fail often enough; nothing more is to be learnt from it."""
        return self.tries.get(f'{rule} @ {construct}', (0, 0))[0] >= 8

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def unit(self, *names):
        self.units.update(names)

    def oblige(self, rule, construct, facts, cond, detail='', domains=None, limit=3000, extra=()):
        """cond must hold wherever facts hold."""
        if cond is True:
            self.ok(rule)
            return True
        if isinstance(cond, Term):
            parts = cond.args if cond.op == 'and' else (cond,)
            rest = []
            for p in parts:
                if p is True:
                    continue
                if p is not False and p.op == 'eq' and facts.proved_equal(*p.args):
                    continue
                if p is not False and facts.decide(p) is True:
                    continue
                if p is not False and (facts.prove(p) or facts.prove_finite(p)):
                    continue
                rest.append(p)
            if rest:
                tight = facts.tightened()
                if tight is not None:
                    rest = [p for p in rest if p is False or not (p.op == 'eq' and tight.proved_equal(*p.args) or tight.decide(p) is True or tight.prove(p))]
            if not rest:
                self.ok(rule)
                return True
            cond = T.land(*rest)
        elif cond is False and facts.prove_finite(False):
            self.ok(rule)
            return True
        key = f'{rule} @ {construct}'
        hit, missed = self.tries.get(key, (0, 0))
        if hit >= 8 or time.time() - self.t0 > DEADLINE:
            # shown to fail already: further instances add nothing
            self.unknown(rule, f'{construct}: further instances not examined')
            return None
        v = facts.refute(cond, domains, limit if missed < 40 else min(limit, 150), self.seed, extra)
        self.tries[key] = (hit + (v is not None), missed + (v is None))
        if v is None:
            self.unknown(rule, f'{construct}: neither proved nor refuted')
            return None
        vals = ', '.join(f'{a.args[0]}={x}' for a, x in sorted(v.items(), key=lambda kv: repr(kv[0])))
        d = detail() if callable(detail) else detail
        self.bad(rule, construct, f'{d}; fails when {vals}' if vals else d)
        return False

    def require(self, cond, what):
        if not cond:
            raise AnalysisBroken(f'{self.prop}: {what}')

    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            with open(KNOWN, encoding='utf-8') as fh:
                for line in fh:
                    m = re.match(r'known: property=(\S+) key=\[(.*?)\] (.*)', line.strip())
                    if m and m.group(1) == self.prop:
                        out[m.group(2)] = m.group(3)
        return out

    def finish(self, rule_text, min_proved=1, level='other', assumptions=(), extra=None, broken=()):
        known = self.known()
        new = {k: v for k, v in self.findings.items() if k not in known}
        old = {k: v for k, v in self.findings.items() if k in known}
        undec = sum(self.undecided.values())
        cov = {
            'explanation': rule_text,
            'rules': {k: {'discharged': a, 'undecided': b, 'violated': c} for k, (a, b, c) in sorted(self.rules.items())},
            'functions_analysed': sorted(self.units),
            'n_functions_analysed': len(self.units),
            'paths': self.paths,
            'obligations': self.proved + undec + sum(f['count'] for f in self.findings.values()),
            'discharged': self.proved,
            'undecided': undec,
            'undecided_reasons': [{'rule': r, 'why': w, 'count': n}
                                  for (r, w), n in sorted(self.undecided.items(), key=lambda kv: -kv[1])[:25]],
            'samples': self.samples,
        }
        if extra:
            cov.update(extra)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level,
            'coverage': cov, 'assumptions': list(assumptions),
            'wall_s': round(time.time() - self.t0, 3), 'violations': len(new),
        }
        if old:
            cov['known_findings'] = sorted(old)
        edir = os.environ.get('SA_EVIDENCE') or os.path.join(VERIF, 'evidence')
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, f'{self.prop}.json'), 'w', encoding='utf-8') as fh:
            json.dump(ev, fh, indent=1, default=str)
            fh.write('\n')
        for k in sorted(old):
            print(f'KNOWN-FINDING: property={self.prop} {known[k]}')
        if new:
            rdir = os.path.join(edir, 'replay')
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f'{self.prop}.json')
            with open(path, 'w', encoding='utf-8') as fh:
                json.dump(list(new.values()), fh, indent=1, default=str)
                fh.write('\n')
            for k, f in sorted(new.items()):
                print(f'{self.prop}: {f["rule"]}: {f["construct"]}: {f["detail"]}' + (f' [{f["where"]}]' if f['where'] else ''))
            print(f'VIOLATION property={self.prop} replay={path}')
            return 1
        if broken:
            print(f'{self.prop}: analysis broken: ' + '; '.join(broken), file=sys.stderr)
            return 2
        if self.proved < min_proved:
            print(f'{self.prop}: analysis broken: {self.proved} obligations discharged, at least {min_proved} expected '
                  f'({undec} undecided: {list(self.undecided)[:3]})', file=sys.stderr)
            return 2
        print(f'{self.prop}: held: {self.proved} obligations discharged, {undec} undecided, '
              f'{self.paths} paths, {len(self.units)} functions, {round(time.time() - self.t0, 1)} s')
        return 0
