"""Obligations, verdicts, evidence and the command line of one check."""
import json
import gc
import os
import sys
import time
import traceback

from . import orders, terms as t
from .evalr import Evaluator, State, Result, Unsupported
from .interp import Bag, Interp, Unk, Err, PyErr, same
from .program import Program, AnchorError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Skip(Exception):
    """The specification says nothing about this case."""


class Ctx:
    def __init__(self, prop, tier='quick'):
        self.prop = prop
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.prog = Program()
        self.obls = []
        self.functions = set()
        self.violations = []
        self.undecided = []
        self.notes = []
        self.assumptions = []
        self.cases = 0
        self.t0 = time.time()
        self.deadline = self.t0 + (780 if self.thorough else 400)
        self._roles = None
        self.known = []
        orders.SIZES[:] = orders.sizes_in(
            m.tree for n, m in self.prog.modules.items()
            if n in ('causetevent', 'causet', 'embeddedcauset',
                     'sprinkledcauset'))

    # ------------------------------------------------------------ roles
    @property
    def roles(self):
        if self._roles is None:
            from .roles import resolve
            self._roles = resolve(self)
        return self._roles

    def evaluator(self, overrides=None, **kw):
        return Evaluator(self.prog, overrides, **kw)

    def where(self, *quals):
        out = []
        for q in quals:
            f = self.prog.func(q)
            out.append('%s (%s)' % (f.where, q))
        return ', '.join(out)

    def call(self, qual, args=(), kwargs=None, overrides=None, st=None,
             ev=None):
        """Summary of one function."""
        ev = ev or self.evaluator(overrides)
        f = self.prog.func(qual)
        r = ev.run(f, list(args), dict(kwargs or {}), st=st)
        r.ev = ev
        r.qual = qual
        self.functions |= ev.inlined
        return r

    def client(self, src, args=(), kwargs=None, overrides=None, ev=None):
        """Summary of a fragment of client code."""
        import textwrap
        ev = ev or self.evaluator(overrides)
        f = self.prog.client(textwrap.dedent(src))
        r = ev.run(f, list(args), dict(kwargs or {}))
        r.ev = ev
        r.qual = 'client'
        self.functions |= {q for q in ev.inlined if q != 'entry'}
        return r

    # --------------------------------------------------------- verdicts
    def obligation(self, name, rule, quals, fn):
        """fn() -> iterable of ('ok'|'bad'|'unk', detail)"""
        t0 = time.time()
        rec = {'name': name, 'rule': rule, 'at': list(quals), 'cases': 0,
               'status': 'discharged'}
        unk = 0
        try:
            for q in quals:
                self.prog.func(q) if not q.startswith('class ') else \
                    self.prog.cls(q[6:])
            for kind, detail in fn():
                rec['cases'] += 1
                self.cases += 1
                if kind == 'bad':
                    rec['status'] = 'violated'
                    rec['witness'] = detail
                    self.violations.append(rec)
                    break
                if kind == 'unk':
                    unk += 1
                    rec.setdefault('reason', detail)
                    if unk > 60 and unk == rec['cases']:
                        break
                if time.time() > self.deadline:
                    rec['status'] = 'undecided'
                    rec['reason'] = 'time limit'
                    break
        except AnchorError:
            raise
        except Exception as e:  # noqa: BLE001 - no verdict from a failure
            if rec['status'] != 'violated':
                rec['status'] = 'undecided'
                rec['reason'] = 'analysis: %s: %s' % (type(e).__name__,
                                                      str(e)[:200])
                if os.environ.get('SA_DEBUG'):
                    traceback.print_exc()
        if unk and rec['status'] == 'discharged':
            rec['status'] = 'undecided'
        if rec['cases'] == 0 and rec['status'] == 'discharged':
            rec['status'] = 'undecided'
            rec['reason'] = 'no case'
        if unk:
            rec['unknown_cases'] = unk
        if rec['status'] == 'undecided':
            self.undecided.append(rec)
        rec['wall_s'] = round(time.time() - t0, 2)
        self.obls.append(rec)
        return rec

    def decide(self, name, rule, quals, build, models, spec, cmp=same,
               post=None):
        """build() -> term; on every model its value has to be spec(model)."""
        def fn():
            term = build()
            if isinstance(term, Result):
                term = term.outcome
            for m in models() if callable(models) else models:
                try:
                    want = spec(m)
                except Skip:
                    continue
                try:
                    # sets are iterated in any order
                    for perm in range(6 if self.thorough else 4):
                        I = Interp(m, perm)
                        got = I.outcome(term)
                        if post:
                            got = post(got)
                        ok = cmp(got, want)
                        if not ok or not (I.free_order or
                                          isinstance(got, Bag)):
                            break
                except Unk as e:
                    yield 'unk', 'value not known: %s' % e
                    continue
                if ok:
                    yield 'ok', None
                else:
                    yield 'bad', 'case: %s -- summary gives %s, required %s' \
                        % (m.desc, fmt(got), fmt(want))
        return self.obligation(name, rule, quals, fn)

    # ---------------------------------------------------------- finish
    def finish(self, level_note='', floor=1):
        done = [o for o in self.obls if o['status'] == 'discharged']
        decided = [o for o in self.obls if o['status'] != 'undecided']
        cov = {
            'explanation': level_note,
            'obligations': len(self.obls),
            'discharged': len(done),
            'violated': len(self.violations),
            'undecided': len(self.undecided),
            'cases': self.cases,
            'functions_analysed': sorted(self.functions),
            'source_digest': self.prog.digest,
            'modules': sorted(self.prog.modules),
            'rules': [{k: o.get(k) for k in ('name', 'rule', 'at', 'cases',
                                             'status', 'reason', 'wall_s')
                       if o.get(k) is not None} for o in self.obls],
        }
        evid = {'property': self.prop, 'tier': self.tier,
                'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
                'level': 'other', 'coverage': cov,
                'wall_s': round(time.time() - self.t0, 2),
                'assumptions': self.assumptions}
        new = []
        replay = None
        if self.violations:
            edir = os.path.join(HERE, 'evidence')
            os.makedirs(edir, exist_ok=True)
            replay = os.path.join(edir, '%s.violation.txt' % self.prop)
            with open(replay, 'w') as f:
                for v in self.violations:
                    f.write(describe(self, v) + '\n')
            evid['violations'] = [{'name': v['name'],
                                   'witness': v.get('witness')}
                                  for v in self.violations]
        write_evidence(self.prop, evid)
        print('%s: %d obligations over %d functions, %d cases: %d discharged,'
              ' %d violated, %d undecided (%.1f s)' % (
                  self.prop, len(self.obls), len(self.functions), self.cases,
                  len(done), len(self.violations), len(self.undecided),
                  time.time() - self.t0))
        for o in self.undecided:
            print('UNDECIDED %s: %s' % (o['name'], o.get('reason')))
        for v in self.violations:
            print(describe(self, v))
        if self.violations:
            print('VIOLATION property=%s replay=%s' % (self.prop, replay))
            return 1
        if len(decided) < floor:
            print('ANALYSIS BROKEN: %d obligations decided, at least %d '
                  'expected' % (len(decided), floor))
            return 3
        return 0


def describe(ctx, v):
    loc = []
    for q in v['at']:
        try:
            if q.startswith('class '):
                c = ctx.prog.cls(q[6:])
                loc.append('%s:%d %s' % (c.module.file, c.node.lineno,
                                         c.name))
                continue
            f = ctx.prog.func(q)
            loc.append('%s %s' % (f.where, q))
        except AnchorError:
            loc.append(q)
    return 'FINDING [%s] %s\n  at %s\n  rule: %s\n  %s' % (
        v['name'], ctx.prop, '; '.join(loc), v['rule'], v.get('witness'))


def fmt(v):
    if isinstance(v, frozenset):
        return '{%s}' % ', '.join(sorted(map(repr, v)))
    return repr(v)


def write_evidence(prop, evid):
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(evid, f, indent=1, default=str)
    os.replace(p + '.tmp', p)


CURRENT = None


def main(argv):
    global CURRENT
    import importlib
    sys.setrecursionlimit(20000)
    gc.set_threshold(500000, 50, 50)
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    mod = importlib.import_module('sa.checks.' + prop.lower())
    ctx = CURRENT = Ctx(prop, tier)
    try:
        rc = mod.run(ctx)
    except AnchorError as e:
        print('ANALYSIS BROKEN: %s' % e)
        return 3
    except Exception as e:  # noqa: BLE001
        traceback.print_exc()
        print('ANALYSIS BROKEN: %s: %s' % (type(e).__name__, e))
        return 3
    return rc
