"""C25: distance matrices."""
import numpy as np

from .. import terms as t
from ..cases import SELF, L
from ..distances import cases, distances
from ..interp import Err, Interp, Unk, Model
from ..roles import link_contracts
from .c12 import eqmat

M = t.sym('M', 'str')
Q = ['Causet.DistanceMatrix']
FORMS = {'': ('ziczac', True), ', "ziczac"': ('ziczac', True),
         ', recursive=False': ('ziczac', False),
         ', "intersection"': ('intersection', True),
         ', counting="intersection", recursive=True': ('intersection', True),
         ', "intersection", False': ('intersection', False)}
NOTE = ('The matrix is reduced to one term (nested recurrences over the '
        'slices, pairs and distances); its value is compared for every '
        'antichain of every order type of up to 4 (thorough: 5) events and '
        'of longer fences, crowns and thick slices.')


def run(ctx):
    ov = link_contracts(ctx)

    def build(args):
        return ctx.client('def entry(C, L):\n    return C.DistanceMatrix(L%s)'
                          '\n' % args, [SELF, L], overrides=ov)
    for args, (method, rec) in FORMS.items():
        term = []

        def get(args=args, term=term):
            if not term:
                term.append(build(args).outcome)
            return term[0]

        def fn(get=get):
            for m in cases(ctx)():
                try:
                    D = Interp(m, 0).outcome(get())
                except Unk as e:
                    yield 'unk', 'value not known: %s' % e
                    continue
                bad = problem(D, len(m.syms['L']))
                if bad:
                    yield 'bad', 'case: %s -- %s' % (m.desc, bad)
                else:
                    yield 'ok', None
        ctx.obligation('DistanceMatrix(antichain%s) is a metric table' % args,
                       'the matrix is square, symmetric, has a zero diagonal '
                       'and integers of at least -1', Q, fn)
        if not rec:
            ctx.decide('DistanceMatrix(antichain%s) values' % args,
                       'without recursion an entry is the number of antichain '
                       'events in the smallest interval over both events that '
                       'starts and ends next to the antichain, minus one (at '
                       'most 1 for ziczacs)', Q,
                       get, cases(ctx),
                       lambda m, z=method == 'ziczac': distances(
                           m.o, m.syms['L'], z, False), cmp=eqmat)
    for name, src in (('method', 'C.DistanceMatrix(L, s)'),
                      ('method and recursion',
                       'C.DistanceMatrix(L, counting=s, recursive=False)')):
        ctx.decide('unsupported counting method (%s)' % name,
                   'an unknown counting method raises a ValueError for any '
                   'antichain', Q,
                   lambda: ctx.client('def entry(C, L, s):\n    return %s\n'
                                      % src, [SELF, L, M], overrides=ov),
                   lambda: strings(ctx), lambda m: True,
                   post=lambda v: v == Err('ValueError') if isinstance(
                       v, Err) else False)
    return ctx.finish(NOTE, 3)


def strings(ctx):
    n = 0
    for m in cases(ctx, 3)():
        n += 1
        s = ('zigzag', '', 'Ziczac', 'INTERSECTION', 'intersections',
             'ziczac ', 'none')[n % 7]
        m.syms['M'] = s
        m.desc += '; counting %r' % s
        yield m


def problem(D, n):
    if isinstance(D, Err):
        return 'unexpectedly %r' % D
    if not isinstance(D, np.ndarray) or D.dtype == object:
        raise Unk('no array: %r' % (D,))
    if D.shape != (n, n):
        return 'the matrix has the shape %s' % (D.shape,)
    if not np.array_equal(D, D.T):
        return 'the matrix is not symmetric: %s' % D.tolist()
    if np.any(np.diagonal(D) != 0):
        return 'the diagonal is not zero: %s' % D.tolist()
    if np.any(D != np.floor(D)) or np.any(D < -1):
        return 'the matrix has the entries %s' % D.tolist()
    return None
