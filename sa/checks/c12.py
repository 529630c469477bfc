"""C12: matrices."""
import numpy as np

from .. import terms as t
from ..cases import SELF, L, cases, query
from ..core import Skip
from ..evalr import ext
from ..interp import Model, Interp, Unk, Err
from ..roles import link_contracts, sort_contract

RULE = 'value graph of the matrix = the relation of the indexed events, on ' \
       'every order type and every label list in the bound'


def mat(m, names, f):
    l = m.syms['L'] if names else m.apps['sortedByCausality'](m.C)
    k = len(l)
    M = np.zeros((k, k), dtype=bool)
    for i in range(k):
        for j in range(k):
            M[i, j] = f(m.o, l[i], l[j])
    return M


def stored():
    """Matrices in a text file."""
    for k in range(5):
        for seed in range(1 + 2 * (k > 1)):
            X = np.zeros((k, k), dtype=int)
            for i in range(k):
                for j in range(i):
                    X[i, j] = (i * 5 + j * 3 + seed) % (seed + 2) > 0
            yield X
    yield np.array([[0, 0]])
    yield np.array([[0, 0, 0], [1, 0, 0]])


def parsed(X, delimiter, ndmin):
    """numpy.genfromtxt of the file saved with delimiter ','"""
    if delimiter != ',':        # no field is a number
        X = np.full((len(X), 1), -1)
    if X.size == 0:
        return np.zeros((0, 1) if ndmin == 2 else (0,), dtype=int)
    return X.copy() if ndmin == 2 else np.squeeze(X)


def asbool(v):
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            raise Unk('object array')
        if v.dtype != bool and not np.all((v == 0) | (v == 1)):
            return v
        return v.astype(bool)
    if isinstance(v, Err):
        return v
    raise Unk('no array: %r' % (v,))


def eqmat(x, y):
    return isinstance(x, np.ndarray) and x.shape == y.shape and \
        bool(np.array_equal(x, y))


def run(ctx):
    lc = link_contracts(ctx)
    ov = dict(lc)
    ov.update(sort_contract(ctx))
    D = {
        'PastMatrix': lambda o, x, y: o.lt(y, x),
        'FutureMatrix': lambda o, x, y: o.lt(x, y),
        'LinkPastMatrix': lambda o, x, y: y in o.lpast[x],
        'LinkFutureMatrix': lambda o, x, y: y in o.lfuture[x],
    }
    for q, f in D.items():
        qual = 'Causet.' + q
        for kind, dt in (('', None), ('dtype=int', ext('int'))):
            args = [SELF, L] + ([dt] if dt is not None else [])
            query(ctx, qual, args, {}, cases(ctx, lst=('L',), lmax=4, nmax=4,
                                             tmax=4),
                  lambda m, f=f: mat(m, True, f), RULE, ov=ov,
                  label='labelled ' + kind, post=asbool, cmp=eqmat)
        query(ctx, qual, [SELF], {}, cases(ctx, nmax=5, tmax=5),
              lambda m, f=f: mat(m, False, f), RULE, ov=ov,
              label='default labels', post=asbool, cmp=eqmat)
    # importing from a future matrix equals importing the transpose
    M = t.sym('M', 'array')

    def record(quals):
        calls = []

        def fpm(ev, args, kw, st, fr):
            args = [ev.resolve(ev.deref(x, st), st) for x in args]
            calls.append((list(args), dict(kw)))
            return t.app('import', *args, sort='obj:Causet')
        return calls, {'Causet.FromPastMatrix': fpm}

    def imp():
        calls, o = record(None)
        r = ctx.call('Causet.FromFutureMatrix', [M], {}, overrides=o)
        if len(calls) != 1:
            # another implementation: nothing to compare here
            yield 'unk', '%d calls of FromPastMatrix' % len(calls)
            return
        for k in range(0, 4):
            for l in range(k, 4):
                X = (np.arange(k * l).reshape(k, l) * 7 % 3 == 1)
                I = Interp(Model({'M': X}, {}, ''))
                try:
                    got = I.outcome(calls[0][0][0])
                except Unk as e:
                    yield 'unk', str(e)
                    continue
                ok = isinstance(got, np.ndarray) and \
                    np.array_equal(got, X.T)
                yield ('ok', None) if ok else (
                    'bad', 'FromFutureMatrix hands %r on for %r' % (got, X))
    ctx.obligation('Causet.FromFutureMatrix', 'the argument handed to '
                   'FromPastMatrix is the transposed matrix',
                   ['Causet.FromFutureMatrix', 'Causet.FromPastMatrix'], imp)

    # the text file
    def csv():
        ev = ctx.evaluator(ov)
        ev.record.add('np.savetxt')
        r = ctx.call('Causet.saveAsCSV', [SELF, t.sym('f', 'str')], ev=ev)
        cs = [c for c in ev.calls if c[0] == 'np.savetxt']
        if len(cs) != 1:
            yield 'unk', '%d calls of np.savetxt' % len(cs)
            return
        cond, args = cs[0][1], cs[0][2]
        if cs[0][3].get('delimiter') is not t.const(','):
            yield 'bad', 'the text file is not separated by commas'
        for m in cases(ctx, nmax=4, tmax=5)():
            I = Interp(m)
            try:
                if not I.outcome(cond):
                    yield 'bad', 'case: %s -- nothing is stored' % m.desc
                    continue
                got = asbool(I.outcome(args[1]))
            except Unk as e:
                yield 'unk', str(e)
                continue
            want = mat(m, False, D['PastMatrix'])
            yield ('ok', None) if eqmat(got, want) else (
                'bad', 'case: %s -- stored %r, required %r' % (
                    m.desc, got, want))
    ctx.obligation('Causet.saveAsCSV', 'the array handed to numpy.savetxt is '
                   'the past matrix', ['Causet.saveAsCSV'], csv)
    # the text file is read as the matrix that was stored
    for flag, future in ((None, False), (t.TRUE, False), (t.FALSE, True)):
        def txt(flag=flag, future=future):
            def imp(name):
                def f(ev, args, kw, st, fr):
                    return t.app('import_' + name, *[
                        ev.resolve(ev.deref(x, st), st) for x in args],
                        sort='obj:Causet')
                return f

            def read(ev, args, kw, st, fr):
                return t.app('textfile', kw.get('delimiter', t.NONE),
                             kw.get('ndmin', t.const(0)), sort='array')
            o = {'Causet.FromPastMatrix': imp('past'),
                 'Causet.FromFutureMatrix': imp('future'),
                 'np.genfromtxt': read, 'np.loadtxt': read}
            kw = {} if flag is None else {'isPastMatrix': flag}
            v = ctx.call('Causet.FromTextFile', [t.sym('f', 'str')], kw,
                         overrides=o).outcome
            for X in stored():
                m = Model({'f': 'file'}, {}, 'file with matrix %s' %
                          X.tolist())
                m.apps['textfile'] = lambda d, n, X=X: parsed(X, d, n)
                m.apps['import_past'] = lambda M: ('past', M)
                m.apps['import_future'] = lambda M: ('past', M.T)
                try:
                    got = Interp(m).outcome(v)
                    if isinstance(got, Err):
                        yield 'bad', '%s -- raises %s' % (m.desc, got.name)
                        return
                    if not isinstance(got, tuple):
                        raise Unk('%r' % (got,))
                    got = asbool(got[1])
                except Unk as e:
                    yield 'unk', '%s: %s' % (m.desc, e)
                    return
                want = (X.T if future else X).astype(bool)
                yield ('ok', None) if eqmat(got, want) else (
                    'bad', '%s -- past matrix imported %r, required %r' % (
                        m.desc, got, want))
        ctx.obligation('Causet.FromTextFile(%s)' % (
            'default' if flag is None else t.cval(flag)),
            'the matrix handed on to the import is the stored one, as past '
            'or future matrix according to the flag',
            ['Causet.FromTextFile'], txt)
    return ctx.finish(
        'The matrix functions are summarised from the source (nested loops '
        'with indexed stores become array comprehensions) and compared with '
        'the relation on every order type of up to 4 events (5 for the '
        'default labels) and every label list without repetition. The '
        'default labelling is taken by contract as any fixed list of the '
        'events; import wrappers and the text file are decided on the '
        'argument they hand on.', floor=5)
