"""C14: causality tests are exclusive, antisymmetric and time-ordered."""
from .. import terms as t
from ..spacetime import configs, models, excess, X, Y, Config


def run(ctx):
    cfgs = configs()
    cfgs.append(Config('base class', 'Spacetime', 2, 'Spacetime()', [],
                       'flat'))
    for cfg in cfgs:
        def build():
            a, b = cfg.build(ctx), cfg.build(ctx, swap=True)
            return t.lst(a.outcome, b.outcome)

        def ok(got, m):
            # got: the answers for (x, y) and for (y, x)
            if not (isinstance(got, tuple) and len(got) == 2 and all(
                    isinstance(p, tuple) and len(p) == 2 for p in got)):
                return 'does not answer two pairs'
            (p, q), (r, s) = [tuple(bool(v) for v in u) for u in got]
            if p and q or r and s:
                return 'is both before and after'
            if m.px[0] != m.py_[0] and (p, q) != (s, r):
                return 'answers differently for swapped points'
            if cfg.kind in ('flat', 'dS', 'AdS'):
                d = m.py_[0] - m.px[0] if cfg.kind == 'flat' else None
                if d is None:
                    try:
                        d = excess(cfg.kind, m.px, m.py_, m.par)[1]
                    except ValueError:
                        d = 0.0
                    if abs(d) < 1e-12:
                        d = 0.0
                if p and d < 0 or q and d > 0:
                    return 'reports the later point as the earlier one'
            return True

        def cmp(got, m):
            r = ok(got, m)
            return r is True
        ctx.decide(
            cfg.name, 'the answer never is (True, True), is swapped with the '
            'points, and the earlier point has the smaller time',
            cfg.quals, build, lambda: models(ctx, cfg), lambda m: m, cmp=cmp)
    return ctx.finish(NOTE, 5)


NOTE = (
    'The causality functions as gated value graphs (see C15), once for (x, '
    'y) and once for (y, x); exclusiveness, antisymmetry and time order of '
    'the pair of graphs are decided by random interpretation in every region '
    'of the metric.')
