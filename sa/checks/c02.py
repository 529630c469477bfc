"""C02: constructed causets are transitively closed partial orders."""
from .. import ops
from ..post import run as run_op, check_order

RULE = 'Past of every event, in the state the operation leaves behind, is ' \
       'the transitive closure of the relations given'


def run(ctx):
    todo = [ops.ctor(ctx, True, False), ops.ctor(ctx, False, True),
            ops.ctor(ctx, True, True, nmax=4), ops.ctor(ctx, False, False),
            ops.ctor(ctx, True, True, lst=True, nmax=3),
            ops.disjoin(ctx), ops.merge(ctx, True),
            ops.merge(ctx, True, disjoint=False),
            ops.merge(ctx, True, disjoint=True),
            ops.merge(ctx, True, causet=True),
            ops.matrix(ctx), ops.matrix(ctx, True),
            ops.matrix(ctx, kinds=('int',)),
            ops.permutation(ctx)]
    for op in todo:
        run_op(ctx, op, op.name, RULE, check)
    return ctx.finish(NOTE, floor=4)


def check(post, I, m, roots, want, out):
    problem = check_order(post, I, m, roots, want, out)
    if problem is None and hasattr(m, 'result'):
        evs = post.events(I, out)
        if evs != frozenset(m.result):
            return 'the causet has the events %r' % (evs,)
    return problem


NOTE = ('Summary of every operation that creates, relates or removes events '
        'and of the constructors from matrices and permutations, evaluated '
        'from every closed order of the bound with every argument: the '
        'relation afterwards is the transitive closure that is specified, '
        'irreflexive and free of loops.')
