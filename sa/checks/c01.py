"""C01: past and future mirror each other after every operation."""
from .. import ops
from ..post import run as run_op, check_mirror

RULE = 'in the state the operation leaves behind, a is in Past(b) exactly ' \
       'when b is in Future(a), and no event is in its own past or future'


def run(ctx):
    todo = [ops.ctor(ctx, True, False), ops.ctor(ctx, False, True),
            ops.ctor(ctx, True, True, nmax=3), ops.ctor(ctx, False, False),
            ops.ctor(ctx, True, True, lst=True, nmax=3),
            ops.disjoin(ctx), ops.merge(ctx, False), ops.merge(ctx, True),
            ops.merge(ctx, False, disjoint=True),
            ops.merge(ctx, True, causet=True),
            ops.matrix(ctx), ops.matrix(ctx, True), ops.permutation(ctx),
            ops.relate(ctx), ops.relate(ctx, True), ops.relate(ctx, False)]
    for op in todo:
        run_op(ctx, op, op.name, RULE, check_mirror)
    return ctx.finish(NOTE, floor=4)


NOTE = ('Summary of every operation that creates, relates or removes events, '
        'as functional maps of the relation fields over all events; from '
        'every mirrored state (all order types of the bound, every argument) '
        'the maps after the normal end and after every exception are '
        'mirrored again.')
