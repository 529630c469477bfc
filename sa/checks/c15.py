"""C15: causality is decided by the metric."""
from ..core import Ctx
from ..spacetime import configs, models, want


def run(ctx):
    for cfg in configs():
        ctx.decide(
            cfg.name, 'the pair returned by the causality function is '
            '(t_x <= t_y and causal, t_x > t_y and causal) with causal '
            'decided by the metric', cfg.quals,
            lambda: cfg.build(ctx), lambda: models(ctx, cfg),
            lambda m: want(cfg, m))
    return ctx.finish(NOTE, 5)


NOTE = (
    'Each spacetime constructor followed by Causality() and the call of the '
    'returned closure is reduced to one gated value graph in the coordinates '
    'and parameters; per configuration (dimension, kind of period, metric) '
    'the graph and the metric formula are compared by random interpretation '
    'in every region of the formula: inside, outside, on and within 1e-6 of '
    'the light cone, at equal times, at equal points, across the period.')
