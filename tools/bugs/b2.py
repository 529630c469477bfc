ce = 'causetevent.py'
cs = 'causet.py'
em = 'embeddedcauset.py'
sp = 'sprinkledcauset.py'
st = 'spacetimes.py'
sh = 'shapes.py'
ca = 'calculations.py'
co = 'colorschemes.py'
pl = 'causetplotting.py'
B = [
dict(id='C04-le-same-label', property='C04',
     edits=[(ce, "        return (self is other) or (self in other._prec)",
             "        return (self is other) or (self in other._prec) or \\\n            (self.Label is not None and self.Label == other.Label)")],
     demo='''
from causets.causetevent import CausetEvent
a = CausetEvent(label='x')
b = CausetEvent(label='x')
assert not a <= b and not a.isCausalTo(b) and a.isSpacelikeTo(b)
''',
     needs='two different events with the same label, as after joining two '
           'causets with the same numbering',
     what_it_breaks='two unrelated events are reported as ordered'),
dict(id='C07-future-unlinked-step', property='C07',
     edits=[(cs, "        return sum(1 for e in eventSet if not (e.Past & eventSet))",
             "        return sum(1 for e in eventSet if not (e.LinkPast & eventSet))")],
     demo='''
from causets.causet import Causet
c = Causet.NewChain(3)
s = {c.find(1), c.find(3)}
assert Causet.PastInfCardOf(s) == Causet.FutureInfCardOf(s) == 1
''',
     needs='an event set that is not convex',
     what_it_breaks='the past version of the query is not the time reversal '
                    'of the future version'),
dict(id='C08-disjoint-consumes', property='C08',
     edits=[(cs, "            remaining = eventSet.copy()", "            remaining = eventSet")],
     demo='''
from causets.causet import Causet
c = Causet.NewAntichain(3)
s = {c.find(1), c.find(2)}
parts = c.disjoint(s)
assert len(parts) == 2 and len(s) == 2
''',
     needs='an event set given by the caller and used again after the query',
     what_it_breaks='the query empties the set of the caller'),
dict(id='C08-causality-coordinates', property='C08',
     edits=[(st, "                    t_delta: float = y[0] - x[0]\n                    isCausal: bool = np.square(t_delta) >= \\\n                        sum(np.square(y[1:] - x[1:])) - causality_eps",
             "                    y -= x\n                    t_delta: float = y[0]\n                    isCausal: bool = np.square(t_delta) >= \\\n                        sum(np.square(y[1:])) - causality_eps")],
     demo='''
import numpy as np
from causets.spacetimes import FlatSpacetime
f = FlatSpacetime(3).Causality()
x, y = np.array([1., 0., 0.]), np.array([3., 1., 1.])
assert f(x, y) == (True, False)
assert list(y) == [3., 1., 1.] and f(x, y) == (True, False)
''',
     needs='three or more dimensions and a coordinate array that is used '
           'again after the causality test',
     what_it_breaks='the causality test changes the coordinates of the caller'),
dict(id='C09-embed-alias', property='C09',
     edits=[(ce, "                                 'the `reembed` flag.')\n        self._coordinates = list(coordinates)",
             "                                 'the `reembed` flag.')\n        self._coordinates = coordinates if isinstance(\n            coordinates, list) else list(coordinates)")],
     demo='''
from causets.causetevent import CausetEvent
a, b = CausetEvent(label=1), CausetEvent(label=2)
c = [0.0, 0.5]
a.embed(c)
c[0] = 1.0
b.embed(c)
assert list(a.Coordinates) == [0.0, 0.5] and list(b.Coordinates) == [1.0, 0.5]
''',
     needs='a coordinate list that the caller changes after embedding',
     what_it_breaks='events share the coordinate list of the caller'),
dict(id='C14-equal-times', property='C14',
     edits=[(st, "                    isCausal: bool = np.square(t_delta) >= \\\n                        r2_delta - causality_eps\n                    return ((t_delta >= 0.0) and isCausal,\n                            (t_delta < 0.0) and isCausal)",
             "                    isCausal: bool = np.square(t_delta) >= \\\n                        r2_delta - causality_eps\n                    return ((t_delta >= 0.0) and isCausal,\n                            (t_delta <= 0.0) and isCausal)")],
     demo='''
import numpy as np
from causets.spacetimes import FlatSpacetime
f = FlatSpacetime(3, period=2.0).Causality()
x, y = np.array([0., -1., 0.]), np.array([0., 1., 0.])
a, b = f(x, y)
assert not (a and b)
''',
     needs='periodic flat spacetime of three or more dimensions and two '
           'points at the same time that are a period apart',
     what_it_breaks='a point is reported before and after the other'),
dict(id='C15-period-index', property='C15',
     edits=[(st, "                        if _period[i - 1] > 0.0:", "                        if _period[0] > 0.0:")],
     demo='''
import numpy as np
from causets.spacetimes import FlatSpacetime
f = FlatSpacetime(3, period=(0.0, 4.0)).Causality()
assert f(np.array([0., 0., -1.9]), np.array([1., 0., 1.9])) == (True, False)
''',
     needs='three or more dimensions with a period in some, but not the '
           'first, space direction',
     what_it_breaks='causality across the period is not recognised'),
dict(id='C15-schwarzschild-horizon', property='C15',
     edits=[(st, "                    isCausal = t_out >= t_delta >= t_in\n", "                    isCausal = t_delta >= t_in\n")],
     demo='''
import numpy as np
from causets.spacetimes import BlackHoleSpacetime
f = BlackHoleSpacetime(2, r_S=1.0, metric='Schwarzschild').Causality()
assert f(np.array([0., 0.8]), np.array([9., 0.6])) == (False, False)
''',
     needs='two points inside the horizon with a large time difference',
     what_it_breaks='points outside of each other\'s light cones are causal'),
dict(id='C16-center-size', property='C16',
     edits=[(sh, "            if self._center.shape != (dim,):", "            if len(self._center) < dim:")],
     demo='''
from causets.shapes import CoordinateShape
try:
    s = CoordinateShape(2, 'ball', center=[0.0, 1.0, 2.0])
except ValueError:
    pass
else:
    raise AssertionError(s.Center)
''',
     needs='a centre with more coordinates than the shape has dimensions',
     what_it_breaks='an invalid centre is accepted'),
dict(id='C17-extent-order', property='C17',
     edits=[(sh, "            if dims.count(0) > 0:", "            if dims[0] == 0:")],
     demo='''
from causets.shapes import CoordinateShape
s = CoordinateShape(3, 'cylinder', radius=1.0, duration=8.0)
assert s.MaxEdgeHalf([1, 0]) == s.MaxEdgeHalf([0, 1]) == 4.0
''',
     needs='a long cylinder and time given as a later axis',
     what_it_breaks='the largest half edge misses the duration'),
dict(id='C18-cylinder-time', property='C18',
     edits=[(sp, "                    time_low: float = shape.Center[0] - \\\n                        shape.Parameter('duration') / 2",
             "                    time_low: float = \\\n                        -shape.Parameter('duration') / 2")],
     demo='''
import numpy as np
from causets.shapes import CoordinateShape
from causets.sprinkledcauset import SprinkledCauset
s = CoordinateShape(3, 'cylinder', radius=1.0, duration=2.0, center=[5., 0., 0.])
c = SprinkledCauset(dim=3, shape=s)
x = c._sprinkle_coords(200, s, np.random.default_rng(3))
assert x[:, 0].min() >= 4.0 - 1e-5 and x[:, 0].max() <= 6.0 + 1e-5
''',
     needs='a cylinder that is not centred at time zero',
     what_it_breaks='points outside of the cylinder'),
dict(id='C19-add-members', property='C19',
     edits=[(sp, "        super().add(eventSet, unlink)\n        self._intensity += (float(self.Card) - card_old)",
             "        super().add(eventSet, unlink)\n        self._intensity += float(len(set(eventSet)))")],
     demo='''
from causets.sprinkledcauset import SprinkledCauset
c = SprinkledCauset(card=4, dim=2)
c.add(set(list(c)[:2]))
assert c.Card == 4 and c.Intensity == 4.0, c.Intensity
''',
     needs='adding events that the causet has already',
     what_it_breaks='intensity counts events twice'),
dict(id='C20-relabel-dim', property='C20',
     edits=[(em, "[e.Coordinates[dim] for e in eventList]", "[e.Coordinates[min(dim, 1)] for e in eventList]")],
     demo='''
from causets.embeddedcauset import EmbeddedCauset
c = EmbeddedCauset(coordinates=[[0., .1, .9], [0., .2, .8], [0., .3, .7]])
c.relabel(dim=2)
assert {e.Label: e.Coordinates[2] for e in c} == {1: .7, 2: .8, 3: .9}
''',
     needs='three or more dimensions and relabelling by a later one',
     what_it_breaks='the order of the labels'),
dict(id='C21-list-global-scheme', property='C21',
     edits=[(co, "    CS: Dict[str, str] = getGlobalColorScheme() if schemeName is None else \\\n        pickColorScheme(schemeName)\n    for i, value",
             "    CS: Dict[str, str] = __global_color_scheme\n    for i, value")],
     demo='''
import causets.colorschemes as c
assert c.convertColorsInList(['cs:core'], 'UniYork') == ['#00627D']
''',
     needs='a list of colours converted with a scheme that is not the '
           'global one',
     what_it_breaks='the given scheme is ignored'),
dict(id='C22-future-slice', property='C22',
     edits=[(pl, "                    temp_cone = plotfcone(c, time[-1])", "                    temp_cone = plotfcone(c, time[0])")],
     demo='''
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
from causets.embeddedcauset import EmbeddedCauset
import causets.causetplotting as cplt
c = EmbeddedCauset(coordinates=[[0., 0.]])
h = cplt.plot(c, plt.gca(), futurecones=True, time=[-1.0, 1.0])
assert len(h['futurecones']) == 1
assert h['futurecones'][0].get_xy()[:, 1].max() == 1.0
''',
     needs='two different time slices for past and future cones',
     what_it_breaks='future cones are cut at the past time slice'),
dict(id='C23-harmonic-range', property='C23',
     edits=[(ca, "        total += 1. / (k + 1)\n", "        total += 1. / (k + 1) if k < 64 else 1. / k\n")],
     demo='''
from causets.calculations import HarmonicNumbers, HarmonicNumberFractions
h, f = HarmonicNumbers(80, approximate=100), HarmonicNumberFractions(80)
assert all(abs(x - float(y)) < 1e-9 for x, y in zip(h, f))
''',
     needs='more than 64 summed up harmonic numbers, that is a larger value '
           'of `approximate`',
     what_it_breaks='the summed up harmonic numbers'),
dict(id='C24-fence-flat', property='C24',
     edits=[(cs, "        if (length < 1) or (height < 0):", "        if (length < 1) or (height < 1):")],
     demo='''
from causets.causet import Causet
assert Causet.NewFence(3, 0).Card == 3
assert Causet.NewFence(1, 0).Card == 1
''',
     needs='a fence of height zero',
     what_it_breaks='events are missing'),
dict(id='C25-one-sided-entry', property='C25',
     edits=[(cs, "                    D[i, j], D[j, i] = d, d\n            if not recursive",
             "                    D[i, j] = d\n                    if d > 0:\n                        D[j, i] = d\n            if not recursive")],
     demo='''
from causets.causet import Causet
from causets.causetevent import CausetEvent
a, b, c = (CausetEvent(label=i) for i in (1, 2, 3))
d = CausetEvent(label=4, past={a, b})
D = Causet({a, b, c, d}).DistanceMatrix([a, b, c], recursive=False)
assert (D == D.T).all(), D
''',
     needs='an antichain with events that are not connected',
     what_it_breaks='the distance matrix is not symmetric'),
dict(id='C26-any-intermediate', property='C26',
     edits=[(cs, "                    i_connected: np.ndarray = D[i, :] == k", "                    i_connected: np.ndarray = D[i, :] >= k")],
     demo='''
import itertools
import numpy as np
from causets.causet import Causet
from causets.causetevent import CausetEvent


def run(n, joins):
    A = [CausetEvent(label=i) for i in range(n)]
    X = [CausetEvent(label=n + k, past={A[i], A[j]})
         for k, (i, j) in enumerate(joins)]
    D = Causet(set(A + X)).DistanceMatrix(A)
    R = np.full((n, n), -1)
    for s in range(n):
        front, k = {s}, 0
        while front:
            for x in front:
                R[s, x] = k
            front = {y for x in front for p in joins if x in p for y in p
                     if R[s, y] < 0}
            k += 1
    assert (D == R).all(), (joins, D, R)


for n in (4, 5):
    E = list(itertools.combinations(range(n), 2))
    for r in (n - 1, n):
        for joins in itertools.combinations(E, r):
            run(n, joins)
''',
     needs='an antichain of four or more events in a certain order in which '
           'a longer detour is found first',
     what_it_breaks='distances are larger than the shortest ziczac'),
dict(id='C27-rank-early', property='C27',
     edits=[(ce, "                    if r == 3.0:\n                        return 3.0", "                    if r < math.inf:\n                        return r")],
     demo='''
from causets.causetevent import CausetEvent
for k in range(200):
    a = CausetEvent(label=0)
    b1 = CausetEvent(past={a}, label=1)
    b2 = CausetEvent(past={b1}, label=2)
    b3 = CausetEvent(past={b2}, label=3)
    b4 = CausetEvent(past={b3}, label=4)
    c1 = CausetEvent(past={a}, label=5)
    c2 = CausetEvent(past={c1}, label=6)
    z = CausetEvent(past={b4, c2}, label=7)
    assert a.Rank(z) == 3.0
''',
     needs='two connections of different length (three or more) between '
           'events and an unlucky order of the set of links',
     what_it_breaks='the rank is not the least number of links'),
dict(id='C30-disjoint-step', property='C30',
     edits=[(cs, "            while pre_len < this_len:\n                pre_len = this_len\n                disjointSubset",
             "            for _ in range(3):\n                pre_len = this_len\n                disjointSubset")],
     demo='''
from causets.causet import Causet
from causets.causetevent import CausetEvent
E = [CausetEvent(label=0)]
for i in range(1, 8):
    a = CausetEvent(label=2 * i)
    E += [a, CausetEvent(label=2 * i - 1, past={E[-1], a})]
    E[-2], E[-1] = E[-1], E[-2]
C = Causet(set(E))
assert [len(p) for p in C.disjoint()] == [15]
''',
     needs='a connected part with a zigzag of many steps',
     what_it_breaks='connected events are split'),
]
