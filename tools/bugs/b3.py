st = 'spacetimes.py'
HEAD = '''
import numpy as np
import matplotlib
matplotlib.use('Agg')
from matplotlib.pyplot import gca
'''
B = [
dict(id='C31-period-axis', property='C31',
     edits=[(st, "                    k_z = self.Parameter('period')[dims[2] - 1]\n                    k_x = self.Parameter('period')[dims[0] - 1]",
             "                    k_z = self.Parameter('period')[dims[0] - 1]\n                    k_x = self.Parameter('period')[dims[0] - 1]")],
     demo=HEAD + '''
from causets.spacetimes import FlatSpacetime


class Ax:
    def plot_surface(self, *a, **k):
        pass


S = FlatSpacetime(3, period=(2.0, 4.0))
r = S.ConePlotter([1, 0, 2], {}, 1, Ax(), samplingsize=8)(
    np.array([0.0, 0.0, 0.0]), 0.5)
tips = {tuple(np.round([m[0, 0] for m in xyz], 3) + 0.0) for xyz in r}
assert tips == {(x, 0.0, z) for x in (-2., 0., 2.) for z in (-4., 0., 4.)}, tips
''',
     needs='different periods per direction and time as the second axis of a '
           '3D plot',
     what_it_breaks='the images are shifted by the period of another axis'),
dict(id='C31-rotation', property='C31',
     edits=[(st, "        XY = np.matmul(XY, R.T)", "        XY = np.matmul(XY, R)")],
     demo=HEAD + '''
from causets.spacetimes import deSitterSpacetime
S = deSitterSpacetime(3, 1.0)
o = np.array([0.0, 0.2, 0.6])
p = S.ConePlotter([1, 2], {}, 1, gca())(o, 1e-3).get_xy()
assert np.abs(p - o[1:]).max() < 0.01, p[0]
''',
     needs='an origin off the first plotted space axis',
     what_it_breaks='the cone is drawn around the mirrored position'),
dict(id='C31-singularity', property='C31',
     edits=[(st, "                    t = min(t, f_out(0.0))", "                    t = f_out(0.0)")],
     demo=HEAD + '''
from causets.spacetimes import BlackHoleSpacetime
S = BlackHoleSpacetime(2, 1.0)
p = S.ConePlotter([1, 0], {}, 1, gca())(np.array([0.0, 0.9]), 0.05).get_xy()
assert p[:, 1].max() <= 0.05 + 1e-3, p
''',
     needs='an origin inside of the horizon and an early time slice',
     what_it_breaks='the cone is drawn beyond the time slice'),
]
