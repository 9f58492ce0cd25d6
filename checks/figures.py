"""Figures of the atmosphere profile and of a trajectory."""
from sx.reg import harness, meta
from checks._common import *
from checks.mission import Any

meta('F01', bounds='profiles of 3-4 altitudes and trajectories of 2-3 samples with arbitrary values',
     assumptions=['matplotlib draws the series it is given'])


class Axes(Any):
    """records, per subplot, the curves and the axis labels"""

    def __init__(self):
        self.__dict__.update(panels=[], shown=0)

    def _panel(self):
        if not self.panels:
            self.panels.append(dict(curves=[], x=None, y=None))
        return self.panels[-1]

    def subplot(self, *a, **k):
        self.panels.append(dict(curves=[], x=None, y=None))
        return Any()

    def plot(self, x, y, *a, **k):
        self._panel()['curves'].append((list(x), list(y)))
        return Any()

    def xlabel(self, s, **k):
        self._panel()['x'] = s

    def ylabel(self, s, **k):
        self._panel()['y'] = s

    def show(self, *a, **k):
        self.__dict__['shown'] += 1

    def __getattr__(self, n):
        if n in ('subplots', 'axes', 'add_subplot', 'figure'):
            if n == 'figure':
                return lambda *a, **k: NoAxes()
            raise AttributeError(n, name=n, obj=self)
        return Any()


Axes._verif_partial = True


class NoAxes(Any):
    """a figure: code drawing through axes objects of its own is outside the encoding"""
    _verif_partial = True

    def __getattr__(self, n):
        if n in ('add_subplot', 'subplots', 'add_axes', 'gca'):
            raise AttributeError(n, name=n, obj=self)
        return Any()


def panel(P, xw, yw):
    """the panel whose axes are labelled with the given quantities"""
    for q in P.panels:
        if q['x'] and q['y'] and xw in q['x'].lower() and yw in q['y'].lower():
            return q
    return None


def curve(ctx, P, xw, yw, x, y):
    q = panel(P, xw, yw)
    ctx.check('panel of %s' % yw, q is not None and len(q['curves']) == 1)
    X, Y = q['curves'][0]
    ctx.check('points of %s' % yw, len(X) == len(x) and len(Y) == len(y))
    ctx.eq('horizontal of %s against %s' % (yw, xw), X, x, atol=1e-9)
    ctx.eq('vertical of %s against %s' % (yw, xw), Y, y, atol=1e-9)


@harness('F01', 'profile', ['Planet.checkAtmProfiles'], '3 altitudes')
def _(ctx):
    p = sym_planet(ctx, 'MARS')
    p.h_thres = 3000.0
    P = Axes()
    ctx.replace(ctx.m.planet, 'plt', P)
    h0 = ctx.real('h0', -500, 2500)
    p.checkAtmProfiles(h0=h0)
    n = 3
    h = [h0 + (3000 - h0) * i / (n - 1) for i in range(n)]
    ctx.check('shown', P.shown == 1)
    km = [x / 1000 for x in h]
    curve(ctx, P, 'temperature', 'altitude', [p.temp_int.at(x) for x in h], km)
    curve(ctx, P, 'pressure', 'altitude', [p.pressure_int.at(x) / 1000 for x in h], km)
    curve(ctx, P, 'density', 'altitude', [p.density_int.at(x) for x in h], km)
    curve(ctx, P, 'sound', 'altitude', [p.sonic_int.at(x) for x in h], km)


def flown(ctx, n):
    v = partial(pluggable(ctx.m.vehicle.Vehicle))
    s = {}
    for k in ('t_minc', 'h_kmc', 'v_kmsc', 'acc_net_g', 'q_stag_total', 'dyn_pres_atm'):
        s[k] = ctx.vec(k, n, lo=0, hi=1e4)
    return v, s


@harness('F01', 'trajectory', ['Vehicle.makeBasicEntryPlots'], '2-3 samples')
def _(ctx):
    n = ctx.choice('n', [2, 3])
    v, s = flown(ctx, n)
    for k in s:
        setattr(v, k, s[k])
    P = Axes()
    ctx.replace(ctx.m.vehicle, 'plt', P)
    v.makeBasicEntryPlots()
    ctx.check('shown', P.shown == 1)
    for w, k in (('altitude', 'h_kmc'), ('velocity', 'v_kmsc'), ('deceleration', 'acc_net_g'), ('heat', 'q_stag_total')):
        curve(ctx, P, 'time', w, list(s['t_minc']), list(s[k]))


@harness('F01', 'q-plot', ['Vehicle.createQPlot'], '3 samples')
def _(ctx):
    v, s = flown(ctx, 3)
    t, dt, d = ctx.pos('t', 1, 1e4), ctx.pos('dt', 1e-3, 10), ctx.real('bank', -180, 180)
    flights = []

    def fly(*a):
        flights.append(a)
        for k in s:
            setattr(v, k, s[k])
    v.propogateEntry = fly
    P = Axes()
    ctx.replace(ctx.m.vehicle, 'plt', P)
    v.createQPlot(t, dt, d)
    ctx.check('flown once', len(flights) == 1 and len(flights[0]) == 3)
    ctx.eq('flown as asked', list(flights[0]), [t, dt, d])
    curve(ctx, P, 'altitude', 'dynamic pressure', [x * 1000 for x in s['h_kmc']], [x * 101325 for x in s['dyn_pres_atm']])
