from sx.reg import harness, meta
from checks._common import *

meta('V06', bounds='trajectories of 1-5 samples with arbitrary altitudes, arbitrary skip-out and trap altitudes')
meta('V07', bounds='trajectories of 2-4 samples, arbitrary integrator output, arbitrary initial state between the trap and skip-out altitudes, any bank angle and density profile',
     assumptions=['the ODE integrator is replaced by its contract: first row is the initial state, remaining rows arbitrary; its accuracy is not part of the claim'])


# ------------------------------------------------------------------ classification
def _classify(ctx, n):
    p = sym_planet(ctx, 'MARS', consts=False)
    p.RP = ctx.pos('RP', 1e5, 1e9)
    p.h_skip = ctx.pos('h_skip', 1e4, 1e7)
    p.h_trap = ctx.real('h_trap', 0, 1e6)
    ctx.assume(p.h_trap < p.h_skip)
    v = sym_vehicle(ctx, p)
    h = ctx.vec('h', n, lo=-1e6, hi=1e8, sample=(-1e5, 1e7))
    r = h + p.RP
    hs, ht = p.h_skip, p.h_trap
    # grazing equalities with both limits at once are excluded
    for x in h:
        ctx.assume(ctx.Or(x < ht, x > ht), ctx.Or(x < hs, x > hs))
    idx, flag = v.classifyTrajectory(r)
    below0 = ctx.Or(*[x < 0 for x in h])
    anyskip = ctx.Or(*[x > hs for x in h])
    anytrap = ctx.Or(*[x < ht for x in h])
    exited = ctx.And(anyskip, ctx.Not(below0))
    trapped = ctx.And(anytrap, ctx.Not(exited))
    ctx.check('exit flag', ctx.And(ctx.Implies(exited, flag == 1.0), ctx.Implies(trapped, flag == -1.0),
                                   ctx.Implies(ctx.And(ctx.Not(exited), ctx.Not(trapped)), flag == 0.0)))
    k = int(idx)
    ctx.check('index range', 0 <= k <= n)
    # everything before the cut is on the near side of the limit that ended the flight, and the cut sample is past it
    if flag == 1.0:
        ctx.check('cut at first sample above skip-out', ctx.And(h[k] > hs, *[x < hs for x in h[:k]]) if k < n else False)
    elif flag == -1.0:
        ctx.check('cut at first sample below trap', ctx.And(h[k] < ht, *[x > ht for x in h[:k]]) if k < n else False)
    else:
        ctx.check('full trajectory kept', k == n)
    t = arr(ctx, [ctx.real('t%d' % i, 0, 1e5) for i in range(n)])
    cols = [t, r] + [arr(ctx, [ctx.real('c%d_%d' % (j, i), -1e9, 1e9) for i in range(n)]) for j in range(6)]
    out = v.truncateTrajectory(*cols, idx)
    ctx.check('eight series', len(out) == 8)
    for c, o in zip(cols, out):
        ctx.check('same length', len(o) == k)
        ctx.eq('prefix kept', list(o), list(c[:k]))


for _n in (1, 2, 3, 4):
    harness('V06', 'classify-%d' % _n, ['Vehicle.classifyTrajectory', 'Vehicle.truncateTrajectory', 'Planet.computeH'], '%d samples' % _n,
            max_paths=3000, cost=_n)(lambda ctx, n=_n: _classify(ctx, n))
harness('V06', 'classify-5', ['Vehicle.classifyTrajectory', 'Vehicle.truncateTrajectory'], '5 samples', tier='thorough',
        max_paths=20000, cost=9)(lambda ctx: _classify(ctx, 5))


# ------------------------------------------------------------------ propagation wiring
class IvpResult:
    pass


def integrator(ctx, calls, n_expected=None, tag='x'):
    """stand-ins for odeint / solve_ivp: first sample is the initial state, the others arbitrary"""
    RNG = [(1, 1.05), (-3, 3), (-1.4, 1.4), (0.1, 3), (-3, 3), (-1.4, 1.4), (0, 5)]

    def rows(x0, n, k):
        out = npx.empty((n, 7), dtype=object if ctx.symbolic else float)
        for i in range(n):
            for j in range(7):
                if i == 0:
                    out[i, j] = x0[j]
                elif j in (0, 3):
                    out[i, j] = ctx.pos('%s%d_%d[%d]' % (tag, k, j, i), 0.5, 50, sample=RNG[j])
                else:
                    out[i, j] = ctx.real('%s%d_%d[%d]' % (tag, k, j, i), -50, 50, sample=RNG[j])
        return out

    def odeint(func, y0, t, args=(), rtol=None, atol=None, **kw):
        x = rows(list(y0), len(t), len(calls))
        calls.append(dict(f=func, y0=list(y0), t=list(t), args=tuple(args), rtol=rtol, atol=atol, x=x, kind='odeint'))
        return x.copy()

    def ivp(fun, t_span, y0, method='RK45', t_eval=None, events=None, args=None, rtol=None, atol=None, **kw):
        x = rows(list(y0), len(t_eval), len(calls))
        # the integration may stop early at the terminal event
        m = ctx.choice('%s.stop%d' % (tag, len(calls)), list(range(len(t_eval), max(1, len(t_eval) - 2), -1)))
        r = IvpResult()
        r.t = npx.array(list(t_eval)[:m], dtype=object if ctx.symbolic else float)
        r.y = x[:m].T.copy()
        calls.append(dict(f=fun, y0=list(y0), t=list(t_eval), args=tuple(args), rtol=rtol, atol=atol, x=x[:m], kind='ivp', span=t_span, events=events))
        return r
    ctx.external('scipy.integrate.odeint', odeint)
    ctx.external('scipy.integrate.solve_ivp', ivp)


STATE = ('h0', 'theta0', 'phi0', 'v0', 'psi0', 'gamma0', 'drange0')


def init_state(ctx, heat=True):
    return [ctx.real('h0_km', 10.5, 119.5), ctx.real('theta0_deg', -400, 400), ctx.real('phi0_deg', -80, 80),
            ctx.pos('v0_kms', 0.1, 100, sample=(3, 30)), ctx.real('psi0_deg', -400, 400), ctx.real('gamma0_deg', -80, 80),
            ctx.real('drange0_km', 0, 1e5), ctx.real('J0', 0, 1e6) if heat else ctx.lit(0.0)]


def check_call(ctx, c, p, v, s, t_sec, dt, delta_deg, n):
    """the integrator was started from the right state, grid and bank angle"""
    d2r = ctx.np.pi / 180
    h, th, ph, V, ps, g, x = s[:7]
    ctx.eq('initial radius', c['y0'][0] * p.RP, p.RP + h * 1000)
    ctx.eq('initial longitude', c['y0'][1], th * d2r)
    ctx.eq('initial latitude', c['y0'][2], ph * d2r)
    ctx.eq('initial speed', c['y0'][3] * p.Vref, V * 1000)
    ctx.eq('initial heading', c['y0'][4], ps * d2r)
    ctx.eq('initial flight-path angle', c['y0'][5], g * d2r)
    ctx.eq('initial range', c['y0'][6] * p.RP, x * 1000)
    ctx.check('one bank angle', len(c['args']) == 1)
    ctx.eq('bank angle', c['args'][0], delta_deg * d2r)
    ctx.eq('tolerances', [c['rtol'], c['atol']], [v.tol, v.tol])
    ctx.check('grid length', len(c['t']) in ((n,) if ctx.symbolic else (n, n + 1)))
    for i, t in enumerate(c['t']):
        ctx.eq('time grid', t * p.tau, dt * i, atol=1e-9)
    if c['kind'] == 'ivp':
        ctx.eq('integration starts at zero', c['span'][0], 0)
        ctx.check('integration covers the grid', ctx.And(*[ti <= c['span'][1] for ti in c['t']]))
        check_events(ctx, c['events'], d2r)
    # right-hand side wiring
    y = [ctx.lit(1.01), ctx.lit(0.1), ctx.lit(0.2), ctx.lit(1.2), ctx.lit(0.3), ctx.lit(-0.1), ctx.lit(0.0)]
    dl = ctx.lit(0.4)
    got = c['f'](y, ctx.lit(0.0), dl) if c['kind'] == 'odeint' else c['f'](ctx.lit(0.0), y, dl)
    ctx.eq('right-hand side', list(got), list(v.EOM(y, ctx.lit(0.0), dl)))


def check_events(ctx, events, d2r):
    """the integration may end early only in nearly vertical descent, and does end there"""
    ev = [e for e in (events if isinstance(events, (list, tuple)) else [events] if events else []) if getattr(e, 'terminal', False)]
    y = [ctx.pos('ev.r', 0.9, 2), ctx.real('ev.th', -7, 7), ctx.real('ev.ph', -1.5, 1.5), ctx.pos('ev.v', 1e-3, 10), ctx.real('ev.psi', -7, 7),
         ctx.real('ev.gamma', -87, 90) * d2r, ctx.real('ev.x', 0, 10)]
    t, dl = ctx.real('ev.t', 0, 1e3), ctx.real('ev.delta', -3, 3)
    down = list(y)
    down[5] = -ctx.lit(89) * d2r
    stops = []
    for e in ev:
        a, b = e(t, y, dl), e(t, down, dl)
        ctx.check('no early stop before vertical descent', ctx.Not(a == 0) if ctx.symbolic else a != 0)
        d = getattr(e, 'direction', 0) or 0
        stops.append(ctx.Or(ctx.And(a > 0, b <= 0, d <= 0), ctx.And(a < 0, b >= 0, d >= 0)))
    ctx.check('stops in vertical descent', ctx.Or(*stops) if stops else False)


def check_outputs(ctx, c, p, v, o, delta, J0):
    """published series equal the integrator's output in the documented units, truncated consistently"""
    x = c['x']
    n = len(x)
    r = arr(ctx, [x[i, 0] * p.RP for i in range(n)])
    idx, flag = v.classifyTrajectory(r)
    k = int(idx)
    ctx.check('exit flag', flag == o['exitflag'])
    r2d = 180 / ctx.np.pi
    for nm, want in (('t_min', [c['t'][i] * p.tau / 60 for i in range(k)]),
                     ('h_km', [(x[i, 0] * p.RP - p.RP) / 1000 for i in range(k)]),
                     ('v_kms', [x[i, 3] * p.Vref / 1000 for i in range(k)]),
                     ('phi_deg', [x[i, 2] * r2d for i in range(k)]),
                     ('psi_deg', [x[i, 4] * r2d for i in range(k)]),
                     ('theta_deg', [x[i, 1] * r2d for i in range(k)]),
                     ('gamma_deg', [x[i, 5] * r2d for i in range(k)]),
                     ('drange_km', [x[i, 6] * p.RP / 1000 for i in range(k)])):
        ctx.check('length ' + nm, len(o[nm]) == k)
        ctx.eq('series ' + nm, list(o[nm]), want, atol=1e-6)
    t = arr(ctx, [c['t'][i] * p.tau for i in range(k)])
    rc, th, ph = r[:k], x[:k, 1], x[:k, 2]
    V = arr(ctx, [x[i, 3] * p.Vref for i in range(k)])
    if 'rc' in o:
        for nm, want in (('tc', t), ('rc', rc), ('thetac', th), ('phic', ph), ('vc', V), ('psic', x[:k, 4]), ('gammac', x[:k, 5]),
                         ('drangec', [x[i, 6] * p.RP for i in range(k)])):
            ctx.eq('state ' + nm, list(o[nm]), list(want))
    ctx.eq('net load', list(o['acc_net_g']), list(v.computeAccelerationLoad(t, rc, th, ph, V, k, delta)))
    ctx.eq('drag load', list(o['acc_drag_g']), list(v.computeAccelerationDrag(t, rc, th, ph, V, k, delta)))
    ctx.eq('dynamic pressure', [a * 101325 for a in o['dyn_pres_atm']], list(v.computeDynPres(rc, V)))
    ctx.eq('stagnation pressure', [a * 101325 for a in o['stag_pres_atm']], list(v.computeStagPres(rc, V)))
    qc, qr = v.qStagConvective(rc, V), v.qStagRadiative(rc, V)
    ctx.eq('heat rate', list(o['q_stag_total']), [a + b for a, b in zip(qc, qr)])
    if 'q_stag_con' in o:
        ctx.eq('convective heat rate', list(o['q_stag_con']), list(qc))
        ctx.eq('radiative heat rate', list(o['q_stag_rad']), list(qr))
    acc = J0
    want = [acc]
    for i in range(1, k):
        acc = acc + (qc[i] + qr[i] + qc[i - 1] + qr[i - 1]) * (t[i] - t[i - 1]) / 2
        want.append(acc)
    ctx.eq('heat load', list(o['heatload']), want)


def _setup(ctx, n, consts=True):
    p = sym_planet(ctx, 'MARS', consts=consts)
    if not consts:
        p.OMEGA = ctx.real('OMEGA', -1e-3, 1e-3)
        p.OMEGAbar = p.OMEGA * p.tau
    p.h_skip, p.h_trap, p.h_low = ctx.lit(120000.0), ctx.lit(10000.0), ctx.lit(10000.0)
    p.h_thres = ctx.lit(1e9)
    v = sym_vehicle(ctx, p)
    stub_aero(ctx, v)
    tol = ctx.pos('tol', 1e-12, 1e-2)
    v.setSolverParams(tol)
    dt = ctx.choice('dt', [1, 2])
    return p, v, dt, dt * (n - 1)


def stub_aero(ctx, v):
    """heating correlations as arbitrary functions of density, speed and nose radius (decided by V05)"""
    f = Heat(ctx)
    v.qStagConvective = f.bind(v, 'qc')
    v.qStagRadiative = f.bind(v, 'qr')


class Heat:
    def __init__(self, ctx):
        self.ctx = ctx

    def bind(self, v, nm):
        return HeatFn(self.ctx, v, nm)

    def __deepcopy__(self, memo):
        return self


class HeatFn:
    """instance-level stand-in surviving deepcopy: uses the copy's own planet"""

    def __init__(self, ctx, v, nm):
        self.ctx, self.v, self.nm = ctx, v, nm

    def __call__(self, r, v):
        d = self.v.planetObj
        return arr(self.ctx, [self.ctx.uf(self.nm, d.density_int.at(a - d.RP), b, self.v.RN, sign='nonneg') for a, b in zip(r, v)])

    def __deepcopy__(self, memo):
        import copy
        return HeatFn(self.ctx, copy.deepcopy(self.v, memo), self.nm)


def outs(v):
    o = {k: getattr(v, k + 'c') for k in ('t_min', 'h_km', 'v_kms', 'phi_deg', 'psi_deg', 'theta_deg', 'gamma_deg', 'drange_km')}
    o.update({k: getattr(v, k) for k in ('tc', 'rc', 'thetac', 'phic', 'vc', 'psic', 'gammac', 'drangec', 'exitflag', 'acc_net_g', 'acc_drag_g',
                                         'dyn_pres_atm', 'stag_pres_atm', 'q_stag_con', 'q_stag_rad', 'q_stag_total', 'heatload')})
    return o


def snapshot(ctx, v, p):
    return [v.mass, v.beta, v.CD, v.A, v.CL, v.LD, v.RN, p.GM, p.RP, p.OMEGA, p.rho0, p.J2, p.J3, p.Vref, p.tau, p.h_skip, p.h_trap]


def _prop(ctx, which, n):
    p, v, dt, T = _setup(ctx, n)
    s = init_state(ctx)
    delta = ctx.real('delta_deg', -360, 360)
    calls = []
    integrator(ctx, calls)
    v.setInitialState(*s)
    before = snapshot(ctx, v, p)
    (v.propogateEntry if which == 1 else v.propogateEntry2)(T, dt, delta)
    ctx.check('one integration', len(calls) == 1)
    check_call(ctx, calls[0], p, v, s, T, dt, delta, n)
    o = outs(v)
    if len(o['tc']) == 0:
        return
    check_outputs(ctx, calls[0], p, v, o, delta * ctx.np.pi / 180, s[7])
    ctx.eq('vehicle and planet untouched', snapshot(ctx, v, p), before)
    ctx.eq('initial state untouched', [v.h0_km, v.theta0_deg, v.phi0_deg, v.v0_kms, v.psi0_deg, v.gamma0_deg, v.drange0_km, v.heatLoad0], s)


for _w in (1, 2):
    for _n in (2, 3):
        harness('V07', 'entry%d-%d' % (_w, _n), ['Vehicle.setInitialState', 'Vehicle.propogateEntry' + ('2' if _w == 2 else ''), 'Vehicle.solveTrajectory' + ('2' if _w == 2 else ''),
                                                 'Vehicle.classifyTrajectory', 'Vehicle.truncateTrajectory', 'Vehicle.convertToPlotUnits', 'Planet.nonDimState', 'Planet.dimensionalize'],
                '%d samples' % _n, max_paths=3000, cost=_n)(lambda ctx, w=_w, n=_n: _prop(ctx, w, n))

UT = ('t_min', 'h_km', 'v_kms', 'phi_deg', 'psi_deg', 'theta_deg', 'gamma_deg', 'drange_km', 'exitflag', 'acc_net_g', 'dyn_pres_atm', 'stag_pres_atm',
      'q_stag_total', 'heatload', 'acc_drag_g')


def _util(ctx, which, n):
    import copy
    p, v, dt, T = _setup(ctx, n)
    s = init_state(ctx)
    delta = ctx.real('delta_deg', -360, 360)
    calls = []
    integrator(ctx, calls)
    mes = Interp(ctx, 'rho_measured')
    drag = which in ('utilD', 'utilD2')
    if drag:
        v.setDragModulationVehicleParams(ctx.pos('beta1', 1, 1000), ctx.pos('betaRatio', 1.1, 50))
        # after jettison the caller's vehicle already carries the second coefficient
        v.beta = v.beta1 * v.betaRatio
        v.CD = v.mass / (v.beta * v.A)
    before = snapshot(ctx, v, p)
    args = [s[0], s[1], s[2], s[3], s[5], s[4], s[6], s[7], T, dt, delta, mes]
    out = getattr(v, 'propogateEntry_' + which)(*args)
    ctx.check('fifteen outputs', len(out) == 15)
    o = dict(zip(UT, out))
    ctx.check('one integration', len(calls) == 1)
    ctx.eq('vehicle and planet untouched', snapshot(ctx, v, p), before)
    ctx.check('atmosphere model untouched', p.density_int.name == 'rho' and v.planetObj is p)
    w = copy.deepcopy(v)
    w.planetObj.density_int = mes
    check_call(ctx, calls[0], w.planetObj, w, s, T, dt, delta, n)
    if len(o['t_min']) == 0:
        return
    check_outputs(ctx, calls[0], w.planetObj, w, o, delta * ctx.np.pi / 180, s[7])


for _w in ('util', 'util2', 'utilD', 'utilD2'):
    for _n in (2, 3):
        harness('V07', '%s-%d' % (_w, _n), ['Vehicle.propogateEntry_' + _w], '%d samples; measured density profile arbitrary' % _n, max_paths=3000, cost=_n,
                tier='quick' if _n == 2 else 'thorough')(lambda ctx, w=_w, n=_n: _util(ctx, w, n))


@harness('V07', 'state-setter', ['Vehicle.setInitialState', 'Vehicle.setSolverParams'], 'any state')
def _(ctx):
    p = sym_planet(ctx, 'MARS', consts=False)
    v = sym_vehicle(ctx, p)
    s = init_state(ctx)
    v.setInitialState(*s)
    names = ('h0_km', 'theta0_deg', 'phi0_deg', 'v0_kms', 'psi0_deg', 'gamma0_deg', 'drange0_km', 'heatLoad0')
    ctx.eq('stored', [getattr(v, a) for a in names], s)
    ctx.eq('reference copy stored', [getattr(v, a + '_ref') for a in names], s)
    tol = ctx.pos('tol', 1e-12, 1)
    v.setSolverParams(tol)
    ctx.eq('tolerance', v.tol, tol)
