from sx.reg import harness, meta
from checks._common import *

meta('V08', bounds='any bound or unbound terminal state (any r > 0, v > 0, |gamma| < pi/2, any latitude, longitude, heading), any GM, RP, rotation rate')
meta('V09', bounds='any bracket up to 64 times (quick) or 1024 times (thorough) the tolerance, any capture predicate of the entry angle, any vehicle')
meta('V10', bounds='any command, current bank, roll-rate limit and time step; measured profiles of 2-3 samples, 1-3 extrapolation points')


def terminal(ctx):
    r = ctx.pos('r', 1e5, 1e10, sample=(3e6, 1e7))
    V = ctx.pos('v', 1, 1e5, sample=(1000, 9000))
    g = ctx.real('gamma', -1.5, 1.5)
    th = ctx.real('theta', -7, 7)
    ph = ctx.real('phi', -1.55, 1.55)
    ps = ctx.real('psi', -7, 7)
    return r, V, g, th, ph, ps


def inertial(ctx, W, r, V, g, th, ph, ps):
    """inertial velocity on the local (up, east, north) axes"""
    np = ctx.np
    up, ea, no = V * np.sin(g), V * np.cos(g) * np.cos(ps), V * np.cos(g) * np.sin(ps)
    return up, ea + W * r * np.cos(ph), no


@harness('V08', 'scalars', ['Vehicle.computeEnergy', 'Vehicle.computeEnergyScalar', 'Vehicle.computeSemiMajorAxisScalar', 'Vehicle.computeAngMomScalar', 'Vehicle.computeEccScalar'],
         'any r, v, gamma; arrays of length 3')
def _(ctx):
    p = sym_planet(ctx)
    v = sym_vehicle(ctx, p)
    np = ctx.np
    r, V, g, th, ph, ps = terminal(ctx)
    E = v.computeEnergyScalar(r, V)
    ctx.eq('energy', E, V ** 2 / 2 - p.GM / r, scale=None if ctx.symbolic else [V * V, p.GM / r])
    h = v.computeAngMomScalar(r, V, g)
    ctx.eq('angular momentum', h, r * V * np.cos(g))
    e2 = v.computeEccScalar(h, E) ** 2
    # eccentricity vector magnitude
    k = r * V ** 2 / p.GM
    want = (k * np.cos(g) ** 2 - 1) ** 2 + (k * np.sin(g) * np.cos(g)) ** 2
    ctx.eq('eccentricity', e2, want, rtol=1e-5, scale=None if ctx.symbolic else [1, k, k * k])
    Ex = ctx.real('E', -1e10, 1e10)
    ctx.assume(ctx.Or(Ex > 1e-3, Ex < -1e-3))
    ctx.eq('semi-major axis', v.computeSemiMajorAxisScalar(Ex) * Ex * 2, -p.GM)
    rr, vv = ctx.vec('rv', 3, lo=1e5, hi=1e9), ctx.vec('vv', 3, lo=1, hi=1e5)
    a = v.computeEnergy(rr, vv)
    for i in range(3):
        ctx.eq('energy series', a[i], vv[i] ** 2 / 2 - p.GM / rr[i], scale=None if ctx.symbolic else [vv[i] ** 2, p.GM / rr[i]])


def _apses(ctx, apo):
    p = sym_planet(ctx)
    v = sym_vehicle(ctx, p)
    s = terminal(ctx)
    r, V, g, th, ph, ps = s
    u, e, n = inertial(ctx, p.OMEGA, *s)
    v2 = u ** 2 + e ** 2 + n ** 2
    ctx.assume(v2 > 1)
    E = v2 / 2 - p.GM / r
    ctx.assume(ctx.Or(E < -1e-3, E > 1e-3))
    h2 = r ** 2 * (e ** 2 + n ** 2)
    km = (v.compute_ApoapsisAltitudeKm if apo else v.compute_PeriapsisAltitudeKm)(*s)
    ra = km * 1000 + p.RP
    # turning points of radial motion: 2 E ra^2 + 2 GM ra - h^2 = 0
    sc = None if ctx.symbolic else [abs(2 * E * ra ** 2), abs(2 * p.GM * ra), h2]
    ctx.eq('is an apse of the inertial orbit', 2 * E * ra ** 2 + 2 * p.GM * ra, h2, rtol=1e-5, scale=sc)
    # which of the two: the far one (apoapsis) lies on the +sqrt side of the semi-major axis
    a = -p.GM / (2 * E)
    d = (ra - a) * E           # apoapsis of a bound orbit: ra >= a and E < 0
    if apo:
        ctx.le('far apse', d, 0, atol=0 if ctx.symbolic else 1e-6 * abs(a * E))
    else:
        ctx.le('near apse', 0, d, atol=0 if ctx.symbolic else 1e-6 * abs(a * E))


harness('V08', 'apoapsis', ['Vehicle.compute_ApoapsisAltitudeKm'], 'any terminal state', timeout_ms=60000)(lambda ctx: _apses(ctx, True))
harness('V08', 'periapsis', ['Vehicle.compute_PeriapsisAltitudeKm'], 'any terminal state', timeout_ms=60000)(lambda ctx: _apses(ctx, False))


def _dv(ctx, which):
    p = sym_planet(ctx)
    v = sym_vehicle(ctx, p)
    peri, apo = ctx.real('peri_km', -50, 1e5), ctx.real('apo_km', 10, 1e6)
    tgt = ctx.real('target_km', 10, 1e6)
    ctx.assume(peri <= apo)
    np = ctx.np
    rp, ra, rt = p.RP + peri * 1000, p.RP + apo * 1000, p.RP + tgt * 1000
    if which == 'peri':
        dv = v.compute_periapsis_raise_DV(peri, apo, tgt)
        at, o0, o1 = ra, rp, rt
    else:
        dv = v.compute_apoapsis_raise_DV(peri, apo, tgt)
        at, o0, o1 = rp, ra, rt
    # speed at radius `at` on the orbit with the other apse at o: v^2 = 2 GM o / (at (at + o))
    v0, v1 = np.sqrt(2 * p.GM * o0 / (at * (at + o0))), np.sqrt(2 * p.GM * o1 / (at * (at + o1)))
    ctx.eq('burn', dv, v1 - v0, rtol=1e-5, scale=None if ctx.symbolic else [v0, v1])
    if ctx.fork(tgt > (peri if which == 'peri' else apo)):
        ctx.le('raising costs', 0, dv, atol=0 if ctx.symbolic else 1e-6 * v0)


harness('V08', 'periapsis-raise', ['Vehicle.compute_periapsis_raise_DV'], 'any orbit')(lambda ctx: _dv(ctx, 'peri'))
harness('V08', 'apoapsis-raise', ['Vehicle.compute_apoapsis_raise_DV'], 'any orbit')(lambda ctx: _dv(ctx, 'apo'))


def fake_flight(ctx, v, n, log, two=False):
    """stand-in for the propagation: arbitrary retained trajectory of n samples (the propagation itself is decided by V07)"""
    def fly(t_sec, dt, delta_deg):
        log.append((t_sec, dt, delta_deg, v.gamma0_deg))
        R = v.planetObj.RP
        v.index = n
        v.exitflag = 1.0
        v.tc = arr(ctx, [ctx.real('t[%d]' % i, 0, 1e5) for i in range(n)])
        v.rc = arr(ctx, [R + ctx.real('h[%d]' % i, 0, 1e7, sample=(2e4, 3e5)) for i in range(n)])
        v.vc = arr(ctx, [ctx.pos('vv[%d]' % i, 1, 1e5, sample=(2000, 9000)) for i in range(n)])
        v.gammac = arr(ctx, [ctx.real('g[%d]' % i, -1.5, 1.5) for i in range(n)])
        v.thetac = arr(ctx, [ctx.real('th[%d]' % i, -3, 3) for i in range(n)])
        v.phic = arr(ctx, [ctx.real('ph[%d]' % i, -1.5, 1.5) for i in range(n)])
        v.psic = arr(ctx, [ctx.real('ps[%d]' % i, -3, 3) for i in range(n)])
        v.drangec = arr(ctx, [ctx.real('dr[%d]' % i, 0, 1e7) for i in range(n)])
    v.propogateEntry = fly
    v.propogateEntry2 = fly


def _flag(ctx, which):
    n = 3
    p = sym_planet(ctx, 'VENUS', consts=False)
    if which == 2:
        p.OMEGA = ctx.real('OMEGA', -1e-3, 1e-3)
    v = sym_vehicle(ctx, p)
    v.gamma0_deg = ctx.real('gamma0_deg', -40, 0)
    log = []
    fake_flight(ctx, v, n, log)
    T, dt, dl = ctx.pos('t_sec', 1, 1e5), ctx.pos('dt', 0.01, 10), ctx.real('delta_deg', -360, 360)
    tgt = ctx.real('target_km', 10, 1e6)
    if ctx.symbolic and which == 2:
        # two-body scalars as arbitrary functions (their formulas are decided by 'scalars'); replays use the real ones
        v.computeEnergyScalar = lambda r, V: ctx.uf('E', r, V)
        v.computeAngMomScalar = lambda r, V, g: ctx.uf('H', r, V, g, sign='nonneg')
        v.computeSemiMajorAxisScalar = lambda E: ctx.uf('a', E)
        v.computeEccScalar = lambda h, E: ctx.uf('e', h, E, sign='nonneg')
    ans = (v.hitsTargetApoapsis if which == 1 else v.hitsTargetApoapsis2)(T, dt, dl, tgt)
    ctx.check('flies once', len(log) == 1)
    ctx.eq('flies as asked', list(log[0]), [T, dt, dl, v.gamma0_deg])
    s = [v.rc[-1], v.vc[-1], v.gammac[-1], v.thetac[-1], v.phic[-1], v.psic[-1]]
    np = ctx.np
    if which == 1:
        r, V, g = s[:3]
        v2, h2 = V ** 2, (r * V * np.cos(g)) ** 2
        E = v2 / 2 - p.GM / r
        if ctx.fork(r - p.RP < p.h_low):
            want = 1.0
        elif ctx.fork(E >= 0):
            want = -1.0
        else:
            ra = -p.GM / (2 * E) * (1 + np.sqrt(1 + 2 * E * h2 / p.GM ** 2))
            want = -1.0 if ctx.fork(ra - p.RP >= tgt * 1000) else 1.0
    else:
        u, e, nn = inertial(ctx, p.OMEGA, *s)
        a = v.computeSemiMajorAxisScalar(v.computeEnergyScalar(s[0], np.sqrt(u ** 2 + e ** 2 + nn ** 2)))
        if ctx.fork(s[0] - p.RP < p.h_low):
            want = 1.0
        elif ctx.fork(a < 0):
            want = -1.0
        else:
            ra = v.compute_ApoapsisAltitudeKm(*s)      # decided separately
            want = -1.0 if ctx.fork(ra >= tgt) else 1.0
    ctx.eq('verdict', ans, ctx.lit(want))


harness('V08', 'target-flag', ['Vehicle.hitsTargetApoapsis', 'Vehicle.computeEnergyScalar'], 'any terminal state', timeout_ms=60000, cost=5)(lambda ctx: _flag(ctx, 1))
harness('V08', 'target-flag-rotating', ['Vehicle.hitsTargetApoapsis2', 'Vehicle.compute_ApoapsisAltitudeKm'], 'any terminal state', timeout_ms=60000, cost=5, validate=0)(lambda ctx: _flag(ctx, 2))


@harness('V08', 'captured-flag', ['Vehicle.isCaptured'], 'any trajectory of 1-3 samples')
def _(ctx):
    p = sym_planet(ctx, 'VENUS')
    v = sym_vehicle(ctx, p)
    v.gamma0_deg = ctx.real('gamma0_deg', -40, 0)
    log = []
    fake_flight(ctx, v, ctx.choice('n', [1, 2, 3]), log)
    T, dt, dl = ctx.pos('t_sec', 1, 1e5), ctx.pos('dt', 0.01, 10), ctx.real('delta_deg', -360, 360)
    ans = v.isCaptured(T, dt, dl)
    ctx.eq('flies as asked', list(log[0]), [T, dt, dl, v.gamma0_deg])
    r, V = v.rc[-1], v.vc[-1]
    ctx.eq('verdict', ans, ctx.lit(-1.0) if ctx.fork(V ** 2 * r < 2 * p.GM) else ctx.lit(1.0))


@harness('V08', 'target-flag-bodies', ['Vehicle.hitsTargetApoapsis', 'Vehicle.hitsTargetApoapsis2'], 'the eight shipped bodies: the check is available')
def _(ctx):
    pid = ctx.choice('planet', PLANETS)
    p = sym_planet(ctx, pid, consts=False)
    v = sym_vehicle(ctx, p)
    v.gamma0_deg = ctx.lit(-10.0)
    h = ctx.real('h', 0, 4000)

    def fly(*a):
        v.index = 1
        v.rc = arr(ctx, [p.RP + h])
        v.vc = arr(ctx, [ctx.lit(1000.0)])
        v.gammac = v.thetac = v.phic = v.psic = arr(ctx, [ctx.lit(0.0)])
    v.propogateEntry = v.propogateEntry2 = fly
    for nm in ('hitsTargetApoapsis', 'hitsTargetApoapsis2'):
        try:
            ans = getattr(v, nm)(ctx.lit(10.0), ctx.lit(1.0), ctx.lit(0.0), ctx.lit(1000.0))
        except AttributeError:
            ctx.check('available for ' + pid, False)
            continue
        ctx.eq('ends low: undershoot ' + pid, ans, ctx.lit(1.0))


@harness('V08', 'predicted-apoapsis', ['Vehicle.predictApoapsisAltitudeKm_withLiftUp', 'Vehicle.predictApoapsisAltitudeKm_withLiftUp2',
                                       'Vehicle.predictApoapsisAltitudeKm_afterJettision', 'Vehicle.predictApoapsisAltitudeKm_afterJettision2'],
         'any predicted trajectory of 3 samples')
def _(ctx):
    p = sym_planet(ctx, 'VENUS', consts=False)
    v = sym_vehicle(ctx, p)
    nm, ut = ctx.choice('which', [('withLiftUp', 'util'), ('withLiftUp2', 'util2'), ('afterJettision', 'utilD'), ('afterJettision2', 'utilD2')])
    log = []
    n = 3
    ser = [arr(ctx, [ctx.real('s%d[%d]' % (j, i), *b) for i in range(n)]) for j, b in enumerate(
        [(0, 100), (50, 500), (1, 10), (-80, 80), (-180, 180), (-180, 180), (-80, 80), (0, 1e5)])]

    def util(*a):
        log.append(a)
        z = arr(ctx, [ctx.lit(0.0)] * n)
        return tuple(ser) + (1.0,) + (z,) * 6
    for u in ('util', 'util2', 'utilD', 'utilD2'):
        setattr(v, 'propogateEntry_' + u, lambda *a, u=u: util(u, *a))
    apo = lambda r, V, g, th, ph, ps: ctx.uf('apo', r, V, g, th, ph, ps)
    v.compute_ApoapsisAltitudeKm = apo
    args = [ctx.real('a%d' % i, -1e3, 1e3) for i in range(11)] + [Interp(ctx, 'mes')]
    got = getattr(v, 'predictApoapsisAltitudeKm_' + nm)(*args)
    ctx.check('one prediction flight of the right kind', len(log) == 1 and log[0][0] == ut)
    ctx.eq('flown from the given state', list(log[0][1:12]), args[:11])
    ctx.check('with the measured profile', log[0][12] is args[11])
    d = ctx.np.pi / 180
    ctx.eq('apoapsis of the final state', got, apo(p.RP + ser[1][-1] * 1000, ser[2][-1] * 1000, ser[6][-1] * d, ser[5][-1] * d, ser[3][-1] * d, ser[4][-1] * d))


# ------------------------------------------------------------------ corridor searches
class TooLong(Exception):
    pass


def predicate(ctx, v, log):
    """stand-in for the capture test: an arbitrary two-valued function of the entry angle"""
    memo = {}

    def hit(t_sec, dt, delta_deg, tgt):
        g = v.gamma0_deg
        key = repr(g) if ctx.symbolic else g
        if len(log) >= (34 if ctx.tier == 'quick' else 50):
            raise TooLong
        if key not in memo:
            memo[key] = 1.0 if ctx.fork(ctx.uf('hit', g) > 0) else -1.0
        log.append((g, t_sec, dt, delta_deg, tgt, memo[key], v.beta, v.CD, v.LD, v.CL))
        return memo[key]

    v.hitsTargetApoapsis = hit
    v.hitsTargetApoapsis2 = hit
    return hit


def _search(ctx, method, delta, drag=None):
    p = sym_planet(ctx, 'VENUS', consts=False)
    v = sym_vehicle(ctx, p)
    g0 = ctx.real('gamma0', -60, 0)
    v.gamma0_deg = g0
    LD, CL, A, mass = v.LD, v.CL, v.A, v.mass
    if drag:
        v.setDragModulationVehicleParams(ctx.pos('beta1', 1, 1000), ctx.pos('ratio', 1.1, 50))
    beta = {'us': lambda: v.beta1 * v.betaRatio, 'os': lambda: v.beta1, None: lambda: v.beta, 'raw': lambda: v.beta}[drag]()
    lo, tol = ctx.real('low', -60, 0), ctx.pos('tol', 1e-6, 1)
    w = ctx.pos('width', 1e-6, 10, sample=(0.01, 3))
    lim = 1024 if ctx.tier == "thorough" else 64
    ctx.assume(w <= lim * tol)
    hi = lo + w
    T, dt, tgt = ctx.pos('t_sec', 1, 1e5), ctx.pos('dt', 0.01, 10), ctx.real('target_km', 10, 1e6)
    log = []
    predicate(ctx, v, log)
    try:
        lim, flag = getattr(v, method)(T, dt, lo, hi, tol, tgt)
    except TooLong:
        ctx.check('search ends', False)
        return
    ends = {}
    for l in log:
        if ctx.symbolic:
            ends[repr(l[0])] = l[5]
        else:
            ends[l[0]] = l[5]
        ctx.eq('flights use the requested duration, step, bank and target', list(l[1:5]), [T, dt, ctx.lit(delta), tgt])
        ctx.eq('flights use the right ballistic coefficient', [l[6], l[7] * A * beta], [beta, mass])
        if drag:
            ctx.eq('drag modulation flies without lift', [l[8], l[9]], [ctx.lit(0.0)] * 2)
    ctx.eq('entry angle restored', v.gamma0_deg, g0)
    ctx.eq('lift restored', [v.LD, v.CL], [LD, CL])
    key = (lambda x: repr(x)) if ctx.symbolic else (lambda x: x)
    a, b = ends[key(lo)], ends[key(hi)]
    if a == b:
        ctx.eq('failure reported', [lim, flag], [ctx.lit(0.0)] * 2)
        return
    ctx.eq('success reported', flag, ctx.lit(1.0))
    ctx.check('limit was flown', key(lim) in ends)
    ctx.check('inside the bracket', ctx.And(lim >= lo - 1e-12, lim <= hi + 1e-12))
    c = ends.get(key(lim))
    # a point within the tolerance with the opposite verdict
    ctx.check('verdict flips within the tolerance', ctx.Or(*[ctx.And(l[0] - lim <= tol * 1.000001, lim - l[0] <= tol * 1.000001) for l in log if l[5] != c]))


for _m, _d in (('findOverShootLimit', 180.0), ('findOverShootLimit2', 180.0), ('findUnderShootLimit', 0.0), ('findUnderShootLimit2', 0.0)):
    harness('V09', _m, ['Vehicle.' + _m], 'up to 6 (quick) / 10 (thorough) halvings', max_paths=4000)(lambda ctx, m=_m, d=_d: _search(ctx, m, d))
for _m, _k in (('findUnderShootLimitD', 'us'), ('findUnderShootLimitD2', 'us'), ('findOverShootLimitD', 'os'), ('findOverShootLimitD2', 'os'),
               ('findEFPALimitD', 'raw'), ('findEFPALimitD2', 'raw')):
    harness('V09', _m, ['Vehicle.' + _m, 'Vehicle.findEFPALimitD', 'Vehicle.setDragModulationVehicleParams'], 'up to 6 (quick) / 10 (thorough) halvings',
            max_paths=4000)(lambda ctx, m=_m, k=_k: _search(ctx, m, 0.0, k))


@harness('V09', 'width', ['Vehicle.computeTCW', 'Vehicle.computeTCW2', 'Vehicle.computeTCWD', 'Vehicle.computeTCWD2'], 'any limits')
def _(ctx):
    p = sym_planet(ctx, 'VENUS', consts=False)
    v = sym_vehicle(ctx, p)
    nm = ctx.choice('which', ['computeTCW', 'computeTCW2', 'computeTCWD', 'computeTCWD2'])
    os_ = lambda *a: (ctx.uf('os', *a), ctx.lit(1.0))
    us_ = lambda *a: (ctx.uf('us', *a), ctx.lit(1.0))
    for s in ('', '2', 'D', 'D2'):
        if s == nm[10:]:
            setattr(v, 'findOverShootLimit' + s, os_)
            setattr(v, 'findUnderShootLimit' + s, us_)
        else:
            setattr(v, 'findOverShootLimit' + s, None)
            setattr(v, 'findUnderShootLimit' + s, None)
    a = [ctx.real('a%d' % i, -100, 100) for i in range(9)]
    if 'D' in nm:
        got = getattr(v, nm)(*a[:6])
        x = (a[0], a[1], a[2], a[3], a[4], a[5])
        ctx.eq('width', got, ctx.uf('os', *x) - ctx.uf('us', *x))
    else:
        got = getattr(v, nm)(*a)
        ctx.eq('width', got, ctx.uf('os', a[0], a[1], a[2], a[3], a[6], a[8]) - ctx.uf('us', a[0], a[1], a[4], a[5], a[7], a[8]))


# ------------------------------------------------------------------ controller, measured density
@harness('V10', 'bank-rate', ['Vehicle.psuedoController', 'Vehicle.setMaxRollRate'], 'any command')
def _(ctx):
    p = sym_planet(ctx, 'VENUS', consts=False)
    v = sym_vehicle(ctx, p)
    rate, dt = ctx.pos('rate', 0.01, 360), ctx.pos('dt', 0.001, 100)
    v.setMaxRollRate(rate)
    cmd, ini = ctx.real('cmd', -360, 360), ctx.real('ini', -360, 360)
    out, cur = v.psuedoController(cmd, ini, dt)
    ctx.eq('state follows', cur, out)
    lim = rate * dt
    eps = 0 if ctx.symbolic else 1e-9 * (abs(cmd) + abs(ini) + 1)
    ctx.check('rate limit respected', ctx.And(out - ini <= lim + eps, ini - out <= lim + eps))
    if ctx.fork(ctx.And(cmd - ini <= lim, ini - cmd <= lim)):
        ctx.eq('command reached', out, cmd, atol=1e-9)
    elif ctx.fork(cmd > ini):
        ctx.eq('full rate up', out, ini + lim, atol=1e-9)
    else:
        ctx.eq('full rate down', out, ini - lim, atol=1e-9)


@harness('V10', 'setters', ['Vehicle.setTargetOrbitParams', 'Vehicle.setEquilibriumGlideParams', 'Vehicle.setDragEntryPhaseParams', 'Vehicle.setDragModulationVehicleParams', 'Vehicle.setMaxRollRate'], 'any values')
def _(ctx):
    p = sym_planet(ctx, 'VENUS', consts=False)
    v = sym_vehicle(ctx, p)
    a = [ctx.real('a%d' % i, -1e4, 1e4) for i in range(6)]
    v.setTargetOrbitParams(*a[:3])
    ctx.eq('target orbit', [v.target_peri_km, v.target_apo_km, v.target_apo_km_tol], a[:3])
    v.setEquilibriumGlideParams(*a)
    ctx.eq('glide', [v.Ghdot, v.Gq, v.v_switch_kms, v.lowAlt_km, v.numPoints_lowAlt, v.hdot_threshold], a)
    v.setDragEntryPhaseParams(*a[1:5])
    ctx.eq('drag entry', [v.v_switch_kms, v.lowAlt_km, v.numPoints_lowAlt, v.hdot_threshold], a[1:5])
    v.setDragModulationVehicleParams(a[0], a[1])
    ctx.eq('drag modulation', [v.beta1, v.betaRatio], a[:2])


@harness('V10', 'measured-density', ['Vehicle.createDensityMeasuredFunction'], '2-3 measured samples, 1-3 points below', max_paths=4000, cost=4)
def _(ctx):
    n, m = ctx.choice('nm', [(2, 1), (2, 2), (3, 2)] if ctx.tier == 'quick' else [(2, 1), (2, 2), (3, 2), (2, 3), (3, 3)])
    p = sym_planet(ctx, 'VENUS', consts=False)
    v = sym_vehicle(ctx, p)
    H = ctx.pos('H', 1e3, 1e5)
    seen = []
    p.scaleHeight = lambda h, f: (seen.append(h), H)[1]
    hs = [ctx.real('h%d' % i, 50, 200) for i in range(n)]
    rho = [ctx.pos('rho%d' % i, 1e-8, 1) for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(ctx.Or(hs[i] > hs[j] + 0.1, hs[i] < hs[j] - 0.1))
            if n > 2:
                ctx.assume(ctx.Or(ctx.And(hs[i] < hs[j], rho[i] > rho[j]), ctx.And(hs[i] > hs[j], rho[i] < rho[j])))
    ctx.assume(hs[1] < hs[0])
    low = ctx.real('low', 1, 45)
    h_in, d_in = arr(ctx, [ctx.lit(0.0)] + hs), arr(ctx, [ctx.lit(0.0)] + rho)
    f, minAlt = v.createDensityMeasuredFunction(h_in, d_in, low, m)
    ctx.eq('inputs untouched', [list(h_in), list(d_in)], [[ctx.lit(0.0)] + hs, [ctx.lit(0.0)] + rho])
    mn = hs[0]
    rm = rho[0]
    for i in range(1, n):
        if ctx.fork(hs[i] < mn):
            mn, rm = hs[i], rho[i]
    ctx.eq('lowest measured altitude', minAlt, mn * 1000)
    ctx.check('scale height at the lowest altitude', len(seen) >= 1)
    ctx.eq('scale height altitude', seen[-1], mn * 1000)
    for i in range(n):
        ctx.eq('reproduces measurements', f(hs[i] * 1000), rho[i], rtol=1e-5)
    top = mn * 1000 - 1000
    for k in range(m):
        h = top if m == 1 else top + (low * 1000 - top) * ctx.lit(float(k)) / (m - 1)
        ctx.eq('exponential below', f(h), rm * ctx.np.exp((mn * 1000 - h) / H), rtol=1e-5)
