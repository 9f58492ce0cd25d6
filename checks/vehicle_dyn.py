from sx.reg import harness, meta
from checks._common import *

meta('V01', bounds='any rbar in [0.1,100], any latitude, flight-path and heading angle, any GM, RP, J2, J3')
meta('V02', bounds='any state with |phi|,|gamma| < pi/2, any rotation rate, any J2/J3, any density profile, any bank angle',
     assumptions=['the heading equation is compared with its documented regularised form (cos(gamma)+0.01 in the divisor)'])
meta('V03', bounds='any state, any density profile, arrays of length 1-3, any bank angle, fixed or Mach-dependent drag coefficient')
meta('V04', bounds='any state, arrays of length 1-3, any profile')
meta('V05', bounds='all eight bodies, arrays of length 1-3, any density >= 0, any speed > 0, up to 3 nose radii',
     assumptions=['powers with non-integer exponents other than 1/2,1/3,1/4 are opaque monotone-sign terms for z3; equalities of such powers are decided in the exponent normal form'])


def state(ctx, rlo=0.1):
    r = ctx.pos('rbar', rlo, 100)
    th = ctx.real('theta', -7, 7)
    phi = ctx.real('phi', -1.55, 1.55)
    v = ctx.pos('vbar', 1e-3, 100)
    psi = ctx.real('psi', -7, 7)
    g = ctx.real('gamma', -1.55, 1.55)
    return r, th, phi, v, psi, g


def gravity(ctx, p, r, phi):
    """gradient of U = 1/r [1 - J2 r^-2 P2(sin phi) - J3 r^-3 P3(sin phi)], derived term by term"""
    s, c = ctx.np.sin(phi), ctx.np.cos(phi)
    P2, P3 = (3 * s * s - 1) / 2, (5 * s ** 3 - 3 * s) / 2
    dP2, dP3 = 3 * s * c, (15 * s * s - 3) * c / 2
    gr = -1 / r ** 2 + 3 * p.J2 * P2 / r ** 4 + 4 * p.J3 * P3 / r ** 5
    gp = -p.J2 * dP2 / r ** 4 - p.J3 * dP3 / r ** 5
    return gr, gp


@harness('V01', 'gradient', ['Vehicle.grbar', 'Vehicle.gphibar', 'Vehicle.gthetabar', 'Vehicle.gnbar', 'Vehicle.gsbar', 'Vehicle.gwbar'],
         'any rbar, phi, gamma, psi, J2, J3')
def _(ctx):
    p = sym_planet(ctx)
    v = sym_vehicle(ctx, p)
    r, th, phi, V, psi, g = state(ctx)
    np = ctx.np
    gr, gp = gravity(ctx, p, r, phi)
    sc = [1 / r ** 2, abs_(ctx, p.J2) / r ** 4, abs_(ctx, p.J3) / r ** 5] if not ctx.symbolic else None
    ctx.eq('radial', v.grbar(r, phi), gr, scale=sc)
    ctx.eq('meridional', v.gphibar(r, phi), gp, scale=sc)
    ctx.eq('zonal', v.gthetabar(r, phi), ctx.lit(0.0))
    sg, cg, sp, cp = np.sin(g), np.cos(g), np.sin(psi), np.cos(psi)
    gs, gn, gw = v.gsbar(r, phi, g, psi), v.gnbar(r, phi, g, psi), v.gwbar(r, phi, g, psi)
    ctx.eq('along velocity', gs, gr * sg + gp * cg * sp, scale=sc)
    ctx.eq('normal', gn, gr * cg - gp * sg * sp, scale=sc)
    ctx.eq('lateral', gw, gp * cp, scale=sc)
    ctx.eq('magnitude', gs ** 2 + gn ** 2 + gw ** 2, gr ** 2 + gp ** 2, scale=None if sc is None else [x * x for x in sc])


def abs_(ctx, x):
    return ctx.abs(x)


@harness('V01', 'bodies', ['Vehicle.grbar', 'Vehicle.gphibar'], 'the eight supported bodies with their shipped J2, J3')
def _(ctx):
    p = ctx.m.planet.Planet(ctx.choice('planet', PLANETS))
    v = sym_vehicle(ctx, p)
    r = ctx.pos('rbar', 0.9, 100)
    phi = ctx.real('phi', -1.55, 1.55)
    gr, gp = gravity(ctx, p, r, phi)
    ctx.eq('radial', v.grbar(r, phi), gr)
    ctx.eq('meridional', v.gphibar(r, phi), gp, atol=1e-15)
    ctx.check('attractive', v.grbar(r, phi) < 0)


@harness('V01', 'arrays', ['Vehicle.grbar', 'Vehicle.gphibar', 'Vehicle.gsbar'], 'element-wise over arrays of length 3')
def _(ctx):
    p = sym_planet(ctx)
    v = sym_vehicle(ctx, p)
    r = ctx.vec('r', 2, lo=0.5, hi=50)
    ph = ctx.vec('phi', 2, lo=-1.5, hi=1.5)
    a, b = v.grbar(r, ph), v.gphibar(r, ph)
    for i in range(2):
        gr, gp = gravity(ctx, p, r[i], ph[i])
        ctx.eq('radial', a[i], gr, atol=1e-9)
        ctx.eq('meridional', b[i], gp, atol=1e-9)


def newton(ctx, v, p, d, y, delta):
    """residuals of Newton's second law in the rotating frame along the wind axes"""
    np = ctx.np
    r, th, phi, V, psi, g = y
    sg, cg, sp, cp, sf, cf = np.sin(g), np.cos(g), np.sin(psi), np.cos(psi), np.sin(phi), np.cos(phi)
    dr, dth, dphi, dV, dpsi, dg, dx = d
    W = p.OMEGAbar
    # velocity components on (e_r, e_theta, e_phi)
    u, w, z = V * sg, V * cg * cp, V * cg * sp
    du = dV * sg + V * cg * dg
    # dpsi does not enter the e_v and e_n projections
    dw = dV * cg * cp - V * sg * cp * dg
    dz = dV * cg * sp - V * sg * sp * dg
    # rotation of the local frame
    wr, wt, wp = -w * dth * cf - z * dphi, u * dth * cf - z * dth * sf, u * dphi + w * dth * sf
    acc = (du + wr, dw + wt, dz + wp)
    gr, gp = gravity(ctx, p, r, phi)
    O = (W * sf, 0, W * cf)           # on (e_r, e_theta, e_phi): sin phi, 0, cos phi
    vel = (u, w, z)
    cor = cross(O, vel)
    cen = cross(O, cross(O, (r, 0, 0)))
    f = [gr - 2 * cor[0] - cen[0], -2 * cor[1] - cen[1], gp - 2 * cor[2] - cen[2]]
    ev, en, ew = (sg, cg * cp, cg * sp), (cg, -sg * cp, -sg * sp), (0, -sp, cp)
    return acc, f, ev, en, ew


def cross(a, b):
    # right-handed order (e_r, e_theta, e_phi)
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def _eom(ctx, which):
    p = sym_planet(ctx)
    p.h_thres = ctx.pos('h_thres', 1e4, 1e8)
    v = sym_vehicle(ctx, p)
    y = state(ctx)
    r, th, phi, V, psi, g = y
    delta = ctx.real('delta', -6.3, 6.3)
    x = ctx.real('drange', -1e3, 1e3)
    t = ctx.real('t', 0, 1e5)
    full = [r, th, phi, V, psi, g, x]
    d = v.EOM(full, t, delta) if which == 1 else v.EOM2(t, full, delta)
    np = ctx.np
    sg, cg, sp, cp, sf, cf = np.sin(g), np.cos(g), np.sin(psi), np.cos(psi), np.sin(phi), np.cos(phi)
    ctx.check('seven rates', len(d) == 7)
    ctx.eq('radius rate', d[0], V * sg)
    ctx.eq('longitude rate', d[1] * r * cf, V * cg * cp)
    ctx.eq('latitude rate', d[2] * r, V * cg * sp)
    ctx.eq('range rate', d[6], V * cg)
    h = r * p.RP - p.RP
    if ctx.fork(h < 0):
        rho = p.rho0
    elif ctx.fork(h > p.h_thres):
        rho = ctx.lit(0.0)
    else:
        rho = p.density_int.at(h)
    # specific aerodynamic accelerations in units of GM/RP^2
    D = rho * V ** 2 * p.RP / (2 * v.beta)
    L = v.LD * D
    acc, f, ev, en, ew = newton(ctx, v, p, d, y, delta)
    sc = None if ctx.symbolic else [D, L, V * V / r, 1 / r ** 2, p.OMEGAbar * V, p.OMEGAbar ** 2 * r, 0.1 / r ** 5]
    ctx.eq('force balance along velocity', dot(acc, ev), dot(f, ev) - D, scale=sc)
    ctx.eq('force balance normal', dot(acc, en), dot(f, en) + L * np.cos(delta), scale=sc)
    # heading: regularised divisor for the forced terms
    W = p.OMEGAbar
    forced = L * np.sin(delta) + dot(f, ew) + 2 * W * V * cg * sf
    k = cg + ctx.lit(0.01)
    ctx.eq('heading rate', d[4] * V * k, forced + k * (-2 * W * V * sf - V * V / r * cg * cp * sf / cf),
           scale=None if ctx.symbolic else sc + [V * V / r / cf])
    # energy: only drag does work
    gr, gp = gravity(ctx, p, r, phi)
    E = V * d[3] - (gr + W * W * r * cf * cf) * d[0] - (gp * r - W * W * r * r * cf * sf) * d[2]
    ctx.eq('energy balance', E, -D * V, scale=None if ctx.symbolic else [s * V for s in sc])
    d2 = v.EOM2(t, full, delta) if which == 1 else v.EOM(full, t, delta)
    ctx.eq('both formulations agree', d, d2, scale=sc)
    ctx.eq('inputs untouched', full, [r, th, phi, V, psi, g, x])


@harness('V02', 'newton-odeint', ['Vehicle.EOM', 'Vehicle.EOM2', 'Vehicle.a_sbar', 'Vehicle.a_nbar', 'Vehicle.a_wbar', 'Vehicle.cfvbar', 'Vehicle.cfpsibar',
                                  'Vehicle.cfgammabar', 'Vehicle.copsibar', 'Vehicle.cogammabar'], 'any state')
def _(ctx):
    _eom(ctx, 1)


@harness('V02', 'newton-ivp', ['Vehicle.EOM2', 'Vehicle.EOM'], 'any state')
def _(ctx):
    _eom(ctx, 2)


# ------------------------------------------------------------------ aerodynamics
@harness('V03', 'coefficients', ['Vehicle.__init__', 'Vehicle.L', 'Vehicle.D', 'Vehicle.Lbar', 'Vehicle.Dbar', 'Vehicle.a_s', 'Vehicle.a_n', 'Vehicle.a_w',
                                 'Vehicle.a_sbar', 'Vehicle.a_nbar', 'Vehicle.a_wbar'], 'any state')
def _(ctx):
    p = sym_planet(ctx)
    v = sym_vehicle(ctx, p)
    np = ctx.np
    r, th, phi, V = ctx.pos('r', 1e5, 1e10), ctx.real('theta', -7, 7), ctx.real('phi', -1.55, 1.55), ctx.pos('v', 1, 1e5)
    dl = ctx.real('delta', -6.3, 6.3)
    rho = p.rho(r, th, phi)
    q = rho * V ** 2 / 2
    ctx.eq('ballistic coefficient', v.CD * v.A * v.beta, v.mass)
    ctx.eq('lift-to-drag', v.CL, v.LD * v.CD)
    ctx.eq('drag', v.D(r, th, phi, V), q * v.A * v.CD)
    ctx.eq('lift', v.L(r, th, phi, V), q * v.A * v.CL)
    ctx.eq('drag acceleration', v.a_s(r, th, phi, V, dl), -q / v.beta)
    an, aw = v.a_n(r, th, phi, V, dl), v.a_w(r, th, phi, V, dl)
    lift = v.LD * q / v.beta
    ctx.eq('normal acceleration', an, lift * np.cos(dl))
    ctx.eq('lateral acceleration', aw, lift * np.sin(dl))
    ctx.eq('bank preserves lift', an ** 2 + aw ** 2, lift ** 2)
    # non-dimensional twins
    rb, vb = r / p.RP, V / p.Vref
    g0 = p.GM / p.RP ** 2
    ctx.eq('a_sbar', v.a_sbar(rb, th, phi, vb, dl) * g0, v.a_s(r, th, phi, V, dl), rtol=1e-5)
    ctx.eq('a_nbar', v.a_nbar(rb, th, phi, vb, dl) * g0, an, rtol=1e-5)
    ctx.eq('a_wbar', v.a_wbar(rb, th, phi, vb, dl) * g0, aw, rtol=1e-5)
    ctx.eq('Lbar', v.Lbar(rb, th, phi, vb) * g0 * v.mass, v.L(r, th, phi, V), rtol=1e-5)
    ctx.eq('Dbar', v.Dbar(rb, th, phi, vb) * g0 * v.mass, v.D(r, th, phi, V), rtol=1e-5)
    ctx.check('drag opposes motion', v.a_s(r, th, phi, V, dl) <= 0)


@harness('V03', 'vectorised', ['Vehicle.Lvectorized', 'Vehicle.Dvectorized', 'Vehicle.a_svectorized', 'Vehicle.a_nvectorized', 'Vehicle.a_wvectorized'],
         'arrays of length 1..3')
def _(ctx):
    n = ctx.choice('n', [1, 2, 3])
    p = sym_planet(ctx)
    v = sym_vehicle(ctx, p)
    np = ctx.np
    r = ctx.vec('r', n, lo=1e5, hi=1e10)
    V = ctx.vec('v', n, lo=1, hi=1e5)
    th, ph = ctx.vec('theta', n, lo=-7, hi=7), ctx.vec('phi', n, lo=-1.55, hi=1.55)
    dl = ctx.real('delta', -6.3, 6.3)
    Lv, Dv = v.Lvectorized(r, th, ph, V), v.Dvectorized(r, th, ph, V)
    s, nn, w = v.a_svectorized(r, th, ph, V, dl), v.a_nvectorized(r, th, ph, V, dl), v.a_wvectorized(r, th, ph, V, dl)
    for x in (Lv, Dv, s, nn, w):
        ctx.check('length', len(x) == n)
    for i in range(n):
        q = p.density_int.at(r[i] - p.RP) * V[i] ** 2 / 2
        ctx.eq('drag', Dv[i], q * v.mass / v.beta)
        ctx.eq('lift', Lv[i], q * v.mass / v.beta * v.LD)
        ctx.eq('a_s', s[i], -q / v.beta)
        ctx.eq('a_n', nn[i], q / v.beta * v.LD * np.cos(dl))
        ctx.eq('a_w', w[i], q / v.beta * v.LD * np.sin(dl))


@harness('V03', 'mach-dependent-drag', ['Vehicle.setCDMachFunction', 'Vehicle.D', 'Vehicle.Dbar', 'Vehicle.Dvectorized', 'Vehicle.computeMach', 'Vehicle.computeMachScalar'],
         'any CD(Mach), arrays of length 3')
def _(ctx):
    p = sym_planet(ctx)
    v = sym_vehicle(ctx, p, userDefinedCDMach=True)
    cd = Interp(ctx, 'cdmach', 'pos')
    v.setCDMachFunction(cd)
    n = 3
    r = ctx.vec('r', n, lo=1e5, hi=1e10)
    V = ctx.vec('v', n, lo=1, hi=1e5)
    th, ph = ctx.vec('theta', n, lo=-7, hi=7), ctx.vec('phi', n, lo=-1.55, hi=1.55)
    Dv = v.Dvectorized(r, th, ph, V)
    M = v.computeMach(r, V)
    for i in range(n):
        mach = V[i] / p.sonic_int.at(r[i] - p.RP)
        ctx.eq('mach', M[i], mach)
        ctx.eq('mach scalar', v.computeMachScalar(r[i], V[i]), mach)
        c = cd.at(mach)
        ctx.eq('drag vector', Dv[i], p.density_int.at(r[i] - p.RP) * V[i] ** 2 / 2 * v.A * c)
    rho = p.rho(r[0], th[0], ph[0])
    c = cd.at(V[0] / p.sonic_int.at(r[0] - p.RP))
    ctx.eq('drag scalar', v.D(r[0], th[0], ph[0], V[0]), rho * V[0] ** 2 / 2 * v.A * c)
    ctx.eq('drag nondim', v.Dbar(r[0] / p.RP, th[0], ph[0], V[0] / p.Vref) * p.GM / p.RP ** 2 * v.mass,
           rho * V[0] ** 2 / 2 * v.A * cd.at(V[0] / p.sonic_int.at(r[0] / p.RP * p.RP - p.RP)), rtol=1e-4)


# ------------------------------------------------------------------ loads
@harness('V04', 'g-load', ['Vehicle.computeAccelerationLoad', 'Vehicle.computeAccelerationDrag'], 'arrays of length 1..3, any bank angle')
def _(ctx):
    n = ctx.choice('n', [1, 2, 3])
    p = sym_planet(ctx)
    v = sym_vehicle(ctx, p)
    np = ctx.np
    r, V = ctx.vec('r', n, lo=1e5, hi=1e10), ctx.vec('v', n, lo=1, hi=1e5)
    t, th, ph = ctx.vec('t', n), ctx.vec('theta', n), ctx.vec('phi', n)
    dl = ctx.real('delta', -6.3, 6.3)
    g = v.computeAccelerationLoad(t, r, th, ph, V, n, dl)
    gd = v.computeAccelerationDrag(t, r, th, ph, V, n, dl)
    ctx.check('length', len(g) == n and len(gd) == n)
    for i in range(n):
        q = p.density_int.at(r[i] - p.RP) * V[i] ** 2 / 2
        drag = q / v.beta / p.EARTHG
        ctx.eq('net load squared', g[i] ** 2, drag ** 2 * (1 + v.LD ** 2))
        ctx.check('net load nonnegative', g[i] >= 0)
        ctx.eq('drag load', gd[i], drag)


@harness('V04', 'pressures', ['Vehicle.computeDynPres', 'Vehicle.computeStagPres', 'Vehicle.computeMach', 'Vehicle.computeStagTemp', 'Vehicle.convertToKPa', 'Vehicle.convertToPerCm2'],
         'arrays of length 1..3')
def _(ctx):
    n = ctx.choice('n', [1, 2, 3])
    p = sym_planet(ctx)
    v = sym_vehicle(ctx, p)
    r, V = ctx.vec('r', n, lo=1e5, hi=1e10), ctx.vec('v', n, lo=1, hi=1e5)
    q, s, m, T = v.computeDynPres(r, V), v.computeStagPres(r, V), v.computeMach(r, V), v.computeStagTemp(r, V)
    for i in range(n):
        h = r[i] - p.RP
        want = p.density_int.at(h) * V[i] ** 2 / 2
        ctx.eq('dynamic pressure', q[i], want)
        ctx.eq('stagnation pressure', s[i], want + p.pressure_int.at(h))
        mach = V[i] / p.sonic_int.at(h)
        ctx.eq('mach', m[i], mach)
        ctx.eq('stagnation temperature', T[i], p.temp_int.at(h) * (1 + (p.CPCV - 1) / 2 * mach ** 2))
    ctx.eq('kPa', v.convertToKPa(q), [x / 1000 for x in q])
    ctx.eq('per cm2', v.convertToPerCm2(q), [x / 10000 for x in q])


@harness('V04', 'plot-units', ['Vehicle.convertToPlotUnits'], 'arrays of length 3, any values')
def _(ctx):
    n = 3
    p = sym_planet(ctx)
    v = sym_vehicle(ctx, p)
    np = ctx.np
    t, r, V, ph, ps, th, g, x = [ctx.vec(k, n, lo=-1e8, hi=1e8) for k in ('t', 'r', 'v', 'phi', 'psi', 'theta', 'gamma', 'range')]
    out = v.convertToPlotUnits(t, r, V, ph, ps, th, g, x)
    ctx.eq('minutes', out[0] * 60, t)
    ctx.eq('altitude km', out[1] * 1000, r - p.RP, scale=None if ctx.symbolic else [p.RP])
    ctx.eq('speed km/s', out[2] * 1000, V)
    for k, (o, a) in enumerate(((out[3], ph), (out[4], ps), (out[5], th), (out[6], g))):
        ctx.eq('degrees %d' % k, o * np.pi, a * 180)
    ctx.eq('range km', out[7] * 1000, x)


# ------------------------------------------------------------------ heating
SG = {'VENUS': 1.8960e-8, 'EARTH': 1.7623e-8, 'MARS': 1.8980e-8, 'JUPITER': 0.6556e-8, 'SATURN': 0.6356e-8, 'TITAN': 1.7407e-8}


def conv(ctx, pid, rho, V, RN):
    if pid in SG:
        return ctx.lit(SG[pid]) * ctx.np.sqrt(rho / RN) * V ** 3
    return ctx.lit(2.24008e-7) * rho ** ctx.lit(0.452130) * V ** ctx.lit(2.691800) * ctx.np.sqrt(ctx.lit(0.291) / RN)


def rad(ctx, pid, rho, V, RN):
    L = ctx.lit
    if pid == 'VENUS':
        if ctx.fork(V < 8000):
            k, e = L(3.33e-34), L(10.0)
        elif ctx.fork(V < 10000):
            k, e = L(1.22e-16), L(5.5)
        else:
            k, e = L(3.07e-48), L(13.4)
        return k * V ** e * rho ** L(1.2) * RN ** L(0.49)
    if pid == 'EARTH':
        xs = [9000, 10000, 11000, 12000, 13000, 14000, 15000, 16000]
        ys = [1.5, 35, 151, 359, 660, 1065, 1550, 2040]
        if ctx.fork(V < 9000):
            f = L(0.0)
        elif ctx.fork(V > 16000):
            f = L(2040.0)
        else:
            for i in range(1, 8):
                if i == 7 or ctx.fork(V <= xs[i]):
                    break
            f = L(ys[i - 1]) + L(ys[i] - ys[i - 1]) * (V - xs[i - 1]) / 1000
        return L(4.736e4) * RN ** L(0.6) * rho ** L(1.22) * f
    if pid in ('MARS', 'TITAN'):
        return L(0.0)
    if pid in ('JUPITER', 'SATURN'):
        return L(9.7632379e-40) * (2 * RN) ** L(-0.17905) * rho ** L(1.763827469) * V ** L(10.993852) / 10
    return L(8.125812e-3) * rho ** L(0.498140) * (V / 10000) ** L(15.113) * (RN / L(0.291))


def _heat(ctx, pids, ns):
    pid = ctx.choice('planet', pids)
    n = ctx.choice('n', ns)
    p = sym_planet(ctx, pid, consts=False)
    v = sym_vehicle(ctx, p)
    r, V = ctx.vec('r', n, lo=1e5, hi=1e10), ctx.vec('v', n, lo=1, hi=1e5, sample=(1000, 30000))
    qc, qr, qt = v.qStagConvective(r, V), v.qStagRadiative(r, V), v.qStagTotal(r, V)
    ctx.check('length', len(qc) == n and len(qr) == n and len(qt) == n)
    for i in range(n):
        rho = p.density_int.at(r[i] - p.RP)
        ctx.eq('convective', qc[i], conv(ctx, pid, rho, V[i], v.RN))
        ctx.eq('radiative', qr[i], rad(ctx, pid, rho, V[i], v.RN))
        ctx.eq('total', qt[i], qc[i] + qr[i])
        ctx.check('nonnegative', ctx.And(qc[i] >= 0, qr[i] >= 0, qt[i] >= 0))
    q2 = v.qStagTotal(r, V)
    ctx.eq('repeatable', q2, qt)


@harness('V05', 'correlations-1', ['Vehicle.qStagConvective', 'Vehicle.qStagRadiative', 'Vehicle.qStagTotal'], 'VENUS, EARTH; arrays of length 1-2', max_paths=1500, cost=5)
def _(ctx):
    _heat(ctx, ['VENUS', 'EARTH'], [2] if False else [1, 2])


@harness('V05', 'correlations-2', ['Vehicle.qStagConvective', 'Vehicle.qStagRadiative', 'Vehicle.qStagTotal'], 'remaining bodies; arrays of length 1-3')
def _(ctx):
    _heat(ctx, ['MARS', 'JUPITER', 'SATURN', 'TITAN', 'URANUS', 'NEPTUNE'], [1, 3])


@harness('V05', 'nose-radius-sweep', ['Vehicle.computeHeatingForMultipleRN'], '1-3 nose radii, trajectories of length 2-3; heat-rate correlations replaced by arbitrary functions of (RN, r, v)', max_paths=3000)
def _(ctx):
    m, n = ctx.choice('mn', [(1, 2), (2, 3), (3, 2)])
    p = sym_planet(ctx, 'MARS', consts=False)
    v = sym_vehicle(ctx, p)
    RN0 = v.RN
    r, V = ctx.vec('r', n, lo=1e5, hi=1e10), ctx.vec('v', n, lo=1000, hi=1e4)
    t = ctx.vec('t', n, lo=0, hi=1e4)
    for i in range(1, n):
        ctx.assume(t[i] >= t[i - 1] + 0.001)
    rns = ctx.vec('rn', m, lo=0.01, hi=10)
    qc = lambda rn, a, b: ctx.uf('qc', rn, a, b, sign='nonneg')
    qr = lambda rn, a, b: ctx.uf('qr', rn, a, b, sign='nonneg')
    v.qStagConvective = lambda a, b: arr(ctx, [qc(v.RN, x, y) for x, y in zip(a, b)])
    v.qStagRadiative = lambda a, b: arr(ctx, [qr(v.RN, x, y) for x, y in zip(a, b)])
    keep = (list(r), list(V), list(t), list(rns))
    qmax, load = v.computeHeatingForMultipleRN(t, r, V, rns)
    ctx.eq('nose radius restored', v.RN, RN0)
    ctx.eq('inputs untouched', [list(r), list(V), list(t), list(rns)], keep)
    ctx.check('sizes', len(qmax) == m and len(load) == m)
    for k in range(m):
        q = [qc(rns[k], r[i], V[i]) + qr(rns[k], r[i], V[i]) for i in range(n)]
        for i in range(n):
            ctx.le('peak bounds all', q[i], qmax[k])
        ctx.check('peak attained', ctx.Or(*[ctx.And(qmax[k] <= x + 1e-9, qmax[k] >= x - 1e-9) for x in q]))
        tot = ctx.lit(0.0)
        for i in range(1, n):
            tot = tot + (q[i] + q[i - 1]) * (t[i] - t[i - 1]) / 2
        ctx.eq('heat load', load[k], tot)
