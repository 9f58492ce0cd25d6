from sx.reg import harness, meta
from checks._common import *

meta('A01', bounds='any arrival velocity (not along the pole), any body constants and pole direction, any periapsis radius and B-plane angle')
meta('A02', bounds='any hyperbola orientation and shape, any true anomaly inside the asymptotes, any entry radius above periapsis')


def free_planet(ctx, pole=False):
    """Planet(...) yields a body with arbitrary constants; pole=True keeps an arbitrary pole direction, otherwise the body frame is the ICRF"""
    P = ctx.m.planet.Planet
    init = P.__init__
    box = {}
    GM, RP, W = ctx.pos('GM', 1e11, 1e18, sample=(1e13, 1e16)), ctx.pos('RP', 1e6, 1e8), ctx.real('OMEGA', -1e-3, 1e-3)
    a0, d0 = (ctx.real('a0', 0, 6.28), ctx.real('d0', -1.57, 1.57)) if pole else (-ctx.np.pi / 2, ctx.np.pi / 2)

    def patched(self, pid, *a, **k):
        init(self, pid, *a, **k)
        box['pid'] = pid
        self.GM, self.RP, self.OMEGA, self.a0, self.d0 = GM, RP, W, a0, d0
    ctx.replace(P, '__init__', patched)
    return GM, RP, W, a0, d0, box


def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), 0 * a[0])


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def vinf(ctx):
    v = arr(ctx, [ctx.real('vinf%s' % k, -60, 60) for k in 'xyz'])
    ctx.assume(v[0] ** 2 + v[1] ** 2 > 0.01)
    return v


def stub_state(ctx, **kw):
    """symbolic runs of the constructor: the state functions are decided by A02; here they return arbitrary vectors and record the anomaly asked for"""
    A = ctx.m.approach.Approach
    asked = {}
    if ctx.symbolic or kw:
        def st(name, vec):
            def f(self, th):
                asked[name] = th
                return vec
            ctx.replace(A, name, f)
        st('pos_vec_bi', kw.get('pos', arr(ctx, [ctx.lit(1)] * 3)))
        st('vel_vec_bi', kw.get('vel', arr(ctx, [ctx.lit(1)] * 3)))
    return asked


def build(ctx, planar=False, **kw):
    GM, RP, W, a0, d0, box = free_planet(ctx)
    v = vinf(ctx)
    rp = ctx.pos('rp', 1e6, 1e9, sample=(3e6, 1e8))
    psi = ctx.real('psi', -6.28, 6.28)
    stub_state(ctx)
    ap = ctx.m.approach.Approach('NEPTUNE', v, rp, psi, **kw)
    ctx.eq('asked for the arrival body', 1 if box['pid'] == 'NEPTUNE' else 0, 1)
    return ap, GM, RP, W, v, rp, psi


@harness('A01', 'conic', ['Approach.__init__'], 'any arrival velocity, periapsis, B-plane angle', cost=3)
def _(ctx):
    ap, GM, RP, W, v, rp, psi = build(ctx)
    np = ctx.np
    v2 = dot(v, v) * 1e6
    ctx.eq('speed', ap.v_inf_mag ** 2, v2)
    ctx.eq('speed in km/s', ap.v_inf_mag_kms * 1000, ap.v_inf_mag)
    ctx.eq('speed along the body axes', ap.v_inf_vec_bi_mag_kms * 1000, ap.v_inf_mag)
    ctx.eq('energy', ap.a * v2, -GM)
    ctx.eq('periapsis from shape', ap.a * (1 - ap.e), rp)
    ctx.eq('asymptote angle', np.cos(ap.beta) * ap.e, 1)
    ctx.eq('angular momentum', ap.h ** 2, rp ** 2 * v2 + 2 * GM * rp)
    ctx.eq('miss distance', ap.b_mag ** 2 * v2, ap.h ** 2)
    ctx.le('positive miss distance', 0, ap.b_mag)
    ctx.eq('B-plane angle', ap.b_plane_angle_theta - psi, np.pi / 2)


@harness('A01', 'periapsis-vector', ['Approach.__init__'], 'any arrival velocity, periapsis, B-plane angle', cost=3)
def _(ctx):
    ap, GM, RP, W, v, rp, psi = build(ctx)
    np = ctx.np
    u = ap.rp_vec_bi
    ctx.eq('distance', dot(u, u), rp ** 2)
    ctx.eq('unit', dot(ap.rp_vec_bi_unit, ap.rp_vec_bi_unit), 1)
    ctx.eq('turn from the asymptote', dot(u, v) * ap.e * 1000, rp * ap.v_inf_mag)
    # clock angle in the B-plane: T = S x pole, R = S x T
    vp = np.sqrt(v[0] ** 2 + v[1] ** 2)
    T = [v[1] / vp, -v[0] / vp, 0 * v[0]]
    vm = ap.v_inf_mag / 1000
    R = [x / vm for x in cross(list(v), T)]
    sb = np.sqrt(1 - 1 / ap.e ** 2)
    ctx.eq('towards T', dot(u, T), -rp * sb * np.sin(psi), scale=None if ctx.symbolic else [rp])
    ctx.eq('towards R', dot(u, R), rp * sb * np.cos(psi), scale=None if ctx.symbolic else [rp])
    ctx.eq('eccentricity vector', list(ap.e_vec_bi), [ap.e * x for x in ap.rp_vec_bi_unit])


@harness('A01', 'b-plane', ['Approach.__init__'], 'any arrival velocity, periapsis, B-plane angle', cost=3)
def _(ctx):
    ap, GM, RP, W, v, rp, psi = build(ctx)
    np = ctx.np
    vm = ap.v_inf_mag / 1000
    vp = np.sqrt(v[0] ** 2 + v[1] ** 2)
    S = [x / vm for x in v]
    T = [v[1] / vp, -v[0] / vp, 0 * v[0]]
    R = cross(S, T)
    one = None if ctx.symbolic else [1.0]
    ctx.eq('S', list(ap.S_vec_bi_unit), S, scale=one)
    ctx.eq('T', list(ap.T_vec_bi_unit), T, scale=one)
    ctx.eq('R', list(ap.R_vec_bi_unit), R, scale=one)


def param(ctx):
    """the same inputs by angles: asymptote at azimuth az and colatitude co, hyperbola with asymptote angle be"""
    np = ctx.np
    V = ctx.pos('speed', 0.1, 50)
    az, psi = ctx.real('az', 0, 6.28), ctx.real('psi', -6.28, 6.28)
    co, be = ctx.real('co', 0.01, 3.13), ctx.real('be', 0.05, 1.5)
    ctx.assume(np.sin(co) > 0.009, np.cos(be) > 0.05, np.sin(be) > 0.04)
    rp = ctx.pos('rp', 1e6, 1e9, sample=(3e6, 1e8))
    GM = rp * (V * 1000) ** 2 * np.cos(be) / (1 - np.cos(be))
    v = arr(ctx, [V * np.sin(co) * np.cos(az), V * np.sin(co) * np.sin(az), V * np.cos(co)])
    return v, rp, psi, GM


@harness('A01', 'orbit-plane', ['Approach.__init__'], 'any arrival velocity, periapsis, B-plane angle', cost=3)
def _(ctx):
    np = ctx.np
    v, rp, psi, GM = param(ctx)
    P = ctx.m.planet.Planet
    init = P.__init__

    def patched(self, pid, *a, **k):
        init(self, pid, *a, **k)
        self.GM, self.a0, self.d0 = GM, -np.pi / 2, np.pi / 2
    ctx.replace(P, '__init__', patched)
    stub_state(ctx)
    ap = ctx.m.approach.Approach('NEPTUNE', v, rp, psi)
    one = None if ctx.symbolic else [1.0]
    h = cross(list(ap.rp_vec_bi), [x * 1000 for x in v])
    ctx.eq('angular momentum direction', list(ap.h_vec_bi), h, scale=None if ctx.symbolic else [rp * ap.v_inf_mag])
    hv = list(ap.h_vec_bi)
    hm = np.sqrt(dot(hv, hv))
    hp = np.sqrt(hv[0] ** 2 + hv[1] ** 2)
    ctx.assume(hp > hm * 1e-3)
    hs = None if ctx.symbolic else [hm]
    ctx.eq('unit normal', [x * hm for x in ap.h_vec_bi_unit], hv, scale=hs)
    ctx.eq('inclination', np.cos(ap.i) * hm, hv[2], scale=hs)
    ctx.eq('node x', np.cos(ap.OMEGA) * hp, -hv[1], scale=hs)
    so = np.sin(ap.OMEGA)
    ctx.eq('node y', (so * hp) ** 2, hv[0] ** 2, scale=None if ctx.symbolic else [hm ** 2])
    ctx.check('node y on its side', ctx.Or(ctx.And(hv[0] >= 0, so >= -1e-9), ctx.And(hv[0] <= 0, so <= 1e-9)))
    e = list(ap.rp_vec_bi_unit)
    ctx.eq('argument of periapsis', np.cos(ap.omega) * hp, -hv[1] * e[0] + hv[0] * e[1], scale=hs)
    sw = np.sin(ap.omega)
    ctx.eq('periapsis off the node', (sw * hp) ** 2, (e[2] * hm) ** 2, scale=None if ctx.symbolic else [hm ** 2])
    ctx.check('periapsis north or south of the node', ctx.Or(ctx.And(e[2] >= 0, sw >= -1e-9), ctx.And(e[2] <= 0, sw <= 1e-9)))
    ctx.eq('aim point in the orbit plane', dot(list(ap.B_vec_bi_unit), list(ap.h_vec_bi_unit)), 0, atol=1e-9)
    ctx.eq('aim point square to the asymptote', dot(list(ap.B_vec_bi_unit), list(v)), 0, atol=1e-7)
    ctx.check('aim point on the side of periapsis', dot(list(ap.B_vec_bi_unit), e) > 0)


@harness('A01', 'body-axes', ['Approach.ICRF_to_BI', 'Approach.R1', 'Approach.R3'], 'any pole direction, any vector')
def _(ctx):
    np = ctx.np
    GM, RP, W, a0, d0, box = free_planet(ctx, pole=True)
    stub_state(ctx)
    ap = ctx.m.approach.Approach('NEPTUNE', arr(ctx, [ctx.lit(1.0), ctx.lit(2.0), ctx.lit(0.5)]), ctx.lit(3e7), ctx.lit(1.0)) if not ctx.symbolic else bare(ctx, a0, d0)
    pole = arr(ctx, [np.cos(a0) * np.cos(d0), np.sin(a0) * np.cos(d0), np.sin(d0)])
    node = arr(ctx, [-np.sin(a0), np.cos(a0), 0 * a0])
    one = None if ctx.symbolic else [1.0]
    ctx.eq('pole is the z axis', list(ap.ICRF_to_BI(pole)), [ctx.lit(0), ctx.lit(0), ctx.lit(1)], scale=one)
    ctx.eq('equator node is the x axis', list(ap.ICRF_to_BI(node)), [ctx.lit(1), ctx.lit(0), ctx.lit(0)], scale=one)
    x = arr(ctx, [ctx.real('x%d' % i, -100, 100) for i in range(3)])
    y = arr(ctx, [ctx.real('y%d' % i, -100, 100) for i in range(3)])
    X, Y = list(ap.ICRF_to_BI(x)), list(ap.ICRF_to_BI(y))
    sc = None if ctx.symbolic else [1e4]
    ctx.eq('lengths and angles kept', dot(X, Y), dot(x, y), scale=sc)
    ctx.eq('right handed', cross(X, Y), list(ap.ICRF_to_BI(arr(ctx, cross(list(x), list(y))))), scale=sc)


def bare(ctx, a0, d0):
    """an Approach of which only the pole direction matters"""
    ap = partial(ctx.m.approach.Approach)
    ap.a0, ap.d0 = a0, d0
    ap.planetObj = ctx.m.planet.Planet('NEPTUNE')
    return ap


@harness('A01', 'target-axes', ['Approach.BI_to_BI_dprime', 'Approach.R2', 'Approach.R3', 'Approach.pos_vec_bi_dprime'], 'any arrival velocity, any vector')
def _(ctx):
    np = ctx.np
    ap, GM, RP, W, v, rp, psi = build(ctx)
    x = arr(ctx, [ctx.real('x%d' % i, -100, 100) for i in range(3)])
    X = list(ap.BI_to_BI_dprime(x))
    sc = None if ctx.symbolic else [1e4]
    ctx.eq('length kept', dot(X, X), dot(x, x), scale=sc)
    ctx.eq('asymptote is the z axis', X[2] * ap.v_inf_mag / 1000, dot(x, v), scale=sc)
    vp = np.sqrt(v[0] ** 2 + v[1] ** 2)
    ctx.eq('y axis in the equator', X[1] * vp, x[1] * v[0] - x[0] * v[1], scale=sc)
    ctx.replace(ctx.m.approach.Approach, 'pos_vec_bi', lambda self, th: x)
    ctx.eq('same axes for positions', list(ap.pos_vec_bi_dprime(ctx.lit(1))), X, scale=sc)


# ------------------------------------------------------------------ states on the hyperbola
def rot3(np, a, x):
    return [np.cos(a) * x[0] - np.sin(a) * x[1], np.sin(a) * x[0] + np.cos(a) * x[1], x[2]]


def rot1(np, a, x):
    return [x[0], np.cos(a) * x[1] - np.sin(a) * x[2], np.sin(a) * x[1] + np.cos(a) * x[2]]


def to_inertial(np, Om, inc, om, x):
    """perifocal to body-inertial axes: argument of periapsis, inclination, node"""
    return rot3(np, Om, rot1(np, inc, rot3(np, om, x)))


def kepler_state(ctx, GM, h, e, Om, inc, om, th):
    """two-body position and velocity from the elements (independent statement of the orbit equation and the hodograph)"""
    np = ctx.np
    r = h ** 2 / GM / (1 + e * np.cos(th))
    k = GM / h
    P = to_inertial(np, Om, inc, om, [r * np.cos(th), r * np.sin(th), 0 * r])
    V = to_inertial(np, Om, inc, om, [-k * np.sin(th), k * (e + np.cos(th)), 0 * r])
    return P, V, r, k


def hyperbola(ctx):
    GM, RP, W, a0, d0, box = free_planet(ctx)
    stub = stub_state(ctx)
    ap = ctx.m.approach.Approach('NEPTUNE', arr(ctx, [ctx.lit(3.0), ctx.lit(0.0), ctx.lit(4.0)]), ctx.lit(3e7), ctx.np.pi / 2)
    if ctx.symbolic:
        for o, k, val in ctx._patched[-2:]:
            setattr(o, k, val)
    np = ctx.np
    e, rp = ctx.pos('e', 1.001, 50), ctx.pos('rp', 1e6, 1e9, sample=(3e6, 1e8))
    ap.rp, ap.e, ap.a = rp, e, -rp / (e - 1)
    ap.h = np.sqrt(GM * rp * (1 + e))
    ap.v_inf_mag = np.sqrt(GM * (e - 1) / rp)
    ap.v_inf_mag_kms = ap.v_inf_mag / 1000
    ap.beta = np.arccos(1 / e)
    Om, inc, om = ctx.real('node', 0, 6.28), ctx.real('inc', 0.01, 3.13), ctx.real('argp', 0, 6.28)
    ap.OMEGA, ap.i, ap.omega = Om, inc, om
    return ap, GM, e, rp, Om, inc, om


def inside(ctx, e):
    th = ctx.real('theta', -3.1, 3.1)
    ctx.assume(1 + e * ctx.np.cos(th) > 1e-3)
    return th


@harness('A02', 'position', ['Approach.pos_vec_bi', 'Approach.r_mag_bi'], 'any hyperbola and true anomaly')
def _(ctx):
    ap, GM, e, rp, Om, inc, om = hyperbola(ctx)
    th = inside(ctx, e)
    P, V, r, k = kepler_state(ctx, GM, ap.h, e, Om, inc, om, th)
    ctx.eq('distance', ap.r_mag_bi(th) * (1 + e * ctx.np.cos(th)), rp * (1 + e))
    ctx.eq('position', list(ap.pos_vec_bi(th)), P, scale=None if ctx.symbolic else [r])
    x = list(ap.pos_vec_bi(ctx.lit(0)))
    ctx.eq('periapsis distance', dot(x, x), rp ** 2)


@harness('A02', 'velocity', ['Approach.vel_vec_bi'], 'any hyperbola and true anomaly', cost=3)
def _(ctx):
    ap, GM, e, rp, Om, inc, om = hyperbola(ctx)
    th = inside(ctx, e)
    P, V, r, k = kepler_state(ctx, GM, ap.h, e, Om, inc, om, th)
    v = list(ap.vel_vec_bi(th))
    ctx.eq('vis-viva', dot(v, v), ap.v_inf_mag ** 2 + 2 * GM / r)
    ctx.eq('velocity', v, V, scale=None if ctx.symbolic else [k * e])


@harness('A02', 'series', ['Approach.pos_vec_bi', 'Approach.pos_vec_bi_dprime', 'Approach.r_mag_bi'], 'any hyperbola, arrays of two anomalies')
def _(ctx):
    ap, GM, e, rp, Om, inc, om = hyperbola(ctx)
    th = arr(ctx, [ctx.real('theta%d' % i, -3.1, 3.1) for i in range(2)])
    for t in th:
        ctx.assume(1 + e * ctx.np.cos(t) > 1e-3)
    for f in (ap.pos_vec_bi,):
        X = f(th)
        for i in range(2):
            x = f(th[i])
            ctx.eq('each sample by itself', [X[j][i] for j in range(3)], list(x), scale=None if ctx.symbolic else [rp * 1e3])
    R = ap.r_mag_bi(th)
    for i in range(2):
        ctx.eq('distances', R[i], ap.r_mag_bi(th[i]))


def entry(ctx):
    GM, RP, W, a0, d0, box = free_planet(ctx)
    np = ctx.np
    rp = ctx.pos('rp', 1e6, 1e9, sample=(3e6, 1e8))
    hEI = ctx.pos('h_EI', 1e3, 1e7)
    rEI = RP + hEI
    ctx.assume(rp < rEI * 0.999)
    lam, phi = ctx.real('lam', -3.14, 3.14), ctx.real('phi', -1.55, 1.55)
    ctx.assume(np.cos(phi) > 0.01)
    vel = arr(ctx, [ctx.real('v' + k, -1e5, 1e5) for k in 'xyz'])
    pos = arr(ctx, [rEI * np.cos(phi) * np.cos(lam), rEI * np.cos(phi) * np.sin(lam), rEI * np.sin(phi)])
    ctx.assume(dot(vel, vel) > 1)
    asked = stub_state(ctx, pos=pos, vel=vel)
    psi = ctx.np.pi / 2
    vv = arr(ctx, [ctx.lit(3.0), ctx.lit(0.0), ctx.lit(4.0)])
    ap = ctx.m.approach.Approach('NEPTUNE', vv, rp, psi, is_entrySystem=True, h_EI=hEI)
    return ap, GM, RP, W, rp, rEI, asked


@harness('A02', 'entry-interface', ['Approach.__init__'], 'any periapsis and entry altitude above it', cost=3)
def _(ctx):
    ap, GM, RP, W, rp, rEI, asked = entry(ctx)
    np = ctx.np
    th = ap.theta_star_entry
    ctx.eq('entry radius', ap.r_EI, rEI)
    ctx.eq('on the orbit at the entry radius', rEI * (1 + ap.e * np.cos(th)), rp * (1 + ap.e))
    ctx.le('before periapsis', th, 0)
    for k in asked:
        ctx.eq('state at that anomaly: ' + k, asked[k], th)
    ctx.eq('speed', ap.v_entry_inertial_mag ** 2, 25e6 + 2 * GM / rEI)
    ctx.eq('flight-path angle', np.cos(ap.gamma_entry_inertial) * rEI * ap.v_entry_inertial_mag, ap.h)
    ctx.le('descending', ap.gamma_entry_inertial, 0)


@harness('A02', 'entry-coordinates', ['Approach.__init__', 'Approach.vel_vec_entry_atm'], 'any entry position and velocity', cost=5)
def _(ctx):
    ap, GM, RP, W, rp, rEI, asked = entry(ctx)
    np = ctx.np
    r, v = list(ap.r_vec_entry_bi), list(ap.v_vec_entry_bi)
    rs, vs = (None, None) if ctx.symbolic else ([rEI], [np.sqrt(dot(v, v)) + rEI * abs(W)])
    la, lo = ap.latitude_entry_bi, ap.longitude_entry_bi
    ctx.eq('position from latitude and longitude', [rEI * np.cos(la) * np.cos(lo), rEI * np.cos(la) * np.sin(lo), rEI * np.sin(la)], r, scale=rs)
    ctx.eq('second latitude', np.sin(ap.latitude_entry_bi_analytic), np.sin(la), scale=None if ctx.symbolic else [1.0])
    ctx.eq('velocity over the rotating planet', list(ap.v_vec_entry_atm), [v[0] + W * r[1], v[1] - W * r[0], v[2]], scale=vs)
    w = list(ap.v_vec_entry_atm)
    ctx.eq('speed over the rotating planet', ap.v_entry_atm_mag ** 2, dot(w, w))
    ctx.eq('flight-path angle over the rotating planet', np.sin(ap.gamma_entry_atm) * rEI * ap.v_entry_atm_mag, dot(r, w), scale=None if ctx.symbolic else [rEI * ap.v_entry_atm_mag])
    ctx.eq('inertial flight-path angle', np.sin(ap.gamma_entry_inertial_check) * rEI * np.sqrt(dot(v, v)), dot(r, v), scale=None if ctx.symbolic else [rEI * vs[0]])


@harness('A02', 'entry-heading', ['Approach.__init__'], 'any entry position and velocity', cost=5)
def _(ctx):
    """heading from east towards north of the velocity over the rotating planet"""
    ap, GM, RP, W, rp, rEI, asked = entry(ctx)
    np = ctx.np
    w = list(ap.v_vec_entry_atm)
    la, lo = ap.latitude_entry_bi, ap.longitude_entry_bi
    V = ap.v_entry_atm_mag
    east = -w[0] * np.sin(lo) + w[1] * np.cos(lo)
    north = -(w[0] * np.cos(lo) + w[1] * np.sin(lo)) * np.sin(la) + w[2] * np.cos(la)
    ch = np.cos(ap.heading_entry_atm)
    sc = None if ctx.symbolic else [V * V]
    hor2 = east ** 2 + north ** 2
    ctx.assume(hor2 > 1e-4 * V ** 2)
    # the eastward share of the velocity, or of its horizontal part
    a, b = ch * V - east, ch * ch * hor2 - east ** 2
    ctx.check('east or west', ctx.Or(ctx.And(a <= 1e-6 * V, a >= -1e-6 * V), ctx.And(b <= 1e-6 * V ** 2, b >= -1e-6 * V ** 2, ch * east >= 0)))


@harness('A02', 'entry-heading-full', ['Approach.__init__'], 'any entry position and velocity', cost=5)
def _(ctx):
    ap, GM, RP, W, rp, rEI, asked = entry(ctx)
    np = ctx.np
    w = list(ap.v_vec_entry_atm)
    la, lo = ap.latitude_entry_bi, ap.longitude_entry_bi
    east = -w[0] * np.sin(lo) + w[1] * np.cos(lo)
    north = -(w[0] * np.cos(lo) + w[1] * np.sin(lo)) * np.sin(la) + w[2] * np.cos(la)
    V = ap.v_entry_atm_mag
    hor = np.sqrt(east ** 2 + north ** 2)
    ctx.assume(hor > 1e-2 * V)
    hd = ap.heading_entry_atm
    ctx.eq('heading over the rotating planet', [np.cos(hd) * hor, np.sin(hd) * hor], [east, north], scale=None if ctx.symbolic else [V])
