from sx.reg import harness, meta
from checks._common import *
from checks.approach import dot, cross, to_inertial, kepler_state, free_planet

meta('M01', bounds='any two arrivals of common speed, any manoeuvre point inbound on the first one, any aim point of the second (axes aligned with the manoeuvre point)',
     assumptions=['the elements of the two approach hyperbolas are given (A01 and A02 decide how Approach computes them)'])


def S(ctx, *x):
    return None if ctx.symbolic else list(x)


def pair(ctx, cls, turned=False):
    """a deflection built on two approach hyperbolas given by their elements"""
    np = ctx.np
    GM, RP, W, a0, d0, box = free_planet(ctx)
    A = ctx.pos('A', 1e6, 1e9, sample=(1e7, 1e8))
    r = ctx.pos('r', 1e7, 1e11, sample=(1e8, 1e9))
    e1 = ctx.pos('e1', 1.01, 20, sample=(1.5, 6))
    inc, eta = ctx.real('inc', 0.05, 3.0), ctx.real('eta', -3.1, 3.1)
    z1 = (A * (e1 ** 2 - 1) / r - 1) / e1
    ctx.assume(z1 < 0.99, z1 > -0.99)
    s1 = np.sqrt(1 - z1 ** 2)
    u1 = [z1, s1 * np.cos(inc), s1 * np.sin(inc)]
    d = dict(GM=GM, A=A, r=r, e1=e1, z1=z1, s1=s1, inc=inc, eta=eta, rp1=A * (e1 - 1))
    if cls == 'ProbeProbeDeflection':
        e2 = ctx.pos('e2', 1.01, 20, sample=(1.5, 6))
        z2 = (A * (e2 ** 2 - 1) / r - 1) / e2
        rp2 = A * (e2 - 1)
    else:
        # Lambert leg: semi-perimeter and chord of the triangle with the aim point
        rp2, C = ctx.pos('rp2', 1e6, 1e9, sample=(1e7, 1e8)), ctx.pos('C', 1e7, 1e11, sample=(1e8, 1e9))
        P = (r + rp2 + C) / 2
        ctx.assume(C + rp2 > r, C + r > rp2, r + rp2 > C)
        e2 = 1 + rp2 / A
        z2 = (r ** 2 + rp2 ** 2 - C ** 2) / (2 * r * rp2)
        d.update(P=P, C=C)
    ctx.assume(z2 < 0.99, z2 > -0.99)
    s2 = np.sqrt(1 - z2 ** 2)
    u2 = [z2, s2 * np.cos(eta), s2 * np.sin(eta)]
    if turned:
        # the aim point is not at the angle it would have from a point of the second hyperbola
        de = ctx.real('delta', 0.2, 2.9)
        u2 = [np.cos(de), np.sin(de) * np.cos(eta), np.sin(de) * np.sin(eta)]
    d.update(e2=e2, z2=z2, s2=s2, rp2=rp2)
    made, asked = [], []
    ctx.name_norms(1500)
    AP = ctx.m.approach.Approach
    zero = ctx.lit(0)

    def make(planet, vinf, rp, psi, is_entrySystem=False, h_EI=None):
        k = len(made)
        ap = partial(AP)
        ap.planetObj = ctx.m.planet.Planet(planet)
        ap.v_inf_vec_icrf_kms, ap.psi, ap.h_EI = vinf, psi, h_EI
        ap.e, ap.rp, u = (e1, A * (e1 - 1), u1) if k == 0 else (e2, rp2, u2)
        ap.a, ap.h, ap.v_inf_mag = -A, np.sqrt(GM * A * (ap.e ** 2 - 1)), np.sqrt(GM / A)
        ap.rp_vec_bi_unit = arr(ctx, u)
        ap.rp_vec_bi = arr(ctx, [ap.rp * x for x in u])
        ap.pos_vec_bi = bind(AP.pos_vec_bi, lambda th: (asked.append((k, th)), arr(ctx, [r, zero * r, zero * r]))[1])
        made.append((planet, vinf, rp, psi, bool(is_entrySystem), h_EI))
        return ap
    ctx.replace(ctx.m.maneuver, 'Approach', bind(AP.__init__, make))
    v = arr(ctx, [ctx.real('vi' + k, -60, 60) for k in 'xyz'])
    q1, q2, p1, p2 = ctx.pos('q1', 1e6, 1e9), ctx.pos('q2', 1e6, 1e9), ctx.real('psi1', -6.28, 6.28), ctx.real('psi2', -6.28, 6.28)
    h1, h2 = ctx.pos('h1', 1, 1e7), ctx.pos('h2', 1, 1e7)
    K = getattr(ctx.m.maneuver, cls)
    if cls == 'ProbeOrbiterDeflection':
        m = K('NEPTUNE', v, q1, p1, h1, q2, p2, r / RP)
        want = [(q1, p1, True, h1), (q2, p2, False, None)]
    elif cls == 'ProbeProbeDeflection':
        m = K('NEPTUNE', v, q1, p1, h1, q2, p2, h2, r / RP)
        want = [(q1, p1, True, h1), (q2, p2, True, h2)]
    else:
        m = K('NEPTUNE', v, q1, p1, q2, p2, r / RP)
        want = [(q1, p1, False, None), (q2, p2, False, None)]
    ctx.check('two approaches', len(made) == 2)
    for g, w in zip(made, want):
        ctx.check('to the same body', g[0] == 'NEPTUNE' and g[4] == w[2] and (g[5] is None) == (w[3] is None))
        ctx.eq('own aim point', [g[2], g[3]] + ([g[5]] if w[3] is not None else []), [w[0], w[1]] + ([w[3]] if w[3] is not None else []))
        ctx.eq('own arrival velocity', list(g[1]), list(v))
    ctx.check('manoeuvre point lies on the first arrival', len(asked) >= 1 and all(k == 0 for k, t in asked))
    for k, t in asked:
        ctx.eq('true anomaly of the manoeuvre point', np.cos(t), z1)
        ctx.check('manoeuvre is on the inbound leg', t < 0)
    return m, d


def common(ctx, m, d, second):
    r = d['r']
    ctx.eq('manoeuvre point', list(m.r_vec_dv), [r, 0 * r, 0 * r], rtol=1e-5, scale=S(ctx, r))
    ctx.eq('change of velocity', list(m.dv_maneuver_vec), [a - b for a, b in zip(*second)], scale=S(ctx, 1e4))
    ctx.eq('size of the change', m.dv_maneuver_mag, ctx.np.linalg.norm(m.dv_maneuver_vec))


def kepler_leg(ctx, d, v, label, i=1):
    """velocity at the manoeuvre point, inbound on a hyperbola with its periapsis at the given angle"""
    e, z, s, q = d['e%d' % i], d['z%d' % i], d['s%d' % i], d['inc'] if i == 1 else d['eta']
    np = ctx.np
    k = np.sqrt(d['GM'] / (d['A'] * (e ** 2 - 1)))
    vr, vt = -k * e * s, k * (1 + e * z)
    ctx.eq(label, list(v), [vr, vt * np.cos(q), vt * np.sin(q)], rtol=1e-5, scale=S(ctx, k * e))


def lambert_leg(ctx, d, v, p, f, g, al, be):
    """velocity at the manoeuvre point of a path that reaches the aim point with the energy of the arrival, in terms of the reported
    semi-latus rectum p and Lagrange coefficients f, g"""
    np = ctx.np
    GM, A, r, q, z, s2, eta, C, P = (d[k] for k in ('GM', 'A', 'r', 'rp2', 'z2', 's2', 'eta', 'C', 'P'))
    v = list(v)
    k = q * (1 - z)
    # |q - f r|^2 = g^2 v^2 with v^2 = GM (2/r + 1/A): a quadratic in p, and the root of the short way
    ctx.eq('semi-latus rectum', C ** 2 * p ** 2 + k ** 2 * r ** 2, p * (2 * k * r * (r - q * z) + q ** 2 * s2 ** 2 * (2 * r + r ** 2 / A)), rtol=1e-6)
    ctx.check('short way', p * C ** 2 > 4 * A * (P - q) * (P - r) * (np.sinh(al / 2) ** 2 + np.sinh(be / 2) ** 2))
    ctx.eq('Lagrange f', (1 - f) * p, k)
    ctx.eq('Lagrange g squared', g ** 2 * GM * p, (r * q * s2) ** 2)
    ctx.check('Lagrange g', g > 0)
    ctx.eq('velocity from the two positions', [x * g for x in v], [q * z - f * r, q * s2 * np.cos(eta), q * s2 * np.sin(eta)], rtol=1e-6, scale=S(ctx, r))


def probe_time(ctx, d, m, k):
    np = ctx.np
    e, z, s = (d[x + k] for x in ('e', 'z', 's'))
    sx = {'1': getattr(m, 'H_dv_probe', None) if hasattr(m, 'H_dv_probe') else getattr(m, 'H_dv_probe1', None), '2': getattr(m, 'H_dv_probe2', None)}[k]
    T = {'1': m.TOF_probe if hasattr(m, 'TOF_probe') else m.TOF_probe1, '2': getattr(m, 'TOF_probe2', None)}[k]
    ctx.eq('hyperbolic anomaly', np.cosh(sx) * (1 + e * z), e + z)
    ctx.check('sign of the hyperbolic anomaly', sx > 0)
    ctx.eq('time to periapsis', T * 86400 * np.sqrt(d['GM'] / d['A'] ** 3), e * np.sinh(sx) - sx)


def lambert_time(ctx, d, al, be, T):
    np = ctx.np
    P, C, A = d['P'], d['C'], d['A']
    ctx.eq('Lambert alpha', np.sinh(al / 2) ** 2 * 2 * A, P)
    ctx.eq('Lambert beta', np.sinh(be / 2) ** 2 * 2 * A, P - C)
    ctx.check('principal values', ctx.And(al >= 0, be >= 0))
    ctx.eq('time to the aim point', T * 86400 * np.sqrt(d['GM'] / A ** 3), np.sinh(al) - al - np.sinh(be) + be)


@harness('M01', 'probe-orbiter', ['ProbeOrbiterDeflection.__init__'], 'any pair of hyperbolas', cost=4)
def _(ctx):
    m, d = pair(ctx, 'ProbeOrbiterDeflection')
    common(ctx, m, d, (m.v_vec_dv_space, m.v_vec_dv_probe))
    kepler_leg(ctx, d, m.v_vec_dv_probe, 'probe velocity')
    probe_time(ctx, d, m, '1')
    lambert_time(ctx, d, m.alpha_prime, m.beta_prime, m.TOF_space)


@harness('M01', 'probe-orbiter-lambert', ['ProbeOrbiterDeflection.__init__'], 'any pair of hyperbolas', cost=4)
def _(ctx):
    m, d = pair(ctx, 'ProbeOrbiterDeflection')
    lambert_leg(ctx, d, m.v_vec_dv_space, m.P_space, m.f_space, m.g_space, m.alpha_prime, m.beta_prime)


@harness('M01', 'orbiter-orbiter', ['OrbiterOrbiterDeflection.__init__'], 'any pair of hyperbolas', cost=4)
def _(ctx):
    m, d = pair(ctx, 'OrbiterOrbiterDeflection')
    common(ctx, m, d, (m.v_vec_dv_space2, m.v_vec_dv_space1))
    lambert_time(ctx, d, m.alpha_prime2, m.beta_prime2, m.TOF_space2)


@harness('M01', 'orbiter-orbiter-lambert', ['OrbiterOrbiterDeflection.__init__'], 'any pair of hyperbolas', cost=4)
def _(ctx):
    m, d = pair(ctx, 'OrbiterOrbiterDeflection')
    lambert_leg(ctx, d, m.v_vec_dv_space2, m.P_space2, m.f_space2, m.g_space2, m.alpha_prime2, m.beta_prime2)


@harness('M01', 'probe-probe', ['ProbeProbeDeflection.__init__'], 'any pair of hyperbolas', cost=4)
def _(ctx):
    m, d = pair(ctx, 'ProbeProbeDeflection')
    common(ctx, m, d, (m.v_vec_dv_probe2, m.v_vec_dv_probe1))
    kepler_leg(ctx, d, m.v_vec_dv_probe1, 'first probe velocity')
    probe_time(ctx, d, m, '1')
    probe_time(ctx, d, m, '2')
    kepler_leg(ctx, d, m.v_vec_dv_probe2, 'second probe velocity', 2)


@harness('M01', 'probe-probe-turned', ['ProbeProbeDeflection.__init__'], 'any pair of hyperbolas, manoeuvre point off the second one', cost=2, validate=0)
def _(ctx):
    m, d = pair(ctx, 'ProbeProbeDeflection', turned=True)
    v = list(m.v_vec_dv_probe2)
    ctx.eq('energy of the second path', dot(v, v) * d['r'] * d['A'], d['GM'] * (2 * d['A'] + d['r']), rtol=1e-3)


@harness('M01', 'orbiter-orbiter-first', ['OrbiterOrbiterDeflection.__init__'], 'any pair of hyperbolas', cost=4)
def _(ctx):
    m, d = pair(ctx, 'OrbiterOrbiterDeflection')
    np = ctx.np
    GM, A, r, q, z, s1, inc, e = (d[k] for k in ('GM', 'A', 'r', 'rp1', 'z1', 's1', 'inc', 'e1'))
    C2 = r ** 2 + q ** 2 - 2 * r * q * z
    p, f, g = m.P_space1, m.f_space1, m.g_space1
    k = q * (1 - z)
    ctx.eq('semi-latus rectum', C2 * p ** 2 + k ** 2 * r ** 2, p * (2 * k * r * (r - q * z) + q ** 2 * s1 ** 2 * (2 * r + r ** 2 / A)), rtol=1e-6)
    h = (r + q + m.C1) / 2
    ctx.eq('chord', m.C1 ** 2, C2)
    ctx.eq('short way', p * C2, 4 * A * (h - q) * (h - r) * np.sinh((m.alpha_prime1 + m.beta_prime1) / 2) ** 2)
    lambert_time(ctx, dict(d, P=h, C=m.C1), m.alpha_prime1, m.beta_prime1, m.TOF_space1)
    ctx.eq('Lagrange f', (1 - f) * p, k)
    ctx.eq('Lagrange g', g * np.sqrt(GM * p), r * q * s1)
    ctx.eq('velocity from the two positions', [x * g for x in m.v_vec_dv_space1], [q * z - f * r, q * s1 * np.cos(inc), q * s1 * np.sin(inc)], rtol=1e-6, scale=S(ctx, r))
