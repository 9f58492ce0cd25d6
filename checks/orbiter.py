from sx.reg import harness, meta
from checks._common import *
from checks.approach import dot, cross, to_inertial, kepler_state, stub_state, free_planet

meta('O01', bounds='any exit state (any latitude, longitude, flight-path and heading angle), any captured orbit, any target periapsis; drawn orbits with 3 points')
meta('O02', bounds='any state at the manoeuvre, any in-track impulse that leaves a bound orbit; drawn orbits with 3 points')
meta('O03', bounds='any hyperbolic arrival and apoapsis altitude, any time on the orbit; drawn orbits with 3 points')


def S(ctx, *x):
    return None if ctx.symbolic else list(x)


def ship(ctx):
    p = sym_planet(ctx, 'URANUS', atm=False)
    v = sym_vehicle(ctx, p)
    o = partial(ctx.m.orbiter.Orbiter)
    o.vehicle = v
    o.peri_alt_km = ctx.real('peri_km', -100, 1e5)
    o.r_periapsis_mag = o.peri_alt_km * 1e3 + p.RP
    return o, p, v


def exit_arrays(ctx, v, n):
    L = [('rc', 1e5, 1e9), ('thetac', -6.3, 6.3), ('phic', -1.55, 1.55), ('vc', 100, 1e5), ('gammac', -1.5, 1.5), ('psic', -6.3, 6.3)]
    for k, lo, hi in L:
        setattr(v, k, arr(ctx, [ctx.real('%s%d' % (k, i), lo, hi) for i in range(n)]))


@harness('O01', 'exit-state', ['Orbiter.compute_exit_state_atm_relative'], 'flights of 3 samples')
def _(ctx):
    o, p, v = ship(ctx)
    exit_arrays(ctx, v, 3)
    v.index = 3
    o.compute_exit_state_atm_relative()
    ctx.eq('last flown sample', [o.terminal_r, o.terminal_theta, o.terminal_phi, o.terminal_v, o.terminal_g, o.terminal_psi],
           [v.rc[2], v.thetac[2], v.phic[2], v.vc[2], v.gammac[2], v.psic[2]])


@harness('O01', 'exit-inertial', ['Orbiter.compute_exit_state_inertial'], 'any exit state', cost=3)
def _(ctx):
    o, p, v = ship(ctx)
    np = ctx.np
    exit_arrays(ctx, v, 1)
    v.index = 1
    o.compute_exit_state_atm_relative()
    o.compute_exit_state_inertial()
    r, th, ph, V, g, ps = (getattr(v, k)[0] for k in ('rc', 'thetac', 'phic', 'vc', 'gammac', 'psic'))
    up = [np.cos(ph) * np.cos(th), np.cos(ph) * np.sin(th), np.sin(ph)]
    ea = [-np.sin(th), np.cos(th), 0 * th]
    no = [-np.sin(ph) * np.cos(th), -np.sin(ph) * np.sin(th), np.cos(ph)]
    vu, ve, vn = V * np.sin(g), V * np.cos(g) * np.cos(ps), V * np.cos(g) * np.sin(ps)
    ctx.eq('position', list(o.terminal_r_vec), [r * x for x in up], scale=S(ctx, r))
    ctx.eq('velocity over the planet', list(o.terminal_v_vec), [vu * a + ve * b + vn * c for a, b, c in zip(up, ea, no)], scale=S(ctx, V))
    vi = list(o.terminal_v_ie_vec)
    we = ve + p.OMEGA * r * np.cos(ph)
    ctx.eq('inertial velocity', vi, [vu * a + we * b + vn * c for a, b, c in zip(up, ea, no)], scale=S(ctx, V, abs(p.OMEGA) * r))
    ctx.assume(vu ** 2 + we ** 2 + vn ** 2 > 1)
    ctx.eq('inertial speed', o.v_ie_mag ** 2, vu ** 2 + we ** 2 + vn ** 2, scale=S(ctx, V * V))
    ctx.eq('inertial flight-path angle', np.sin(o.terminal_fpa_ie_rad) * o.v_ie_mag, vu, scale=S(ctx, V))
    ctx.eq('reported inertial state', [o.terminal_r_bi, o.terminal_theta_bi, o.terminal_phi_bi, o.terminal_v_bi, o.terminal_g_bi], [r, th, ph, o.v_ie_mag, o.terminal_fpa_ie_rad])


@harness('O01', 'exit-inertial-heading', ['Orbiter.compute_exit_state_inertial'], 'any exit state')
def _(ctx):
    o, p, v = ship(ctx)
    np = ctx.np
    exit_arrays(ctx, v, 1)
    v.index = 1
    o.compute_exit_state_atm_relative()
    o.compute_exit_state_inertial()
    r, th, ph, V, g, ps = (getattr(v, k)[0] for k in ('rc', 'thetac', 'phic', 'vc', 'gammac', 'psic'))
    we, vn = V * np.cos(g) * np.cos(ps) + p.OMEGA * r * np.cos(ph), V * np.cos(g) * np.sin(ps)
    ctx.eq('reported inertial heading', np.cos(o.terminal_psi_bi) * vn, np.sin(o.terminal_psi_bi) * we, scale=S(ctx, V, abs(p.OMEGA) * r))


def local_state(ctx, GM):
    """position and velocity by spherical angles: |r x v| = r V cos g exactly"""
    np = ctx.np
    r, V = ctx.pos('r', 1e6, 1e9, sample=(3e7, 1e8)), ctx.pos('V', 100, 1e5)
    la, ph = ctx.real('lam', -3.1, 3.1), ctx.real('phi', -1.5, 1.5)
    g, ps = ctx.real('g', -1.5, 1.5), ctx.real('ps', -3.1, 3.1)
    ctx.assume(np.cos(ph) > 0.01, np.cos(g) > 0.01)
    # a bound, not circular, not equatorial orbit
    k = r * V ** 2 / GM
    ctx.assume(k < 1.99, k > 0.01)
    e2 = (k - 1) ** 2 * np.cos(g) ** 2 + np.sin(g) ** 2
    ctx.assume(e2 > 1e-6)
    ctx.assume(np.sin(ps) ** 2 > 1e-4)
    up = [np.cos(ph) * np.cos(la), np.cos(ph) * np.sin(la), np.sin(ph)]
    ea = [-np.sin(la), np.cos(la), 0 * la]
    no = [-np.sin(ph) * np.cos(la), -np.sin(ph) * np.sin(la), np.cos(ph)]
    R = arr(ctx, [r * x for x in up])
    vv = arr(ctx, [V * (np.sin(g) * a + np.cos(g) * (np.cos(ps) * b + np.sin(ps) * c)) for a, b, c in zip(up, ea, no)])
    return r, V, g, ps, la, ph, R, vv, e2


def elements_ok(ctx, GM, r, V, g, R, vv, e2, el):
    """orbital elements of the state (R, vv)"""
    np = ctx.np
    E = V ** 2 / 2 - GM / r
    ctx.eq('semi-major axis', el['a'] * 2 * E, -GM, rtol=1e-5)
    ctx.eq('eccentricity', el['e'] ** 2, e2, rtol=1e-5, scale=S(ctx, 1.0))
    hm = r * V * np.cos(g)
    ctx.eq('angular momentum', el['h'] ** 2, hm ** 2, rtol=1e-5)
    H = cross(list(R), list(vv))
    hs = S(ctx, r * V)
    ctx.eq('inclination', np.cos(el['i']) * hm, H[2], scale=hs)
    hp = np.sqrt(H[0] ** 2 + H[1] ** 2)
    so = np.sin(el['OMEGA'])
    ctx.eq('node x', np.cos(el['OMEGA']) * hp, -H[1], scale=hs)
    ctx.eq('node y', (so * hp) ** 2, H[0] ** 2, rtol=1e-5, scale=S(ctx, (r * V) ** 2))
    ctx.check('node y on its side', ctx.Or(ctx.And(H[0] >= 0, so >= -1e-9), ctx.And(H[0] <= 0, so <= 1e-9)))
    rv = dot(list(R), list(vv))
    e = [((V ** 2 - GM / r) * x - rv * y) / GM for x, y in zip(R, vv)]
    return H, hm, hp, e


def half_turn(ctx, x):
    """sin x >= 0 and sin x <= 0 for an angle in [-2 pi, 2 pi]"""
    pi, t = ctx.np.pi, 1e-9
    return (ctx.Or(ctx.And(x >= -t, x <= pi + t), ctx.And(x >= -2 * pi - t, x <= -pi + t)),
            ctx.Or(ctx.And(x >= pi - t, x <= 2 * pi + t), ctx.And(x >= -pi - t, x <= t)))


def argp_ok(ctx, om, H, hm, hp, e, em):
    np = ctx.np
    ctx.eq('argument of periapsis', np.cos(om) * hp * em, -H[1] * e[0] + H[0] * e[1], rtol=1e-5, scale=S(ctx, hm))
    north, south = half_turn(ctx, om)
    tol = ctx.lit(0) if ctx.symbolic else -1e-9
    ctx.check('periapsis north or south of the node', ctx.Or(ctx.And(e[2] >= tol, north), ctx.And(e[2] <= -tol, south)))


def coast(ctx):
    o, p, v = ship(ctx)
    st = local_state(ctx, p.GM)
    r, V, g, ps, la, ph, R, vv, e2 = st
    o.terminal_r, o.v_ie_mag, o.terminal_fpa_ie_rad = r, V, g
    o.terminal_r_vec, o.terminal_v_ie_vec = R, vv
    o.compute_coast_orbital_elements()
    return o, p, st


@harness('O01', 'coast-elements', ['Orbiter.compute_coast_orbital_elements', 'Orbiter.compute_theta_star_exit'], 'any state on a bound inclined orbit', cost=5)
def _(ctx):
    o, p, (r, V, g, ps, la, ph, R, vv, e2) = coast(ctx)
    np = ctx.np
    elements_ok(ctx, p.GM, r, V, g, R, vv, e2, dict(a=o.a, e=o.e, h=o.h, i=o.i, OMEGA=o.OMEGA))
    o.compute_theta_star_exit()
    t = o.theta_star_exit
    ctx.eq('exit lies on the orbit', r * (1 + o.e * np.cos(t)) * p.GM, o.h ** 2, rtol=1e-5, scale=S(ctx, r * p.GM))
    ctx.check('outbound', ctx.And(t >= 0, t <= np.pi))


@harness('O01', 'coast-periapsis', ['Orbiter.compute_coast_orbital_elements'], 'any state on a bound inclined orbit', cost=5)
def _(ctx):
    o, p, (r, V, g, ps, la, ph, R, vv, e2) = coast(ctx)
    np = ctx.np
    H = cross(list(R), list(vv))
    hm, hp = r * V * np.cos(g), np.sqrt(H[0] ** 2 + H[1] ** 2)
    rv = dot(list(R), list(vv))
    e = [((V ** 2 - p.GM / r) * x - rv * y) / p.GM for x, y in zip(R, vv)]
    ctx.eq('eccentricity vector', list(o.e_vec_bi), e, rtol=1e-5, scale=S(ctx, 1.0, r * V * V / p.GM))
    argp_ok(ctx, o.omega, H, hm, hp, e, np.sqrt(e2))


# ------------------------------------------------------------------ ellipse state functions
def ellipse(ctx, o, suffix='', GM=None):
    np = ctx.np
    e, rp = ctx.pos('e', 1e-3, 0.999), ctx.pos('rp', 1e6, 1e9, sample=(2e7, 1e8))
    Om, inc, om = ctx.real('node', 0, 6.28), ctx.real('inc', 0.01, 3.13), ctx.real('argp', 0, 6.28)
    h = np.sqrt(GM * rp * (1 + e))
    for k, x in (('a', rp / (1 - e)), ('e', e), ('h', h), ('OMEGA', Om), ('i', inc), ('omega', om)):
        setattr(o, k + suffix, x)
    return e, rp, h, Om, inc, om


def velocity_ok(ctx, GM, h, e, rp, Om, inc, om, th, v):
    """speed by vis-viva; transverse and radial parts of the hodograph (the code keeps its arccos argument below one by 1e-7)"""
    np = ctx.np
    P, V, r, k = kepler_state(ctx, GM, h, e, Om, inc, om, th)
    a = rp / (1 - e)
    ctx.eq('vis-viva', dot(v, v), GM * (2 / r - 1 / a), rtol=1e-5)
    u = [x / r for x in P]
    vt = k * (1 + e * np.cos(th))
    n = to_inertial(np, Om, inc, om, [0 * r, 0 * r, r / r])
    t = cross(n, u)
    ctx.eq('in the orbit plane', dot(v, n), 0, atol=1e-6 if not ctx.symbolic else 0)
    d = dot(v, t) / vt
    ctx.check('transverse speed', ctx.And(d <= 1 + 3e-7, d >= 1 - 3e-7))
    ctx.check('radial speed on its side', ctx.Or(ctx.And(np.sin(th) >= 0, dot(v, u) >= -1e-9), ctx.And(np.sin(th) <= 0, dot(v, u) <= 1e-9)))


@harness('O01', 'orbit-position', ['Orbiter.pos_vec_bi', 'Orbiter.r_mag_bi'], 'any ellipse and true anomaly')
def _(ctx):
    o, p, v = ship(ctx)
    e, rp, h, Om, inc, om = ellipse(ctx, o, '', p.GM)
    th = ctx.real('theta', 0, 9.5)
    P, V, r, k = kepler_state(ctx, p.GM, h, e, Om, inc, om, th)
    ctx.eq('position', list(o.pos_vec_bi(th)), P, scale=S(ctx, r))
    ctx.eq('distance', o.r_mag_bi(th), r)


@harness('O01', 'orbit-velocity', ['Orbiter.vel_vec_bi'], 'any ellipse and true anomaly', cost=3)
def _(ctx):
    o, p, v = ship(ctx)
    e, rp, h, Om, inc, om = ellipse(ctx, o, '', p.GM)
    th = ctx.real('theta', -6.28, 9.42)
    velocity_ok(ctx, p.GM, h, e, rp, Om, inc, om, th, list(o.vel_vec_bi(th)))


@harness('O02', 'probe-velocity', ['Orbiter.vel_vec_bi_probe'], 'any ellipse and true anomaly', cost=3)
def _(ctx):
    o, p, v = ship(ctx)
    e, rp, h, Om, inc, om = ellipse(ctx, o, '_probe_orbit', p.GM)
    o.OMEGA, o.i, o.omega = Om, inc, om
    th = ctx.real('theta', -6.28, 9.42)
    velocity_ok(ctx, p.GM, h, e, rp, Om, inc, om, th, list(o.vel_vec_bi_probe(th)))


def _pos(ctx, which, same):
    o, p, v = ship(ctx)
    sfx = dict(probe='_probe_orbit', defl='_orbiter_defl')[which]
    e, rp, h, Om, inc, om = ellipse(ctx, o, sfx, p.GM)
    # the impulse is in the plane of the orbit: node and inclination are those of the orbit before it
    o.OMEGA, o.i, o.omega = Om, inc, (om if same else ctx.real('argp_before', 0, 6.28))
    th = ctx.real('theta', -6.28, 9.42)
    P, V, r, k = kepler_state(ctx, p.GM, h, e, Om, inc, om, th)
    f = dict(probe='pos_vec_bi_probe', defl='pos_vec_bi_orbiter_defl')[which]
    ctx.eq('position on the ' + which + ' orbit', list(getattr(o, f)(th)), P, scale=S(ctx, r))


harness('O02', 'probe-position', ['Orbiter.pos_vec_bi_probe'], 'any ellipse, line of apsides unchanged by the impulse')(lambda ctx: _pos(ctx, 'probe', True))
harness('O02', 'deflected-position', ['Orbiter.pos_vec_bi_orbiter_defl'], 'any ellipse, line of apsides unchanged by the impulse')(lambda ctx: _pos(ctx, 'defl', True))
harness('O02', 'probe-position-turned', ['Orbiter.pos_vec_bi_probe'], 'any ellipse, any turn of the line of apsides')(lambda ctx: _pos(ctx, 'probe', False))
harness('O02', 'deflected-position-turned', ['Orbiter.pos_vec_bi_orbiter_defl'], 'any ellipse, any turn of the line of apsides')(lambda ctx: _pos(ctx, 'defl', False))


# ------------------------------------------------------------------ periapsis raise
@harness('O01', 'periapsis-raise', ['Orbiter.compute_coast_trajectory', 'Orbiter.compute_post_PRM_orbital_elements', 'Orbiter.compute_PRM_dv', 'Orbiter.compute_orbit_trajectory', 'Orbiter.vel_vec_bi', 'Orbiter.pos_vec_bi'],
         'any coast ellipse and target periapsis', cost=5)
def _(ctx):
    o, p, v = ship(ctx)
    np = ctx.np
    e, rp, h, Om, inc, om = ellipse(ctx, o, '', p.GM)
    ra = rp * (1 + e) / (1 - e)
    rt = o.r_periapsis_mag
    ctx.assume(rt > 0.1 * p.RP, rt <= ra)
    o.theta_star_exit = ctx.real('theta_exit', 0, 3.1)
    o.compute_coast_trajectory(num_points=3)
    P0 = to_inertial(np, Om, inc, om, [np.cos(o.theta_star_exit), np.sin(o.theta_star_exit), ctx.lit(0)])
    r0 = rp * (1 + e) / (1 + e * np.cos(o.theta_star_exit))
    for k, x in zip((o.x_coast_arr, o.y_coast_arr, o.z_coast_arr), P0):
        ctx.eq('coast starts at the exit', k[0] * p.RP, r0 * x, scale=S(ctx, ra))
    ctx.eq('three samples', len(o.x_coast_arr), 3)
    A = to_inertial(np, Om, inc, om, [ctx.lit(-1), ctx.lit(0), ctx.lit(0)])
    ctx.eq('coast ends at apoapsis', [x * p.RP for x in o.r_apoapsis_vec], [ra * x for x in A], scale=S(ctx, ra))
    ctx.eq('apoapsis radius', o.r_apoapsis_mag, ra)
    v0 = np.sqrt(2 * p.GM * rp / (ra * (ra + rp)))
    ctx.eq('coast speed at apoapsis', o.v_apoapsis_mag_coast, v0)
    # hand over an exact value of what was just decided (keeps the next stage polynomial)
    o.r_apoapsis_mag = ra
    o.compute_post_PRM_orbital_elements()
    ctx.eq('new periapsis', o.a * (1 - o.e), rt)
    ctx.eq('same apoapsis', o.a * (1 + o.e), ra)
    ctx.eq('new angular momentum', o.h ** 2 * (ra + rt), 2 * p.GM * ra * rt)


@harness('O01', 'periapsis-raise-dv', ['Orbiter.compute_PRM_dv', 'Orbiter.vel_vec_bi'], 'any orbit after the burn, any speed before it', cost=5)
def _(ctx):
    o, p, v = ship(ctx)
    np = ctx.np
    e, rp, h, Om, inc, om = ellipse(ctx, o, '', p.GM)
    b = [ctx.real('vb' + k, -1e5, 1e5) for k in 'xyz']
    o.v_apoapsis_vec_coast = arr(ctx, b)
    o.compute_PRM_dv()
    ra = rp * (1 + e) / (1 - e)
    va = list(o.v_apoapsis_vec_orbit)
    ctx.eq('speed after the burn', o.v_apoapsis_mag_orbit ** 2, 2 * p.GM * rp / (ra * (ra + rp)))
    T = to_inertial(np, Om, inc, om, [ctx.lit(0), ctx.lit(-1), ctx.lit(0)])
    # pointing along the orbit at apoapsis, to the 1e-7 margin the code keeps in its arccos
    ctx.le('along the orbit', o.v_apoapsis_mag_orbit * (1 - 3e-7), dot(va, T))
    ctx.eq('burn is the change of velocity', list(o.PRM_dv_vec), [x - y for x, y in zip(va, b)], scale=S(ctx, 1e5))
    d = list(o.PRM_dv_vec)
    ctx.eq('size of the burn', o.PRM_dv_mag ** 2, dot(d, d))


@harness('O01', 'orbit-drawn', ['Orbiter.compute_orbit_trajectory'], 'any ellipse, 3 points')
def _(ctx):
    o, p, v = ship(ctx)
    np = ctx.np
    e, rp, h, Om, inc, om = ellipse(ctx, o, '', p.GM)
    o.compute_orbit_trajectory(num_points=3)
    ra = rp * (1 + e) / (1 - e)
    for j, (c, s, r) in enumerate(((-1, 0, ra), (1, 0, rp), (-1, 0, ra))):
        P = to_inertial(np, Om, inc, om, [ctx.lit(c), ctx.lit(s), ctx.lit(0)])
        ctx.eq('apoapsis to apoapsis', [k[j] * p.RP for k in (o.x_orbit_arr, o.y_orbit_arr, o.z_orbit_arr)], [r * x for x in P], scale=S(ctx, ra))


@harness('O01', 'constructor', ['Orbiter.__init__', 'Orbiter.compute_theta_star_exit'], 'any exit state and target periapsis; the coast orbit through it is any ellipse (decided by coast-elements)', cost=4)
def _(ctx):
    """the stages as the constructor chains them: each works on what the one before it left behind"""
    np = ctx.np
    p = sym_planet(ctx, 'URANUS', atm=False)
    v = sym_vehicle(ctx, p)
    exit_arrays(ctx, v, 3)
    v.index = 3
    alt = ctx.real('peri_km', -100, 1e5)
    O = ctx.m.orbiter.Orbiter
    stage, left = [], {}
    e2, rp2 = ctx.pos('e2', 1e-3, 0.999), ctx.pos('rp2', 1e6, 1e9, sample=(2e7, 1e8))

    def few(name, n):
        real = getattr(O, name)
        ctx.replace(O, name, lambda self, num_points=n: (stage.append((name, num_points)), real(self, 3))[1])
    few('compute_coast_trajectory', 301)
    few('compute_orbit_trajectory', 601)

    def elements(self):
        stage.append(('elements', None))
        left['state'] = [self.terminal_r, self.terminal_theta, self.terminal_phi, self.terminal_v, self.terminal_g, self.terminal_psi]
        left['R'], left['v'], left['V'], left['g'] = self.terminal_r_vec, self.terminal_v_ie_vec, self.v_ie_mag, self.terminal_fpa_ie_rad
        left['el'] = ellipse(ctx, self, '', p.GM)
        e, rp = left['el'][:2]
        r = self.terminal_r
        ctx.assume(r > rp * 1.001, r * (1 - e) < rp * (1 + e) * 0.999)
        ctx.assume(p.RP + alt * 1000 > 0.1 * p.RP, p.RP + alt * 1000 <= rp * (1 + e) / (1 - e))
    ctx.replace(O, 'compute_coast_orbital_elements', elements)
    raise_ = O.compute_post_PRM_orbital_elements

    def raised(self):
        e, rp = left['el'][:2]
        ctx.eq('apoapsis radius', self.r_apoapsis_mag, rp * (1 + e) / (1 - e))
        self.r_apoapsis_mag = rp * (1 + e) / (1 - e)
        v0 = self.v_apoapsis_vec_coast
        left['v0'] = list(v0)
        ctx.eq('velocity before the burn is that of the coast', left['v0'], list(self.vel_vec_bi(np.pi)), scale=S(ctx, 1e5))
        raise_(self)
        ctx.eq('raised periapsis', self.a * (1 - self.e), p.RP + alt * 1000)
        ctx.eq('apoapsis kept', self.a * (1 + self.e), rp * (1 + e) / (1 - e))
        # the remaining stages on any raised orbit
        self.e, self.a = e2, rp2 / (1 - e2)
        self.h = np.sqrt(p.GM * rp2 * (1 + e2))
    ctx.replace(O, 'compute_post_PRM_orbital_elements', raised)
    o = O(v, alt)
    e, rp, h, Om, inc, om = left['el']
    ra, r = rp * (1 + e) / (1 - e), v.rc[2]
    ctx.eq('elements of the exit state', left['state'], [v.rc[2], v.thetac[2], v.phic[2], v.vc[2], v.gammac[2], v.psic[2]])
    R, vi = list(left['R']), list(left['v'])
    ctx.eq('exit position', dot(R, R), r * r)
    ctx.eq('exit speed', left['V'] ** 2, dot(vi, vi))
    ctx.eq('exit angle', np.sin(left['g']) * left['V'] * r, dot(R, vi), scale=S(ctx, r * left['V']))
    t = o.theta_star_exit
    ctx.eq('coast begins where the flight ended', r * (1 + e * np.cos(t)), rp * (1 + e))
    ctx.check('outbound', ctx.And(t >= 0, t <= np.pi))
    P0 = to_inertial(np, Om, inc, om, [r * np.cos(t), r * np.sin(t), ctx.lit(0)])
    A = to_inertial(np, Om, inc, om, [-ra, ctx.lit(0), ctx.lit(0)])
    xyz = (o.x_coast_arr, o.y_coast_arr, o.z_coast_arr)
    ctx.eq('coast drawn from the exit to apoapsis', [k[0] * p.RP for k in xyz] + [k[-1] * p.RP for k in xyz], P0 + A, scale=S(ctx, ra))
    # the vectors themselves are decided by periapsis-raise and periapsis-raise-dv
    v1 = list(o.vel_vec_bi(np.pi))
    ctx.eq('velocity after the burn is that of the raised orbit', list(o.v_apoapsis_vec_orbit), v1, scale=S(ctx, 1e5))
    ctx.eq('burn', list(o.PRM_dv_vec), [x - y for x, y in zip(v1, left['v0'])], scale=S(ctx, 1e5))
    A2, B2 = (to_inertial(np, Om, inc, om, [x, ctx.lit(0), ctx.lit(0)]) for x in (-rp2 * (1 + e2) / (1 - e2), rp2))
    xyz = (o.x_orbit_arr, o.y_orbit_arr, o.z_orbit_arr)
    for j, want in enumerate((A2, B2, A2)):
        ctx.eq('orbit drawn from apoapsis through the raised periapsis', [k[j] * p.RP for k in xyz], want, scale=S(ctx, rp2 / (1 - e2)))



# ------------------------------------------------------------------ impulsive manoeuvres
def burn(ctx, which, inside=None):
    """manoeuvre at an arbitrary state: the state functions are decided separately and replaced by arbitrary vectors"""
    o, p, v = ship(ctx)
    np = ctx.np
    r, V2, g, ps, la, ph, R, vv, e2 = local_state(ctx, p.GM)
    V1 = ctx.pos('V1', 100, 1e5)
    dV = V2 - V1
    v1 = arr(ctx, [x * V1 / V2 for x in vv])
    asked = {}
    O = ctx.m.orbiter.Orbiter

    def st(name, f):
        def g_(self, th):
            if hasattr(th, 'shape') and th.shape:
                asked.setdefault(name + '[]', []).append(th)
                return arr2(ctx, [[ctx.uf('%s%d' % (name, k), t, sign=None) if ctx.symbolic else th[j] + k for j, t in enumerate(th)] for k in range(3)])
            asked.setdefault(name, []).append(th)
            return f(th)
        ctx.replace(O, name, g_)
    lam2, phi2 = ctx.real('lam2', -3.14, 3.14), ctx.real('phi2', -1.55, 1.55)
    ctx.assume(np.cos(phi2) > 0.01)
    rEI = p.RP + p.h_skip
    w = arr(ctx, [ctx.real('w' + k, -1e5, 1e5) for k in 'xyz'])
    ctx.assume(dot(w, w) > 1)
    entry = arr(ctx, [rEI * np.cos(phi2) * np.cos(lam2), rEI * np.cos(phi2) * np.sin(lam2), rEI * np.sin(phi2)])
    if which == 'probe':
        st('pos_vec_bi', lambda th: R)
        st('vel_vec_bi', lambda th: v1)
        st('pos_vec_bi_probe', lambda th: entry)
        st('vel_vec_bi_probe', lambda th: w)
    else:
        st('pos_vec_bi_probe', lambda th: R)
        st('vel_vec_bi_probe', lambda th: v1)
        st('pos_vec_bi_orbiter_defl', lambda th: R)
    if inside is not None:
        E, h2 = V2 ** 2 / 2 - p.GM / r, (r * V2 * np.cos(g)) ** 2
        # radial motion still has a turning point inside (outside) the entry radius
        f = 2 * E * rEI ** 2 + 2 * p.GM * rEI - h2
        ctx.assume(r > rEI)
        ctx.assume(f > 1e-3 * h2 if inside else f < -1e-3 * h2)
    th = ctx.real('theta', 0, 6.28)
    return o, p, th, dV, v1, V1, R, vv, (r, V2, g, e2), asked, entry, w, rEI


def arr2(ctx, rows):
    a = npx.empty((len(rows), len(rows[0])), dtype=object if ctx.symbolic else float)
    for i, x in enumerate(rows):
        for j, y in enumerate(x):
            a[i, j] = y
    return a


def _burn_elements(ctx, which):
    o, p, th, dV, v1, V1, R, vv, (r, V, g, e2), asked, entry, w, rEI = burn(ctx, which, inside=True if which == 'probe' else None)
    np = ctx.np
    f, s = dict(probe=('compute_probe_targeting_trajectory', '_probe_orbit'), defl=('compute_orbiter_deflection_trajectory', '_orbiter_defl'))[which]
    getattr(o, f)(th, dV, num_points=3)
    src = dict(probe='vec_bi', defl='vec_bi_probe')[which]
    ctx.eq('state at the anomaly asked for', [asked['pos_' + src][0], asked['vel_' + src][0]], [th, th])
    d = list(dict(probe=lambda: o.dV_vec_probe_targeting, defl=lambda: o.dV_vec_orbiter_deflection)[which]())
    ctx.eq('impulse along the velocity', d, [x - y for x, y in zip(vv, v1)], scale=S(ctx, V))
    el = {k: getattr(o, k + s) for k in ('a', 'e', 'h', 'i', 'OMEGA')}
    H, hm, hp, e = elements_ok(ctx, p.GM, r, V, g, R, vv, e2, el)
    rp = getattr(o, dict(probe='r_periapsis_probe', defl='r_periapsis_orbiter_defl')[which])
    ra = getattr(o, dict(probe='r_apoapsis_probe', defl='r_apoapsis_orbiter_defl')[which])
    hpe = getattr(o, dict(probe='h_periapsis_probe', defl='h_periapsis_orbiter_defl')[which])
    ctx.eq('periapsis', rp, el['a'] * (1 - el['e']))
    ctx.eq('apoapsis', ra, el['a'] * (1 + el['e']))
    ctx.eq('periapsis altitude', hpe + p.RP, rp)


def _burn_argp(ctx, which):
    o, p, th, dV, v1, V1, R, vv, (r, V, g, e2), asked, entry, w, rEI = burn(ctx, which, inside=which == 'probe')
    np = ctx.np
    f, s = dict(probe=('compute_probe_targeting_trajectory', '_probe_orbit'), defl=('compute_orbiter_deflection_trajectory', '_orbiter_defl'))[which]
    getattr(o, f)(th, dV, num_points=3)
    H = cross(list(R), list(vv))
    hm, hp = r * V * np.cos(g), np.sqrt(H[0] ** 2 + H[1] ** 2)
    rv = dot(list(R), list(vv))
    e = [((V ** 2 - p.GM / r) * x - rv * y) / p.GM for x, y in zip(R, vv)]
    argp_ok(ctx, getattr(o, 'omega' + s), H, hm, hp, e, np.sqrt(e2))


harness('O02', 'probe-elements', ['Orbiter.compute_probe_targeting_trajectory'], 'any state and in-track impulse', cost=6)(lambda ctx: _burn_elements(ctx, 'probe'))
harness('O02', 'deflection-elements', ['Orbiter.compute_orbiter_deflection_trajectory'], 'any state and in-track impulse', cost=6)(lambda ctx: _burn_elements(ctx, 'defl'))
harness('O02', 'probe-periapsis', ['Orbiter.compute_probe_targeting_trajectory'], 'any state and in-track impulse', cost=9, timeout_ms=60000)(lambda ctx: _burn_argp(ctx, 'probe'))
harness('O02', 'deflection-periapsis', ['Orbiter.compute_orbiter_deflection_trajectory'], 'any state and in-track impulse', cost=9, timeout_ms=60000)(lambda ctx: _burn_argp(ctx, 'defl'))


@harness('O02', 'probe-entry', ['Orbiter.compute_probe_targeting_trajectory', 'Orbiter.vel_vec_probe_entry_atm'], 'any state whose orbit reaches the entry altitude', cost=6)
def _(ctx):
    o, p, th, dV, v1, V1, R, vv, (r, V, g, e2), asked, entry, w, rEI = burn(ctx, 'probe', inside=True)
    np = ctx.np
    o.compute_probe_targeting_trajectory(th, dV, num_points=3)
    t = o.theta_star_probe_entry
    ctx.eq('entry altitude', [o.h_EI, o.r_EI], [p.h_skip, rEI])
    h = r * V * np.cos(g)
    ctx.eq('on the orbit at the entry radius', rEI * p.GM * (1 + o.e_probe_orbit * np.cos(t)), h ** 2, rtol=1e-5, scale=S(ctx, rEI * p.GM))
    ctx.check('before periapsis', ctx.And(t >= np.pi, t <= 2 * np.pi + 1e-9))
    for k in ('pos_vec_bi_probe', 'vel_vec_bi_probe'):
        ctx.eq('state at the entry anomaly', asked[k], [t])
    sp = asked['pos_vec_bi_probe[]'][0]
    ctx.eq('drawn from the burn to entry', [sp[0], sp[-1]], [th, t])
    rs, vs = S(ctx, rEI), S(ctx, np.sqrt(dot(w, w)) + rEI * abs(p.OMEGA))
    ctx.eq('inertial speed', o.v_bi_mag_probe_entry ** 2, dot(w, w))
    la, lo = o.latitude_probe_entry_bi, o.longitude_probe_entry_bi
    ctx.eq('position from latitude and longitude', [rEI * np.cos(la) * np.cos(lo), rEI * np.cos(la) * np.sin(lo), rEI * np.sin(la)], list(entry), scale=rs)
    u = list(o.v_vec_probe_entry_atm)
    ctx.eq('velocity over the rotating planet', u, [w[0] + p.OMEGA * entry[1], w[1] - p.OMEGA * entry[0], w[2]], scale=vs)
    ctx.eq('speed over the rotating planet', o.v_mag_probe_entry_atm ** 2, dot(u, u), scale=None if ctx.symbolic else [vs[0] ** 2])


@harness('O02', 'probe-entry-angles', ['Orbiter.compute_probe_targeting_trajectory'], 'any state whose orbit reaches the entry altitude', cost=6)
def _(ctx):
    o, p, th, dV, v1, V1, R, vv, (r, V, g, e2), asked, entry, w, rEI = burn(ctx, 'probe', inside=True)
    np = ctx.np
    o.compute_probe_targeting_trajectory(th, dV, num_points=3)
    h = r * V * np.cos(g)
    wm = np.sqrt(dot(w, w))
    ctx.assume(h < rEI * wm)
    gi = o.gamma_inertial_probe_entry
    ctx.eq('inertial flight-path angle', np.cos(gi) * rEI * wm, o.h_probe_orbit, scale=S(ctx, rEI * wm))
    ctx.le('descending', gi, 0)


def _probe_angle(ctx, which, full):
    o, p, th, dV, v1, V1, R, vv, (r, V, g, e2), asked, entry, w, rEI = burn(ctx, 'probe', inside=True)
    np = ctx.np
    o.compute_probe_targeting_trajectory(th, dV, num_points=3)
    u = list(o.v_vec_probe_entry_atm)
    U, Wm = o.v_mag_probe_entry_atm, o.v_bi_mag_probe_entry
    ctx.assume(dot(u, u) > 1)
    la, lo = o.latitude_probe_entry_bi, o.longitude_probe_entry_bi
    if which == 'gamma':
        s = np.sin(o.gamma_atm_probe_entry) * rEI
        a, b = s * U - dot(entry, u), s * Wm - dot(entry, w)
        if full:
            ctx.eq('flight-path angle over the rotating planet', a, 0 * a, scale=S(ctx, rEI * U), atol=1e-9)
        else:
            t, t2 = rEI * U * 1e-6, rEI * Wm * 1e-6
            ctx.check('a flight-path angle of the entry state', ctx.Or(ctx.And(a <= t, a >= -t), ctx.And(b <= t2, b >= -t2)))
        return
    east = -u[0] * np.sin(lo) + u[1] * np.cos(lo)
    north = -(u[0] * np.cos(lo) + u[1] * np.sin(lo)) * np.sin(la) + u[2] * np.cos(la)
    hor2 = east ** 2 + north ** 2
    hd = o.heading_atm_probe_entry
    ctx.assume(hor2 > 1e-4 * U ** 2)
    if full:
        hor = np.sqrt(hor2)
        ctx.eq('heading over the rotating planet', [np.cos(hd) * hor, np.sin(hd) * hor], [east, north], scale=S(ctx, U))
    else:
        ch = np.cos(hd)
        a, b = ch * U - east, ch * ch * hor2 - east ** 2
        ctx.check('east or west', ctx.Or(ctx.And(a <= 1e-6 * U, a >= -1e-6 * U), ctx.And(b <= 1e-6 * U ** 2, b >= -1e-6 * U ** 2, ch * east >= 0)))


for _w in ('gamma', 'heading'):
    harness('O02', 'probe-' + _w, ['Orbiter.compute_probe_targeting_trajectory'], 'any probe entry state', cost=6)(lambda ctx, w=_w: _probe_angle(ctx, w, False))
    harness('O02', 'probe-%s-full' % _w, ['Orbiter.compute_probe_targeting_trajectory'], 'any probe entry state', cost=6)(lambda ctx, w=_w: _probe_angle(ctx, w, True))


@harness('O02', 'probe-misses', ['Orbiter.compute_probe_targeting_trajectory'], 'any state whose orbit stays above the entry altitude', cost=6)
def _(ctx):
    o, p, th, dV, v1, V1, R, vv, (r, V, g, e2), asked, entry, w, rEI = burn(ctx, 'probe', inside=False)
    o.compute_probe_targeting_trajectory(th, dV, num_points=3)
    sp = asked['pos_vec_bi_probe[]'][0]
    ctx.eq('drawn from the burn to periapsis', [sp[0], sp[-1]], [th, 2 * ctx.np.pi])


# ------------------------------------------------------------------ propulsive insertion
class Arrival:
    pass


def propulsive(ctx):
    np = ctx.np
    GM, RP = ctx.pos('GM', 1e11, 1e18, sample=(1e13, 1e16)), ctx.pos('RP', 1e6, 1e8)
    A = Arrival()
    A.planetObj = ctx.m.planet.Planet('TITAN')
    A.planetObj.GM, A.planetObj.RP = GM, RP
    A.rp = ctx.pos('rp', 1e6, 1e9, sample=(2e7, 1e8))
    A.i, A.OMEGA, A.omega = ctx.real('inc', 0.01, 3.13), ctx.real('node', 0, 6.28), ctx.real('argp', 0, 6.28)
    A.r_vec_rp_bi = arr(ctx, [A.rp * x for x in to_inertial(np, A.OMEGA, A.i, A.omega, [ctx.lit(1), ctx.lit(0), ctx.lit(0)])])
    T = to_inertial(np, A.OMEGA, A.i, A.omega, [ctx.lit(0), ctx.lit(1), ctx.lit(0)])
    vh = ctx.pos('v_arrival', 100, 1e5)
    A.v_vec_rp_bi = arr(ctx, [vh * x for x in T])
    alt = ctx.pos('apo_km', 1, 1e7)
    ctx.assume(RP + alt * 1000 > A.rp * 1.001)
    ctx.assume(vh ** 2 > 2 * GM / A.rp)
    O = ctx.m.orbiter.PropulsiveOrbiter
    draw = O.compute_orbit_trajectory
    ctx.replace(O, 'compute_orbit_trajectory', lambda self, num_points=3: draw(self, 3))
    return A, GM, RP, vh, T, alt, O(A, alt)


@harness('O03', 'insertion', ['PropulsiveOrbiter.__init__', 'PropulsiveOrbiter.vel_vec_bi', 'PropulsiveOrbiter.compute_orbit_trajectory'], 'any arrival and apoapsis', cost=4)
def _(ctx):
    A, GM, RP, vh, T, alt, o = propulsive(ctx)
    np = ctx.np
    ra = RP + alt * 1000
    ctx.eq('apoapsis', o.a * (1 + o.e), ra)
    ctx.eq('periapsis', o.a * (1 - o.e), A.rp)
    ctx.eq('angular momentum', o.h ** 2 * (ra + A.rp), 2 * GM * ra * A.rp)
    ctx.eq('plane and line of apsides of the arrival', [o.i, o.OMEGA, o.omega], [A.i, A.OMEGA, A.omega])
    vp2 = 2 * GM * ra / (A.rp * (A.rp + ra))
    ctx.eq('speed after the burn', o.vp ** 2, vp2)
    vp = list(o.vp_vec)
    ctx.le('along the orbit', o.vp * (1 - 3e-7), dot(vp, T))
    ctx.eq('burn', list(o.DV_OI_vec), [x - y for x, y in zip(A.v_vec_rp_bi, vp)], scale=S(ctx, vh))
    d = list(o.DV_OI_vec)
    ctx.eq('size of the burn', o.DV_OI_mag ** 2, dot(d, d))
    ctx.eq('scalar burn', (vh - o.DV_OI_mag_check) ** 2, vp2, scale=S(ctx, vh * vh))
    ctx.le('braking', 0, o.DV_OI_mag_check)
    for j, (c, r) in enumerate(((1, A.rp), (-1, ra), (1, A.rp))):
        P = to_inertial(np, A.OMEGA, A.i, A.omega, [ctx.lit(c), ctx.lit(0), ctx.lit(0)])
        ctx.eq('drawn around the orbit', [k[j] * RP for k in (o.x_orbit_arr, o.y_orbit_arr, o.z_orbit_arr)], [r * x for x in P], scale=S(ctx, ra))


def free_ellipse(ctx, a0=None):
    o = partial(ctx.m.orbiter.PropulsiveOrbiter)
    A = Arrival()
    A.planetObj = ctx.m.planet.Planet('TITAN')
    A.planetObj.GM, A.planetObj.RP = ctx.pos('GM', 1e11, 1e18, sample=(1e13, 1e16)), ctx.pos('RP', 1e6, 1e8)
    o.approach = A
    return o, A.planetObj.GM, A.planetObj.RP, ellipse(ctx, o, '', A.planetObj.GM)


@harness('O03', 'state', ['PropulsiveOrbiter.pos_vec_bi', 'PropulsiveOrbiter.r_mag_bi', 'PropulsiveOrbiter.vel_vec_bi'], 'any ellipse and true anomaly', cost=2)
def _(ctx):
    o, GM, RP, (e, rp, h, Om, inc, om) = free_ellipse(ctx)
    th = ctx.real('theta', -6.28, 9.42)
    P, V, r, k = kepler_state(ctx, GM, h, e, Om, inc, om, th)
    ctx.eq('position', list(o.pos_vec_bi(th)), P, scale=S(ctx, r))
    ctx.eq('distance', o.r_mag_bi(th), r)
    velocity_ok(ctx, GM, h, e, rp, Om, inc, om, th, list(o.vel_vec_bi(th)))


@harness('O03', 'position-in-time', ['PropulsiveOrbiter.compute_timed_orbit_trajectory', 'PropulsiveOrbiter.compute_E', 'PropulsiveOrbiter.compute_theta_star'], 'any ellipse, any time within ten revolutions, 2 points', cost=3)
def _(ctx):
    o, GM, RP, (e, rp, h, Om, inc, om) = free_ellipse(ctx)
    np = ctx.np
    E = ctx.real('E', 0.01, 62)
    ctx.half('E')
    ctx.assume(np.cos(E) > -0.999999)  # the true anomaly is found through a tangent that has a pole at apoapsis
    a = rp / (1 - e)
    n = np.sqrt(GM / a ** 3)
    calls = []

    def newton(f, x0=None, *args, **k):
        # contract of the root finder: it returns the root of the function it was given (Kepler's equation has one)
        for q in ('tol', 'xtol', 'rtol'):
            ctx.check('solved to at least 1e-6', k.get(q, 0) <= 1e-6)
        y = f(ctx.lit(0))
        root = ctx.lit(0) if not calls else E
        calls.append(root)
        ctx.eq('Kepler equation', f(root), 0, atol=1e-9)
        return root
    for q in ('newton', 'brentq', 'bisect', 'fsolve'):
        ctx.external('scipy.optimize.' + q, newton)
    t = (E - e * np.sin(E)) / n
    o.compute_timed_orbit_trajectory(t, num_points=2)
    ctx.eq('times', [o.t_array[0], o.t_array[1]], [0, t])
    ctx.eq('period', o.P * n, 2 * np.pi)
    ctx.eq('mean anomaly', o.M_array[1], n * t)
    x = [o.x_timed_orbit_arr[1], o.y_timed_orbit_arr[1], o.z_timed_orbit_arr[1]]
    want = to_inertial(np, Om, inc, om, [a * (np.cos(E) - e), a * np.sqrt(1 - e ** 2) * np.sin(E), 0 * a])
    ctx.eq('where Kepler puts it', [y * RP for y in x], want, scale=S(ctx, a))
    w0 = to_inertial(np, Om, inc, om, [rp, 0 * a, 0 * a])
    ctx.eq('starts at periapsis', [k[0] * RP for k in (o.x_timed_orbit_arr, o.y_timed_orbit_arr, o.z_timed_orbit_arr)], w0, scale=S(ctx, a))
