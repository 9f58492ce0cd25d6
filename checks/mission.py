"""Launch capability, trajectory database, radio link, schedules and visibility."""
from sx.reg import harness, meta
from checks._common import *
from checks.approach import dot, cross

meta('L01', bounds='launcher tables of 2-3 rows with arbitrary entries, any C3, arrays of 1-3; databases of 2 trajectories',
     assumptions=['scipy interp1d is modelled by its contract (piecewise linear, fill value outside)', 'pandas.read_excel returns the sheet it is asked for'])
meta('T01', bounds='any link parameters, antennas given by size or by gain')
meta('T02', bounds='0-2 transmit windows, 2-4 samples, any visibility history')
meta('S01', bounds='any body positions, pole direction, spin, latitude and orbit; 2-4 samples',
     assumptions=['the ephemeris returns barycentric positions in km', 'the timed orbit of the orbiter is given (O03 decides how it is computed)'])


class Any:
    """swallows drawing calls"""

    def __call__(self, *a, **k):
        return self

    def __getattr__(self, n):
        return self

    def __getitem__(self, n):
        return self


# ---------------------------------------------------------------- launcher
def table(ctx, n):
    tab = npx.empty((n, 2), dtype=object if ctx.symbolic else float)
    for i in range(n):
        tab[i, 0] = ctx.real('c3[%d]' % i, -100, 200)
        tab[i, 1] = ctx.pos('m[%d]' % i, 1, 1e5)
        if i:
            ctx.assume(tab[i, 0] >= tab[i - 1, 0] + 0.01)
    return tab


def capability(ctx, tab, x):
    n = len(tab)
    if ctx.fork(ctx.Or(x < tab[0, 0], x > tab[n - 1, 0])):
        return ctx.lit(0)
    for i in range(n - 1):
        if i == n - 2 or ctx.fork(x <= tab[i + 1, 0]):
            a, b = tab[i], tab[i + 1]
            return a[1] + (b[1] - a[1]) * (x - a[0]) / (b[0] - a[0])


def value(x):
    return x.item() if isinstance(x, npx.ndarray) else x


@harness('L01', 'launcher', ['Launcher.__init__', 'Launcher.launchMass'], 'tables of 2-3 rows, any C3')
def _(ctx):
    n = ctx.choice('rows', [2, 3])
    tab = table(ctx, n)
    L = ctx.m.launcher.Launcher('any', ctx.table_file(tab, delimiter=','))
    x = ctx.real('x', -200, 300)
    ctx.eq('capability', value(L.launchMass(x)), capability(ctx, tab, x), atol=1e-6)
    for i in range(n):
        ctx.eq('tabulated point', value(L.launchMass(tab[i, 0])), tab[i, 1], rtol=1e-6)
    ctx.check('name', L.ID == 'any')


@harness('L01', 'launcher-array', ['Launcher.launchMass'], 'arrays of 2, table of 2 rows')
def _(ctx):
    tab = table(ctx, 2)
    L = ctx.m.launcher.Launcher('any', ctx.table_file(tab, delimiter=','))
    xs = ctx.vec('x', 2, lo=-200, hi=300)
    out = L.launchMass(xs)
    ctx.check('one value each', len(out) == 2)
    for i in range(2):
        ctx.eq('capability', out[i], capability(ctx, tab, xs[i]), atol=1e-6)


def database(ctx):
    import pandas
    m = ctx.m.interplanetary
    cols = {k: ctx.vec(k, 2, lo=0.01, hi=100) for k in ('LC3', 'TOF', 'Avinf', 'Avinfx')}
    sheets = {}
    other = {k: ctx.vec('o' + k, 2, lo=0.01, hi=100) for k in ('LC3', 'TOF', 'Avinf', 'Avinfx')}

    def read(f, sheet_name=0, **k):
        sheets['asked'] = (f, sheet_name)
        c = cols if sheet_name == 'second' else other
        return pandas.DataFrame({'Lcdate': [20310203, 20320405], **{q: pandas.Series(list(v), dtype=object if ctx.symbolic else float) for q, v in c.items()}})
    ctx.replace(pandas, 'read_excel', read)
    I = m.Interplanetary('db', 'file.xlsx', 'second', '%Y%m%d')
    ctx.check('file asked for', sheets['asked'] == ('file.xlsx', 'second'))
    return I, cols


class Mass:
    """an arbitrary launcher: launch mass is an uninterpreted function of C3"""
    ID = 'rocket'

    def __init__(self, ctx):
        self.ctx = ctx

    def launchMass(self, C3):
        return arr(self.ctx, [self.ctx.uf('mass', x, sign='pos') for x in C3])


@harness('L01', 'database', ['Interplanetary.__init__', 'Interplanetary.compute_launch_capability'], '2 trajectories')
def _(ctx):
    I, cols = database(ctx)
    for i in range(2):
        ctx.eq('own C3', list(I.C3)[i], cols['LC3'][i])
        ctx.eq('own time of flight', list(I.TOF)[i], cols['TOF'][i])
        ctx.eq('own arrival speed', list(I.Avinf)[i], cols['Avinf'][i])
    ctx.check('own launch date', [str(d)[:10] for d in I.Lcdate] == ['2031-02-03', '2032-04-05'])
    m = I.compute_launch_capability(Mass(ctx))
    ctx.check('one capability per trajectory', len(m) == 2)
    for i in range(2):
        ctx.eq('capability at own C3', list(m)[i], ctx.uf('mass', cols['LC3'][i], sign='pos'))


SAVE_OK = {'dpi', 'bbox_inches', 'pad_inches', 'format', 'transparent', 'facecolor', 'edgecolor', 'metadata', 'backend', 'orientation'}


class Plot(Any):
    def __init__(self):
        self.__dict__.update(series=[], saved=[], bad=[])

    def plot(self, x, y, *a, **k):
        self.series.append((x, y, None))
        return Any()

    def scatter(self, x, y, s=None, c=None, **k):
        self.series.append((x, y, c))
        return Any()

    def savefig(self, name, **k):
        self.saved.append(name)
        self.bad.extend(set(k) - SAVE_OK)

    def __getattr__(self, n):
        return Any()


PLOTS = [('plot_launch_mass_vs_launch_date', True, 'date', 'mass', None), ('plot_TOF_vs_launch_date', False, 'date', 'TOF', None),
         ('plot_Avinf_vs_launch_date', False, 'date', 'Avinf', None),
         ('plot_Avinf_vs_launch_date_with_launch_mass_colorbar', True, 'date', 'Avinf', 'mass'),
         ('plot_launch_mass_vs_TOF', True, 'TOF', 'mass', None), ('plot_launch_mass_vs_TOF_with_vinf_colorbar', True, 'TOF', 'mass', 'Avinf')]


@harness('L01', 'figures', ['Interplanetary.' + p[0] for p in PLOTS], '2 trajectories, every figure', cost=2)
def _(ctx):
    name, needs, x, y, c = ctx.choice('figure', PLOTS)
    I, cols = database(ctx)
    mass = [ctx.uf('mass', v, sign='pos') for v in cols['LC3']]
    ctx.assume(mass[0] - mass[1] > 0.01)
    P = Plot()
    ctx.replace(ctx.m.interplanetary, 'plt', P)
    getattr(I, name)(*([Mass(ctx)] if needs else []))
    ctx.check('one series', len(P.series) == 1)

    def get(k):
        return mass if k == 'mass' else list(cols[k])
    X, Y, C = P.series[0]
    if x == 'date':
        ctx.check('dates', [str(d)[:10] for d in X] == ['2031-02-03', '2032-04-05'])
    else:
        ctx.eq('horizontal', list(X), get(x))
    ctx.eq('vertical', list(Y), get(y))
    if c:
        ctx.eq('colour', list(C), get(c))
    ctx.check('saved in three formats', sorted(str(s)[-4:] for s in P.saved) == ['.eps', '.pdf', '.png'])
    ctx.check('figure can be written', not P.bad)


# ---------------------------------------------------------------- radio link
def link(ctx, **kw):
    np = ctx.np
    f, Pt, Ts, r, R = ctx.pos('f', 0.1, 100), ctx.pos('Pt', 0.01, 1e4), ctx.pos('Ts', 1, 1e4), ctx.pos('range', 1, 1e11), ctx.pos('rate', 1e-3, 1e7)
    Lo, req = ctx.real('Lo', 0, 50), ctx.real('req', -10, 50)
    loss = {k: ctx.real(k, 0, 20) for k in ('Lt_dB', 'L_sc_dB', 'La_dB', 'L_DSN_dB')}
    ant = {}
    lam = ctx.lit(3e8) / (f * 10 ** 9)
    G = []
    for s in 'tr':
        how = ctx.choice('antenna ' + s, ['size', 'gain', 'both', 'zero'])
        D, eta, g = ctx.pos('D' + s, 0.01, 100), ctx.pos('eta' + s, 0.01, 1), ctx.real('G' + s, -20, 100)
        if how in ('size', 'both'):
            ant['D' + s], ant['eta_' + s] = D, eta
        if how in ('gain', 'both'):
            ant['G%s_dBi' % s] = g
        if how == 'zero':
            ant['G%s_dBi' % s] = 0
        G.append(10 * np.log10(eta * (np.pi * D / lam) ** 2) if how in ('size', 'both') else g if how == 'gain' else ctx.lit(0))
    losses = kw.get('losses', True)
    Lk = ctx.m.telecom.Link(f, Pt, Ts, r, Lo, R, req, **ant, **(loss if losses else {}))
    if not losses:
        loss = dict(Lt_dB=ctx.lit(1.0), L_sc_dB=ctx.lit(0.2), La_dB=ctx.lit(0.35), L_DSN_dB=ctx.lit(1.0))
    return Lk, f, Pt, Ts, r, R, Lo, req, loss, lam, G, ant


@harness('T01', 'budget', ['Link.__init__', 'Link.compute_dB', 'Link.compute_antenna_gain', 'Link.compute_free_space_loss_dB'], 'any link', cost=2)
def _(ctx):
    Lk, f, Pt, Ts, r, R, Lo, req, loss, lam, (gt, gr), ant = link(ctx)
    np = ctx.np
    dB = lambda x: 10 * np.log10(x)
    ctx.eq('transmitter gain', Lk.Gt_dBi, gt, atol=0.01)
    ctx.eq('receiver gain', Lk.Gr_dBi, gr, atol=0.01)
    fs = 2 * dB(4 * np.pi * r * 1000 / lam)
    ctx.eq('free space loss', Lk.Ls_dB, fs, atol=0.01)
    k = dB(ctx.lit(1.38e-23))
    want = dB(Pt) + gt + gr - fs - dB(Ts) - k - dB(R * 1000) - Lo - loss['Lt_dB'] - loss['L_sc_dB'] - loss['La_dB'] - loss['L_DSN_dB']
    ctx.eq('available Eb/N0', Lk.EB_N0, want, atol=0.02)
    ctx.eq('margin', Lk.EB_N0_margin, want - req, atol=0.02)


@harness('T01', 'reported', ['Link.__init__'], 'any link')
def _(ctx):
    Lk, f, Pt, Ts, r, R, Lo, req, loss, lam, G, ant = link(ctx)
    ctx.eq('SI', [Lk.freq, Lk.range, Lk.R], [f * 10 ** 9, r * 1000, R * 1000])
    ctx.eq('inputs kept', [Lk.Pt, Lk.Ts, Lk.L_other_dB, Lk.EB_N0_req, Lk.Lt_dB, Lk.L_sc_dB, Lk.La_dB, Lk.L_DSN_dB],
           [Pt, Ts, Lo, req, loss['Lt_dB'], loss['L_sc_dB'], loss['La_dB'], loss['L_DSN_dB']])
    ctx.eq('wavelength', Lk.wavelength, lam, rtol=1e-3)
    for s in 'tr':
        D, A, e = getattr(Lk, 'D' + s), getattr(Lk, 'A' + s), getattr(Lk, 'eta_' + s)
        if 'D' + s in ant:
            ctx.eq('antenna size', [D, e, A], [ant['D' + s], ant['eta_' + s], ctx.np.pi * ant['D' + s] ** 2 / 4])
        else:
            ctx.check('no antenna size', D is None and A is None and e is None)


@harness('T01', 'defaults', ['Link.__init__'], 'any link with the default losses')
def _(ctx):
    Lk, f, Pt, Ts, r, R, Lo, req, loss, lam, G, ant = link(ctx, losses=False)
    ctx.eq('default losses', [Lk.Lt_dB, Lk.L_sc_dB, Lk.La_dB, Lk.L_DSN_dB], [loss[k] for k in ('Lt_dB', 'L_sc_dB', 'La_dB', 'L_DSN_dB')])


LINES = {'frequency': ('freq', 1e-9, 1), 'transmitter power, w': ('Pt', 1, 1), 'transmitter power, db': ('Pt_dB', 1, 1), 'transmitter loss': ('Lt_dB', 1, -1),
         'circuit loss': ('L_sc_dB', 1, -1), 'transmit antenna d.': ('Dt', 1, 1), 'transmit antenna eff': ('eta_t', 1, 1), 'transmitter gain': ('Gt_dBi', 1, 1),
         'receive antenna d.': ('Dr', 1, 1), 'receive antenna eff': ('eta_r', 1, 1), 'receiver gain': ('Gr_dBi', 1, 1), 'noise temp, k': ('Ts', 1, 1),
         'noise temp, db': ('Ts_dBK', 1, -1), 'link distance': ('range', 1e-3, 1), 'free space loss': ('Ls_dB', 1, -1), 'atmospheric loss': ('La_dB', 1, -1),
         'other losses': ('L_other_dB', 1, -1), 'boltzmann': ('Ka_dB', 1, -1), 'data rate, kbps': ('R', 1e-3, 1), 'data rate, dbhz': ('R_dBHz', 1, -1),
         'available eb/n0': ('EB_N0', 1, 1), 'required eb/n0': ('EB_N0_req', 1, 1), 'margin': ('EB_N0_margin', 1, 1)}


@harness('T01', 'printed', ['Link.print_link_budget'], 'any link; every printed line', cost=2)
def _(ctx):
    import contextlib
    import io
    from sx import core
    Lk, f, Pt, Ts, r, R, Lo, req, loss, lam, G, ant = link(ctx)
    keep = (Lk.EB_N0, Lk.EB_N0_margin, Lk.Gt_dBi, Lk.Gr_dBi)
    want = {k: getattr(Lk, a) for k, (a, _, _) in LINES.items()}
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        Lk.print_link_budget()
    ctx.eq('budget unchanged', [Lk.EB_N0, Lk.EB_N0_margin, Lk.Gt_dBi, Lk.Gr_dBi], list(keep))
    seen = []
    for line in out.getvalue().splitlines():
        key = [k for k in LINES if k in line.lower()]
        if not key or ':' not in line:
            continue
        k = key[0]
        seen.append(k)
        txt = line.split(':', 1)[1].replace(' ', '')
        w = want[k]
        if w is None:
            ctx.check('printed %s' % k, txt == 'None')
            continue
        sign = 1
        while txt and txt[0] in '+-' and txt[1:2] not in '0123456789.':
            sign, txt = (-sign if txt[0] == '-' else sign), txt[1:]
        val = core.PRINTED[int(txt[1:-1])] if txt[:1] == '\u00a7' else float(txt)
        tol = 0.006 if ctx.symbolic else 0.006 + 1e-6 * abs(w * LINES[k][1])
        ctx.check('printed %s' % k, ctx.And(sign * val - w * LINES[k][1] * LINES[k][2] <= tol, sign * val - w * LINES[k][1] * LINES[k][2] >= -tol))
    ctx.check('every line printed', {'free space loss', 'available eb/n0', 'required eb/n0', 'margin'} <= set(seen))


# ---------------------------------------------------------------- schedule
@harness('T02', 'schedule', ['Schedule.__init__'], '0-2 windows, 2-4 samples', cost=2)
def _(ctx):
    n, w = ctx.choice('samples', [2, 3, 4]), ctx.choice('windows', [0, 1, 2])
    T = ctx.pos('T', 1, 1e7)
    win = [(ctx.real('w%d' % i, -1e6, 1e8), ctx.real('v%d' % i, -1e6, 1e8)) for i in range(w)]
    s = ctx.m.telecom.Schedule(T, n, [arr(ctx, x) for x in win])
    ctx.check('samples', len(s.t_array) == n and len(s.transmit_array) == n)
    for i in range(n):
        t = T * i / (n - 1)
        ctx.eq('time', s.t_array[i], t)
        on = ctx.Or(*[ctx.And(a <= t, t <= b) for a, b in win]) if win else False
        got = bool(s.transmit_array[i])
        ctx.check('transmits exactly inside the windows', on if got else ctx.Not(on) if win else True)


class Bag:
    pass


@harness('T02', 'data-volume', ['Link.compute_data_volume'], '2-4 samples, any visibility and schedule', cost=2, max_paths=700)
def _(ctx):
    n = ctx.choice('samples', [2, 3, 4])
    t = [ctx.real('t0', 0, 1e6)]
    for i in range(1, n):
        t.append(t[-1] + ctx.pos('dt%d' % i, 1, 1e5))
    vis = [ctx.choice('v%d' % i, [False, True]) for i in range(n)]
    on = [ctx.choice('s%d' % i, [False, True]) for i in range(n)]
    R = ctx.pos('R', 1, 1e9)
    L = ctx.m.telecom.Link(ctx.lit(8.4), ctx.lit(20.0), ctx.lit(30.0), ctx.lit(1e6), ctx.lit(0.1), R / 1000, ctx.lit(0.3), Gt_dBi=ctx.lit(40.0), Gr_dBi=ctx.lit(60.0))
    V, S = Bag(), Bag()
    V.t_array, V.visible_array = arr(ctx, t), npx.array(vis, dtype=ctx.choice('kind', [bool, float]))
    S.transmit_array, S.t_array = npx.array(on, dtype=bool), arr(ctx, t)
    L.compute_data_volume(V, S)
    ctx.check('length', len(L.data_volume_array) == n)
    ctx.eq('times', list(L.t_array), t)
    tot = ctx.lit(0)
    ctx.eq('starts at zero', L.data_volume_array[0], 0)
    rate = [R if a and b else 0 * R for a, b in zip(vis, on)]
    for i in range(1, n):
        tot = tot + (rate[i] + rate[i - 1]) / 2 * (t[i] - t[i - 1])
        ctx.eq('volume while visible and transmitting', L.data_volume_array[i], tot, atol=1e-9)


# ---------------------------------------------------------------- visibility
class Eph:
    """stands for the ephemeris of the day"""

    def __init__(self):
        self.asked, self.file = [], None

    def set(self, f):
        import contextlib
        self.file = f
        return contextlib.nullcontext()


class Val:
    def __init__(self, v):
        self.value = v


def sphere(np, lon, lat):
    """radial, east and north unit vectors"""
    return ([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], [-np.sin(lon), np.cos(lon), 0 * np.cos(lon)],
            [-np.sin(lat) * np.cos(lon), -np.sin(lat) * np.sin(lon), np.cos(lat)])


def ephemeris(ctx, body, a0, d0):
    """any ephemeris: the observer anywhere, the target at any distance in the direction (lon, lat) of the body axes"""
    np = ctx.np
    E = Eph()
    D, lon, lat = ctx.pos('distance', 1e3, 1e10), ctx.real('target lon', -7, 7), ctx.real('target lat', -1.5, 1.5)
    n = sphere(np, lon, lat)
    axes = body_axes(np, a0, d0)
    here = [ctx.real('observer.' + c, -5e9, 5e9) for c in 'xyz']
    icrf = [sum(c * a[k] for c, a in zip(n[0], axes)) for k in range(3)]
    pos = {'SATURN' if body == 'TITAN' else body: here, 'EARTH': [h + D * u for h, u in zip(here, icrf)]}

    def get(b, t):
        k = b.upper()
        E.asked.append((k, str(t.isot)[:19], t.scale, E.file))
        b, v = Bag(), Bag()
        b.x, b.y, b.z = [Val(q) for q in pos.get(k, [ctx.lit(7)] * 3)]
        v.x, v.y, v.z = [Val(ctx.lit(1))] * 3
        return b, v
    ctx.replace(ctx.m.visibility, 'solar_system_ephemeris', E)
    ctx.external('astropy.get_body_barycentric_posvel', get)
    return E, D, n


def spin_planet(ctx, pole=True):
    P = ctx.m.planet.Planet
    init = P.__init__
    RP, W = ctx.pos('RP', 1e6, 1e8), ctx.pos('spin', 1e-7, 1e-3)
    W = W if ctx.choice('sense', [1, -1]) > 0 else -W
    a0, d0 = (ctx.real('a0', 0, 6.28), ctx.real('d0', -1.5, 1.5)) if pole else (-ctx.np.pi / 2, ctx.np.pi / 2)
    box = {}

    def patched(self, pid, *a, **k):
        init(self, pid, *a, **k)
        box['pid'] = pid
        self.RP, self.OMEGA, self.a0, self.d0 = RP, W, a0, d0
    ctx.replace(P, '__init__', patched)
    return RP, W, a0, d0, box


def asked_ok(ctx, E, body, f):
    want = {'SATURN' if body == 'TITAN' else body, 'EARTH'}
    ctx.check('bodies asked for', {a[0] for a in E.asked} == want)
    ctx.check('epoch and ephemeris', all(a[1] == '2034-03-28T01:02:03' and a[2] == 'tdb' and a[3] == f for a in E.asked))


def body_axes(np, a0, d0):
    """unit vectors of the body axes in the inertial frame: ascending node of the equator, the pole"""
    X = [-np.sin(a0), np.cos(a0), 0 * np.cos(a0)]
    Z = [np.cos(d0) * np.cos(a0), np.cos(d0) * np.sin(a0), np.sin(d0)]
    return X, cross(Z, X), Z


@harness('S01', 'body-axes', ['Visibility.ICRF_to_BI', 'Visibility.R1', 'Visibility.R3'], 'any pole and vector')
def _(ctx):
    v = partial(ctx.m.visibility.Visibility)
    v.a0, v.d0 = ctx.real('a0', 0, 6.28), ctx.real('d0', -1.57, 1.57)
    x = [ctx.real('x' + k, -1, 1) for k in 'xyz']
    got = list(v.ICRF_to_BI(arr(ctx, x)))
    ctx.eq('components along node, its normal and the pole', got, [dot(x, a) for a in body_axes(ctx.np, v.a0, v.d0)], atol=1e-9)
    t = ctx.real('t', -6, 6)
    for k, M in enumerate((v.R1(t), v.R2(t), v.R3(t))):
        a, b = (k + 1) % 3, (k + 2) % 3
        y = list(ctx.np.matmul(M, arr(ctx, x)))
        ctx.eq('elementary rotations', [y[k], y[a], y[b]], [x[k], ctx.np.cos(t) * x[a] + ctx.np.sin(t) * x[b], ctx.np.cos(t) * x[b] - ctx.np.sin(t) * x[a]], atol=1e-9)


@harness('S01', 'lander-planet', ['LanderToPlanet.__init__', 'Visibility.ICRF_to_BI'], 'any lander, pole, spin and target; 3 samples over one day', cost=4)
def _(ctx):
    np = ctx.np
    body = ctx.choice('body', ['MARS', 'TITAN'])
    n = 3
    RP, W, a0, d0, box = spin_planet(ctx)
    E, D, (u, _, _) = ephemeris(ctx, body, a0, d0)
    lat = ctx.real('lat', -1.5, 1.5)
    v = ctx.m.visibility.LanderToPlanet('EARTH', body, lat * 180 / np.pi, '2034-03-28 01:02:03', num_points=n, ephem_file='some.bsp')
    asked_ok(ctx, E, body, 'some.bsp')
    ctx.check('lander planet', box['pid'] == body)
    ctx.eq('range', v.range, D * 1000)
    ctx.check('samples', all(len(x) == n for x in (v.t_array, v.longitude_array, v.beta_array, v.elevation_array, v.visible_array)))
    ctx.eq('one rotation', v.t_array[n - 1] * (W if W > 0 else -W), 2 * np.pi)
    for i in range(n):
        ctx.eq('time', v.t_array[i] * (n - 1), v.t_array[n - 1] * i)
        z = sphere(np, W * v.t_array[i], lat)[0]
        up = dot(z, u)
        ctx.eq('zenith angle', np.cos(v.beta_array[i] * np.pi / 180), up, atol=1e-9)
        above(ctx, v, i, up)


def above(ctx, v, i, up):
    tol = 0 if ctx.symbolic else 1e-9
    ctx.check('zenith angle in range', ctx.And(v.beta_array[i] >= 0, v.beta_array[i] <= 180))
    if bool(v.visible_array[i]):
        ctx.check('visible means above the horizon', up > -tol)
        ctx.eq('elevation', v.elevation_array[i], 90 - v.beta_array[i], atol=1e-6)
    else:
        ctx.check('hidden means not above the horizon', up <= tol)
        ctx.eq('no elevation when hidden', v.elevation_array[i], 0)


class TimedOrbit:
    def __init__(self, ctx, pos):
        self.ctx, self.pos, self.asked = ctx, pos, None

    def compute_timed_orbit_trajectory(self, t_seconds, num_points=101):
        self.asked = (t_seconds, num_points)
        self.x_timed_orbit_arr, self.y_timed_orbit_arr, self.z_timed_orbit_arr = [arr(self.ctx, [p[k] for p in self.pos]) for k in range(3)]


@harness('S01', 'lander-orbiter', ['LanderToOrbiter.__init__'], 'any lander and orbit; 3 samples', cost=4)
def _(ctx):
    np = ctx.np
    n = 3
    RP, W, a0, d0, box = spin_planet(ctx, pole=False)
    lat, T = ctx.real('lat', -1.5, 1.5), ctx.pos('T', 1, 1e6)
    pos, seen = [], []
    for i in range(n):
        zen, east, north = sphere(np, W * T * i / (n - 1), lat)
        rho, b, az = ctx.pos('rho%d' % i, 0.01, 100), ctx.real('zenith%d' % i, 0.001, 3.14), ctx.real('az%d' % i, -7, 7)
        pos.append([z + rho * (np.cos(b) * z + np.sin(b) * (np.cos(az) * e + np.sin(az) * q)) for z, e, q in zip(zen, east, north)])
        seen.append((rho, b))
    o = TimedOrbit(ctx, pos)
    v = ctx.m.visibility.LanderToOrbiter('MARS', lat * 180 / np.pi, o, T, num_points=n)
    ctx.check('orbit over the same samples', o.asked is not None and o.asked[1] == n)
    ctx.check('lander planet', box['pid'] == 'MARS')
    ctx.eq('orbit over the same time', o.asked[0], T)
    ctx.check('samples', all(len(x) == n for x in (v.t_array, v.range_array, v.beta_array, v.elevation_array, v.visible_array)))
    for i in range(n):
        rho, b = seen[i]
        ctx.eq('time', v.t_array[i], T * i / (n - 1))
        ctx.eq('range', v.range_array[i], RP * rho)
        ctx.eq('zenith angle', np.cos(v.beta_array[i] * np.pi / 180), np.cos(b), atol=1e-9)
        above(ctx, v, i, np.cos(b))


@harness('S01', 'orbiter-planet', ['OrbiterToPlanet.__init__', 'Visibility.ICRF_to_BI'], 'any orbit, pole and target; 3 samples', cost=4)
def _(ctx):
    np = ctx.np
    n = 3
    body = ctx.choice('body', ['MARS', 'TITAN'])
    RP, W, a0, d0, box = spin_planet(ctx)
    E, D, (u, e1, e2) = ephemeris(ctx, body, a0, d0)
    T = ctx.pos('T', 1, 1e6)
    pos, seen = [], []
    for i in range(n):
        s, h, az = ctx.real('along%d' % i, -50, 50), ctx.pos('off%d' % i, 1e-3, 50), ctx.real('az%d' % i, -7, 7)
        pos.append([s * a + h * (np.cos(az) * b + np.sin(az) * c) for a, b, c in zip(u, e1, e2)])
        seen.append((s, h))
    o = TimedOrbit(ctx, pos)
    v = ctx.m.visibility.OrbiterToPlanet('EARTH', body, o, '2034-03-28 01:02:03', T, num_points=n, ephem_file='some.bsp')
    asked_ok(ctx, E, body, 'some.bsp')
    ctx.check('planet', box['pid'] == body)
    ctx.check('orbit over the same samples', o.asked is not None and o.asked[1] == n)
    ctx.eq('orbit over the same time', o.asked[0], T)
    ctx.eq('range', v.range, D * 1000)
    ctx.check('samples', all(len(x) == n for x in (v.t_array, v.d_array, v.visible_array)))
    tol = 0 if ctx.symbolic else 1e-9
    for i in range(n):
        s, h = seen[i]
        ctx.eq('time', v.t_array[i], T * i / (n - 1))
        ctx.eq('distance of the line of sight from the centre', v.d_array[i], h, atol=1e-9)
        if bool(v.visible_array[i]):
            ctx.check('visible means not behind the planet', ctx.Or(s >= -tol, h >= 1 - tol))
        else:
            ctx.check('hidden means behind the planet', ctx.And(s < tol, h < 1 + tol))
