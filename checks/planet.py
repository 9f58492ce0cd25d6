from sx.reg import harness, meta
from checks._common import *

meta('P01', bounds='any altitude/radius; arrays of length 1-3; tables of 2-3 rows, 4-6 columns; linear interpolation exact, other kinds as an uninterpreted interpolant of the same nodes',
     assumptions=['scipy interp1d is modelled by its contract (piecewise linear / fill outside)'])
meta('P02', bounds='all eight supported bodies and arbitrary positive constants; any state')
meta('P03', bounds='2 profiles of NPOS=2..3 rows stacked in one file; any sigma; any densities')


@harness('P01', 'lookup-scalar', ['Planet.density', 'Planet.rho', 'Planet.rho2', 'Planet.rhobar'], 'any planet, any altitude')
def _(ctx):
    pid = ctx.choice('planet', PLANETS)
    p = sym_planet(ctx, pid, consts=False)
    p.rho0 = ctx.pos('rho0', 1e-4, 1e3)
    h = ctx.real('h', -1e7, 1e7)
    th, ph = ctx.real('theta'), ctx.real('phi')
    r = p.RP + h
    if ctx.fork(h < 0):
        want = p.rho0
    elif ctx.fork(h <= p.h_thres):
        want = p.density_int.at(h)
    else:
        want = ctx.lit(0.0)
    ctx.eq('density', p.density(h), want, atol=1e-9)
    ctx.eq('rho', p.rho(r, th, ph), want, atol=1e-9)
    ctx.eq('rho2', p.rho2(r / p.RP, th, ph), want, atol=1e-9, rtol=1e-5)
    ctx.eq('rhobar', p.rhobar(r / p.RP, th, ph) * p.rho0, want, atol=1e-9, rtol=1e-5)
    ctx.eq('density.again', p.density(h), want, atol=1e-9)


@harness('P01', 'lookup-vector', ['Planet.densityvectorized', 'Planet.tempvectorized', 'Planet.presvectorized', 'Planet.avectorized',
                                  'Planet.rhovectorized', 'Planet.pressurevectorized', 'Planet.temperaturevectorized', 'Planet.sonicvectorized'],
         'arrays of length 1..3')
def _(ctx):
    n = ctx.choice('n', [1, 2, 3])
    p = sym_planet(ctx, 'TITAN')
    h = ctx.vec('h', n, lo=-1e6, hi=1e7)
    r = arr(ctx, [p.RP + x for x in h])
    keep = [x for x in r]
    for nm, f, g in (('density', p.densityvectorized, p.density_int), ('temp', p.tempvectorized, p.temp_int),
                     ('pres', p.presvectorized, p.pressure_int), ('sonic', p.avectorized, p.sonic_int)):
        out = f(h)
        ctx.check(nm + '.len', len(out) == n)
        for i in range(n):
            ctx.eq('%s(h)' % nm, out[i], g.at(h[i]), atol=1e-9)
    for nm, f, g in (('density', p.rhovectorized, p.density_int), ('temp', p.temperaturevectorized, p.temp_int),
                     ('pres', p.pressurevectorized, p.pressure_int), ('sonic', p.sonicvectorized, p.sonic_int)):
        out = f(r)
        for i in range(n):
            ctx.eq('%s(r)' % nm, out[i], g.at(r[i] - p.RP), atol=1e-6, rtol=1e-4)
    for i in range(n):
        ctx.eq('input not modified', r[i], keep[i])
        # scalar and vector look-ups agree inside the model range
        if ctx.fork(ctx.And(h[i] >= 0, h[i] <= p.h_thres)):
            ctx.eq('scalar = vector', p.density(h[i]), p.densityvectorized(h)[i], atol=1e-9)


def _load(ctx, kind, rows):
    cols = ctx.choice('cols', [(0, 1, 2, 3), (3, 0, 2, 1), (1, 2, 4, 0)])
    km = ctx.choice('km', [False, True])
    ncol = 5
    p = ctx.m.planet.Planet(ctx.choice('planet', ['VENUS', 'URANUS']))
    hc, tc, pc, dc = cols
    tab = npx.empty((rows, ncol), dtype=object if ctx.symbolic else float)
    for i in range(rows):
        for j in range(ncol):
            tab[i, j] = ctx.pos('t[%d,%d]' % (i, j), 1e-3, 1e3)
    for i in range(1, rows):
        ctx.assume(tab[i, hc] >= tab[i - 1, hc] + 0.01)
    f = ctx.table_file(tab)
    kw = {} if kind is None else {'intType': kind}
    p.loadAtmosphereModel(f, hc, tc, pc, dc, heightInKmFlag=km, **kw)
    k = kind or 'cubic'
    H = tab[:, hc] * (1000 if km else 1)
    x = ctx.real('x', -100, 2e6)
    a = ctx.np.sqrt(p.CPCV * tab[:, pc] / tab[:, dc])
    for nm, got, Y, fill in (('temperature', p.tempvectorized, tab[:, tc], 0), ('pressure', p.presvectorized, tab[:, pc], 0),
                             ('density', p.densityvectorized, tab[:, dc], 0), ('sonic', p.avectorized, a, ctx.lit(1e20))):
        want = ctx.interp1d(H, Y, kind=k, fill_value=float(fill), bounds_error=False)(x)
        q = got(arr(ctx, [x]))
        ctx.eq(nm, q[0], want, atol=1e-9)
    if ctx.fork(ctx.And(x >= 0, x <= p.h_thres)):
        want = ctx.interp1d(H, tab[:, dc], kind=k, fill_value=0.0, bounds_error=False)(x)
        ctx.eq('density scalar', p.density(x), want, atol=1e-9)


@harness('P01', 'load-linear', ['Planet.loadAtmosphereModel'], '2 rows x 5 columns, arbitrary entries, 3 column maps, m or km', max_paths=2000)
def _(ctx):
    _load(ctx, 'linear', 2)


@harness('P01', 'load-linear-3', ['Planet.loadAtmosphereModel'], '3 rows', tier='thorough', max_paths=3000)
def _(ctx):
    _load(ctx, 'linear', 3)


@harness('P01', 'load-default', ['Planet.loadAtmosphereModel'], '4 rows, default (cubic) interpolation as uninterpreted interpolant', max_paths=2000)
def _(ctx):
    _load(ctx, None, 4)


@harness('P01', 'scale-height', ['Planet.scaleHeight'], 'profile sampled at 4 altitudes (model top 4 km), reference altitude 0..3 km')
def _(ctx):
    p = sym_planet(ctx, 'VENUS')
    p.h_skip = ctx.lit(4000.0)
    p.h_thres = ctx.lit(4000.0)
    k = ctx.choice('k', [0, 1, 2])
    h = ctx.lit(1000.0 * k)
    hs = [ctx.lit(4000.0) * i / 3 for i in range(4)]
    integ = ctx.lit(0.0)
    for i in range(k + 1, 4):
        integ = integ + (p.density_int.at(hs[i]) + p.density_int.at(hs[i - 1])) * (hs[i] - hs[i - 1]) / 2
    den = p.density_int.at(h) - p.density_int.at(p.h_skip)
    ctx.assume(ctx.abs(den) > 1e-3)
    ctx.eq('scale height', p.scaleHeight(h, p.density_int), integ / den)


REF = {  # body: RP km, GM km3/s2, |rotation period| h, retrograde, J2 (published values, JPL/IAU)
    'VENUS': (6051.8, 324858.6, 5832.6, True, 4.458e-6), 'EARTH': (6371.0, 398600.4, 23.99, False, 1082.6e-6),
    'MARS': (3389.5, 42828.4, 24.62, False, 1960.45e-6), 'JUPITER': (69911.0, 126686534.0, 9.925, False, 14736e-6),
    'SATURN': (58232.0, 37931187.0, 10.656, False, 16298e-6), 'TITAN': (2575.0, 8978.0, 382.69, False, 31.808e-6),
    'URANUS': (25559.0, 5793939.0, 17.24, True, 3343.3e-6), 'NEPTUNE': (24622.0, 6836529.9, 16.11, False, 3411e-6)}
POLE = {'VENUS': (272.76, 67.16), 'EARTH': (0.0, 90.0), 'MARS': (317.68143, 52.8865), 'JUPITER': (268.056595, 64.495303),
        'SATURN': (40.589, 83.537), 'TITAN': (39.4827, 83.4279), 'URANUS': (257.311, -15.175), 'NEPTUNE': (299.36, 43.36)}


@harness('P02', 'bodies', ['Planet.__init__', 'Planet.computeR', 'Planet.computeH', 'Planet.nonDimState', 'Planet.dimensionalize', 'Planet.rbar'],
         'all eight bodies, any state')
def _(ctx):
    pid = ctx.choice('planet', PLANETS)
    p = ctx.m.planet.Planet(pid)
    ctx.check('id', p.ID == pid)
    rp, gm, per, retro, j2 = REF[pid]
    ctx.eq('RP', p.RP, ctx.lit(rp * 1e3), rtol=2e-3)
    ctx.check('RP ref', ctx.abs(p.RP - rp * 1e3) <= 2e-3 * rp * 1e3)
    ctx.check('GM ref', ctx.abs(p.GM - gm * 1e9) <= 2e-3 * gm * 1e9)
    ctx.check('OMEGA sense', p.OMEGA < 0 if retro else p.OMEGA > 0)
    w = 2 * 3.141592653 / (per * 3600)
    ctx.check('OMEGA ref', ctx.abs(ctx.abs(p.OMEGA) - w) <= 1e-2 * w)
    ctx.check('J2 ref', ctx.abs(p.J2 - j2) <= 1e-2 * j2)
    ctx.eq('pole ra', p.a0 * 180 / ctx.np.pi, ctx.lit(POLE[pid][0]), rtol=1e-4, atol=1e-9)
    ctx.eq('pole dec', p.d0 * 180 / ctx.np.pi, ctx.lit(POLE[pid][1]), rtol=1e-4)
    ctx.check('levels', ctx.And(p.h_trap > 0, p.h_trap < p.h_skip, p.h_skip <= p.h_thres, p.rho0 > 0, p.CPCV > 1))
    ctx.eq('EARTHG', p.EARTHG, ctx.lit(9.80665))
    _scales(ctx, p)


def _scales(ctx, p):
    ctx.eq('Vref^2 RP = GM', p.Vref ** 2 * p.RP, p.GM)
    ctx.check('Vref>0', p.Vref > 0)
    ctx.eq('tau Vref = RP', p.tau * p.Vref, p.RP)
    ctx.eq('OMEGAbar', p.OMEGAbar, p.OMEGA * p.tau)
    s = [ctx.real(n, lo=-1e9, hi=1e9) for n in ('r', 'theta', 'phi', 'v', 'psi', 'gamma', 'drange')]
    t = ctx.real('tbar', -1e6, 1e6)
    nd = p.nonDimState(*s)
    ctx.eq('nondim r', nd[0] * p.RP, s[0])
    ctx.eq('nondim v', nd[3] * p.Vref, s[3])
    ctx.eq('nondim range', nd[6] * p.RP, s[6])
    back = p.dimensionalize(t, *nd)
    ctx.eq('round trip', list(back[1:]), s)
    ctx.eq('time', back[0] * p.Vref, t * p.RP)
    h = ctx.real('h', -1e9, 1e9)
    ctx.eq('computeH(computeR)', p.computeH(p.computeR(h)), h, atol=1e-3)
    ctx.eq('computeR', p.computeR(h), p.RP + h)
    ctx.eq('rbar', p.rbar(s[0]) * p.RP, s[0])
    # element-wise on arrays
    a = arr(ctx, [s[0], s[3]])
    nda = p.nonDimState(a, a, a, a, a, a, a)
    ctx.eq('nondim array r', nda[0] * p.RP, a)
    ctx.eq('nondim array v', nda[3] * p.Vref, a)
    ctx.eq('nondim array angles', [nda[1], nda[2], nda[4], nda[5]], [a, a, a, a])
    bka = p.dimensionalize(a, *nda)
    ctx.eq('round trip array', list(bka[1:]), [a] * 7)
    ctx.eq('altitude array', p.computeH(a), [s[0] - p.RP, s[3] - p.RP], atol=1e-3)


@harness('P02', 'unknown-body', ['Planet.__init__'], 'identifiers outside the supported list')
def _(ctx):
    bad = ctx.choice('bad', ['PLUTO', 'venus', 'Earth', '', 'MOON', 'EUROPA', 'SUN', 'JUPITER '])
    try:
        ctx.m.planet.Planet(bad)
        ok = False
    except ValueError:
        ok = True
    ctx.check('rejected', ok)


def _mcfile(ctx, kind):
    npos, nprof = ctx.choice('shape', [(2, 2), (3, 2), (2, 3)])
    i = ctx.choice('i', [1, 2])
    km = ctx.choice('km', [False, True])
    p = ctx.m.planet.Planet('NEPTUNE')
    rows = npos * nprof
    ncol = 5
    tab = npx.empty((rows, ncol), dtype=object if ctx.symbolic else float)
    for a in range(rows):
        for b in range(1, ncol):
            tab[a, b] = ctx.real('t[%d,%d]' % (a, b), 0.0, 10.0)
        tab[a, 0] = ctx.lit(float(10 * (a % npos)))
    f = ctx.table_file(tab)
    sig = ctx.real('sigma', -4, 4)
    f1 = 1000 if km else 1
    if kind == 2:
        out = p.loadMonteCarloDensityFile2(f, 0, 1, 2, 3, 4, km)
        low, avg, high = tab[:, 1], tab[:, 2], tab[:, 3]
    else:
        out = p.loadMonteCarloDensityFile3(f, 0, 2, 1, 4, km)
        avg = tab[:, 2]
        low = avg * (1 - tab[:, 1] / 100)
        high = avg * (1 + tab[:, 1] / 100)
    pert = tab[:, 4] - avg
    ctx.eq('height', out[0], tab[:, 0] * f1)
    ctx.eq('low', out[1], low, atol=1e-9)
    ctx.eq('avg', out[2], avg)
    ctx.eq('high', out[3], high)
    ctx.eq('perturbation', out[4], pert, atol=1e-9)
    x = ctx.real('x', -5.0, 40000.0)
    sl = slice((i - 1) * npos, i * npos)
    H = (tab[:, 0] * f1)[sl]
    if ctx.fork(sig >= 0):
        base = avg + (high - avg) * sig
    else:
        base = avg + (avg - low) * sig
    for nm, got, prof in (('perturbed', p.loadAtmosphereModel5(*out, sig, npos, i), (base + pert)[sl]),
                          ('smooth', p.loadAtmosphereModel6(*out[:4], sig, npos, i), base[sl])):
        want = ctx.interp1d(H, prof, kind='linear', fill_value=0.0, bounds_error=False)
        ctx.eq(nm + ' profile', got(x), want(x), atol=1e-9)
        v = got(arr(ctx, [x, H[0], H[-1]]))
        ctx.eq(nm + ' nodes', [v[1], v[2]], [prof[0], prof[-1]], atol=1e-9)
    ctx.eq('p-branch', p.pSigmaFunc(sig) + p.nSigmaFunc(sig), ctx.lit(1.0))


@harness('P03', 'file-low-avg-high', ['Planet.loadMonteCarloDensityFile2', 'Planet.loadAtmosphereModel5', 'Planet.loadAtmosphereModel6', 'Planet.pSigmaFunc', 'Planet.nSigmaFunc'],
         '2-3 profiles x 2-3 rows', max_paths=2000)
def _(ctx):
    _mcfile(ctx, 2)


@harness('P03', 'file-percent-sd', ['Planet.loadMonteCarloDensityFile3', 'Planet.loadAtmosphereModel5', 'Planet.loadAtmosphereModel6'],
         '2-3 profiles x 2-3 rows', max_paths=2000)
def _(ctx):
    _mcfile(ctx, 3)
