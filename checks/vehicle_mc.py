from sx.reg import harness, meta
from checks._common import *

meta('V12', bounds='2 (quick) or 3 (thorough) runs per campaign, histories of 3 samples (peaks inside the history, for the last run at its ends), arbitrary draws, nominal values and dispersions',
     assumptions=['the random generators are replaced by arbitrary draws; that draws are distributed as requested is the contract of the standard generators',
                  'one guided flight is an arbitrary function of the vehicle (decided by V11); the density files and profiles are decided by P03'])

OUT = ['terminal_apoapsis', 'terminal_periapsis', 'periapsis_raise_DV', 'apoapsis_raise_DV', 'acc_net_g_max', 'q_stag_max', 'heatload_max']


REST = dict(h_km=(20, 200), v_kms=(0.5, 50), phi_deg=(-80, 80), psi_deg=(-400, 400), theta_deg=(-400, 400), gamma_deg=(-60, 60), drange_km=(0, 1e5))


def read(ctx, path):
    if ctx.symbolic:
        x = ctx.readback(path)
        return None if x is None else list(x)
    import os
    if not os.path.exists(path):
        return None
    with open(path) as f:
        t = f.read().split()
    try:
        return [float(x) for x in t]
    except ValueError:
        return t


def _mc(ctx, kind):
    drag, earth = kind.startswith('D'), kind.endswith('Earth')
    n = 2 if ctx.tier == 'quick' else 3
    nfile = 3
    p = sym_planet(ctx, 'VENUS', atm=False, consts=False)
    v = sym_vehicle(ctx, p, LD=ctx.pos('LD', 0.01, 3))
    if drag:
        v.setDragModulationVehicleParams(ctx.pos('beta1', 1, 500), ctx.lit(5.0))
    ini = [ctx.real('i%d' % i, a, b) for i, (a, b) in enumerate([(50, 1000), (-400, 400), (-80, 80), (1, 50), (-400, 400), (-30, -1), (0, 100), (0, 1)])]
    ini[7] = ctx.lit(0.0)
    v.setInitialState(*ini)
    files = ['file%d' % i for i in range(nfile)]
    mu, sd = ctx.real('efpa', -30, -1), ctx.pos('sd', 0.001, 1)
    nom, nsd = ctx.pos('nom', 0.1, 300), ctx.pos('nsd', 0.001, 1)
    cols = [1, 3, 2, 5, 4]
    ts1, ts2, dt, T = ctx.pos('ts1', 0.1, 10), ctx.pos('ts2', 0.1, 10), ctx.pos('dt', 0.01, 1), ctx.pos('T', 10, 5000)
    npos, nmonte = 151, 200
    fac = ctx.lit(1.0)
    if kind == 'D_Earth':
        v.setupMonteCarloSimulationD_Earth(npos, nmonte, files, 1, 2, 5, 4, True, mu, sd, nom, nsd, ts1, ts2, dt, T)
        wantcols = (1, 2, 5, 4)
    elif drag:
        v.setupMonteCarloSimulationD(npos, nmonte, files, *cols, True, mu, sd, nom, nsd, ts1, ts2, dt, T)
        wantcols = tuple(cols)
    else:
        if kind == '2' or ctx.choice('spread', ['stated', 'default']) == 'stated':
            fac = ctx.pos('fac', 0.1, 2)
            v.setupMonteCarloSimulation(npos, nmonte, files, *cols, True, mu, sd, nom, nsd, ts1, dt, T, fac)
        else:
            v.setupMonteCarloSimulation(npos, nmonte, files, *cols, True, mu, sd, nom, nsd, ts1, dt, T)
        wantcols = tuple(cols)
    # environment
    k = [0]
    choices = [ctx.choice('file%d' % i, [0, 2]) for i in range(n)]
    normals, ints, loads, models, flights, dirs = [], [], [], [], [], []

    def choice(seq):
        i = len([1 for a in ints if a[0] == 'f'])
        ints.append(('f', list(seq)))
        return seq[choices[i % n]]

    def randint(a, b):
        i = len([1 for x in ints if x[0] == 'p'])
        ints.append(('p', a, b))
        return [7, 200, 1][i % 3]

    def normal(loc=0.0, scale=1.0, size=None):
        x = ctx.real('z%d' % len(normals), -5, 5) * scale + loc
        normals.append((loc, scale, x))
        return x
    ctx.external('random.choice', choice)
    ctx.external('random.randint', randint)
    ctx.external('numpy.random.normal', normal)
    if ctx.symbolic:
        ctx.external('os.makedirs', lambda d, *a, **kw: dirs.append(d))

    def load(*a):
        loads.append(a)
        return tuple('atm%d-%d' % (len(loads), j) for j in range(5))
    p.loadMonteCarloDensityFile2 = None if earth else load
    p.loadMonteCarloDensityFile3 = load if earth else None

    def model(*a):
        models.append(a)
        return 'profile%d' % len(models)
    p.loadAtmosphereModel5 = model

    def fly(*a):
        i = len(flights)
        st = [v.h0_km, v.theta0_deg, v.phi0_deg, v.v0_kms, v.psi0_deg, v.gamma0_deg, v.drange0_km, v.heatLoad0]
        r = {}
        for o in OUT[:4]:
            r[o] = ctx.real('%s%d' % (o, i), -1e4, 1e4)
            setattr(v, o, r[o])
        r['apoapsis_error'] = v.apoapsis_perc_error = ctx.real('err%d' % i, -100, 100)
        g = [ctx.real('g%d.%d' % (i, j), 0, 50) for j in range(3)]
        q = [ctx.real('q%d.%d' % (i, j), 0, 5e4) for j in range(3)]
        d = ctx.pos('d%d' % i, 0.01, 10)
        if i < n - 1:
            # the peaks of all but the last flight are inside the history, of the last one at its ends
            ctx.assume(g[1] >= g[0], g[1] >= g[2], q[1] >= q[0], q[1] >= q[2])
            pg, pq = g[1], q[1]
        else:
            ctx.assume(g[0] >= g[1], g[1] >= g[2], q[0] <= q[1], q[1] <= q[2])
            pg, pq = g[0], q[2]
        v.t_min_full = arr(ctx, [ctx.lit(0.0), d / 2, d])
        v.acc_net_g_full, v.q_stag_total_full = arr(ctx, g), arr(ctx, q)
        h1 = (q[0] + q[1]) / 2 * d / 2 * 60  # J/cm2
        hl = h1 + (q[1] + q[2]) / 2 * d / 2 * 60
        v.heatload_full = arr(ctx, [ctx.lit(0.0), h1, hl])
        # everything else a flight leaves behind: full series and the last segment flown
        for s, (lo, hi) in REST.items():
            full = [ctx.real('%s%d.%d' % (s, i, j), lo, hi) for j in range(3)]
            setattr(v, s + '_full', arr(ctx, full))
            setattr(v, s + 'c', arr(ctx, [ctx.real('%s%d.c' % (s, i), lo, hi), full[2]]))
        v.t_minc = arr(ctx, [ctx.lit(0.0), ctx.real('tc%d' % i, 0.001, 0.01)])
        v.acc_net_g = arr(ctx, [ctx.real('gc%d' % i, 0, 50), g[2]])
        v.q_stag_total = arr(ctx, [ctx.real('qc%d' % i, 0, 5e4), q[2]])
        v.heatload = arr(ctx, [ctx.real('jc%d' % i, 0, 5e4), hl])
        r['acc_net_g_max'], r['q_stag_max'], r['heatload_max'] = pg, pq, hl / 1000 if kind in ('2', 'D2') else hl  # the newer solver's campaigns report kJ/cm2
        # the flight leaves the vehicle in its final state
        flights.append(dict(args=a, st=st, prof=p.density_int, LD=v.LD, CL=v.CL, CD=v.CD, beta1=getattr(v, 'beta1', None), out=r))
        v.h0_km, v.gamma0_deg, v.heatLoad0 = ctx.real('fin%d' % i, 0, 100), ctx.real('fing%d' % i, -30, 30), ctx.real('finJ%d' % i, 0, 10)
    name = dict(zip(('', '2', 'D', 'D2', 'D_Earth'), ('propogateGuidedEntry', 'propogateGuidedEntry2', 'propogateGuidedEntryD', 'propogateGuidedEntryD2', 'propogateGuidedEntryD')))[kind]
    for nm in ('propogateGuidedEntry', 'propogateGuidedEntry2', 'propogateGuidedEntryD', 'propogateGuidedEntryD2'):
        setattr(v, nm, fly if nm == name else None)
    main = ctx.scratch() + '/campaign'
    getattr(v, 'runMonteCarlo' + kind)(n, main)
    ctx.check('one flight per run', len(flights) == n)
    ctx.check('one profile per run', len(loads) == n and len(models) == n)
    ctx.check('draws per run', len([1 for a in ints if a[0] == 'f']) == n and len([1 for a in ints if a[0] == 'p']) == n)
    if not (len(flights) == n == len(models) == len(loads)):
        return
    ctx.check('profile numbers drawn from the whole file', all(a == ('p', 1, nmonte) for a in ints if a[0] == 'p'))
    ctx.check('files drawn from the list', all(a[1] == files for a in ints if a[0] == 'f'))
    used = []

    def drawn(label, x, loc, scale):
        """x is one fresh draw with the stated parameters"""
        for j, (l, s, z) in enumerate(normals):
            if j not in used and same(ctx, x, z) and same(ctx, l, loc) and same(ctx, s, scale):
                used.append(j)
                return True
        return False
    hist = {o: [] for o in OUT}
    for i, f in enumerate(flights):
        fi = files[choices[i]]
        prof = [7, 200, 1][i % 3]
        ctx.check('file read', loads[i][0] == fi and tuple(loads[i][1:1 + len(wantcols)]) == wantcols and loads[i][1 + len(wantcols)] is True)
        m = models[i]
        ctx.check('profile built from the file read', m[:5] == tuple('atm%d-%d' % (i + 1, j) for j in range(5)) and m[6] == npos and m[7] == prof)
        ctx.check('flown through that profile', f['prof'] == 'profile%d' % (i + 1))
        for j, s in enumerate(('altitude', 'longitude', 'latitude', 'speed', 'heading', None, 'downrange', 'heat load')):
            if s:
                ctx.eq('starts from the nominal ' + s, f['st'][j], ini[j])
        ctx.check('entry angle dispersed', drawn('efpa', f['st'][5], mu, sd))
        ctx.check('density dispersed', drawn('sigma', m[5], ctx.lit(0.0), fac))
        if drag:
            ctx.check('ballistic coefficient dispersed', drawn('beta', f['beta1'], nom, nsd))
            ctx.eq('steps', list(f['args']), [ts1, ts2, dt, T])
        else:
            ctx.check('lift-to-drag dispersed', drawn('LD', f['LD'], nom, nsd))
            ctx.eq('lift coefficient follows', f['CL'], f['LD'] * f['CD'])
            ctx.eq('steps', list(f['args']), [ts1, dt, T])
        sub = main + '/#%d/' % (i + 1)
        rec = {'profile': ctx.lit(float(prof)), 'efpa': f['st'][5], 'atmSigma': m[5], 'apoapsis_error': f['out']['apoapsis_error']}
        if not drag:
            rec['LD'] = f['LD']
        for o in OUT[:4]:
            rec[o] = f['out'][o]
        for o, want in rec.items():
            got = read(ctx, sub + o + '.txt')
            ctx.check('run record ' + o, got is not None and len(got) == 1)
            if got:
                ctx.eq('run record ' + o, got[0], want)
        got = read(ctx, sub + 'atmfile.txt')
        ctx.check('run record atmfile', got is not None and str(got[0]) == fi)
        for o in OUT:
            hist[o].append(f['out'][o])
    for o in OUT:
        got = read(ctx, main + '/' + o + '_arr.txt')
        ctx.check('campaign record ' + o, got is not None and len(got) == n)
        if got and len(got) == n:
            ctx.eq('campaign record ' + o, got, hist[o])


def same(ctx, a, b):
    if ctx.symbolic:
        from sx.core import lift
        d = lift(a) - lift(b)
        return not d.t
    return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))


for _k in ('', '2', 'D', 'D2', 'D_Earth'):
    harness('V12', 'campaign' + _k, ['Vehicle.runMonteCarlo' + _k, 'Vehicle.setupMonteCarloSimulation' + {'': '', '2': '', 'D': 'D', 'D2': 'D', 'D_Earth': 'D_Earth'}[_k], 'Vehicle.setInitialState'],
            '2-3 runs', max_paths=6000, cost=4)(lambda ctx, k=_k: _mc(ctx, k))
