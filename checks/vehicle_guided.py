from sx.reg import harness, meta
from checks._common import *
from checks.vehicle_orbit import inertial

meta('V11', bounds='up to 3 (quick) or 4 (thorough) guidance cycles per phase, segments of 3 samples, arbitrary segment results, any gains and limits',
     assumptions=['each flown segment is an arbitrary trajectory starting at the commanded initial state (decided by V07)',
                  'apoapsis prediction, measured-density model and bank controller are arbitrary functions here (decided by V08 and V10)'])

SER = ['t_min', 'h_km', 'v_kms', 'phi_deg', 'psi_deg', 'theta_deg', 'gamma_deg', 'drange_km', 'acc_net_g', 'dyn_pres_atm', 'stag_pres_atm', 'q_stag_total', 'heatload']
RANGES = dict(h_km=(20, 200), v_kms=(0.5, 50), phi_deg=(-80, 80), psi_deg=(-400, 400), theta_deg=(-400, 400), gamma_deg=(-60, 60), drange_km=(0, 1e5),
              acc_net_g=(0, 100), dyn_pres_atm=(0, 100), stag_pres_atm=(0, 100), q_stag_total=(0, 1e5), heatload=(0, 1e7), acc_drag_g=(0.001, 100))
INIT = ['h_km', 'theta_deg', 'phi_deg', 'v_kms', 'psi_deg', 'gamma_deg', 'drange_km', 'heatload']


class TooLong(Exception):
    pass


class Sim:
    """stand-in for the propagation of one segment"""

    def __init__(self, ctx, v, which, limit, last=None, first_duration=None):
        self.ctx, self.v, self.limit, self.last, self.which = ctx, v, limit, last, which
        self.log = []

    def __deepcopy__(self, memo):
        return self

    def __call__(self, t_sec, dt, delta_deg):
        ctx, v = self.ctx, self.v
        k = len(self.log)
        if k >= self.limit:
            raise TooLong('phase does not end')
        st = dict(h_km=v.h0_km, theta_deg=v.theta0_deg, phi_deg=v.phi0_deg, v_kms=v.v0_kms, psi_deg=v.psi0_deg, gamma_deg=v.gamma0_deg,
                  drange_km=v.drange0_km, heatload=v.heatLoad0)
        seg = {'t_min': arr(ctx, [ctx.lit(0.0), t_sec / ctx.lit(90.0), t_sec / ctx.lit(60.0)])}
        for s, (lo, hi) in RANGES.items():
            a = st[s] if s in st else ctx.real('%s%d.0' % (s, k), lo, hi)
            b = ctx.real('%s%d.1' % (s, k), lo, hi)
            seg[s] = arr(ctx, [a, ctx.real('%s%d.m' % (s, k), lo, hi), b])
        if self.last:
            self.last(k, seg)
        for s in ('t_min', 'h_km', 'v_kms', 'phi_deg', 'psi_deg', 'theta_deg', 'gamma_deg', 'drange_km'):
            setattr(v, s + 'c', seg[s].copy())
        for s in ('acc_net_g', 'dyn_pres_atm', 'stag_pres_atm', 'q_stag_total', 'heatload', 'acc_drag_g'):
            setattr(v, s, seg[s].copy())
        v.index, v.exitflag = 3, 0.0
        self.log.append(dict(t=t_sec, dt=dt, delta=delta_deg, start=st, seg=seg, beta=v.beta, CD=v.CD))


def setup(ctx, which, cycles, drag):
    p = sym_planet(ctx, 'VENUS', consts=False)
    p.density_int = Interp(ctx, 'rho', 'pos')
    p.h_thres = ctx.lit(1e9)
    p.h_skip = ctx.lit(150000.0)
    v = sym_vehicle(ctx, p, LD=ctx.pos('LD', 0.01, 3))
    if drag:
        v.setDragModulationVehicleParams(ctx.pos('beta1', 1, 1000), ctx.pos('ratio', 1.1, 50))
    v.setTargetOrbitParams(ctx.real('tperi', 10, 1e4), ctx.pos('tapo', 10, 1e6, sample=(300, 3000)), ctx.pos('ttol', 0.1, 100))
    v.apo = lambda *a: ctx.uf('apo', *a)
    v.compute_ApoapsisAltitudeKm = lambda *a: ctx.uf('apo', *a)
    v.compute_PeriapsisAltitudeKm = lambda *a: ctx.uf('peri', *a)
    v.compute_periapsis_raise_DV = lambda *a: ctx.uf('prdv', *a)
    v.compute_apoapsis_raise_DV = lambda *a: ctx.uf('ardv', *a)
    return p, v


def glue(ctx, head, log):
    """expected concatenated series"""
    out = {s: list(head[s]) if head else [] for s in SER}
    for i, l in enumerate(log):
        off = out['t_min'][-1] if out['t_min'] else ctx.lit(0.0)
        for s in SER:
            add = list(l['seg'][s])
            out[s] += [x + off for x in add] if s == 't_min' else add
    return out


def check_segments(ctx, log, head_last, ts, dt, first=None):
    prev = head_last
    for i, l in enumerate(log):
        if prev is not None:
            for s in INIT:
                ctx.eq('segment starts where the last one ended: ' + s, l['start'][s], prev[s])
            ctx.eq('segment duration and step', [l['t'], l['dt']], [ts, dt])
        else:
            ctx.eq('first segment', [l['t'], l['dt'], l['delta']], [ctx.lit(1.0), dt, ctx.lit(0.0)])
            for s, x in zip(INIT, first):
                ctx.eq('first segment starts at the initial state: ' + s, l['start'][s], x)
        prev = {s: l['seg'][s][-1] for s in INIT}
    return prev


KNOTS = [(80.0, 10.5, -30.0), (75.0, 9.0, 30.0), (90.0, 8.0, 0.0), (85.0, 7.5, 30.0), (95.0, 7.0, -20.0)]


def _entry(ctx, which, drag, law=False):
    cycles = 1 if law else 3 if ctx.tier == "quick" else 4
    p, v = setup(ctx, which, cycles, drag)
    vs = ctx.pos('v_switch', 0.6, 40)
    thr = ctx.real('hdot_threshold', -2000, 2000)
    low, npt = ctx.real('lowAlt', 1, 50), 5
    knots = not drag and not law
    if knots:
        # several cycles: the states at the cycle boundaries are fixed, the thresholds they meet are arbitrary
        Gh, Gq = ctx.lit(50.0), ctx.lit(2.0)
        p.density_int = Interp(ctx, 'rho0', 'pos')
        p.h_skip = ctx.pos('h_skip', 60000, 120000)
        rho0 = ctx.choice('rho0', [1e-7, 1e-3, 1e-1])
        p.density = lambda h: ctx.lit(rho0)
    else:
        Gh, Gq = ctx.real('Ghdot', 0, 1000), ctx.real('Gq', 0, 10)
    if drag:
        v.setDragEntryPhaseParams(vs, low, npt, thr)
    else:
        v.setEquilibriumGlideParams(Gh, Gq, vs, low, npt, thr)
    init = [ctx.real('i%d' % i, *RANGES[s]) for i, s in enumerate(INIT)]
    v.setInitialState(*init)

    def last(k, seg):
        if knots:
            for s_, x in zip(('h_km', 'v_kms', 'gamma_deg'), KNOTS[k]):
                seg[s_][-1] = ctx.lit(x)
        if k == cycles:
            ctx.assume(seg['v_kms'][-1] <= vs)     # the last allowed cycle reaches the switch speed
    sim = Sim(ctx, v, which, cycles + 1, last)
    v.propogateEntry = v.propogateEntry2 = None
    setattr(v, 'propogateEntry' + which, sim)
    pred, dens, ctl = [], [], []

    def predict(*a):
        pred.append((len(sim.log), a))
        return ctx.uf('pred', *a[:11])
    for nm in ('withLiftUp', 'withLiftUp2') if not drag else ('afterJettision', 'afterJettision2'):
        setattr(v, 'predictApoapsisAltitudeKm_' + nm, predict)
    MODEL = object()

    def mkdens(h, d, lowalt, n):
        dens.append((len(sim.log), list(h), list(d), lowalt, n))
        return MODEL, ctx.lit(0.0)
    v.createDensityMeasuredFunction = mkdens

    def control(cmd, ini, step):
        b = ctx.uf('bank', cmd, ini, step)
        ctl.append((cmd, ini, step, b))
        return b, b
    v.psuedoController = control
    ts, dt, T = ctx.pos('timeStep', 0.1, 100), ctx.pos('dt', 0.001, 0.1), ctx.pos('maxT', 10, 1e5)
    name = ('propogateEntryPhaseD' if drag else 'propogateEquilibriumGlide') + which
    try:
        getattr(v, name)(ts, dt, T)
    except TooLong:
        ctx.check('phase ends at the switch speed', False)
        return
    log = sim.log
    n = len(log) - 1        # guidance cycles
    check_segments(ctx, log, None, ts, dt, init)
    suf = '_en' if drag else '_eg'
    want = glue(ctx, None, log)
    for s in SER:
        ctx.eq('history ' + s, list(getattr(v, s + suf)), want[s])
    np = ctx.np
    g0 = p.GM / p.RP ** 2
    steps_h, steps_d = [ctx.lit(0.0)], [ctx.lit(0.0)]
    steps_t, steps_v, steps_q, steps_qref = [ctx.lit(0.0)], [ctx.lit(0.0)], [], []
    clock = log[0]['seg']['t_min'][-1]
    bank = ctx.lit(0.0)
    ended = None
    npred = 0
    seen_model = False
    for k in range(n):
        l = log[k + 1]
        h, V, gam = l['start']['h_km'] * 1000, l['start']['v_kms'] * 1000, l['start']['gamma_deg'] * np.pi / 180
        r = h + p.RP
        q = (p.density(h) if knots else p.density_int.at(h)) * V ** 2 / 2
        hdot = V * np.sin(gam)
        if drag:
            ctx.eq('no bank command', l['delta'], ctx.lit(0.0))
            ctx.eq('pre-jettison coefficient', [l['beta'], l['CD'] * v.A * v.beta1], [v.beta1, v.mass])
        else:
            ctx.check('controller used every cycle', len(ctl) == n)
            if len(ctl) != n:
                return
            qref = -v.mass * g0 / (ctx.lit(0.75) * v.CL * v.A) * (1 - V ** 2 / (g0 * r))
            steps_qref.append(qref)
            c = v.mass * g0 / (v.CL * q * v.A) * (1 - V ** 2 / (g0 * r)) - Gh * hdot / q + Gq * (q - qref) / q
            cmd = ctl[k][0]
            near = lambda a, b: ctx.And(a - b <= 1e-7, b - a <= 1e-7)
            ctx.check('guidance command', ctx.Or(ctx.And(c >= 1 - 1e-9, near(cmd, ctx.lit(0.0))), ctx.And(c <= -1 + 1e-9, near(cmd, ctx.lit(180.0))),
                                                 ctx.And(c >= -1, c <= 1, near(np.cos(cmd * np.pi / 180), c), cmd >= 0, cmd <= 180.000001)))
            ctx.eq('controller starts from the current bank', [ctl[k][1], ctl[k][2]], [bank, ts])
            bank = ctl[k][3]
            ctx.eq('flown bank is the controller output', l['delta'], bank)
        steps_h.append(l['start']['h_km'])
        steps_t.append(clock)
        steps_v.append(hdot)
        steps_q.append(q)
        clock = clock + l['seg']['t_min'][-1]
        vm = (V + l['seg']['v_kms'][-1] * 1000) / 2
        steps_d.append(2 * v.mass * l['seg']['acc_drag_g'][-1] * p.EARTHG / (l['CD'] * v.A * vm ** 2))
        predicted = npred < len(pred) and pred[npred][0] == k + 2
        ctx.check('predicts when the climb rate exceeds the threshold', hdot > thr if predicted else hdot <= thr)
        conds = []
        if predicted:
            if not seen_model:
                seen_model = True
                ctx.check('density model built once, when prediction starts', len(dens) == 1 and dens[0][0] == k + 2)
                ctx.eq('density model altitudes', dens[0][1], steps_h)
                ctx.eq('density model values', dens[0][2], steps_d)
                ctx.eq('density model extent', [dens[0][3], ctx.lit(float(dens[0][4]))], [low, ctx.lit(float(npt))])
            a = pred[npred][1]
            npred += 1
            e = {s: l['seg'][s][-1] for s in INIT}
            ctx.eq('prediction starts at the current state', list(a[:11]), [e['h_km'], e['theta_deg'], e['phi_deg'], e['v_kms'], e['gamma_deg'], e['psi_deg'],
                                                                         e['drange_km'], e['heatload'], T, dt, ctx.lit(0.0)])
            ctx.check('prediction uses the measured model', a[11] is MODEL)
            z = ctx.uf('pred', *a[:11])
            conds.append(ctx.And(z > 0, z < v.target_apo_km))
        else:
            z = ctx.lit(0.0)
        conds.append(ctx.And(z - v.target_apo_km < v.target_apo_km_tol, v.target_apo_km - z < v.target_apo_km_tol))
        margin = 1 if drag else 2
        conds.append(l['seg']['h_km'][-1] > p.h_skip / 1000 - margin)
        conds.append(l['seg']['v_kms'][-1] <= vs)
        stop = ctx.Or(*conds)
        if k < n - 1:
            ctx.check('continues while no end condition holds', ctx.Not(stop))
        else:
            ctx.check('ends on an end condition', stop)
    ctx.check('no extra predictions', npred == len(pred))
    if n == 0:
        ctx.check('skips when already slow', log[0]['seg']['v_kms'][-1] <= vs)
    ctx.eq('step history', list(v.h_step_array), steps_h)
    ctx.eq('density history', list(v.density_mes_array), steps_d)
    ctx.eq('bank history', list(v.delta_deg_array), [ctx.lit(0.0)] + [l['delta'] for l in log[1:]])
    ctx.eq('dynamic pressure history', list(v.q_array)[1:], steps_q)
    ctx.eq('load history', list(v.acc_step_array), [ctx.lit(0.0)] + [l['seg']['acc_net_g'][-1] for l in log[1:]])
    ctx.eq('drag history', list(v.acc_drag_array), [ctx.lit(0.0)] + [l['seg']['acc_drag_g'][-1] for l in log[1:]])
    if not drag:
        ctx.eq('reference dynamic pressure history', list(v.qref_array)[1:], steps_qref)
    rates(ctx, v, steps_t, steps_v)


for _w in ('', '2'):
    for _d in (False, True):
        _nm = ('propogateEntryPhaseD' if _d else 'propogateEquilibriumGlide') + _w
        harness('V11', _nm, ['Vehicle.' + _nm], 'up to 3 (quick) / 4 (thorough) guidance cycles', max_paths=6000, cost=6)(lambda ctx, w=_w, d=_d: _entry(ctx, w, d))
        if not _d:
            harness('V11', _nm + ' law', ['Vehicle.' + _nm], 'one guidance cycle, every state, gain and density free', max_paths=6000, cost=6)(
                lambda ctx, w=_w: _entry(ctx, w, False, True))


def rates(ctx, v, t, hd, old=1):
    """histories of the guidance steps: times, altitude rates and the accelerations that follow from them"""
    ctx.eq('step times', list(v.t_step_array), t)
    ctx.eq('altitude rates', list(v.hdot_array), hd)
    a = list(v.hddot_array)
    ctx.check('one altitude acceleration per step', len(a) == len(t))
    if len(a) == len(t):
        for k in range(old, len(t)):
            ctx.eq('altitude acceleration', a[k] * (t[k] - t[k - 1]) * 60, hd[k] - hd[k - 1], atol=1e-9)


def _exit(ctx, which, drag):
    cycles = 3 if ctx.tier == "quick" else 4
    p, v = setup(ctx, which, cycles, drag)
    suf = '_en' if drag else '_eg'
    head = {}
    for s in SER:
        b = RANGES.get(s, (0, 100))
        head[s] = [ctx.real('head_%s%d' % (s, i), *b) for i in range(3)]
        setattr(v, s + suf, arr(ctx, head[s]))
    ctx.assume(head['t_min'][1] >= head['t_min'][0] + 0.01, head['t_min'][2] >= head['t_min'][1] + 0.01)
    bank0 = ctx.real('bank0', -180, 180)
    v.delta_deg_array = arr(ctx, [ctx.lit(0.0), bank0])
    hdot0 = ctx.real('hdot0', -1000, 1000)
    v.hdot_array = arr(ctx, [ctx.lit(0.0), hdot0])
    v.hdotref_array = arr(ctx, [ctx.lit(0.0), ctx.lit(0.0)])
    v.hddot_array = arr(ctx, [ctx.lit(0.0), ctx.lit(0.0)])
    v.t_step_array = arr(ctx, [ctx.lit(0.0), head['t_min'][0] - 1])
    # the last segment flown before this phase
    for s in ('h_km', 'v_kms', 'phi_deg', 'psi_deg', 'theta_deg', 'gamma_deg', 'drange_km'):
        setattr(v, s + 'c', arr(ctx, [ctx.real('seg_' + s, *RANGES[s]), head[s][-1]]))
    v.t_minc = arr(ctx, [ctx.lit(0.0), ctx.real('seg_t', 0.001, 0.01)])
    for s in ('acc_net_g', 'dyn_pres_atm', 'stag_pres_atm', 'q_stag_total', 'heatload'):
        setattr(v, s, arr(ctx, [ctx.real('seg_' + s, *RANGES[s]), head[s][-1]]))
    v.acc_drag_g = arr(ctx, [ctx.real('seg_drag', 0, 100), ctx.real('seg_drag1', 0, 100)])

    def last(k, seg):
        if k == cycles - 1:
            ctx.assume(seg['h_km'][-1] >= 150)
    sim = Sim(ctx, v, which, cycles, last)
    v.propogateEntry = v.propogateEntry2 = None
    setattr(v, 'propogateEntry' + which, sim)
    ctl = []

    def control(cmd, ini, step):
        b = ctx.uf('bank', cmd, ini, step)
        ctl.append((cmd, ini, step, b))
        return b, b
    v.psuedoController = control
    ts, dt, T = ctx.pos('timeStep', 0.1, 100), ctx.pos('dt', 0.001, 0.1), ctx.pos('maxT', 10, 1e5)
    try:
        getattr(v, ('propogateExitPhaseD' if drag else 'propogateExitPhase') + which)(ts, dt, T)
    except TooLong:
        ctx.check('phase ends at atmospheric exit', False)
        return
    log = sim.log
    n = len(log)
    hl = {s: head[s][-1] for s in INIT}
    check_segments(ctx, log, hl, ts, dt)
    want = glue(ctx, head, log)
    for s in SER:
        ctx.eq('history ' + s, list(getattr(v, s + '_full')), want[s])
        ctx.eq('earlier phase untouched ' + s, list(getattr(v, s + suf)), head[s])
    bank = bank0
    steps_t, steps_v = [ctx.lit(0.0), head['t_min'][0] - 1], [ctx.lit(0.0), hdot0]
    clock = head['t_min'][-1]
    for k, l in enumerate(log):
        steps_t.append(clock)
        steps_v.append(l['start']['v_kms'] * 1000 * ctx.np.sin(l['start']['gamma_deg'] * ctx.np.pi / 180))
        clock = clock + l['seg']['t_min'][-1]
        if drag:
            ctx.eq('no bank command', l['delta'], ctx.lit(0.0))
            ctx.eq('post-jettison coefficient', [l['beta'], l['CD'] * v.A * v.beta1 * v.betaRatio], [v.beta1 * v.betaRatio, v.mass])
        else:
            ctx.check('controller used every cycle', len(ctl) == n)
            ctx.eq('full lift up through the controller', list(ctl[k][:3]), [ctx.lit(0.0), bank, ts])
            bank = ctl[k][3]
            ctx.eq('flown bank is the controller output', l['delta'], bank)
        hi, he = l['start']['h_km'], l['seg']['h_km'][-1]
        conds = [he >= p.h_skip / 1000, hi > p.h_skip / 1000 - (1 if drag else 10)]
        if drag:
            conds.append(hi < 20)
        stop = ctx.Or(*conds)
        if k < n - 1:
            ctx.check('continues inside the atmosphere', ctx.Not(stop))
        else:
            ctx.check('ends on an end condition', stop)
    rates(ctx, v, steps_t, steps_v, 2)
    if n == 0:
        ctx.check('skips when already out', head['h_km'][-1] >= p.h_skip / 1000)
    e = {s: want[s][-1] for s in SER}
    d2r = ctx.np.pi / 180
    st = (p.RP + e['h_km'] * 1000, e['v_kms'] * 1000, e['gamma_deg'] * d2r, e['theta_deg'] * d2r, e['phi_deg'] * d2r, e['psi_deg'] * d2r)
    ap, pe = ctx.uf('apo', *st), ctx.uf('peri', *st)
    ctx.eq('final apoapsis', v.terminal_apoapsis, ap)
    ctx.eq('final periapsis', v.terminal_periapsis, pe)
    ctx.eq('apoapsis error', v.apoapsis_perc_error * v.target_apo_km, (ap - v.target_apo_km) * 100, atol=1e-9)
    ctx.eq('periapsis raise', v.periapsis_raise_DV, ctx.uf('prdv', pe, ap, v.target_peri_km))
    ctx.eq('apoapsis correction', v.apoapsis_raise_DV, ctx.uf('ardv', v.target_peri_km, ap, v.target_apo_km))
    ctx.eq('switch state', [v.t_switch, v.h_switch, v.v_switch, v.p_switch], [head['t_min'][-1], head['h_km'][-1], head['v_kms'][-1], bank0])


for _w in ('', '2'):
    for _d in (False, True):
        _nm = ('propogateExitPhaseD' if _d else 'propogateExitPhase') + _w
        harness('V11', _nm, ['Vehicle.' + _nm], 'up to 3 (quick) / 4 (thorough) cycles', max_paths=6000, cost=6)(lambda ctx, w=_w, d=_d: _exit(ctx, w, d))


@harness('V11', 'sequencing', ['Vehicle.propogateGuidedEntry', 'Vehicle.propogateGuidedEntry2', 'Vehicle.propogateGuidedEntryD', 'Vehicle.propogateGuidedEntryD2'], 'any steps')
def _(ctx):
    p, v = setup(ctx, '', 1, False)
    w, drag = ctx.choice('which', [('', False), ('2', False), ('', True), ('2', True)])
    log = []
    for nm in ('propogateEquilibriumGlide', 'propogateExitPhase', 'propogateEntryPhaseD', 'propogateExitPhaseD'):
        for s in ('', '2'):
            setattr(v, nm + s, lambda *a, nm=nm + s: log.append((nm,) + a))
    a, b, dt, T = ctx.pos('a', 0.1, 10), ctx.pos('b', 0.1, 10), ctx.pos('dt', 0.01, 1), ctx.pos('T', 1, 1e5)
    if drag:
        getattr(v, 'propogateGuidedEntryD' + w)(a, b, dt, T)
        names, steps = ['propogateEntryPhaseD' + w, 'propogateExitPhaseD' + w], [a, b]
    else:
        getattr(v, 'propogateGuidedEntry' + w)(a, dt, T)
        names, steps = ['propogateEquilibriumGlide' + w, 'propogateExitPhase' + w], [a, a]
    ctx.check('entry then exit', [l[0] for l in log] == names)
    for l, s in zip(log, steps):
        ctx.eq('steps', list(l[1:]), [s, dt, T])


@harness('V11', 'dummy-vehicle', ['Vehicle.dummyVehicle'], 'any vehicle')
def _(ctx):
    p = sym_planet(ctx, 'VENUS')
    v = sym_vehicle(ctx, p)
    mes = Interp(ctx, 'measured')
    w = v.dummyVehicle(mes)
    ctx.check('distinct vehicle and planet', w is not v and w.planetObj is not v.planetObj)
    ctx.check('copy uses the given profile', w.planetObj.density_int is mes)
    ctx.check('original keeps its own', v.planetObj is p and p.density_int.name == 'rho')
    for o, c in ((v, w), (v.planetObj, w.planetObj)):
        for k, x in vars(o).items():
            if k in ('density_int', 'planetObj', 'vehicleCopy') or callable(x) or x is None or isinstance(x, str):
                continue
            y = getattr(c, k)
            if hasattr(x, '__len__'):
                continue
            ctx.eq('copied ' + k, y, x)
    w.mass = ctx.lit(1.0)
    w.planetObj.RP = ctx.lit(1.0)
    ctx.check('independent', v.mass is not w.mass and v.planetObj.RP is not w.planetObj.RP)
