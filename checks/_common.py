"""Builders shared by the harnesses (work in symbolic and in concrete mode)."""
import functools
import inspect
import types

import numpy as npx

PLANETS = ['VENUS', 'EARTH', 'MARS', 'JUPITER', 'SATURN', 'TITAN', 'URANUS', 'NEPTUNE']


class Interp:
    """An arbitrary interpolated profile: uninterpreted function of altitude."""

    def __init__(self, ctx, name, sign='nonneg'):
        self.ctx, self.name, self.sign = ctx, name, sign

    def __call__(self, h):
        if isinstance(h, (list, tuple)):
            h = npx.array(h, dtype=object if self.ctx.symbolic else float)
        if isinstance(h, npx.ndarray) and h.shape != ():
            vals = [self.ctx.uf(self.name, x, sign=self.sign) for x in h.flat]
            return arr(self.ctx, vals)
        if isinstance(h, npx.ndarray):
            h = h.item()
        a = npx.empty((), dtype=object if self.ctx.symbolic else float)
        a[()] = self.ctx.uf(self.name, h, sign=self.sign)
        return a

    def __deepcopy__(self, memo):
        return self

    def at(self, h):
        return self.ctx.uf(self.name, h, sign=self.sign)


def arr(ctx, vals):
    a = npx.empty(len(vals), dtype=object if ctx.symbolic else float)
    for i, v in enumerate(vals):
        a[i] = v
    return a


def partial(cls):
    """an object of the real class of which the harness sets the attributes the property is about; code that needs
    another attribute is outside the encoding, not wrong (see engine.outside)"""
    o = object.__new__(cls)
    o.__dict__['_verif_partial'] = True
    return o


def pluggable(cls):
    """subclass whose methods may be replaced on an instance by stand-ins that take positional arguments:
    calls are bound to the signature of the real method, whatever mix of keywords the caller uses"""
    if '_verif_plug' in cls.__dict__:
        return cls.__dict__['_verif_plug']

    def __setattr__(self, name, value):
        real = getattr(cls, name, None)
        if isinstance(value, types.FunctionType) and isinstance(real, types.FunctionType):
            value = bind(real, value)
        object.__setattr__(self, name, value)
    sub = type(cls.__name__, (cls,), {'__setattr__': __setattr__, '__module__': cls.__module__})
    cls._verif_plug = sub
    return sub


def bind(real, fn):
    sig = inspect.signature(real)

    @functools.wraps(fn)
    def stand_in(*a, **k):
        if k:
            b = sig.bind(None, *a, **k)
            b.apply_defaults()
            a = b.args[1:]
        return fn(*a)
    stand_in.__signature__ = sig
    return stand_in


def sym_planet(ctx, pid='VENUS', atm=True, consts=True):
    """A Planet whose constants are arbitrary (within generous physical bounds) and
    whose atmosphere is an arbitrary non-negative profile."""
    p = pluggable(ctx.m.planet.Planet)(pid)
    if consts:
        p.GM = ctx.pos('GM', 1e11, 1e18)
        p.RP = ctx.pos('RP', 1e5, 1e9)
        p.OMEGA = ctx.real('OMEGA', -1e-2, 1e-2)
        p.rho0 = ctx.pos('rho0', 1e-4, 1e3)
        p.J2 = ctx.real('J2', -0.1, 0.1)
        p.J3 = ctx.real('J3', -0.1, 0.1)
        p.CPCV = ctx.pos('CPCV', 1.01, 2.0)
        p.Vref = ctx.np.sqrt(p.GM / p.RP)
        p.tau = p.RP / p.Vref
        p.OMEGAbar = p.OMEGA * p.tau
    if atm:
        p.density_int = Interp(ctx, 'rho')
        p.pressure_int = Interp(ctx, 'pres')
        p.temp_int = Interp(ctx, 'temp')
        p.sonic_int = Interp(ctx, 'sonic', 'pos')
    return p


def sym_vehicle(ctx, p, LD=None, **kw):
    return pluggable(ctx.m.vehicle.Vehicle)('V', ctx.pos('mass', 0.1, 1e6), ctx.pos('beta', 0.1, 1e5),
                                 ctx.real('LD', -3, 3) if LD is None else LD, ctx.pos('A', 1e-3, 1e4),
                                 ctx.lit(0.0), ctx.pos('RN', 1e-3, 1e2), p, **kw)
