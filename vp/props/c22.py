"""C22: fluid properties."""
import warnings

import numpy as np

from vp import gen

RULE = ('All names (long, short, any case) over concentrations and temperatures inside the admissible range, at and '
        'beyond its limits, int and float arguments; every attribute and accessor is compared with property objects '
        'built directly with the data source, water also with reference values. Distinct by (name, spelling, inside or '
        'which limit, number type).')
ORACLES = ['source', 'derived', 'accessor', 'name', 'physical', 'water', 'warned', 'quiet', 'unknown', 'default',
           'distinct', 'independent-objects', 'table']
ASSUMPTIONS = ['the SecondaryCoolantProps package is the documented source of the correlations',
               'the source holds requests outside the range of its correlations at the nearest limit, with a warning']
CASE_LIMIT = 120
NAMES = {'WATER': 'Water', 'PROPYLENEGLYCOL': 'PropyleneGlycol', 'MPG': 'PropyleneGlycol',
         'ETHYLENEGLYCOL': 'EthyleneGlycol', 'MEG': 'EthyleneGlycol', 'METHYLALCOHOL': 'MethylAlcohol',
         'MMA': 'MethylAlcohol', 'ETHYLALCOHOL': 'EthylAlcohol', 'MEA': 'EthylAlcohol'}
FIELDS = ('rho', 'mu', 'cp', 'k')
# water at atmospheric pressure (IAPWS): T, rho, mu, cp, k
WATER = [(5., 999.97, 1.5182e-3, 4205., 0.5705), (20., 998.21, 1.0016e-3, 4184., 0.5984), (40., 992.22, 0.6530e-3, 4179., 0.6306),
         (80., 971.79, 0.3544e-3, 4197., 0.6700)]


def cases(r, tier):
    n = 60 if tier == 'quick' else 2500
    out = [dict(kind='value', name=k, i=i) for k in NAMES for i in range(n)]
    out += [dict(kind='limit', name=k, i=i) for k in NAMES for i in range(max(4, n // 6))]
    out += [dict(kind='water', i=i) for i in range(len(WATER))]
    out += [dict(kind='unknown', i=i) for i in range(n)]
    out += [dict(kind='distinct', i=i) for i in range(n // 4)]
    return out


def spelled(r, name):
    u = r.random()
    if u < 0.3:
        return name
    if u < 0.6:
        return name.lower()
    return ''.join(c.upper() if r.random() < 0.5 else c.lower() for c in name)


def source(name, percent):
    import scp.ethyl_alcohol, scp.ethylene_glycol, scp.methyl_alcohol, scp.propylene_glycol, scp.water
    k = NAMES[name]
    if k == 'Water':
        return scp.water.Water()
    cls = {'PropyleneGlycol': scp.propylene_glycol.PropyleneGlycol, 'EthyleneGlycol': scp.ethylene_glycol.EthyleneGlycol,
           'MethylAlcohol': scp.methyl_alcohol.MethylAlcohol, 'EthylAlcohol': scp.ethyl_alcohol.EthylAlcohol}[k]
    return cls(percent / 100)


def values(s, T):
    return dict(rho=s.density(T), mu=s.viscosity(T), cp=s.specific_heat(T), k=s.conductivity(T))


def compare(mon, f, name, info):
    s = source(name, info['percent'])
    want = values(s, info['T'])
    for q in FIELDS:
        mon.close('source', getattr(f, q), want[q], rtol=1e-12, quantity=q, **info)
    mon.close('derived', f.nu, want['mu'] / want['rho'], rtol=1e-12, **info)
    mon.close('derived', f.rhoCp, want['rho'] * want['cp'], rtol=1e-12, **info)
    mon.close('derived', f.Pr, want['cp'] * want['mu'] / want['k'], rtol=1e-12, **info)
    for a, m in (('rho', 'density'), ('mu', 'dynamic_viscosity'), ('nu', 'kinematic_viscosity'),
                 ('cp', 'specific_heat_capacity'), ('rhoCp', 'volumetric_heat_capacity'), ('k', 'thermal_conductivity'),
                 ('Pr', 'Prandlt_number')):
        mon.close('accessor', getattr(f, m)(), getattr(f, a), rtol=1e-14, accessor=m, **info)
    mon.check('name', str(f.name) == s.fluid_name, name=f.name, **info)


def run(case, mon):
    from pygfunction.media import Fluid
    r = gen.rng(case)
    kind = case['kind']
    if kind == 'unknown':
        bad = gen.pick(r, ['', 'air', 'wat', 'waterr', 'MP', 'MPGG', 'glycol', 'R134a', 'M PG', 'propylene glycol', 'EG', 'PG', ' water'])
        mon.state('unknown', bad)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mon.raises('unknown', lambda: Fluid(bad, 20., 20.), fluid=bad)
        return
    if kind == 'water':
        T, rho, mu, cp, k = WATER[case['i']]
        f = Fluid('Water', 0., T)
        mon.state('water', T)
        mon.close('water', f.rho, rho, rtol=2e-3)
        mon.close('water', f.mu, mu, rtol=3e-2)
        mon.close('water', f.cp, cp, rtol=1e-2)
        mon.close('water', f.k, k, rtol=3e-2)
        return
    if kind == 'distinct':
        x, T = float(r.uniform(10., 40.)), float(r.uniform(5., 35.))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            d = {k: Fluid(spelled(r, k), x, T) for k in NAMES}
        mon.state('distinct', int(x // 10))
        for a in NAMES:
            for b in NAMES:
                same = NAMES[a] == NAMES[b]
                eq = d[a].rho == d[b].rho and d[a].k == d[b].k and d[a].mu == d[b].mu
                mon.check('distinct', same == eq, a=a, b=b, x=x, T=T)
        return
    name = case['name']
    lim = source(name, 20.)
    xmin, xmax = (0., 60.) if NAMES[name] == 'Water' else (100 * lim.x_min, 100 * lim.x_max)
    sp = spelled(r, name)
    if kind == 'value':
        x = float(r.uniform(xmin, xmax))
        if r.random() < 0.3:
            x = int(np.ceil(x)) if np.ceil(x) <= xmax else x
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            s = source(name, x)
        T = float(r.uniform(max(s.t_min, -30.) + 1e-6, s.t_max))
        if r.random() < 0.2:
            T = int(np.floor(T)) if np.floor(T) >= s.t_min else T
        info = dict(fluid=sp, percent=x, T=T)
        mon.state(name, sp == name, type(x).__name__, type(T).__name__, int(x // 15))
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            f = Fluid(sp, x, T)
        w = [str(v.message) for v in w if issubclass(v.category, UserWarning)]
        mon.check('quiet', not w, warnings=w[:2], **info)
        compare(mon, f, name, info)
        mon.check('physical', 700. < f.rho < 1300. and 1e-4 < f.mu < 1. and 1500. < f.cp < 5500. and 0.1 < f.k < 0.8
                  and 1. < f.Pr < 5000., rho=f.rho, mu=f.mu, cp=f.cp, k=f.k, Pr=f.Pr, **info)
        # another object does not change this one
        before = [getattr(f, q) for q in FIELDS]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            Fluid(gen.pick(r, sorted(NAMES)), 10., 30.)
        mon.check('independent-objects', before == [getattr(f, q) for q in FIELDS]
                  and before == [f.density(), f.dynamic_viscosity(), f.specific_heat_capacity(), f.thermal_conductivity()], **info)
        if s.t_min <= 20. <= s.t_max:
            g = Fluid(sp, x)
            want = values(s, 20.)
            mon.close('default', [getattr(g, q) for q in FIELDS], [want[q] for q in FIELDS], rtol=1e-9, scale=1., **info)
        d = {}
        f.append_to_dict(d)
        f.append_to_dict(d)
        for q in ('rho', 'mu', 'nu', 'cp', 'rhoCp', 'k', 'Pr', 'T_C'):
            v = float(getattr(f, q))
            mon.check('table', len(d.get(q, [])) == 2 and all(abs(float(t) - v) <= 1e-5 * abs(v) for t in d[q]), q=q, d=d.get(q), **info)
        return
    # limits of the correlations
    what = gen.pick(r, ['T_low', 'T_high', 'x_low', 'x_high'] if NAMES[name] != 'Water' else ['T_low', 'T_high'])
    x, over = 20., float(10**r.uniform(-2, 1))
    if what == 'x_low':
        x = xmin - over
    elif what == 'x_high':
        x = xmax + over
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s = source(name, x)
    T = 20. if what[0] == 'x' else s.t_min - over if what == 'T_low' else s.t_max + over
    mon.state('limit', name, what)
    info = dict(fluid=sp, percent=x, T=T)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            f = Fluid(sp, x, T)
        except ValueError:
            f = None            # refused: as good
    mon.check('warned', f is None or any(issubclass(v.category, UserWarning) for v in w), **info)
    if f is not None:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            compare(mon, f, name, info)
