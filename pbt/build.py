"""Builds the objects of the code under test from a case, and reads them back safely."""
import math
import warnings
import zlib
import numpy as np
from astropy import units as u

from pbt.core import Violation
from pbt import ref

from vspec_vsm import (Star, SpotCollection, StarSpot, SpotGenerator, FaculaCollection, Facula,
                       FaculaGenerator, StellarFlare, FlareCollection, FlareGenerator, Granulation,
                       CoordinateGrid, MSH)

_UNIT = {
    'deg': u.deg, 'rad': u.rad, 'arcmin': u.arcmin, 'hourangle': u.hourangle,
    's': u.s, 'min': u.min, 'h': u.hr, 'd': u.day, 'wk': u.wk, 'yr': u.yr, 'Myr': u.Myr, 'ms': u.ms,
    'm': u.m, 'km': u.km, 'R_sun': u.R_sun, 'R_earth': u.R_earth, 'R_jup': u.R_jup, 'AU': u.AU, 'pc': u.pc, 'mm': u.mm,
    'msh': MSH, 'km2': u.km**2, 'm2': u.m**2, 'R_sun2': u.R_sun**2, 'R_earth2': u.R_earth**2, 'AU2': u.AU**2, 'cm2': u.cm**2,
    'K': u.K, '1/d': 1/u.day, '1/h': 1/u.hr, '1/s': 1/u.s, '1/yr': 1/u.yr, '1/ms': 1/u.ms,
    'msh/d': MSH/u.day, 'msh/h': MSH/u.hr, 'km2/d': u.km**2/u.day, 'km2/s': u.km**2/u.s,
    'R_sun2/yr': u.R_sun**2/u.yr, 'R_sun2/s': u.R_sun**2/u.s, 'AU2/d': u.AU**2/u.day,
    'erg': u.erg, 'J': u.J, 'kJ': u.kJ, 'foe': u.Unit(1e51*u.erg),
    'K/km': u.K/u.km, 'K/m': u.K/u.m, 'K/R_earth': u.K/u.R_earth, 'K/AU': u.K/u.AU, '': u.dimensionless_unscaled,
}


def Q(q):
    """Case quantity -> astropy Quantity."""
    return q[0]*_UNIT[q[1]]


def grid_params(g):
    return (int(g['nlat']), int(g['nlon'])) if g['kind'] == 'rect' else int(g['n'])


def grid_shape(g):
    return (g['nlon'], g['nlat']) if g['kind'] == 'rect' else (g['n'],)


def make_grid(g):
    return CoordinateGrid.new(grid_params(g))


def make_spot(s, gridmaker=None, grid=None):
    kw = {}
    if gridmaker is not None:
        kw['gridmaker'] = gridmaker
    else:
        kw['grid_params'] = grid_params(grid) if grid is not None else 8
    return StarSpot(Q(s['lat']), Q(s['lon']), Q(s['area_max']), Q(s['area']), Q(s['tu']), Q(s['tp']),
                    area_over_umbra_area=s['ratio'], is_growing=s['growing'],
                    growth_rate=Q(s['growth']), decay_rate=Q(s['decay']), **kw)


def make_facula(f, gridmaker=None, grid=None):
    kw = {}
    if gridmaker is not None:
        kw['gridmaker'] = gridmaker
    else:
        kw['grid_params'] = grid_params(grid) if grid is not None else 8
    return Facula(lat=Q(f['lat']), lon=Q(f['lon']), r_max=Q(f['r_max']), r_init=Q(f['r']),
                  depth=Q(f['depth']), lifetime=Q(f['life']), floor_teff_slope=Q(f['floor_slope']),
                  floor_teff_min_rad=Q(f['floor_min_rad']), floor_teff_base_dteff=Q(f['floor_base']),
                  wall_teff_slope=Q(f['wall_slope']), wall_teff_intercept=Q(f['wall_icpt']),
                  growing=f['growing'], **kw)


def make_granulation(g):
    if g is None:
        return None
    return Granulation(mean_coverage=g['mean'], amplitude=g['amp'], period=Q(g['period']),
                       dteff=Q(g['dteff']), seed=g['seed'])


def make_star(c, spots=None, faculae=None, rng=None, **kw):
    gp = grid_params(c['grid'])
    if spots is None:
        spots = SpotCollection(*[make_spot(s) for s in c.get('spots', [])], grid_params=gp)
    if faculae is None:
        faculae = FaculaCollection(*[make_facula(f) for f in c.get('faculae', [])], grid_params=gp)
    star = Star(teff=Q(c['teff']), radius=Q(c['radius']), period=Q(c['period']), spots=spots,
                faculae=faculae, grid_params=gp, granulation=make_granulation(c.get('gran')),
                u1=c['limb'][0], u2=c['limb'][1],
                rng=rng if rng is not None else np.random.default_rng(0), **kw)
    if zlib.crc32(repr((c['radius'], c['grid'], c.get('obs'))).encode()) % 2 and np.prod(grid_shape(c['grid'])) <= 2000:
        asked_before(star, c)
    return star


def asked_before(star, c):
    """Half of the stars have answered other questions before the one that is judged."""
    o = c.get('obs') or {'lat': [0.2, 'rad'], 'lon': [1., 'rad']}
    a = {'lat': 0.9*Q(o['lat']), 'lon': Q(o['lon'])+35*u.deg}
    kw = dict(orbit_radius=6*star.radius, phase=182*u.deg, inclination=89*u.deg)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for call in (lambda: star.map, lambda: star.calc_coverage(a, granulation_fraction=0.2, planet_radius=0.3*star.radius, **kw),
                     lambda: star.add_faculae_to_map(a['lat'], Q(o['lon'])), lambda: star.get_transit_mask(Q(o['lat']), a['lon'], radius=0.1*star.radius, **kw),
                     lambda: star.average_teff(a)):
            try:
                call()
            except Exception:       # judged where it is the question
                pass


def obs_dict(o):
    return {'lat': Q(o['lat']), 'lon': Q(o['lon'])}


def planet_kw(p):
    return dict(orbit_radius=Q(p['orbit']), planet_radius=Q(p['radius']), phase=Q(p['phase']),
                inclination=Q(p['inc']))


def transit_kw(p):
    return dict(orbit_radius=Q(p['orbit']), radius=Q(p['radius']), phase=Q(p['phase']),
                inclination=Q(p['inc']))


# --- reading outputs ------------------------------------------------------------

def num(q, unit=None, what='value', shape=None):
    """Float or float array from an output; anything else is a Violation."""
    try:
        if unit is not None:
            v = q.to_value(unit) if isinstance(q, u.Quantity) else u.Quantity(q).to_value(unit)
        elif isinstance(q, u.Quantity):
            v = q.to_value(u.dimensionless_unscaled)
        else:
            v = q
        a = np.asarray(v, dtype=float)
    except Exception as e:  # wrong type or unit
        raise Violation(f'{what}: {q!r} is not a number in the expected unit ({type(e).__name__}: {e})')
    if shape is not None and a.shape != tuple(shape):
        raise Violation(f'{what}: shape {a.shape}, expected {tuple(shape)}')
    return a if a.ndim else float(a)


def finite(q, unit=None, what='value', shape=None):
    v = num(q, unit, what, shape)
    if not np.all(np.isfinite(v)):
        raise Violation(f'{what}: not finite: {np.asarray(v).ravel()[~np.isfinite(np.asarray(v).ravel())][:3]}')
    return v


def seq(x, what='sequence'):
    try:
        return list(x)
    except TypeError:
        raise Violation(f'{what}: {type(x).__name__} is not a sequence')


def close(a, b, rtol=1e-9, atol=0.):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return bool(np.all(np.abs(a-b) <= atol + rtol*np.abs(b)))


def grid_arrays(gridmaker, g):
    """lat, lon (rad) and area arrays of the code's own grid."""
    out = gridmaker.grid()
    lat = finite(out[0], u.rad, 'grid latitude', grid_shape(g))
    lon = finite(out[1], u.rad, 'grid longitude', grid_shape(g))
    return lat, lon


def coverage_dict(d, what='coverage'):
    """{key: fraction} -> list of (temperature K, fraction)"""
    if not isinstance(d, dict):
        raise Violation(f'{what}: {type(d).__name__}, expected a dict')
    out = []
    for k, v in d.items():
        try:
            t = float(u.Quantity(k).to_value(u.K))
        except Exception as e:
            raise Violation(f'{what}: key {k!r} is not a temperature ({e})')
        out.append((t, finite(v, None, f'{what}[{k}]')))
    if len({round(t, 4) for t, _ in out}) != len(out):
        raise Violation(f'{what}: the same temperature appears under two keys: {sorted(d)}')
    return out


def spot_ref(s):
    return dict(lat=ref.val(s['lat']), lon=ref.val(s['lon']), area=ref.val(s['area']), tu=s['tu'][0],
                tp=s['tp'][0], ratio=s['ratio'])


def ref_map(c, lat, lon, with_obs=True, spots=None, facs=None):
    """Reference surface map of a scene at its observer, with the ambiguous pixels."""
    rs, teff = ref.val(c['radius']), c['teff'][0]
    tmap, amb = ref.paint_spots(spots if spots is not None else [spot_ref(s) for s in c.get('spots', [])],
                                rs, teff, lat, lon)
    if not with_obs:
        return tmap, amb
    lat0, lon0 = ref.val(c['obs']['lat']), ref.val(c['obs']['lon'])
    mu = ref.cos_from_center(lat0, lon0, lat, lon)
    facs = facs if facs is not None else [ref.FaculaRef(f) for f in c.get('faculae', [])]
    return ref.paint_faculae(tmap, amb, facs, rs, teff, lat0, lon0, lat, lon, mu)


def clash(star):
    """A facula of the star has (nearly) one temperature for wall and floor: the code documents that it refuses that."""
    return any(abs(finite(f.wall_dteff, u.K)-finite(f.floor_dteff, u.K)) <= 1+1e-6 for f in seq(star.faculae.faculae))
