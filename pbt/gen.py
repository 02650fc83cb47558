"""Hypothesis strategies producing JSON-able cases (see build.py for the objects)."""
import math
from hypothesis import strategies as st
from pbt.ref import UNITS, R_SUN, MSH

ANGLE = ['deg', 'deg', 'rad', 'arcmin', 'hourangle']
TIME = ['d', 'h', 's', 'min', 'wk', 'yr', 'd', 'h', 'Myr', 'ms']
LENGTH = ['km', 'R_sun', 'm', 'R_earth', 'AU', 'km', 'pc', 'mm']
AREA = ['msh', 'km2', 'R_sun2', 'm2', 'msh', 'AU2', 'cm2']
RATE = ['1/d', '1/h', '1/s', '1/yr', '1/d', '1/ms']
ARATE = ['msh/d', 'km2/d', 'R_sun2/yr', 'msh/h', 'km2/s', 'msh/d', 'R_sun2/s', 'AU2/d']
ENERGY = ['erg', 'J', 'kJ', 'foe']
SLOPE = ['K/km', 'K/m', 'K/R_earth', 'K/AU']


def fl(lo, hi):
    """Floats, without the magnitudes below 1e-12 that no physical input has."""
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(
        lambda v: 0. if (abs(v) < 1e-12 and lo <= 0. <= hi) else v)


def grid_step(lo, hi, step):
    """Multiples of step in [lo, hi]."""
    return st.integers(math.ceil(lo/step), math.floor(hi/step)).map(lambda i: round(i*step, 6))


def logf(lo, hi):
    """Log-uniform-ish float in [lo, hi]."""
    return fl(0., 1.).map(lambda x: float(f'{lo*(hi/lo)**x:.6g}')).filter(lambda v: lo <= v <= hi)


def as_unit(value_ref, unit):
    """Case quantity whose reference value is value_ref (before rounding)."""
    return [value_ref/UNITS[unit], unit]


@st.composite
def in_unit(draw, strat, units):
    v = draw(strat)
    un = draw(st.sampled_from(units))
    # the strategy is in the first listed unit
    if un == units[0]:
        return [v, un]
    return [v*UNITS[units[0]]/UNITS[un], un]


def lat_deg():
    return st.one_of(st.sampled_from([0., 90., -90., 30., -45., 60., 15., -15., 89.99, -89.9]),
                     grid_step(-90, 90, 0.5), fl(-90., 90.))


def lon_deg():
    return st.one_of(st.sampled_from([0., 180., 90., 270., 360., -90., 359.9, -180., 720., 45., -1080., 3645.]),
                     grid_step(-360, 720, 0.5), fl(0., 360.), fl(-400., 800.))


def lat():
    return in_unit(lat_deg(), ANGLE).map(_clip_lat)


def _clip_lat(q):
    lim = math.pi/2/UNITS[q[1]]
    return [max(-lim, min(lim, q[0])), q[1]]


def lon():
    return in_unit(lon_deg(), ANGLE)


def obs():
    return st.fixed_dictionaries({'lat': lat(), 'lon': lon()})


def rect_grid(maxlat=24, maxlon=36, minlat=3, minlon=3):
    return st.tuples(st.integers(minlat, maxlat), st.integers(minlon, maxlon)).map(
        lambda t: {'kind': 'rect', 'nlat': t[0], 'nlon': t[1]})


def spiral_grid(maxn=900, minn=8):
    return st.integers(minn, maxn).map(lambda n: {'kind': 'spiral', 'n': n})


BIG = [{'kind': 'rect', 'nlat': 100, 'nlon': 200}, {'kind': 'rect', 'nlat': 181, 'nlon': 91}, {'kind': 'rect', 'nlat': 4, 'nlon': 3000},
       {'kind': 'spiral', 'n': 10000}, {'kind': 'spiral', 'n': 16385}, {'kind': 'spiral', 'n': 4097}]
HUGE = [{'kind': 'rect', 'nlat': 300, 'nlon': 400}, {'kind': 'spiral', 'n': 70000}]


@st.composite
def grid(draw, maxlat=24, maxlon=36, maxn=900):
    """A small grid nearly always; now and then one of the size real simulations use."""
    if maxn >= 900:
        k = draw(st.integers(0, 199))
        if k >= 196:
            return draw(st.sampled_from(HUGE if k == 199 else BIG))
    return draw(st.one_of(rect_grid(maxlat, maxlon), spiral_grid(maxn)))


def temp(lo, hi):
    """Temperatures on a 0.01 K raster, sometimes a hair off it, mostly round."""
    base = st.one_of(grid_step(lo, hi, 100), grid_step(lo, hi, 1), grid_step(lo, hi, 0.01))
    return st.tuples(base, st.sampled_from([0, 0, 0, 0, 0.001, -0.002])).map(
        lambda t: [t[0]+t[1], 'K'])


@st.composite
def limb(draw):
    """Quadratic limb darkening with non-negative intensity everywhere on the disk."""
    u1 = draw(st.one_of(st.just(0.), grid_step(0, 1, 0.05), fl(0., 1.), fl(-0.4, 0.)))
    u2 = draw(st.one_of(st.just(0.), fl(0., 1.), fl(-0.5, 0.)))
    if u1 + u2 > 1:
        u2 = 1 - u1
    lo = min(1 - u1*t - u2*t*t for t in [i/40 for i in range(41)])
    if lo < 0:
        u2 = 0.
    return [u1, u2]


def star_radius():
    """Dwarfs to subgiants, sometimes from white dwarfs to giants (the default planet of calc_coverage orbits at 1 AU)."""
    return in_unit(st.one_of(*[logf(1e5, 2e6)]*7, logf(4e3, 7e7)), ['km', 'R_sun', 'm', 'R_earth'])


def photosphere():
    """Mostly cool stars, sometimes far outside the range of cool star models."""
    return st.one_of(*[temp(2300, 6500)]*5, temp(900, 40000))


@st.composite
def spot(draw, rstar_km, tmin=2000, tmax=6500, pool=None, dynamic=False, fmax=0.9):
    """A spot on a star of the given radius (km)."""
    full = 4*math.pi*rstar_km**2
    frac = draw(st.one_of(logf(1e-5, 0.3), logf(1e-3, fmax)))
    amax = draw(st.one_of(st.just(1.), fl(1., 20.)))*frac*full
    amax = max(frac*full, min(amax, fmax*full))
    un = draw(st.sampled_from(AREA))
    un2 = draw(st.sampled_from(AREA))
    if pool:
        tp = draw(st.sampled_from(pool))
        tu = draw(st.sampled_from(pool))
    else:
        tp = draw(temp(tmin, tmax))
        tu = draw(temp(tmin, tmax))
    if tu[0] > tp[0]:
        tu, tp = tp, tu
    s = dict(lat=draw(lat()), lon=draw(lon()),
             area=as_unit(frac*full, un), area_max=as_unit(amax, un2),
             tu=tu, tp=tp,
             ratio=draw(st.one_of(st.sampled_from([5., 1., 4., 0.5]), fl(1., 12.), fl(1., 12.), fl(0.3, 1.))),
             growing=draw(st.booleans()),
             growth=draw(growth()), decay=draw(decay(amax)))
    return s


def growth():
    return in_unit(st.one_of(st.sampled_from([0.52, 1.83, 1., 0.]), logf(1e-3, 5.)), RATE)


def decay(amax):
    """Decay rate such that the maximum area decays in 0.1 to 300 d, or never."""
    return st.tuples(st.one_of(logf(0.1, 300.), st.just(0.)), st.sampled_from(ARATE)).map(
        lambda t: as_unit(amax/t[0] if t[0] else 0., t[1]))


@st.composite
def facula(draw, rstar_km, big=True, growing=None):
    ang = draw(st.one_of(logf(0.005, 0.3), logf(0.05, 1.5 if big else 0.6)))
    r = ang*rstar_km
    rmax = r*draw(st.one_of(st.just(1.), fl(1., 7.)))
    ratio = draw(st.one_of(st.just(0.), logf(5e-4, 0.05), logf(0.02, 8.), logf(0.05, 3.), logf(0.1, 2.)))       # depth over radius
    minr = r*draw(st.one_of(st.just(0.), fl(0., 0.95), fl(0.5, 0.999), fl(1.05, 3.)))
    wall, floor = draw(st.tuples(st.integers(-900, 900), st.integers(-900, 900)).filter(
        lambda t: t[0] != t[1]))
    slope_w = draw(st.one_of(st.just(0.), fl(-300., 300.)))     # K over the radius
    slope_f = draw(st.one_of(st.just(0.), fl(-300., 300.)))
    f = dict(lat=draw(lat()), lon=draw(lon()),
             r=as_unit(r, draw(st.sampled_from(LENGTH))),
             r_max=as_unit(rmax, draw(st.sampled_from(LENGTH))),
             depth=as_unit(ratio*r, draw(st.sampled_from(LENGTH))),
             life=draw(in_unit(logf(0.05, 400.), TIME)),
             floor_min_rad=as_unit(minr, draw(st.sampled_from(LENGTH))),
             floor_slope=as_unit(slope_f/r, draw(st.sampled_from(SLOPE))),
             floor_base=[float(floor) - (slope_f*(r-minr)/r), 'K'],
             wall_slope=as_unit(slope_w/r, draw(st.sampled_from(SLOPE))),
             wall_icpt=[float(wall) - slope_w, 'K'],
             growing=draw(st.booleans()) if growing is None else growing)
    return f


@st.composite
def planet(draw, rstar_km, transit=None, maxrp=1.3):
    """Orbit so that transits, eclipses, grazing and distant planets all happen."""
    a_rs = draw(st.one_of(logf(1.5, 30.), logf(5., 300.)))
    rp = draw(st.one_of(logf(0.01, 0.3), logf(0.1, maxrp if maxrp != 1 else 0.999999)))
    mode = draw(st.sampled_from(['transit', 'transit', 'eclipse', 'any'])) if transit is None else (
        'transit' if transit else 'eclipse')
    # projected position in stellar radii
    if mode == 'any':
        phase = draw(st.one_of(st.sampled_from([0., 90., 180., 270.]), fl(-400., 800.)))
        inc = draw(st.one_of(st.sampled_from([90., 0., 80.]), fl(0., 180.)))
    else:
        if draw(st.booleans()):
            x = draw(st.one_of(st.just(0.), fl(-1.6, 1.6)))
            y = draw(st.one_of(st.just(0.), fl(-1.2, 1.2)))
        else:                     # on the limb of the star
            d, th = 1+rp*draw(fl(-1.2, 1.2)), draw(fl(0., 6.283))
            x, y = d*math.cos(th), d*math.sin(th)
        x, y = max(-0.95*a_rs, min(0.95*a_rs, x)), max(-0.95*a_rs, min(0.95*a_rs, y))
        dphi = math.degrees(math.asin(x/a_rs))
        cosphi = math.cos(math.radians(dphi))
        inc = math.degrees(math.acos(max(-1., min(1., y/(a_rs*cosphi)))))
        phase = (180. if mode == 'transit' else 0.) + dphi*(1 if mode == 'transit' else -1)
        phase += 360*draw(st.sampled_from([0, 0, 0, -1, 1]))
    return dict(orbit=as_unit(a_rs*rstar_km, draw(st.sampled_from(['AU', 'R_sun', 'km']))),
                radius=as_unit(rp*rstar_km, draw(st.sampled_from(['R_earth', 'R_jup', 'km', 'R_sun']))),
                phase=draw(st.just([phase, 'deg']).map(lambda q: q)),
                inc=draw(in_unit(st.just(inc), ['deg', 'rad'])))


def granulation():
    return st.one_of(st.none(), st.fixed_dictionaries(dict(
        mean=grid_step(0, 1, 0.05), amp=grid_step(0, 1, 0.05),
        period=in_unit(logf(0.1, 200.), ['h', 'd', 'min']),
        dteff=st.one_of(grid_step(-500, 900, 1), grid_step(0, 900, 0.01), st.just(0.)).map(lambda v: [v, 'K']),
        seed=st.integers(0, 2**31-1))))


@st.composite
def scene(draw, nspots=4, nfac=3, maxlat=24, maxlon=36, maxn=900, gridstrat=None, dynamic=False,
          gran=True, inbounds=False):
    """A star with spots and faculae and an observer."""
    rs = draw(star_radius())
    rkm = rs[0]*UNITS[rs[1]]
    teff = draw(temp(2600, 3600) if inbounds else photosphere())
    pool = None
    if draw(st.booleans()):
        pool = [teff, [teff[0]-300, 'K'], [teff[0]-100.5, 'K'], [teff[0]+0.001, 'K'], [2500., 'K']]
    n_s = draw(st.integers(0, nspots))
    n_f = draw(st.integers(0, nfac))
    if nspots >= 3 and n_s == nspots and draw(st.integers(0, 15)) == 15:
        n_s = draw(st.integers(nspots, 30))
    c = dict(grid=draw(gridstrat if gridstrat is not None else grid(maxlat, maxlon, maxn)),
             teff=teff, radius=rs, period=draw(in_unit(logf(0.1, 100.), TIME)),
             limb=draw(limb()),
             spots=[draw(spot(rkm, pool=pool)) for _ in range(n_s)],
             faculae=[draw(facula(rkm)) for _ in range(n_f)],
             obs=draw(obs()))
    if gran:
        c['gran'] = draw(granulation())
        if c['gran'] and c['spots'] and draw(st.integers(0, 2)) == 0:
            # granules as cool as (part of) a spot
            s = draw(st.sampled_from(c['spots']))
            c['gran']['dteff'] = [teff[0]-s[draw(st.sampled_from(['tu', 'tp']))][0], 'K']
    return c


@st.composite
def scene_with_planet(draw, **kw):
    c = draw(scene(**kw))
    rkm = c['radius'][0]*UNITS[c['radius'][1]]
    c['planet'] = draw(st.one_of(st.none(), planet(rkm)))
    c['gfrac'] = draw(st.one_of(st.sampled_from([0., 1., 0.5]), fl(0., 1.)))
    return c


def durations(total_days=400.):
    """A list of non-negative time steps."""
    return st.lists(in_unit(st.one_of(st.just(0.), logf(1e-4, 1.), logf(0.1, total_days)), TIME),
                    min_size=1, max_size=8)


@st.composite
def flare(draw, tmax=10.):
    return dict(fwhm=draw(in_unit(st.one_of(logf(0.005, 1.), logf(1e-4, 1.), logf(0.01, 20.)), TIME)),
                energy=draw(in_unit(logf(1e29, 1e36), ENERGY)),
                lat=draw(lat()), lon=draw(lon()),
                teff=draw(temp(5000, 20000)),
                tpeak=draw(in_unit(st.one_of(fl(-2., tmax), grid_step(0, tmax, 0.25)), TIME)))
