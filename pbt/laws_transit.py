"""C09 transits, C10 eclipses."""
import math
import warnings
import numpy as np
from astropy import units as u
from hypothesis import strategies as st

from pbt.core import law, require, Violation
from pbt import ref, gen
from pbt.build import (Q, make_star, finite, num, grid_arrays, grid_shape, obs_dict, planet_kw, transit_kw,
                       coverage_dict)
from vspec_vsm.helpers import calc_circ_fraction_inside_unit_circle
from vspec_vsm.star import InsufficientResolutionWarning


def planet_xy(c):
    """Projected position (x east, y north) in stellar radii, cos(phase), planet over star radius."""
    p, rs = c['planet'], ref.val(c['radius'])
    a, ph, inc = ref.val(p['orbit'])/rs, ref.val(p['phase']), ref.val(p['inc'])
    return a*math.sin(ph-math.pi), a*math.cos(ph-math.pi)*math.cos(inc), math.cos(ph), ref.val(p['radius'])/rs


def bare(c):
    return dict(c, spots=[], faculae=[], gran=None)


@st.composite
def transit_case(draw, transit=True, maxrp=1.3, big=False):
    rs = draw(gen.star_radius())
    g = draw(st.one_of(gen.rect_grid(90, 140, 40, 60), gen.spiral_grid(9000, 2500)) if big
             else gen.grid(30, 48, 1500))
    return dict(grid=g, radius=rs, teff=[3000., 'K'], period=[1., 'd'], limb=draw(gen.limb()), obs=draw(gen.obs()),
                planet=draw(gen.planet(ref.val(rs), transit=transit, maxrp=maxrp)))


def geometry(c, lat, lon):
    lat0, lon0 = ref.val(c['obs']['lat']), ref.val(c['obs']['lon'])
    X, Y, Z = ref.ortho(lat0, lon0, lat, lon)
    s = np.hypot(X, Y)
    cc = np.where(s > 1e-12, Y/np.where(s > 1e-12, s, 1), 1.)
    # rounding of the position angle, taken from its cosine: worst next to the meridian and close to a pole
    noise = 1e-12 + (1e-14/np.maximum(s*abs(math.cos(lat0)), 1e-15) if abs(math.cos(lat0)) > 1e-9 else 0.)
    C = np.arccos(np.clip(cc, -1, 1))
    d = np.maximum(np.abs(np.arccos(np.clip(cc+noise, -1, 1))-C), np.abs(np.arccos(np.clip(cc-noise, -1, 1))-C))
    return X, Y, Z, s*d + 1e-6


@law('C09', lambda: st.one_of(transit_case(True), transit_case(None)), quick=700,
     rule='the planet overlaps the disk and at least one pixel is fully covered')
def transit_mask(c, rec):
    """Pixels well inside the planet's disk are covered, pixels well outside or hidden are not."""
    star = make_star(bare(c))
    x, y, cphi, rp = planet_xy(c)
    if abs(cphi) < 1e-9 or (cphi > 0 and rp > 1-1e-9):
        return
    lat, lon = grid_arrays(star.gridmaker, c['grid'])
    mask, pl = star.get_transit_mask(Q(c['obs']['lat']), Q(c['obs']['lon']), **transit_kw(c['planet']))
    mask = finite(mask, None, 'transit mask', grid_shape(c['grid']))
    pl = finite(pl, None, 'visible planet fraction')
    X, Y, Z, err = geometry(c, lat, lon)
    require(np.all(mask >= 0) and np.all(mask <= 1+1e-6), lambda: f'transit mask outside [0, 1]: {mask.min()}..{mask.max()}')
    if cphi > 0:
        require(not np.any(mask), 'a planet behind the star covers part of it')
        rec.label('eclipse')
        return
    require(pl == 1, f'planet in front of the star but only {pl} of it visible')
    area = finite(star.gridmaker.area, None)
    sig = 2*np.sqrt(area)*np.clip(Z, 0, None)
    dist = np.hypot(X-x, Y-y)
    bad = (Z < -1e-7) & (mask != 0)
    require(not bad.any(), 'a pixel on the far side is covered by the planet')
    bad = (Z > 0) & (dist > rp + 2*sig + err) & (mask != 0)
    require(not bad.any(), lambda: f'{bad.sum()} pixels outside the planet are covered: planet at {x:.4f},{y:.4f} radius {rp:.4f}, '
            f'pixel at {X[bad][0]:.4f},{Y[bad][0]:.4f} of size {sig[bad][0]:.4f} covered {mask[bad][0]}')
    full = (Z > 1e-7) & (dist + 2*sig + err < rp)
    if math.hypot(x, y) <= 1+2*rp-1e-9:
        bad = full & (np.abs(mask-1) > 1e-6)
        require(not bad.any(), lambda: f'{bad.sum()} pixels behind the planet are not covered: planet at {x:.4f},{y:.4f} radius {rp:.4f}, '
                f'pixel at {X[bad][0]:.4f},{Y[bad][0]:.4f} covered {mask[bad][0]}')
    # a pixel whose center is inside is covered more than a quarter where it is not foreshortened
    mid = (Z > 0.8) & (dist + err < rp) & (sig < rp)
    bad = mid & (mask < 0.2)
    require(not bad.any(), lambda: f'pixel centered inside the planet covered only {mask[bad][0]}')
    mid = (Z > 0.8) & (dist - err > rp) & (sig < rp)
    bad = mid & (mask > 0.8)
    require(not bad.any(), lambda: f'pixel centered outside the planet covered {mask[bad][0]}')
    mid = (Z > 0.8) & (dist - err > rp) & (dist + err < rp + 0.3*sig) & (sig < rp) & (math.hypot(x, y) <= 1+2*rp-1e-9)
    bad = mid & (mask < 0.1)
    require(not bad.any(), lambda: f'a pixel across the edge of the planet is covered only {mask[bad][0]}')
    rec.label('grazing', abs(math.hypot(x, y)-1) < rp)
    rec.label('planet larger than star', rp > 1)
    rec.label('pole-on', abs(ref.val(c['obs']['lat'])) > 1.57)
    rec.hit(bool(full.any()))


def exact_depth(x, y, rp, u1, u2, n=300):
    """Share of the limb-darkened disk inside the planet's circle (midpoint rule in polar coordinates)."""
    r = (np.arange(n)+.5)/n*rp
    t = (np.arange(n)+.5)/n*2*math.pi
    R, T = np.meshgrid(r, t)
    s2 = (x+R*np.cos(T))**2 + (y+R*np.sin(T))**2
    mu = np.sqrt(np.clip(1-s2, 0, 1))
    f = np.sum(np.where(s2 < 1, 1-u1*(1-mu)-u2*(1-mu)**2, 0)*R)*(rp/n)*(2*math.pi/n)
    return f/(2*math.pi*((1-u1-u2)/2+(u1+2*u2)/3-u2/4))


@law('C09', lambda: transit_case(True, maxrp=0.6, big=True), quick=150,
     rule='the exact depth is at least 0.001')
def transit_depth(c, rec):
    """At usable resolution the light blocked is that of the limb-darkened disk behind the planet."""
    star = make_star(bare(c))
    x, y, cphi, rp = planet_xy(c)
    total, cov, pl = star.calc_coverage(obs_dict(c['obs']), **planet_kw(c['planet']))
    got = sum(v for _, v in coverage_dict(cov, 'covered fractions'))
    u1, u2 = c['limb']
    want = exact_depth(x, y, rp, u1, u2)
    n = int(np.prod(grid_shape(c['grid'])))
    h = math.sqrt(4*math.pi/n)
    if c['grid']['kind'] == 'rect':
        h = max(h, math.pi/(c['grid']['nlat']-1), 2*math.pi/c['grid']['nlon'])
    norm = 1/(2*((1-u1-u2)/2+(u1+2*u2)/3-u2/4))   # central brightness over mean
    lo, hi = want - (0.5*rp*h+1.0*h*h)*norm, want + (0.15*rp*h+0.5*h*h)*norm
    require(lo <= got <= hi, lambda: f'light blocked {got:.5f}, exact {want:.5f} (allowed {lo:.5f} to {hi:.5f}); planet at {x:.3f},{y:.3f} '
            f'radius {rp:.3f}, pixel {h:.3f}')
    rec.hit(want > 1e-3)
    rec.label('depth check is sharp (10 per cent)', want > 5*rp*h)


@st.composite
def resolved_case(draw):
    c = draw(transit_case(True, maxrp=0.6))
    n = int(np.prod(grid_shape(c['grid'])))
    if draw(st.booleans()):
        # a planet of about a pixel
        c['planet']['radius'] = gen.as_unit(ref.val(c['radius'])*2/math.sqrt(n)*draw(gen.logf(0.2, 8.)), 'km')
    return c


@law('C09', resolved_case, quick=250, rule='the planet is much larger or smaller than the pixels behind it')
def coarse_grid_is_announced(c, rec):
    """A planet that the grid cannot resolve is announced with a warning; a well resolved one is not."""
    star = make_star(bare(c))
    x, y, cphi, rp = planet_xy(c)
    if cphi > -1e-9 or math.hypot(x, y) > 1+rp:
        return
    lat, lon = grid_arrays(star.gridmaker, c['grid'])
    X, Y, Z, err = geometry(c, lat, lon)
    sig = 2*np.sqrt(finite(star.gridmaker.area, None))*np.clip(Z, 0, None)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        star.get_transit_mask(Q(c['obs']['lat']), Q(c['obs']['lon']), **transit_kw(c['planet']))
    told = any(issubclass(i.category, InsufficientResolutionWarning) for i in w)
    means = []
    for e in (-1, 1):
        near = (Z > -1e-9*e) & (np.hypot(X-x, Y-y) <= rp + 2*sig + e*(err+1e-3*sig))
        means.append(float(np.mean(sig[near])) if near.any() else 0.)
    if min(means) > rp:
        require(told, f'a planet of radius {rp:.4f} in front of pixels of {min(means):.4f} stellar radii, and no warning')
        rec.label('coarse')
        rec.hit()
    elif 0 < max(means) < 0.25*rp:
        require(not told, f'a planet of radius {rp:.4f} in front of pixels of {max(means):.4f} stellar radii is called unresolved')
        rec.label('fine')
        rec.hit()


@st.composite
def grow_case(draw):
    c = draw(transit_case(True))
    c['k'] = draw(gen.fl(1., 2.))
    c['turns'] = draw(st.sampled_from([-2, -1, 1, 3]))
    return c


@law('C09', grow_case, quick=250, rule='the smaller planet covers something')
def transit_monotone_periodic(c, rec):
    """A larger planet covers at least as much of every pixel; a whole orbit later it covers the same."""
    star = make_star(bare(c))
    o = (Q(c['obs']['lat']), Q(c['obs']['lon']))
    kw = transit_kw(c['planet'])
    m1 = finite(star.get_transit_mask(*o, **kw)[0], None, 'transit mask', grid_shape(c['grid']))
    m2 = finite(star.get_transit_mask(*o, **dict(kw, radius=kw['radius']*c['k']))[0], None, 'transit mask', grid_shape(c['grid']))
    require(np.all(m2 >= m1-1e-6), 'a larger planet at the same place covers less of some pixel')
    x, y, cphi, rp = planet_xy(c)
    m3 = finite(star.get_transit_mask(*o, **dict(kw, phase=kw['phase']+c['turns']*360*u.deg))[0], None, 'transit mask',
                grid_shape(c['grid']))
    require(np.mean(np.abs(m3-m1)) < 1e-3, 'the transit mask changes after whole orbits')
    rec.hit(bool(np.any(m1 > 0)))


# ---------------------------------------------------------------- C10

@law('C10', lambda: transit_case(False, maxrp=1.0), quick=1200, rule='the planet is partly hidden',
     examples=[dict(grid={'kind': 'spiral', 'n': 8}, radius=[1., 'R_sun'], teff=[3000., 'K'], period=[1., 'd'], limb=[0., 0.],
                    obs=dict(lat=[0., 'deg'], lon=[0., 'deg']),
                    planet=dict(orbit=[10., 'R_sun'], radius=[1., 'R_sun'], phase=[0., 'deg'], inc=[90.-1e-9, 'deg']))])
def eclipse_fraction(c, rec):
    """Behind the star the visible fraction of the planet is the part of its disk outside the star's."""
    star = make_star(bare(c))
    x, y, cphi, rp = planet_xy(c)
    if cphi < 1e-9:
        return
    lat, lon = grid_arrays(star.gridmaker, c['grid'])
    mu = ref.cos_from_center(ref.val(c['obs']['lat']), ref.val(c['obs']['lon']), lat, lon)
    if ref.disk_weight(finite(star.gridmaker.area, None, 'pixel areas', grid_shape(c['grid'])), mu, *c['limb']).sum() < 1e-6:
        return                      # the grid has no point in view
    total, cov, pl = star.calc_coverage(obs_dict(c['obs']), **planet_kw(c['planet']))
    pl = finite(pl, None, 'visible planet fraction')
    want = 1-ref.lens_fraction(math.hypot(x, y), rp)
    require(-1e-6 <= pl <= 1+1e-6, f'visible planet fraction {pl} outside [0, 1]')
    tol = 2e-5
    require(abs(pl-want) <= tol, lambda: f'planet at {x:.6f},{y:.6f} of radius {rp:.6f} behind the star: {pl} visible, geometry gives {want}')
    d = math.hypot(x, y)
    if d + rp < 1-1e-9:
        require(abs(pl) < 1e-6, f'fully eclipsed planet is {pl} visible')
        rec.label('total')
    if d > 1+rp+1e-9:
        require(abs(pl-1) < 1e-6, f'planet beside the star is only {pl} visible')
        rec.label('outside')
    require(all(v == 0 for _, v in coverage_dict(cov, 'covered fractions')), 'an eclipsed planet covers part of the star')
    m, pl2 = star.get_transit_mask(Q(c['obs']['lat']), Q(c['obs']['lon']), **transit_kw(c['planet']))
    require(not np.any(num(m, None, 'transit mask', grid_shape(c['grid']))), 'an eclipsed planet covers part of the star')
    require(abs(finite(pl2, None)-pl) < 1e-12, 'visible planet fraction differs between two views')
    rec.hit(1e-6 < want < 1-1e-6)


@st.composite
def circ_case(draw):
    r = draw(st.one_of(st.sampled_from([1., 0.5, 0.1]), gen.logf(1e-4, 1.), gen.logf(1e-3, 0.1)))
    d = draw(st.one_of(gen.fl(0., 2.5), st.just(1-r), st.just(1+r), st.just(abs(1-r*r)**0.5), st.just(0.), *[gen.fl(-1, 1).map(lambda e: max(0., 1+e*r))]*3,
                       gen.logf(1e-12, 1e-3).map(lambda e: 1-r+e), gen.logf(1e-12, 1e-3).map(lambda e: 1+r-e)))
    d = max(0., d)
    th = draw(st.one_of(st.sampled_from([0., math.pi/2, math.pi]), gen.fl(0., 6.28)))
    return dict(r=r, d=d, th=th, step=draw(gen.logf(1e-6, 0.5)))


@law('C10', circ_case, quick=3000, rule='the circles intersect',
     examples=[dict(r=0.1, d=1.1-1e-16, th=0., step=0.1), dict(r=1., d=1e-9, th=1., step=0.1), dict(r=1., d=2., th=0., step=0.1),
               dict(r=0.3, d=0.7000000000000001, th=0., step=0.1)])
def circle_overlap(c, rec):
    """Fraction of a circle inside the unit circle: geometry, range, direction independence, monotone in distance."""
    x, y = c['d']*math.cos(c['th']), c['d']*math.sin(c['th'])
    f = finite(calc_circ_fraction_inside_unit_circle(x, y, c['r']), None, 'overlap fraction')
    d = math.hypot(x, y)
    want = ref.lens_fraction(d, c['r'])
    require(-1e-6 <= f <= 1+1e-6, f'overlap fraction {f} outside [0, 1]')
    # closed forms lose digits for tiny circles
    tol = 2e-5 + 2e-15/c['r']**2 + 2e-16/c['r']**3
    require(abs(f-want) <= tol, lambda: f'circle of radius {c["r"]} at {d}: {f} inside the unit circle, expected {want}')
    g = finite(calc_circ_fraction_inside_unit_circle(d+c['step'], 0., c['r']), None, 'overlap fraction')
    require(g <= f+tol, 'the overlap grows as the circle moves out')
    rec.label('tangent', abs(d-1-c['r']) < 1e-9 or abs(d-1+c['r']) < 1e-9)
    rec.hit(abs(1-c['r']) < d < 1+c['r'])


@st.composite
def huge_planet(draw):
    c = draw(transit_case(False, maxrp=1.0))
    k = draw(gen.fl(1.05, 3.))
    c['planet']['radius'] = [k*ref.val(c['radius']), 'km']
    return c


@law('C10', huge_planet, quick=120, rule='the planet would be eclipsed')
def eclipse_of_larger_planet_refused(c, rec):
    """A planet larger than the star behind it is refused, or answered correctly; never answered wrongly."""
    star = make_star(bare(c))
    x, y, cphi, rp = planet_xy(c)
    if cphi < 1e-9 or math.hypot(x, y) > 1+2*rp:
        return
    try:
        _, _, pl = star.calc_coverage(obs_dict(c['obs']), **planet_kw(c['planet']))
    except ValueError:
        rec.hit()
        return
    d = math.hypot(x, y)
    # the star covers 1/rp^2 of the planet's disk times the share of the star inside it
    want = 1-ref.lens_fraction(d/rp, 1/rp)/rp**2
    require(abs(finite(pl, None)-want) < 1e-4, f'planet {rp} times the star behind it: {pl} visible, geometry gives {want}')
    rec.hit()


@st.composite
def plfrac_case(draw):
    c = draw(transit_case(False, maxrp=1.0))
    return c


@law('C10', plfrac_case, quick=400, rule='the planet is partly hidden')
def planet_fraction_helper(c, rec):
    """The planet fraction at an angle past mid-transit is that of the full calculation at phase angle+180 deg."""
    star = make_star(bare(c))
    x, y, cphi, rp = planet_xy(c)
    if cphi < 1e-9:
        return
    p = c['planet']
    got = finite(star.get_pl_frac(Q(p['phase'])-180*u.deg, Q(p['orbit']), Q(p['radius']), Q(p['inc'])), None, 'planet fraction')
    want = 1-ref.lens_fraction(math.hypot(x, y), rp)
    require(abs(got-want) < 2e-5, lambda: f'planet fraction {got}, geometry gives {want}')
    rec.hit(1e-6 < want < 1-1e-6)
