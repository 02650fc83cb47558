"""C03 spot extents and overlap, C04 spot time law, C25 spot sizes."""
import math
import numpy as np
from astropy import units as u
from hypothesis import strategies as st

from pbt.core import law, require
from pbt import ref, gen
from pbt.build import (Q, make_spot, make_star, make_grid, finite, num, seq, grid_arrays, spot_ref,
                       grid_params, grid_shape, obs_dict, SpotCollection, MSH)


# ---------------------------------------------------------------- C03

@st.composite
def many_spots(draw):
    c = draw(gen.scene(nspots=6, nfac=0, gran=False, maxlat=30, maxlon=48, maxn=1500))
    rkm = ref.val(c['radius'])
    # clusters: several spots near one another, so that they overlap
    if c['spots'] and draw(st.booleans()):
        base = c['spots'][0]
        for s in c['spots'][1:]:
            dl = draw(gen.fl(-0.3, 0.3))
            dm = draw(gen.fl(-0.3, 0.3))
            la = ref.val(base['lat'])+dl
            s['lat'] = [max(-1.5, min(1.5, la)), 'rad']
            s['lon'] = [ref.val(base['lon'])+dm, 'rad']
    c['perm'] = draw(st.permutations(range(len(c['spots']))))
    # some spots sit exactly on a grid node
    return c


@law('C03', many_spots, quick=700, rule='at least one pixel is inside two spots with different temperatures')
def spot_map(c, rec):
    """The map holds the coolest temperature over each pixel; all views of it agree."""
    star = make_star(c)
    lat, lon = grid_arrays(star.gridmaker, c['grid'])
    spots = [spot_ref(s) for s in c['spots']]
    rs = ref.val(c['radius'])
    want, amb = ref.paint_spots(spots, rs, c['teff'][0], lat, lon)
    got = finite(star.map, u.K, 'surface map', grid_shape(c['grid']))
    bad = ~amb & (np.abs(got-want) > 1e-6)
    require(not bad.any(), lambda: f'surface map: {bad.sum()} pixels differ from coolest-wins, e.g. '
            f'lat,lon={np.degrees(lat[bad][0]):.3f},{np.degrees(lon[bad][0]):.3f}: got {got[bad][0]} want {want[bad][0]}')
    # the collection itself, in another order
    coll = SpotCollection(*[make_spot(c['spots'][i]) for i in c['perm']], grid_params=grid_params(c['grid']))
    got2 = finite(coll.map_pixels(Q(c['radius']), Q(c['teff'])), u.K, 'collection map', grid_shape(c['grid']))
    bad = ~amb & (np.abs(got2-got) > 1e-6)
    require(not bad.any(), 'the surface map depends on the order in which spots were added')
    # spot coverage: share of the sphere inside any spot
    inside = np.zeros(lat.shape, bool)
    for s in spots:
        inside |= ref.ang_dist(s['lat'], s['lon'], lat, lon) < ref.cap_angle(s['area'], rs)
    area = finite(star.gridmaker.area, None, 'pixel areas', grid_shape(c['grid']))
    w = area/area.sum()
    cov = finite(star.spots.get_coverage(Q(c['radius'])), None, 'spot coverage')
    wide = inside.copy()        # an umbra larger than its spot may or may not count
    for s in spots:
        if s['ratio'] < 1:
            wide |= ref.ang_dist(s['lat'], s['lon'], lat, lon) < ref.cap_angle(s['area'], rs)/math.sqrt(s['ratio'])
    lo, hi = np.sum(w[inside & ~amb]), np.sum(w[wide | amb])
    require(lo-1e-6 <= cov <= hi+1e-6, lambda: f'spot coverage {cov}, expected {np.sum(w[inside])}')
    n = sum((ref.ang_dist(s['lat'], s['lon'], lat, lon) < ref.cap_angle(s['area'], rs)).astype(int)
            for s in spots) if spots else np.zeros(1)
    rec.hit(bool(np.any(n >= 2)) and len({s['tp'] for s in spots}) > 1)
    rec.label('overlap', np.any(n >= 2))
    rec.label('umbra seen', any(np.any(got == s['tu']) for s in spots if s['tu'] != c['teff'][0]))
    rec.label('spiral' if c['grid']['kind'] == 'spiral' else 'rect')
    rec.label('spot hotter than photosphere', any(s['tp'] > c['teff'][0] for s in spots))
    rec.label('spot larger than a hemisphere', any(ref.cap_angle(s['area'], rs) > math.pi/2 for s in spots))


@st.composite
def one_spot(draw):
    rs = draw(gen.star_radius())
    return dict(radius=rs, spot=draw(gen.spot(ref.val(rs))), grid=draw(gen.grid(30, 48, 1500)))


@law('C03', one_spot, quick=500, rule='the spot covers some but not all pixels')
def single_spot_extent(c, rec):
    """A spot is the disk of its angular radius; the umbra the same, sqrt(ratio) smaller."""
    g = make_grid(c['grid'])
    s = make_spot(c['spot'], gridmaker=g)
    lat, lon = grid_arrays(g, c['grid'])
    d = s.map_pixels(Q(c['radius']))
    require(isinstance(d, dict), 'spot pixel masks are not a dict')
    sr = spot_ref(c['spot'])
    r = ref.ang_dist(sr['lat'], sr['lon'], lat, lon)
    a = ref.cap_angle(sr['area'], ref.val(c['radius']))
    for key, rad in (('tp', a), ('tu', a/math.sqrt(sr['ratio']))):
        if key == 'tu' and sr['tu'] == sr['tp']:
            continue
        match = [v for k, v in d.items() if abs(num(k, u.K, 'mask key')-sr[key]) < 1e-9]
        require(len(match) == 1, f'no pixel mask for temperature {sr[key]}')
        m = np.asarray(match[0]).astype(bool)
        require(m.shape == lat.shape, 'pixel mask has the wrong shape')
        amb = (np.abs(r-rad) < ref.EDGE) | ((r > math.pi-1e-3) & (np.abs(r-rad) < 1e-5))
        bad = ~amb & (m != (r < rad))
        require(not bad.any(), lambda: f'{bad.sum()} pixels wrongly in or out of the spot (radius {rad} rad), e.g. at '
                f'distance {r[bad][0]} rad')
    rec.hit(bool(np.any(r < a) and np.any(r >= a)))


# ---------------------------------------------------------------- C04

@st.composite
def spot_history(draw):
    full = 4*math.pi*ref.R_SUN**2
    amax = draw(gen.logf(1e-6, 0.2))*full
    a0 = amax*draw(st.one_of(st.just(1.), gen.logf(1e-4, 1.)))
    growth = draw(gen.growth())
    decay = draw(gen.decay(amax))
    growing = draw(st.booleans())
    # steps around the natural times of this spot: to the maximum and to the end
    k = math.log1p(ref.val(growth))
    tmax = math.log(amax/a0)/k if (growing and k > 0) else 0.
    w = ref.val(decay)
    tend = tmax + ((amax if growing else a0)/w if w else 10.)
    steps = draw(st.lists(st.one_of(
        st.just(0.), gen.fl(0., 1.5).map(lambda x: x*tend), gen.fl(0., 1.2).map(lambda x: x*tmax),
        st.just(tmax), gen.fl(0., 0.2).map(lambda x: x*tend)), min_size=1, max_size=8))
    steps = [gen.as_unit(t, draw(st.sampled_from(gen.TIME))) for t in steps]
    return dict(spot=dict(lat=[10., 'deg'], lon=[20., 'deg'], area=gen.as_unit(a0, draw(st.sampled_from(gen.AREA))),
                          area_max=gen.as_unit(amax, draw(st.sampled_from(gen.AREA))), tu=[2500., 'K'],
                          tp=[2700., 'K'], ratio=5., growing=growing, growth=growth, decay=decay),
                steps=steps, via=draw(st.sampled_from(['spot', 'collection', 'star'])))


def _model(s):
    return ref.SpotModel(ref.val(s['area']), ref.val(s['area_max']), s['growing'], ref.val(s['growth']),
                         ref.val(s['decay']))


@law('C04', spot_history, quick=1500,
     rule='the history has at least two steps and passes the maximum or the end of the spot',
     examples=[dict(spot=dict(lat=[0., 'deg'], lon=[0., 'deg'], area=[10., 'msh'], area_max=[100., 'msh'],
                              tu=[2500., 'K'], tp=[2700., 'K'], ratio=5., growing=False, growth=[0.5, '1/d'],
                              decay=[5., 'msh/d']), steps=[[3., 'd']], via='spot')])
def spot_time_law(c, rec):
    """Exponential growth to the maximum, then linear decay to zero, for every split of the time."""
    s = make_spot(c['spot'])
    holder = s
    if c['via'] == 'collection':
        holder = SpotCollection(s, grid_params=8)
    elif c['via'] == 'star':
        holder = make_star(dict(grid={'kind': 'spiral', 'n': 8}, teff=[3000., 'K'], radius=[1., 'R_sun'],
                                period=[1., 'd'], limb=[0., 0.]), spots=SpotCollection(s, grid_params=8))
    m, total = _model(c['spot']), 0.
    amax, a_start = m.amax, m.a
    tmax = m.time_to_max()
    prev = m.a
    for t in c['steps']:
        was_growing = bool(s.is_growing)
        holder.age(Q(t))
        td = ref.val(t)
        total += td
        m.age(td)
        a = finite(s.area_current, u.km**2, 'spot area')
        once = _model(c['spot']).age(total).a
        tol = 1e-8*amax
        require(a >= 0, f'spot area is negative: {a} km2')
        require(a <= amax*(1+1e-9), f'spot area {a} km2 exceeds its maximum {amax} km2')
        require(abs(a-once) <= tol, lambda: f'after {total} d in {len(c["steps"])} steps the area is {a} km2, '
                f'the growth-decay law gives {once} km2')
        require(not (bool(s.is_growing) and not was_growing), 'a decaying spot started to grow again')
        if abs(total-tmax) > 1e-9*(1+tmax) and math.isfinite(tmax) and c['spot']['growing']:
            require(bool(s.is_growing) == (total < tmax), lambda: f'is_growing={s.is_growing} at {total} d, the maximum '
                    f'is reached at {tmax} d')
        prev = a
        if a > 0:
            r = finite(s.radius, u.km, 'spot radius')
            require(abs(r-math.sqrt(a/math.pi)) <= 1e-9*r, 'spot radius does not match its area')
    rec.label('grew', c['spot']['growing'] and m.k > 0)
    rec.label('passed maximum', c['spot']['growing'] and not m.growing)
    rec.label('died', m.a == 0)
    rec.label('static growth', c['spot']['growing'] and m.k == 0)
    rec.label('no decay', m.w == 0)
    rec.label(c['via'])
    rec.hit(len(c['steps']) >= 2 and ((c['spot']['growing'] and not m.growing) or m.a == 0))


@st.composite
def spot_split(draw):
    h = draw(spot_history())
    return h


@law('C04', spot_split, quick=500, rule='the split has at least two non-zero steps')
def spot_split_invariance(c, rec):
    """Ageing in many steps ends where ageing in one step ends (metamorphic, no model)."""
    a, b = make_spot(c['spot']), make_spot(c['spot'])
    for t in c['steps']:
        a.age(Q(t))
    b.age(sum(ref.val(t) for t in c['steps'])*u.day)
    x, y = finite(a.area_current, u.km**2), finite(b.area_current, u.km**2)
    require(abs(x-y) <= 1e-8*ref.val(c['spot']['area_max']), lambda: f'{len(c["steps"])} steps: {x} km2, one step: {y} km2')
    rec.hit(sum(t[0] > 0 for t in c['steps']) >= 2)


# ---------------------------------------------------------------- C25

@st.composite
def spot_size(draw):
    rs = draw(gen.star_radius())
    s = draw(gen.spot(ref.val(rs), fmax=0.95))
    return dict(radius=rs, spot=s, obs=draw(gen.obs()), scale=draw(gen.fl(1.01, 3.)),
                far=draw(gen.fl(0., math.pi)), npts=draw(st.sampled_from([1001, 1001, 4001, 20001])))


def _fraction(a, c0, n=200001):
    """Integral of the spot's chord weighted with the foreshortening, over a hemisphere."""
    lo, hi = max(c0-a, -math.pi/2), min(c0+a, math.pi/2)
    if hi <= lo:
        return 0.
    # c = c0 + a sin(t)
    t0, t1 = math.asin(max(-1, min(1, (lo-c0)/a))), math.asin(max(-1, min(1, (hi-c0)/a)))
    n = 4001
    t = t0 + (t1-t0)*(np.arange(n)+0.5)/n
    f = 2*np.cos(c0+a*np.sin(t))*a*np.cos(t)*a*np.cos(t)
    return float(np.sum(f)*(t1-t0)/n/(2*math.pi))


@law('C25', spot_size, quick=700, rule='the spot is partly visible and partly foreshortened (not at disk center)',
     examples=[dict(radius=[1., 'R_sun'], obs=dict(lat=[30., 'deg'], lon=[40., 'deg']), scale=1.5, far=1., npts=1001,
                    spot=dict(lat=[30., 'deg'], lon=[40., 'deg'], area=[5000., 'msh'], area_max=[5000., 'msh'],
                              tu=[2500., 'K'], tp=[2700., 'K'], ratio=5., growing=False, growth=[0.5, '1/d'],
                              decay=[5., 'msh/d']))])
def spot_measures(c, rec):
    """Radius, angular radius and projected fraction of a spot follow from its area."""
    s = make_spot(c['spot'])
    area, rs = ref.val(c['spot']['area']), ref.val(c['radius'])
    r = finite(s.radius, u.km, 'spot radius')
    require(abs(r-math.sqrt(area/math.pi)) <= 1e-9*r, lambda: f'spot radius {r} km, sqrt(A/pi) = {math.sqrt(area/math.pi)} km')
    a = finite(s.angular_radius(Q(c['radius'])), u.rad, 'angular radius')
    want = ref.cap_angle(area, rs)
    require(abs(a-want) <= 1e-7*want + 1e-9, lambda: f'angular radius {a} rad, a cap of this area has {want} rad')
    # cap of that angle has that area
    require(abs(2*math.pi*rs**2*(1-math.cos(a)) - area) <= 1e-6*area+1e-9*rs**2, 'angular radius and area disagree')
    lat, lon = ref.val(c['spot']['lat']), ref.val(c['spot']['lon'])
    o = c['obs']
    c0 = float(ref.ang_dist(lat, lon, ref.val(o['lat']), ref.val(o['lon'])))
    n = c['npts']
    f = finite(s.surface_fraction(obs_dict(o), Q(c['radius']), n), None, 'surface fraction')
    h = math.pi/(n-1)
    tol = 2.0*math.sqrt(a)*h**1.5/(2*math.pi)*2 + 4*h*h + 1e-9
    want_f = _fraction(want, c0)
    if a > 2*h:
        require(abs(f-want_f) <= tol, lambda: f'surface fraction {f} at {c0} rad from disk center, expected {want_f} +- {tol:.2g}')
    require(f >= -1e-12, f'surface fraction is negative: {f}')
    if c0 - a > math.pi/2 + h:
        require(f == 0, f'a spot behind the limb (by {c0-a-math.pi/2} rad) has surface fraction {f}')
        rec.label('hidden')
    # larger area, larger fraction
    if a > 4*h:
        big = dict(c['spot'], area=[c['spot']['area'][0]*c['scale'], c['spot']['area'][1]])
        if ref.val(big['area']) < 0.95*4*math.pi*rs**2:
            f2 = finite(make_spot(big).surface_fraction(obs_dict(o), Q(c['radius']), n), None, 'surface fraction')
            require(f2 >= f-2*tol, 'a larger spot has a smaller surface fraction')
    rec.label('limb', abs(c0-math.pi/2) < a)
    rec.label('center', c0 < 1e-6)
    rec.hit(0 < f and c0 > a)


@st.composite
def coverage_conv(draw):
    rs = draw(gen.star_radius())
    s = draw(gen.spot(ref.val(rs), fmax=0.9))
    s['area'] = [draw(gen.logf(0.003, 0.9))*4*math.pi*ref.val(rs)**2, 'km2']
    s['area_max'] = s['area']
    s['ratio'] = max(1., s['ratio'])
    g = draw(st.one_of(gen.rect_grid(90, 180, 30, 60), gen.spiral_grid(15000, 1500)))
    return dict(radius=rs, spot=s, grid=g)


@law('C25', coverage_conv, quick=200, rule='the cap is between 1 and 80 per cent of the sphere')
def spot_area_on_grid(c, rec):
    """The share of the sphere covered by one spot is its area over the star's area."""
    gp = grid_params(c['grid'])
    coll = SpotCollection(make_spot(c['spot']), grid_params=gp)
    cov = finite(coll.get_coverage(Q(c['radius'])), None, 'spot coverage')
    rs = ref.val(c['radius'])
    want = ref.val(c['spot']['area'])/(4*math.pi*rs**2)
    a = ref.cap_angle(ref.val(c['spot']['area']), rs)
    if c['grid']['kind'] == 'rect':
        h = math.hypot(math.pi/(c['grid']['nlat']-1), 2*math.pi/c['grid']['nlon'])
    else:
        h = math.sqrt(4*math.pi/c['grid']['n'])
    tol = 0.75*h*math.sin(a)/2 + 0.5*h*h
    require(abs(cov-want) <= tol, lambda: f'coverage of one spot {cov}, its area share is {want} (tolerance {tol:.2g})')
    rec.hit(0.01 < want < 0.8)
