"""C01 partition, C02 light shares, C14 symmetries, C23 mean temperature, C26 units, C28 switched off."""
import copy
import math
import numpy as np
from astropy import units as u
from hypothesis import strategies as st

from pbt.core import law, require, Violation
from pbt import ref, gen
from pbt.build import (Q, make_star, make_spot, make_facula, finite, num, seq, grid_arrays, grid_shape, grid_params, obs_dict,
                       planet_kw, transit_kw, coverage_dict, ref_map, clash, SpotCollection, FaculaCollection, SpotGenerator,
                       FaculaGenerator, FlareGenerator, FlareCollection, Granulation, Star)
from pbt.laws_transit import planet_xy


def fix_planet(c):
    """Planets larger than the star are only accepted in front of it."""
    p = c.get('planet')
    if p:
        x, y, cphi, rp = planet_xy(c)
        if cphi > -1e-9 and rp > 1-1e-9:
            p['radius'] = [p['radius'][0]/rp*0.9, p['radius'][1]]
    return c


def scenes(**kw):
    return gen.scene_with_planet(**kw).map(fix_planet)


def observe(c, star=None):
    """Run the coverage calculation of a scene; returns lists of (T, fraction) and the planet fraction."""
    star = star or make_star(c)
    kw = planet_kw(c['planet']) if c.get('planet') else {}
    out = star.calc_coverage(obs_dict(c['obs']), granulation_fraction=c.get('gfrac', 0.), **kw)
    require(isinstance(out, tuple) and len(out) == 3, 'coverage calculation did not return three results')
    return star, coverage_dict(out[0], 'total fractions'), coverage_dict(out[1], 'covered fractions'), finite(out[2], None, 'planet fraction')


def weights(c, star):
    lat, lon = grid_arrays(star.gridmaker, c['grid'])
    mu = ref.cos_from_center(ref.val(c['obs']['lat']), ref.val(c['obs']['lon']), lat, lon)
    area = finite(star.gridmaker.area, None, 'pixel areas', grid_shape(c['grid']))
    return lat, lon, mu, ref.disk_weight(area, mu, *c['limb'])


EX_BASE = dict(grid={'kind': 'spiral', 'n': 400}, teff=[3000.123, 'K'], radius=[1., 'R_sun'], period=[1., 'd'], limb=[0., 0.],
               spots=[], faculae=[], obs=dict(lat=[0., 'deg'], lon=[0., 'deg']), gran=None, planet=None, gfrac=0.)
SPOT = dict(lat=[0., 'deg'], lon=[0., 'deg'], area=[100000., 'msh'], area_max=[100000., 'msh'], tu=[2500., 'K'], tp=[2700., 'K'],
            ratio=5., growing=False, growth=[0.5, '1/d'], decay=[5., 'msh/d'])
EXAMPLES = [
    EX_BASE,
    dict(EX_BASE, teff=[3000., 'K'], spots=[dict(SPOT, tp=[3000.001-0.002, 'K'])]),
    dict(EX_BASE, spots=[dict(SPOT, area=[1.9e6, 'msh'], area_max=[1.9e6, 'msh'])], gfrac=0.3,
         gran=dict(mean=0.2, amp=0.1, period=[5., 'h'], dteff=[200., 'K'], seed=1)),
]


@law('C01', lambda: scenes(nspots=5, nfac=4), quick=1200, examples=EXAMPLES,
     rule='at least three temperatures share the disk')
def fractions_partition(c, rec):
    """Fractions are non-negative, add up to one, and the covered part never exceeds the total."""
    star = make_star(c)
    _, _, _, w = weights(c, star)
    if w.sum() < 1e-6:
        return
    star, tot, cov, pl = observe(c, star)
    t = sum(v for _, v in tot)
    require(abs(t-1) < 1e-6, lambda: f'total fractions add up to {t}: {tot}')
    require(all(v >= -1e-9 for _, v in tot), lambda: f'negative total fraction: {tot}')
    require(all(v >= -1e-9 for _, v in cov), lambda: f'negative covered fraction: {cov}')
    dt = dict(tot)
    for T, v in cov:
        require(v <= dt.get(T, 0.)+1e-6, lambda: f'covered fraction {v} at {T} K exceeds the total {dt.get(T)}')
    require(-1e-6 <= pl <= 1+1e-6, f'planet fraction {pl} outside [0, 1]')
    if not c.get('planet'):
        require(sum(v for _, v in cov) == 0 and pl == 1, 'light is covered though no planet is near the star')
    rec.label('transit', sum(v for _, v in cov) > 1e-3)
    rec.label('eclipse', pl < 1)
    rec.label('granulation', bool(c['gran']) and c['gfrac'] > 0)
    rec.label('faculae', len(c['faculae']) > 0)
    rec.label(c['grid']['kind'])
    rec.hit(sum(v > 1e-6 for _, v in tot) >= 3)


def expected_shares(c, w, tmap, mask=None):
    """Fractions by temperature including the granulation split, as {T: f}."""
    W = w.sum()
    ww = w if mask is None else w*mask
    out = {}
    for T in np.unique(tmap):
        out[float(T)] = out.get(float(T), 0.) + float(ww[tmap == T].sum()/W)
    return out


def near(d, key):
    return sum(v for T, v in d.items() if abs(T-key) <= 0.005+1e-6)


def split_granulation(c, shares):
    teff = c['teff'][0]
    phot = near(shares, teff)
    rest = {T: v for T, v in shares.items() if abs(T-teff) > 0.005+1e-6}
    dteff = c['gran']['dteff'][0] if c['gran'] else 0.
    g = c.get('gfrac', 0.)
    rest[teff] = phot*(1-g)
    rest[teff-dteff] = rest.get(teff-dteff, 0.) + phot*g
    return rest


def compare(got, want, tol, what):
    for T, v in got:
        e = near(want, T)
        require(abs(v-e) <= tol, lambda: f'{what} at {T} K: {v}, expected {e} (tolerance {tol:.2g})')
    for T, v in want.items():
        if v > tol:
            require(any(abs(T-k) <= 0.005+1e-6 for k, _ in got), lambda: f'{what}: temperature {T} K with fraction {v} is missing')


@law('C02', lambda: scenes(nspots=4, nfac=3), quick=1200, examples=EXAMPLES,
     rule='at least two temperatures share the disk and limb darkening or foreshortening distinguishes them')
def light_shares(c, rec):
    """Every temperature gets the projected, limb-darkened share of its pixels; granulation splits the photosphere."""
    star = make_star(c)
    lat, lon, mu, w = weights(c, star)
    if w.sum() < 1e-6:
        return
    star, tot, cov, pl = observe(c, star)
    tmap, amb = ref_map(c, lat, lon)
    tol = 2e-6 + float(w[amb].sum()/w.sum())
    want = split_granulation(c, expected_shares(c, w, tmap))
    compare(tot, want, tol, 'fraction')
    if c.get('planet'):
        mask, _ = star.get_transit_mask(Q(c['obs']['lat']), Q(c['obs']['lon']), **transit_kw(c['planet']))
        mask = finite(mask, None, 'transit mask', grid_shape(c['grid']))
        wantc = split_granulation(c, expected_shares(c, w, tmap, mask))
        compare(cov, wantc, tol, 'covered fraction')
        rec.label('transit', mask.any())
    n_seen = sum(v > 1e-4 for v in want.values())
    rec.label('limb darkened', c['limb'] != [0., 0.])
    rec.label('granulation split', bool(c['gran']) and 0 < c['gfrac'] < 1 and near(want, c['teff'][0]) > 0)
    rec.label('granulation collides with a feature', bool(c['gran']) and c['gran']['dteff'][0] != 0
              and near(expected_shares(c, w, tmap), c['teff'][0]-c['gran']['dteff'][0]) > 0)
    rec.label('no photosphere visible', near(expected_shares(c, w, tmap), c['teff'][0]) == 0)
    rec.label('ambiguous pixels', amb.any())
    rec.hit(n_seen >= 2)


@st.composite
def mu_case(draw):
    return dict(limb=draw(gen.limb()), mu=draw(st.lists(st.one_of(gen.fl(-1., 1.), st.sampled_from([0., 1., -1., 0.5])), min_size=1, max_size=20)),
                grid=draw(gen.grid(8, 8, 60)), obs=draw(gen.obs()))


@law('C02', mu_case, quick=500, rule='visible and hidden points are both present')
def limb_laws(c, rec):
    """Quadratic limb darkening, with and without the projection factor; nothing from behind the limb."""
    star = make_star(dict(EX_BASE, limb=c['limb'], grid=c['grid']))
    mu = np.array(c['mu'])
    u1, u2 = c['limb']
    keep = mu.copy()
    m1 = finite(star.ld_mask(mu), None, 'limb-darkening mask', mu.shape)
    m2 = finite(star.ld_mask_for_plotting(mu), None, 'limb-darkening mask', mu.shape)
    pr = finite(star.area_projection_coefficient(mu), None, 'projection coefficient', mu.shape)
    require(np.array_equal(mu, keep), 'a limb-darkening function changed its input')
    require(np.allclose(m1, np.where(mu < 0, 0, 1-(u1+1)*(1-mu)-u2*(1-mu)**2), atol=1e-12), 'limb-darkening law with projection')
    require(np.allclose(m2, ref.ld(mu, u1, u2), atol=1e-12), 'limb-darkening law')
    require(np.allclose(pr, np.clip(mu, 0, None), atol=1e-15), 'projection coefficient')
    lat, lon = grid_arrays(star.gridmaker, c['grid'])
    got = finite(star.get_mu(Q(c['obs']['lat']), Q(c['obs']['lon'])), None, 'mu', lat.shape)
    require(np.allclose(got, ref.cos_from_center(ref.val(c['obs']['lat']), ref.val(c['obs']['lon']), lat, lon), atol=1e-9), 'mu')
    j = finite(star.get_jacobian(), None, 'pixel areas', lat.shape)
    require(abs(j.sum()-1) < 1e-5, 'pixel areas do not add up to the sphere')
    rec.hit(bool((mu < 0).any() and (mu > 0).any()))


@st.composite
def central_cap(draw):
    rs = draw(gen.star_radius())
    a = draw(gen.fl(0.25, 1.5))
    area = 2*math.pi*(1-math.cos(a))*ref.val(rs)**2
    o = draw(gen.obs())
    s = dict(SPOT, lat=o['lat'], lon=o['lon'], area=[area, 'km2'], area_max=[area, 'km2'], tu=[2700., 'K'], tp=[2700., 'K'])
    return dict(EX_BASE, radius=rs, limb=draw(gen.limb()), obs=o, spots=[s], a=a,
                grid=draw(st.one_of(gen.rect_grid(80, 140, 30, 60), gen.spiral_grid(8000, 1500))))


@law('C02', central_cap, quick=150, rule='every case')
def central_spot_fraction(c, rec):
    """A spot at disk center blocks the analytic limb-darkened share of the disk, to grid accuracy."""
    star, tot, _, _ = observe(c)
    got = sum(v for T, v in tot if abs(T-2700) < 0.01)
    want = ref.cap_flux_fraction(c['a'], *c['limb'])
    h = math.sqrt(4*math.pi/np.prod(grid_shape(c['grid'])))
    if c['grid']['kind'] == 'rect':
        h = math.hypot(math.pi/(c['grid']['nlat']-1), 2*math.pi/c['grid']['nlon'])
    tol = 1.3*h*math.sin(2*c['a'])*0.75 + 1.5*h*h + 0.01*h
    require(abs(got-want) <= abs(tol)+0.3*h*h, lambda: f'spot of {math.degrees(c["a"]):.1f} deg at disk center: {got} of the light, exact {want} (tolerance {tol:.2g})')
    rec.hit()


# ---------------------------------------------------------------- C14

@st.composite
def symmetric_scene(draw):
    c = draw(gen.scene(nspots=4, nfac=3))
    c['gfrac'] = draw(gen.fl(0., 1.))
    op = draw(st.sampled_from(['rotate', 'mirror', 'wrap', 'wrap']))
    if op != 'wrap' and c['grid']['kind'] == 'spiral':
        op = 'wrap'
    c['op'] = op
    c['k'] = draw(st.integers(1, 30))
    c['turns'] = [draw(st.sampled_from([-1, 0, 1, 2])) for _ in range(1+len(c['spots'])+len(c['faculae']))]
    return c


def _shift(q, rad):
    return [q[0]+rad/ref.UNITS[q[1]], q[1]]


def transform(c):
    d = copy.deepcopy(c)
    items = [d['obs']]+d['spots']+d['faculae']
    if c['op'] == 'rotate':
        dl = 2*math.pi*c['k']/c['grid']['nlon']
        for it in items:
            it['lon'] = _shift(it['lon'], dl)
    elif c['op'] == 'mirror':
        for it in items:
            it['lat'] = [-it['lat'][0], it['lat'][1]]
    else:
        for it, t in zip(items, c['turns']):
            it['lon'] = _shift(it['lon'], 2*math.pi*t)
    return d


@law('C14', symmetric_scene, quick=1200, rule='features of at least two temperatures are visible')
def scene_symmetry(c, rec):
    """Turning star and observer together, mirroring north-south, or adding whole turns changes no fraction."""
    s1 = make_star(c)
    lat, lon, mu, w = weights(c, s1)
    if w.sum() < 1e-6:
        return
    s1, t1, _, _ = observe(c, s1)
    d = transform(c)
    s2, t2, _, _ = observe(d)
    tmap, amb = ref_map(c, lat, lon)
    tol = 3e-6 + 2*float(w[amb].sum()/w.sum())
    compare(t2, dict(t1), tol, f'fraction after {c["op"]}')
    compare(t1, dict(t2), tol, f'fraction before {c["op"]}')
    if c['op'] == 'wrap' and not amb.any():
        m1 = finite(s1.add_faculae_to_map(Q(c['obs']['lat']), Q(c['obs']['lon'])), u.K, 'map', grid_shape(c['grid']))
        m2 = finite(s2.add_faculae_to_map(Q(d['obs']['lat']), Q(d['obs']['lon'])), u.K, 'map', grid_shape(c['grid']))
        require(np.max(np.abs(m1-m2)) < 1e-6, 'adding whole turns to a longitude changes the surface map')
    rec.label(c['op'])
    rec.hit(sum(v > 1e-4 for _, v in t1) >= 2 and (c['op'] != 'wrap' or any(c['turns'])))


@st.composite
def rotated_transit(draw):
    c = draw(gen.scene(nspots=2, nfac=0, gran=False, gridstrat=gen.rect_grid(24, 36)))
    c['planet'] = draw(gen.planet(ref.val(c['radius']), transit=True, maxrp=0.8))
    c['op'] = draw(st.sampled_from(['rotate', 'wrap']))
    c['k'] = draw(st.integers(1, 30))
    c['turns'] = [draw(st.sampled_from([-1, 0, 1, 2])) for _ in range(1+len(c['spots']))]
    c['gfrac'] = 0.
    return c


@law('C14', rotated_transit, quick=300, rule='the planet covers something')
def transit_symmetry(c, rec):
    """Turning star and observer together leaves what a planet covers unchanged."""
    s1 = make_star(c)
    lat, lon, mu, w = weights(c, s1)
    if w.sum() < 1e-6:
        return
    s1, t1, c1, _ = observe(c, s1)
    s2, t2, c2, _ = observe(transform(c))
    # pixel positions are rounded in the code; allow part of one pixel
    tmap, amb = ref_map(c, lat, lon)
    a, b = sum(v for _, v in c1), sum(v for _, v in c2)
    tol = 1e-3*max(a, b) + 0.3*w.max()/w.sum()
    require(abs(a-b) <= tol, lambda: f'light covered by the planet changes from {a} to {b} when star and observer turn together')
    rec.hit(a > 1e-3)


# ---------------------------------------------------------------- C23

@law('C23', lambda: gen.scene(nspots=4, nfac=3).map(lambda c: dict(c, gfrac=0.)), quick=1000,
     examples=[{k: v for k, v in e.items() if k not in ('planet',)} for e in EXAMPLES[:2]],
     rule='at least two temperatures share the disk')
def mean_temperature(c, rec):
    """The mean effective temperature is the fourth-power mean over the disk's light shares."""
    star = make_star(c)
    lat, lon, mu, w = weights(c, star)
    if w.sum() < 1e-6:
        return
    got = finite(star.average_teff(obs_dict(c['obs'])), u.K, 'average Teff')
    tmap, amb = ref_map(c, lat, lon)
    seen = w > 0
    want = (np.sum(w*tmap**4)/w.sum())**0.25
    tol = 0.01 + float(w[amb].sum()/w.sum())*(tmap.max()**4-min(2300, tmap.min())**4)/(4*want**3)*1.5
    require(abs(got-want) <= tol, lambda: f'average Teff {got} K, the fourth-power mean is {want} K')
    require(tmap[seen].min()-tol <= got <= tmap[seen].max()+tol, 'average Teff outside the range of visible temperatures')
    rec.hit(len(np.unique(tmap[w > 0])) >= 2)


@st.composite
def add_cool(draw):
    c = draw(gen.scene(nspots=2, nfac=0, gran=False))
    c['extra'] = draw(gen.spot(ref.val(c['radius']), tmax=2299))
    c['extra']['lat'], c['extra']['lon'] = c['obs']['lat'], c['obs']['lon']
    c['gfrac'] = 0.
    return c


@law('C23', add_cool, quick=250, rule='the added spot covers at least one visible pixel')
def cool_spot_lowers_mean(c, rec):
    """A spot cooler than everything in view can only lower the mean temperature."""
    s1 = make_star(c)
    lat, lon, mu, w = weights(c, s1)
    if w.sum() < 1e-6:
        return
    a = finite(s1.average_teff(obs_dict(c['obs'])), u.K, 'average Teff')
    s1.add_spot(make_spot(c['extra']))
    b = finite(s1.average_teff(obs_dict(c['obs'])), u.K, 'average Teff')
    sr = ref.cap_angle(ref.val(c['extra']['area']), ref.val(c['radius']))
    inside = ref.ang_dist(ref.val(c['extra']['lat']), ref.val(c['extra']['lon']), lat, lon) < sr-1e-6
    cooler = all(c['extra']['tp'][0] < s['tu'][0] for s in c['spots']) and c['extra']['tp'][0] < c['teff'][0]
    if cooler:
        require(b <= a+0.011, f'adding a cooler spot raised the average Teff from {a} to {b} K')
        share = float(w[inside].sum()/w.sum())
        if share > 1e-3:
            require(b < a, 'adding a cooler spot in view left the average Teff unchanged')
            rec.hit()


# ---------------------------------------------------------------- C26

KINDS = [gen.ANGLE, gen.TIME, gen.LENGTH + ['R_jup'], gen.AREA, gen.RATE, gen.ARATE, gen.ENERGY, gen.SLOPE]


def reunit(draw, x):
    """The same case with every quantity in another unit."""
    if isinstance(x, list) and len(x) == 2 and isinstance(x[1], str):
        for units in KINDS:
            if x[1] in units:
                un = draw(st.sampled_from(units))
                return [x[0]*ref.UNITS[x[1]]/ref.UNITS[un], un] if un != x[1] else x
        return x
    if isinstance(x, list):
        return [reunit(draw, v) for v in x]
    if isinstance(x, dict):
        return {k: reunit(draw, v) for k, v in x.items()}
    return x


@st.composite
def two_units(draw):
    c = draw(scenes(nspots=3, nfac=2))
    for s in c['spots']:
        # away from the transition between growth and decay
        s['growing'] = bool(s['growing'] and ref.val(s['growth']) > 0 and ref.val(s['area_max']) > 1.01*ref.val(s['area']))
    c['steps'] = draw(st.lists(gen.in_unit(gen.logf(1e-3, 30.), gen.TIME), max_size=3))
    d = reunit(draw, c)
    return dict(a=c, b=d)


@law('C26', two_units, quick=800, rule='a feature is in view')
def same_in_any_unit(c, rec):
    """Physically identical inputs in different units give the same sizes, evolution, fractions and planet."""
    res = []
    for x in (c['a'], c['b']):
        star = make_star(x)
        for t in x['steps']:
            star.age(Q(t))
        if weights(x, star)[3].sum() < 1e-6 or clash(star):
            return      # no lit pixel of this grid faces the observer, or a facula has one temperature by now
        res.append((star,) + observe(x, star)[1:])
    (s1, t1, c1, p1), (s2, t2, c2, p2) = res
    sp1, sp2 = seq(s1.spots.spots), seq(s2.spots.spots)
    fa1, fa2 = seq(s1.faculae.faculae), seq(s2.faculae.faculae)
    x = c['a']
    for m, s in zip([m for m in sp1], sp2):
        a, b = finite(m.area_current, u.km**2), finite(s.area_current, u.km**2)
        require(abs(a-b) <= 1e-7*finite(m.area_max, u.km**2), f'spot area {a} or {b} km2 depending on the units of the input')
    for m, s in zip(fa1, fa2):
        a, b = finite(m.radius, u.km), finite(s.radius, u.km)
        require(abs(a-b) <= 1e-7*a, f'facula radius {a} or {b} km depending on the units of the input')
    if len(sp1) != len(sp2) or len(fa1) != len(fa2):
        # only legitimate when a feature is within rounding of its end
        edge = any(finite(s.area_current, u.km**2) < 1e-6*finite(s.area_max, u.km**2) for s in sp1+sp2) or any(
            abs(finite(f.radius, u.km)/finite(f.r_max, u.km)*math.e**2-1) < 1e-6 for f in fa1+fa2)
        require(edge, f'{len(sp1)} or {len(sp2)} spots, {len(fa1)} or {len(fa2)} faculae depending on the units of the input')
        return
    lat, lon, mu, w = weights(x, s1)
    if w.sum() < 1e-6:
        return
    spots = [dict(lat=ref.val(s['lat']), lon=ref.val(s['lon'])) for s in x['spots']]
    # pixels at an edge, by the state the first star is in
    refspots = [dict(lat=finite(m.coords['lat'], u.rad), lon=finite(m.coords['lon'], u.rad), area=finite(m.area_current, u.km**2),
                     tu=finite(m.teff_umbra, u.K), tp=finite(m.teff_penumbra, u.K), ratio=m.total_area_over_umbra_area) for m in sp1]
    facs = []
    skip = False
    for m in fa1:
        f = dict(lat=[finite(m.lat, u.rad), 'rad'], lon=[finite(m.lon, u.rad), 'rad'], r=[finite(m.radius, u.km), 'km'],
                 depth=[finite(m.depth, u.km), 'km'], floor_min_rad=[finite(m.floor_teff_min_rad, u.km), 'km'],
                 wall_slope=[finite(m.wall_teff_slope, u.K/u.km), 'K/km'], wall_icpt=[finite(m.wall_teff_intercept, u.K), 'K'],
                 floor_slope=[finite(m.floor_teff_slope, u.K/u.km), 'K/km'], floor_base=[finite(m.floor_teff_base_dteff, u.K), 'K'])
        r = ref.FaculaRef(f)
        facs.append(r)
        skip |= abs(r.r-r.min_rad) < 1e-6*r.r
        for dt in (r.wall_dteff, r.floor_dteff):
            skip |= abs(abs(dt-math.floor(dt))-0.5) < 1e-5
    tmap, amb = ref_map(x, lat, lon, spots=refspots, facs=facs)
    if skip:
        return
    tol = 1e-6 + 2*float(w[amb].sum()/w.sum())
    compare(t2, dict(t1), tol, 'fraction in other units')
    compare(t1, dict(t2), tol, 'fraction in the first units')
    require(abs(p1-p2) < 1e-6, f'planet fraction {p1} or {p2} depending on the units of the input')
    a, b = sum(v for _, v in c1), sum(v for _, v in c2)
    require(abs(a-b) <= 1e-3*a+0.3*w.max()/w.sum(), f'covered light {a} or {b} depending on the units of the input')
    rec.label('aged', len(x['steps']) > 0)
    rec.label('transit', a > 0)
    rec.hit(sum(v > 1e-6 for _, v in t1) >= 2)


# ---------------------------------------------------------------- C28

@st.composite
def quiet_star(draw):
    return dict(grid=draw(gen.grid(30, 40, 1500)), teff=draw(gen.photosphere()), radius=draw(gen.star_radius()),
                period=draw(gen.in_unit(gen.logf(0.1, 100.), gen.TIME)), limb=draw(gen.limb()), obs=draw(gen.obs()),
                steps=draw(st.lists(gen.in_unit(gen.logf(1e-2, 1e4), gen.TIME), min_size=1, max_size=4)),
                explicit=draw(st.booleans()), seed=draw(st.integers(0, 10**6)), spots=[], faculae=[],
                coverage=draw(st.sampled_from([0, 0.])), times=draw(st.integers(1, 5)))


@law('C28', quiet_star, quick=700, rule='every case (time passes on a star with everything switched off)')
def switched_off(c, rec):
    """With every source of variability off, nothing is ever born and the star shows only its photosphere."""
    rng = np.random.default_rng(c['seed'])
    gp = grid_params(c['grid'])
    kw = {}
    if c['explicit']:
        kw = dict(spot_generator=SpotGenerator.off(grid_params=gp, rng=rng), fac_generator=FaculaGenerator.off(grid_params=gp, rng=rng),
                  flare_generator=FlareGenerator.off(rng=rng))
        c = dict(c)
    star = make_star(dict(c, gran=None), rng=rng, **kw)
    for t in c['steps']:
        star.birth_spots(Q(t))
        star.birth_faculae(Q(t))
        star.age(Q(t))
    star.generate_mature_spots(c['coverage'])
    require(len(seq(star.spots.spots)) == 0, 'a switched-off spot generator made spots')
    require(len(seq(star.faculae.faculae)) == 0, 'a switched-off facula generator made faculae')
    star.get_flares_over_observation(Q(c['steps'][0]))
    require(len(seq(star.flares.flares)) == 0, 'a switched-off flare generator made flares')
    out = star.get_flare_int_over_timeperiod(0*u.hr, Q(c['steps'][0]), obs_dict(c['obs']))
    require(len(seq(out)) == 0, 'flare integrals from a star without flares')
    tt = np.linspace(0, 10, c['times'])*u.hr
    g = finite(star.get_granulation_coverage(tt), None, 'granulation coverage', tt.shape)
    require(not np.any(g), 'granulation is switched off but its coverage is not zero')
    m = finite(star.map, u.K, 'surface map', grid_shape(c['grid']))
    require(np.max(np.abs(m-c['teff'][0])) < 1e-9, 'the surface of a quiet star is not uniform')
    _, _, _, w = weights(c, star)
    if w.sum() < 1e-6:
        return
    for gf in (0., 0.4):
        tot, cov, pl = star.calc_coverage(obs_dict(c['obs']), granulation_fraction=gf)
        tot, cov = coverage_dict(tot), coverage_dict(cov)
        require(abs(near(dict(tot), c['teff'][0])-1) < 1e-6 and abs(sum(v for _, v in tot)-1) < 1e-6,
                f'a quiet star shows {tot}')
        require(sum(v for _, v in cov) == 0 and pl == 1, 'something covers a star without planet')
    require(abs(finite(star.average_teff(obs_dict(c['obs'])), u.K)-c['teff'][0]) < 0.011, 'average Teff of a quiet star')
    require(star.spots.get_coverage(Q(c['radius'])) == 0, 'spot coverage of a star without spots')
    rec.label('explicit off generators', c['explicit'])
    rec.hit()


@st.composite
def zero_flare(draw):
    return dict(seed=draw(st.integers(0, 10**6)), time=draw(gen.in_unit(gen.logf(0.1, 1e4), gen.TIME)),
                alpha=draw(gen.fl(-2., -0.2)), beta=draw(gen.fl(5., 40.)), unit=draw(st.sampled_from(['erg', 'J'])))


@law('C28', zero_flare, quick=300, rule='every case')
def infinite_minimum_energy(c, rec):
    """An infinite minimum flare energy switches flares off, for any frequency law."""
    g = FlareGenerator(dist_teff_mean=9000*u.K, dist_teff_sigma=500*u.K, dist_fwhm_mean=3*u.hr, dist_fwhm_logsigma=0.3,
                       alpha=c['alpha'], beta=c['beta'], min_energy=np.inf*{'erg': u.erg, 'J': u.J}[c['unit']],
                       rng=np.random.default_rng(c['seed']))
    require(finite(g.get_ntotal(Q(c['time'])), None, 'expected flares') == 0, 'flares are expected above infinite energy')
    require(len(seq(g.generate_flare_series(Q(c['time'])))) == 0, 'flares were made above infinite energy')
    rec.hit()
