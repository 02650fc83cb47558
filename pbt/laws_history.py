"""C06 bookkeeping, C07 grid adoption, C21 observing, C22 seeds, C27 plots."""
import copy
import math
import numpy as np
from astropy import units as u
from hypothesis import strategies as st

from pbt.core import law, require, Violation
from pbt import ref, gen
from pbt.build import (Q, make_star, make_spot, make_facula, make_grid, make_granulation, finite, num, seq, grid_arrays, grid_params,
                       grid_shape, obs_dict, planet_kw, transit_kw, coverage_dict, ref_map, clash, MSH, SpotCollection, FaculaCollection,
                       SpotGenerator, FaculaGenerator, FlareGenerator, FlareCollection, StellarFlare, StarSpot, Facula, Star, CoordinateGrid)
from pbt.laws_generators import spot_gen, fac_gen, spotgen, facgen
from pbt.laws_coverage import fix_planet
from pbt.laws_transit import planet_xy

RS = 500000.        # km; radius of the star in the histories
SMALL = {'kind': 'spiral', 'n': 12}


def small_spotgen():
    """A generator whose spots are small compared with RS, few births per day."""
    return spotgen().map(lambda g: dict(g, coverage=0.002))


def small_facgen():
    return facgen().map(lambda g: dict(g, coverage=0.0005, r=gen.as_unit(max(2000., min(20000., ref.val(g['r']))), 'km'),
                                       life=[max(0.5, ref.val(g['life'])), 'd']))


# ---------------------------------------------------------------- C06

@st.composite
def op(draw):
    k = draw(st.sampled_from(['add_spot', 'add_spot', 'add_fac', 'add_fac', 'age', 'age', 'age', 'clean', 'birth_spots', 'birth_fac', 'mature',
                              'kill', 'look']))
    o = dict(op=k)
    if k == 'add_spot':
        o['items'] = draw(st.lists(gen.spot(RS, fmax=0.2), max_size=3))
        o['how'] = draw(st.sampled_from(['one', 'list', 'tuple']))
        o['via'] = draw(st.sampled_from(['star', 'collection']))
    elif k == 'add_fac':
        o['items'] = draw(st.lists(gen.facula(RS), max_size=3))
        o['how'] = draw(st.sampled_from(['one', 'list', 'tuple']))
        o['via'] = draw(st.sampled_from(['star', 'collection']))
    elif k == 'age':
        o['t'] = draw(gen.in_unit(st.one_of(st.just(0.), gen.logf(1e-3, 1.), gen.logf(0.1, 300.)), gen.TIME))
        o['via'] = draw(st.sampled_from(['star', 'star', 'collections']))
    elif k in ('birth_spots', 'birth_fac'):
        o['t'] = draw(gen.in_unit(gen.logf(0.01, 2.), gen.TIME))
    elif k == 'mature':
        o['cov'] = draw(st.sampled_from([0., 0.001, 0.004]))
    elif k == 'kill':
        o['i'] = draw(st.integers(0, 5))
        o['growing'] = draw(st.booleans())
    return o


@st.composite
def history(draw):
    return dict(spots=draw(st.lists(gen.spot(RS, fmax=0.2), max_size=3)), faculae=draw(st.lists(gen.facula(RS), max_size=3)),
                sg=draw(small_spotgen()), fg=draw(small_facgen()), ops=draw(st.lists(op(), min_size=1, max_size=12)),
                seed=draw(st.integers(0, 10**6)))


def history_star(c, grid=SMALL, seed=None, **kw):
    rng = np.random.default_rng(c['seed'] if seed is None else seed)
    sc = dict(grid=grid, teff=[3300., 'K'], radius=[RS, 'km'], period=[1., 'd'], limb=[0., 0.], spots=[], faculae=[])
    sp = [make_spot(s) for s in c['spots']]
    fa = [make_facula(f) for f in c['faculae']]
    gp = grid_params(grid)
    star = make_star(sc, spots=SpotCollection(*sp, grid_params=gp), faculae=FaculaCollection(*fa, grid_params=gp), rng=rng,
                     spot_generator=spot_gen(c['sg'], rng, grid_params=gp), fac_generator=fac_gen(c['fg'], rng, grid_params=gp), **kw)
    return star, sp, fa


class SpotEntry:
    def __init__(self, obj):
        self.obj = obj
        self.sync()

    def sync(self):
        s = self.obj
        self.m = ref.SpotModel(finite(s.area_current, u.km**2, 'spot area'), finite(s.area_max, u.km**2), bool(s.is_growing),
                               finite(s.growth_rate, 1/u.day), finite(s.decay_rate, u.km**2/u.day))

    def age(self, t):
        """None if it is within rounding of vanishing, else whether it must be gone."""
        m = self.m
        if m.growing and m.a <= 0:
            return False        # nothing to grow from
        if m.growing and m.k > 0 and m.amax < m.a:
            pass
        tm = m.time_to_max()
        left = t - tm
        raw = (m.amax if m.growing else m.a) - m.w*left if left > 0 else 1e300
        m.age(t)
        if not m.growing and abs(raw) <= 1e-9*m.amax and not (m.a == 0 and raw == 0 and left <= 0):
            return None
        if m.growing and abs(tm-t) < 1e-9*max(t, 1e-9) and m.a <= 1e-9*m.amax:
            return None
        return not m.growing and m.a <= 0

    def compare(self):
        a = finite(self.obj.area_current, u.km**2, 'spot area')
        require(abs(a-self.m.a) <= 1e-7*max(self.m.amax, self.m.a), f'spot area {a} km2 in the collection, the spot law gives {self.m.a}')


class FacEntry:
    def __init__(self, obj):
        self.obj = obj
        self.sync()

    def sync(self):
        f = self.obj
        self.m = ref.FaculaModel(finite(f.radius, u.km, 'facula radius'), finite(f.r_max, u.km), bool(f.is_growing), finite(f.lifetime, u.day))

    def age(self, t):
        m = self.m
        tm = m.time_to_max()
        m.age(t)
        if abs(m.dead_ratio-1) < 1e-9 or abs(tm-t) < 1e-12*max(1., t) and abs(m.dead_ratio-1) < 1e-6:
            return None
        return not m.growing and m.dead_ratio <= 1

    def compare(self):
        r = finite(self.obj.radius, u.km, 'facula radius')
        require(abs(r-self.m.r) <= 1e-7*self.m.rmax, f'facula radius {r} km in the collection, the facula law gives {self.m.r}')


def same_members(got, want, what, ordered):
    g, w = [id(x) for x in got], [id(e.obj) for e in want]
    if not ordered:
        g, w = sorted(g), sorted(w)
    if g != w:
        extra = len(set(g)-set(w))
        missing = len(set(w)-set(g))
        raise Violation(f'{what}: {len(g)} in the collection, {len(w)} expected ({missing} missing, {extra} unexpected'
                        + (', order or multiplicity differs)' if not extra and not missing else ')'))


@law('C06', history, quick=900, rule='features were added, time passed, and at least one was removed and one kept')
def lifecycle(c, rec):
    """Exactly the features that were added or born and have not died are on the star, with the state the laws give them."""
    star, sp, fa = history_star(c)
    other, osp, ofa = history_star(c, seed=1)
    other_state = [finite(s.area_current, u.km**2) for s in osp]+[finite(f.radius, u.km) for f in ofa]
    S, F = [SpotEntry(s) for s in sp], [FacEntry(f) for f in fa]
    same_members(seq(star.spots.spots), S, 'spots', False)
    same_members(seq(star.faculae.faculae), F, 'faculae', True)
    removed = kept = 0
    for o in c['ops']:
        k = o['op']
        if k in ('add_spot', 'add_fac'):
            spots = k == 'add_spot'
            objs = [make_spot(x) if spots else make_facula(x) for x in o['items']]
            coll = star.spots if spots else star.faculae
            add = {('star', True): star.add_spot, ('star', False): star.add_fac}.get((o['via'], spots)) or (
                coll.add_spot if spots else coll.add_faculae)
            if o['how'] == 'one':
                for x in objs:
                    add(x)
            else:
                add(list(objs) if o['how'] == 'list' else tuple(objs))
            (S if spots else F).extend([SpotEntry(x) if spots else FacEntry(x) for x in objs])
        elif k == 'age':
            t = Q(o['t'])
            if o['via'] == 'star':
                star.age(t)
            else:
                star.spots.age(t)
                star.faculae.age(t)
            for L, members in ((S, seq(star.spots.spots)), (F, seq(star.faculae.faculae))):
                ids = {id(x) for x in members}
                for e in list(L):
                    gone = e.age(ref.val(o['t']))
                    if gone is None:
                        gone = id(e.obj) not in ids
                        e.sync()
                    if gone:
                        L.remove(e)
                        removed += 1
                    else:
                        kept += 1
        elif k == 'clean':
            star.spots.clean_spotlist()
            star.faculae.clean_faclist()
            # features that were added already dead are dropped now
            S = [e for e in S if e.m.growing or e.m.a > 0]
            dead = [e for e in F if not e.m.growing and e.m.dead_ratio <= 1-1e-9]
            unsure = [e for e in F if not e.m.growing and abs(e.m.dead_ratio-1) < 1e-9]
            ids = {id(x) for x in seq(star.faculae.faculae)}
            F = [e for e in F if e not in dead and not (e in unsure and id(e.obj) not in ids)]
        elif k == 'kill' and S:
            e = S[o['i'] % len(S)]
            e.obj.area_current = 0*MSH
            e.obj.is_growing = o['growing']
            e.sync()
            star.spots.clean_spotlist()
            if not o['growing']:
                S.remove(e)
                removed += 1
            S = [x for x in S if x.m.growing or x.m.a > 0]
        elif k in ('birth_spots', 'mature'):
            old = {id(e.obj) for e in S}
            twin = copy.deepcopy(star.spot_generator)
            star.birth_spots(Q(o['t'])) if k == 'birth_spots' else star.generate_mature_spots(o['cov'])
            now = [SpotEntry(x) for x in seq(star.spots.spots) if id(x) not in old]
            made = seq(twin.birth_spots(Q(o['t']), star.radius) if k == 'birth_spots' else twin.generate_mature_spots(o['cov'], star.radius))
            require(len(now) == len(made), f'{k}: the generator makes {len(made)} spots, {len(now)} came on the star')
            S += now
        elif k == 'birth_fac':
            old = {id(e.obj) for e in F}
            twin = copy.deepcopy(star.fac_generator)
            star.birth_faculae(Q(o['t']))
            now = [FacEntry(x) for x in seq(star.faculae.faculae) if id(x) not in old]
            made = seq(twin.birth_faculae(Q(o['t']), star.radius))
            require(len(now) == len(made), f'{k}: the generator makes {len(made)} faculae, {len(now)} came on the star')
            F += now
        elif k == 'look':
            star.map
            if not clash(star):
                star.calc_coverage({'lat': 10*u.deg, 'lon': 20*u.deg})
        same_members(seq(star.spots.spots), S, f'spots after {k}', False)
        same_members(seq(star.faculae.faculae), F, f'faculae after {k}', True)
        for e in S+F:
            e.compare()
        rec.label(k)
    same_members(seq(other.spots.spots), [SpotEntry(s) for s in osp], 'spots of another star', False)
    same_members(seq(other.faculae.faculae), [FacEntry(f) for f in ofa], 'faculae of another star', True)
    require(other_state == [finite(s.area_current, u.km**2) for s in osp]+[finite(f.radius, u.km) for f in ofa],
            'the history of one star changed the features of another')
    rec.hit(removed > 0 and kept > 0)


# ---------------------------------------------------------------- C07

@st.composite
def foreign(draw):
    c = draw(gen.scene(nspots=3, nfac=3, gran=False, maxlat=16, maxlon=20, maxn=250))
    rkm = ref.val(c['radius'])
    c['extra'] = draw(st.lists(gen.spot(rkm), max_size=2))
    c['extrafac'] = draw(st.lists(gen.facula(rkm), max_size=2))
    n = len(c['spots'])+len(c['faculae'])+len(c['extra'])+len(c['extrafac'])
    c['grids'] = [draw(gen.grid(16, 20, 250)) for _ in range(n+4)]
    if draw(st.booleans()):
        # a foreign grid with the same number of points
        for i in range(len(c['grids'])):
            if draw(st.booleans()):
                g = c['grid']
                if g['kind'] == 'rect':
                    c['grids'][i] = draw(st.sampled_from([{'kind': 'rect', 'nlat': max(3, g['nlon']), 'nlon': max(3, g['nlat'])},
                                                          {'kind': 'spiral', 'n': g['nlat']*g['nlon']}, dict(g)]))
                else:
                    c['grids'][i] = dict(g)
    c['sg'] = draw(spotgen().map(lambda g: dict(g, coverage=0.05)))
    c['fg'] = draw(facgen().map(lambda g: dict(g, coverage=0.05, r=[0.2*rkm, 'km'])))
    # spots of the generator: about 0.01 of the star each
    c['sg']['mean'], c['sg']['init'] = [0.01*4*math.pi*rkm**2, 'km2'], [0.004*4*math.pi*rkm**2, 'km2']
    c['sg']['sigma'] = min(c['sg']['sigma'], 0.5)
    c['sg']['decay'] = [0.01*4*math.pi*rkm**2/20. if c['sg']['decay'][0] else 0., 'km2/d']
    c['seed'] = draw(st.integers(0, 10**6))
    c['steps'] = draw(st.lists(st.sampled_from(['add_spot', 'add_fac', 'birth_spots', 'birth_fac', 'mature', 'age']), max_size=6))
    c['t'] = draw(gen.in_unit(gen.logf(0.1, 10.), gen.TIME))
    return c


def adopted(c, native):
    """The star of the case: every part built on the star's grid, or each on one of its own."""
    own = c['grid']
    it = iter(c['grids'])
    pick = (lambda: own) if native else (lambda: next(it))
    sp = [make_spot(s, grid=pick()) for s in c['spots']]
    fa = [make_facula(f, grid=pick()) for f in c['faculae']]
    extra = [make_spot(s, grid=pick()) for s in c['extra']]
    extrafac = [make_facula(f, grid=pick()) for f in c['extrafac']]
    rng = np.random.default_rng(c['seed'])
    star = make_star(c, spots=SpotCollection(*sp, grid_params=grid_params(pick())),
                     faculae=FaculaCollection(*fa, grid_params=grid_params(pick())), rng=rng,
                     spot_generator=spot_gen(c['sg'], rng, grid_params=grid_params(pick())),
                     fac_generator=fac_gen(c['fg'], rng, grid_params=grid_params(pick())))
    yield star
    for k in c['steps']:
        if k == 'add_spot' and extra:
            star.add_spot(extra.pop())
        elif k == 'add_fac' and extrafac:
            star.add_fac(extrafac.pop())
        elif k == 'birth_spots':
            star.birth_spots(Q(c['t']))
        elif k == 'birth_fac':
            star.birth_faculae(0.05*Q(c['fg']['life']))
        elif k == 'mature':
            star.generate_mature_spots(0.05)
        elif k == 'age':
            star.age(Q(c['t']))
        yield star


@law('C07', foreign, quick=500, rule='a feature or generator was made on another grid and features show on the surface')
def adopt_grid(c, rec):
    """Wherever a feature, collection or generator was made, on a star it lives on the star's grid."""
    shape = grid_shape(c['grid'])
    lat0, lon0 = Q(c['obs']['lat']), Q(c['obs']['lon'])
    seen = False
    for i, (a, b) in enumerate(zip(adopted(c, True), adopted(c, False))):
        what = 'when built' if i == 0 else f'after {c["steps"][i-1]}'
        m1 = finite(a.map, u.K, 'surface map', shape)
        m2 = finite(b.map, u.K, f'surface map of a star whose parts were made on other grids, {what}', shape)
        require(np.max(np.abs(m1-m2)) < 1e-6, f'the spot map {what} depends on the grid the parts were made on')
        if clash(a):
            return
        f1 = finite(a.add_faculae_to_map(lat0, lon0), u.K, 'map with faculae', shape)
        f2 = finite(b.add_faculae_to_map(lat0, lon0), u.K, f'map with faculae {what}', shape)
        require(np.max(np.abs(f1-f2)) < 1e-6, f'the facula map {what} depends on the grid the parts were made on')
        require(a.spots.get_coverage(Q(c['radius'])) == b.spots.get_coverage(Q(c['radius'])), f'spot coverage {what} depends on the grids of the parts')
        seen |= bool(np.ptp(f1) > 0)
    # what the star's generators make lives on its grid before it is added, too
    rs, teff = Q(c['radius']), Q(c['teff'])
    for x, y in zip(seq(a.spot_generator.generate_spots(2)), seq(b.spot_generator.generate_spots(2))):
        for p1, p2 in zip(x.map_pixels(rs).values(), y.map_pixels(rs).values()):
            require(np.shape(p2) == shape, f'a spot of the star\'s generator is mapped to shape {np.shape(p2)}, the star has {shape}')
            require(np.array_equal(p1, p2), 'a spot made by the generator of the star covers other points than one made on the grid of the star')
    for x, y in zip(seq(a.fac_generator.generate_faculae(2)), seq(b.fac_generator.generate_faculae(2))):
        p1, p2 = x.map_pixels(rs), y.map_pixels(rs)
        require(np.shape(p2) == shape, f'a facula of the star\'s generator is mapped to shape {np.shape(p2)}, the star has {shape}')
        require(np.array_equal(p1, p2), 'a facula made by the generator of the star covers other points than one made on the grid of the star')
    lat, lon = grid_arrays(b.gridmaker, c['grid'])
    mu = ref.cos_from_center(ref.val(c['obs']['lat']), ref.val(c['obs']['lon']), lat, lon)
    if ref.disk_weight(finite(b.gridmaker.area), mu, *c['limb']).sum() > 1e-6:
        t1 = coverage_dict(a.calc_coverage(obs_dict(c['obs']))[0])
        t2 = coverage_dict(b.calc_coverage(obs_dict(c['obs']))[0])
        require(len(t1) == len(t2) and all(abs(x[0]-y[0]) < 1e-6 and abs(x[1]-y[1]) < 1e-9 for x, y in zip(sorted(t1), sorted(t2))),
                'visible fractions depend on the grids of the parts')
    rec.label('other kind of grid', any(g['kind'] != c['grid']['kind'] for g in c['grids']))
    rec.label('same point count', any(np.prod(grid_shape(g)) == np.prod(shape) and g != c['grid'] for g in c['grids']))
    rec.hit(seen and any(g != c['grid'] for g in c['grids']))


@st.composite
def regrid(draw):
    c = draw(gen.scene(nspots=3, nfac=3, gran=False, maxlat=16, maxlon=20, maxn=250))
    c['g2'] = draw(gen.grid(16, 20, 250))
    if draw(st.booleans()) and c['grid']['kind'] == 'rect':
        # the same number of points in another layout
        g = c['grid']
        c['g2'] = draw(st.sampled_from([{'kind': 'rect', 'nlat': max(3, g['nlon']), 'nlon': max(3, g['nlat'])}, {'kind': 'spiral', 'n': g['nlat']*g['nlon']}]))
    c['late'] = draw(st.lists(gen.spot(ref.val(c['radius'])), max_size=2))
    c['latefac'] = draw(st.lists(gen.facula(ref.val(c['radius'])), max_size=2))
    return c


@law('C07', regrid, quick=500, rule='the two grids differ and a feature covers a point')
def collections_change_grid(c, rec):
    """A collection moved to another grid, before or after features join, maps them there."""
    g1, g2 = make_grid(c['grid']), make_grid(c['g2'])
    shape = grid_shape(c['g2'])
    rs, teff = Q(c['radius']), Q(c['teff'])
    A = SpotCollection(*[make_spot(s, gridmaker=g1) for s in c['spots']], gridmaker=g1)
    A.add_spot([make_spot(s, gridmaker=g1) for s in c['late'][:1]])
    A.map_pixels(rs, teff)
    A.set_gridmaker(g2)
    for s in c['late'][1:]:
        A.add_spot(make_spot(s, gridmaker=g1))
    B = SpotCollection(*[make_spot(s, gridmaker=g2) for s in c['spots']+c['late']], gridmaker=g2)
    m1, m2 = (finite(x.map_pixels(rs, teff), u.K, 'spot map', shape) for x in (A, B))
    require(np.max(np.abs(m1-m2)) < 1e-6, 'a collection moved to another grid maps its spots differently')
    require(A.get_coverage(rs) == B.get_coverage(rs), 'a collection moved to another grid has another coverage')
    FA = FaculaCollection(*[make_facula(f, gridmaker=g1) for f in c['faculae']], gridmaker=g1)
    FA.add_faculae([make_facula(f, gridmaker=g1) for f in c['latefac'][:1]])
    FA.set_gridmaker(g2)
    for f in c['latefac'][1:]:
        FA.add_faculae(make_facula(f, gridmaker=g1))
    FB = FaculaCollection(*[make_facula(f, gridmaker=g2) for f in c['faculae']+c['latefac']], gridmaker=g2)
    any_in = bool(np.ptp(m1) > 0)
    for x, y in zip(seq(FA.faculae), seq(FB.faculae)):
        p1, p2 = np.asarray(x.map_pixels(rs)), np.asarray(y.map_pixels(rs))
        require(p1.shape == shape, f'facula mapped to shape {p1.shape} after moving to a grid of shape {shape}')
        require(np.array_equal(p1, p2), 'a facula moved to another grid covers other points')
        any_in |= bool(p1.any())
    rec.hit(any_in and c['grid'] != c['g2'])


# ---------------------------------------------------------------- C21

def state(star):
    """Everything that describes the star, as plain numbers."""
    out = [float(star.teff.to_value(u.K)), float(star.radius.to_value(u.km)), float(star.period.to_value(u.day)), star.u1, star.u2]
    for s in star.spots.spots:
        out += [float(s.coords['lat'].to_value(u.rad)), float(s.coords['lon'].to_value(u.rad)), float(s.area_current.to_value(u.km**2)),
                float(s.area_max.to_value(u.km**2)), bool(s.is_growing), float(s.teff_umbra.to_value(u.K)), float(s.teff_penumbra.to_value(u.K)),
                float(s.total_area_over_umbra_area)]
    for f in star.faculae.faculae:
        out += [float(f.lat.to_value(u.rad)), float(f.lon.to_value(u.rad)), float(f.radius.to_value(u.km)), float(f.r_max.to_value(u.km)),
                bool(f.is_growing), float(f.lifetime.to_value(u.day)), float(f.depth.to_value(u.km))]
    for fl in (star.flares.flares if star.flares is not None else []):
        out += [float(fl.energy.to_value(u.erg)), float(fl.tpeak.to_value(u.day)), float(fl.fwhm.to_value(u.day)), float(fl.Teff.to_value(u.K))]
    g = star.granulation
    out += [float(g.dteff.to_value(u.K)), g.seed]
    return out


def observation(star, c, which):
    """One read-only question to the star; result as a comparable list."""
    lat0, lon0 = Q(c['obs']['lat']), Q(c['obs']['lon'])
    pl = planet_kw(c['planet']) if c.get('planet') else {}
    if which == 'map':
        return [finite(star.map, u.K, 'map').tolist()]
    if which == 'facmap':
        return [finite(star.add_faculae_to_map(lat0, lon0), u.K, 'map').tolist()]
    if which == 'coverage':
        a, b, p = star.calc_coverage(obs_dict(c['obs']), granulation_fraction=c['gfrac'], **pl)
        return [sorted(coverage_dict(a)), sorted(coverage_dict(b)), float(p)]
    if which == 'teff':
        return [finite(star.average_teff(obs_dict(c['obs'])), u.K, 'average Teff')]
    if which == 'transit':
        kw = transit_kw(c['planet']) if c.get('planet') else transit_kw(DEFAULT_PLANET)
        m, p = star.get_transit_mask(lat0, lon0, **kw)
        return [np.asarray(m, float).tolist(), float(p)]
    if which == 'mu':
        return [finite(star.get_mu(lat0, lon0), None, 'mu').tolist()]
    if which == 'spotcov':
        return [float(star.spots.get_coverage(star.radius))]
    if which == 'spotinfo':
        return [[finite(s.radius, u.km), finite(s.angular_radius(star.radius), u.rad), finite(s.surface_fraction(obs_dict(c['obs']), star.radius))]
                for s in star.spots.spots]
    if which == 'facinfo':
        out = []
        for f in star.faculae.faculae:
            out.append([finite(f.angular_radius(star.radius), u.rad), int(np.sum(f.map_pixels(star.radius)))])
        return out
    if which == 'flares':
        if star.flares is None:
            return []
        w = c.get('window', [0., 30.])
        r = star.get_flare_int_over_timeperiod(w[0]*u.hr, w[1]*u.hr, obs_dict(c['obs']))
        return [[finite(d['Teff'], u.K), finite(d['timearea'], u.km**2*u.day)] for d in r]
    if which == 'grid':
        g = star.gridmaker
        la, lo = g.grid()
        return [finite(x, un, 'grid').tolist() for x, un in ((la, u.rad), (lo, u.rad), (g.area, None), (star.get_jacobian(), None), (g.zeros(), None))]
    if which == 'display':
        sh = star.gridmaker.zeros().shape
        la, lo, d = star.gridmaker.display_grid(*((sh[1], sh[0]) if len(sh) == 2 else (5, 7)), star.map)
        return [finite(la).tolist(), finite(lo).tolist(), finite(d, u.K).tolist()]
    if which == 'str':
        return [str(s) for s in star.spots.spots]
    if which == 'gran':
        t = times_of(c)
        t0 = t.copy()
        out = finite(star.get_granulation_coverage(t), None, 'granulation coverage', t.shape).tolist()
        require(np.array_equal(t.value, t0.value), 'asking for granulation changed the times')
        return [out]
    raise KeyError(which)


def times_of(c):
    w = c.get('gtimes', [0., 1., 'h'])
    return (w[0]+w[1]*np.arange(12))*Q([1., w[2]])


DEFAULT_PLANET = dict(orbit=[5., 'R_sun'], radius=[0.2, 'R_sun'], phase=[178., 'deg'], inc=[90., 'deg'])
VIEWS = ['map', 'facmap', 'coverage', 'coverage', 'teff', 'transit', 'mu', 'spotcov', 'spotinfo', 'facinfo', 'flares', 'str', 'gran', 'grid', 'display']
EDITS = ['age', 'u1', 'teff', 'radius', 'area', 'temp', 'ratio', 'add_spot', 'add_fac', 'facradius', 'factemp', 'facdepth', 'gran', 'grandteff', 'granseed', 'replace',
         'replacefac', 'birth', 'drop', 'newflares', 'facmove', 'floortemp', 'flare']


@st.composite
def question(draw, c):
    """What is asked, by whom, with which planet: close relatives of the first observer and planet are common."""
    o = c['obs']
    k = draw(st.integers(0, 6))
    if k == 1:
        o = dict(lat=o['lat'], lon=draw(gen.lon()))
    elif k == 2:
        o = dict(lat=draw(gen.lat()), lon=o['lon'])
    elif k == 3:
        # the same numbers in another unit
        o = dict(lat=[o['lat'][0], 'deg' if o['lat'][1] != 'deg' else 'arcmin'], lon=[o['lon'][0], 'deg' if o['lon'][1] != 'deg' else 'rad'])
        if abs(ref.val(o['lat'])) > math.pi/2:
            o = c['obs']
    elif k == 4:
        o = draw(gen.obs())
    p = c['planet']
    if p and draw(st.booleans()):
        v = draw(st.integers(0, 4))
        if v <= 1:
            p = dict(p, phase=[p['phase'][0]+draw(st.sampled_from([1., -1., 3., 360.])), 'deg'])
        elif v == 2:
            p = dict(p, radius=[p['radius'][0]*draw(st.sampled_from([0.5, 0.9])), p['radius'][1]])
        elif v == 3:
            p = dict(p, orbit=[p['orbit'][0]*draw(st.sampled_from([0.8, 1.2])), p['orbit'][1]])
        else:
            p = dict(p, inc=gen.as_unit(math.pi-ref.val(p['inc']), 'deg'))
    q = dict(which=draw(st.sampled_from(VIEWS)), obs=o, planet=p, gfrac=draw(st.sampled_from([c['gfrac'], 0., 0.3])))
    if q['which'] == 'flares':
        a = draw(gen.fl(0., 29.))
        q['window'] = [a, a+draw(st.sampled_from([0.1, 1., 10.]))]
    if q['which'] == 'gran':
        q['gtimes'] = draw(st.sampled_from([[0., 1., 'h'], [0., 3., 'h'], [5., 1., 'h'], [5., -1., 'h'], [0., 1., 'd'], [0., 0.3, 'h']]))
    return q


@st.composite
def follow_up(draw, q):
    """The question just asked with one thing changed."""
    q = dict(q)
    kinds = ['obslat', 'obslon', 'gfrac', 'again']
    if q['which'] in ('coverage', 'transit'):
        kinds = ['obslat', 'obslon', 'gfrac', 'noplanet'] + ['phase', 'radius', 'orbit', 'inc']*2
    elif q['which'] == 'flares':
        kinds = ['obslat', 'obslon', 'start', 'end']
    elif q['which'] == 'gran':
        kinds = ['gtimes']
    k = draw(st.sampled_from(kinds))
    p = q['planet'] if q['planet'] else (DEFAULT_PLANET if q['which'] == 'transit' else None)
    if k == 'obslat':
        q['obs'] = dict(q['obs'], lat=draw(gen.lat()))
    elif k == 'obslon':
        q['obs'] = dict(q['obs'], lon=draw(gen.lon()))
    elif k == 'gfrac':
        q['gfrac'] = draw(gen.fl(0., 1.))
    elif k == 'noplanet':
        q['planet'] = None
    elif k == 'phase' and p:
        q['planet'] = dict(p, phase=gen.as_unit(ref.val(p['phase'])+draw(st.sampled_from([0.02, -0.02, 0.2, math.pi])), 'deg'))
    elif k == 'radius' and p:
        q['planet'] = dict(p, radius=[p['radius'][0]*draw(st.sampled_from([0.5, 0.9])), p['radius'][1]])
    elif k == 'orbit' and p:
        q['planet'] = dict(p, orbit=[p['orbit'][0]*draw(st.sampled_from([0.5, 0.8, 1.3])), p['orbit'][1]])
    elif k == 'inc' and p:
        q['planet'] = dict(p, inc=gen.as_unit(draw(st.sampled_from([math.pi-ref.val(p['inc']), ref.val(p['inc'])+0.05, ref.val(p['inc'])-0.2])), 'deg'))
    elif k == 'start':
        q['window'] = [draw(gen.fl(0., q['window'][1])), q['window'][1]]
    elif k == 'end':
        q['window'] = [q['window'][0], q['window'][0]+draw(st.sampled_from([0.05, 0.5, 5.]))]
    elif k == 'gtimes':
        a, b, un = q['gtimes']
        q['gtimes'] = draw(st.sampled_from([[a, 2*b, un], [a+1., b, un], [a, -b, un], [a, b, 'd' if un == 'h' else 'h']]))
    return q


@st.composite
def looking(draw):
    c = draw(gen.scene_with_planet(nspots=3, nfac=2, maxlat=14, maxlon=16, maxn=200, inbounds=True).map(fix_planet))
    rkm = ref.val(c['radius'])
    prev = None
    if c['planet'] and ref.val(c['planet']['radius']) > rkm:
        c['planet']['radius'] = gen.as_unit(0.7*rkm, 'km')
    steps = []
    for _ in range(draw(st.integers(2, 10))):
        if draw(st.booleans()):
            prev = draw(follow_up(prev)) if prev and draw(st.booleans()) else draw(question(c))
            steps.append(['look', prev])
        else:
            e = draw(st.sampled_from(EDITS))
            v = dict(i=draw(st.integers(0, 4)), x=draw(gen.fl(0.1, 0.99)))
            if e == 'add_spot' or e == 'replace':
                v['spot'] = draw(gen.spot(rkm))
            if e == 'add_fac' or e == 'replacefac':
                v['fac'] = draw(gen.facula(rkm))
            steps.append(['edit', e, v])
    steps.append(['look', draw(follow_up(prev)) if prev and draw(st.booleans()) else draw(question(c))])
    c['steps'] = steps
    c['sg'] = draw(spotgen(static=True).map(lambda g: dict(g, coverage=0.05, mean=[0.01*4*math.pi*rkm**2, 'km2'], init=[0.004*4*math.pi*rkm**2, 'km2'],
                                                           sigma=0.2)))
    c['seed'] = draw(st.integers(0, 10**6))
    return c


def apply_edit(star, e, v, c):
    sp, fa = list(star.spots.spots), list(star.faculae.faculae)
    x = v['x']
    if e == 'age':
        star.age(x*3*u.day)
    elif e == 'u1':
        star.u1, star.u2 = 0.5*x, 0.3*(1-x)
    elif e == 'teff':
        star.teff = (2600+1000*round(x, 3))*u.K
    elif e == 'radius':
        star.radius = star.radius*(1+x)
    elif e == 'area' and sp:
        s = sp[v['i'] % len(sp)]
        s.area_current = s.area_current*x
    elif e == 'temp' and sp:
        s = sp[v['i'] % len(sp)]
        s.teff_penumbra = 2900*u.K
        s.teff_umbra = (2400+round(300*x))*u.K
    elif e == 'ratio' and sp:
        sp[v['i'] % len(sp)].total_area_over_umbra_area = 1+8*x
    elif e == 'add_spot':
        star.add_spot(make_spot(v['spot']))
    elif e == 'add_fac':
        star.add_fac(make_facula(v['fac']))
    elif e == 'facradius' and fa:
        f = fa[v['i'] % len(fa)]
        f.radius = f.radius*x
    elif e == 'factemp' and fa:
        f = fa[v['i'] % len(fa)]
        f.wall_teff_intercept = f.wall_teff_intercept + (40+100*x)*u.K
    elif e == 'facdepth' and fa:
        f = fa[v['i'] % len(fa)]
        f.depth = f.depth*(1+4*x)
    elif e == 'facmove' and fa:
        f = fa[v['i'] % len(fa)]
        f.lat, f.lon = (60*x-20)*u.deg, (400*x)*u.deg
    elif e == 'floortemp' and fa:
        f = fa[v['i'] % len(fa)]
        f.floor_teff_base_dteff = f.floor_teff_base_dteff - (40+100*x)*u.K
    elif e == 'flare' and star.flares is not None and len(star.flares.flares):
        f = star.flares.flares[v['i'] % len(star.flares.flares)]
        f.energy, f.lon, f.Teff = f.energy*(1+x), f.lon+300*x*u.deg, f.Teff+1000*x*u.K
    elif e == 'newflares':
        star.get_flares_over_observation(30*u.hr)
    elif e == 'gran':
        c['gran'] = dict(mean=0.3, amp=0.1, period=[5., 'h'], dteff=[round(500*x), 'K'], seed=3)
        star.granulation = make_granulation(c['gran'])
    elif e == 'grandteff' and c.get('gran'):
        c['gran'] = dict(c['gran'], dteff=[round(400*x), 'K'])
        star.granulation.dteff = Q(c['gran']['dteff'])
    elif e == 'granseed' and c.get('gran'):
        c['gran'] = dict(c['gran'], seed=v['i']+5)
        star.granulation.seed = v['i']+5
    elif e == 'replace':
        star.spots = SpotCollection(make_spot(v['spot']), gridmaker=star.gridmaker)
    elif e == 'replacefac':
        star.faculae = FaculaCollection(make_facula(v['fac']), gridmaker=star.gridmaker)
    elif e == 'drop' and sp:
        s = sp[v['i'] % len(sp)]
        s.area_current = 0*MSH
        s.is_growing = False
        star.spots.clean_spotlist()
    elif e == 'birth':
        star.generate_mature_spots(0.02)


def rebuild(star, c):
    """A new star in the present state of another one."""
    sp, fa = [], []
    for s in star.spots.spots:
        sp.append(StarSpot(1*s.coords['lat'], 1*s.coords['lon'], 1*s.area_max, 1*s.area_current, 1*s.teff_umbra, 1*s.teff_penumbra,
                           area_over_umbra_area=s.total_area_over_umbra_area, is_growing=s.is_growing, growth_rate=1*s.growth_rate,
                           decay_rate=1*s.decay_rate, grid_params=8))
    for f in star.faculae.faculae:
        fa.append(Facula(lat=1*f.lat, lon=1*f.lon, r_max=1*f.r_max, r_init=1*f.radius, depth=1*f.depth, lifetime=1*f.lifetime,
                         floor_teff_slope=1*f.floor_teff_slope, floor_teff_min_rad=1*f.floor_teff_min_rad,
                         floor_teff_base_dteff=1*f.floor_teff_base_dteff, wall_teff_slope=1*f.wall_teff_slope,
                         wall_teff_intercept=1*f.wall_teff_intercept, growing=f.is_growing, grid_params=8))
    gp = grid_params(c['grid'])
    new = Star(teff=1*star.teff, radius=1*star.radius, period=1*star.period, spots=SpotCollection(*sp, grid_params=gp),
               faculae=FaculaCollection(*fa, grid_params=gp), grid_params=gp, granulation=make_granulation(c.get('gran')), u1=star.u1, u2=star.u2,
               rng=np.random.default_rng(0))
    if star.flares is not None:
        new.flares = FlareCollection([StellarFlare(fwhm=1*f.fwhm, energy=1*f.energy, lat=1*f.lat, lon=1*f.lon, Teff=1*f.Teff, tpeak=1*f.tpeak)
                                      for f in star.flares.flares])
    return new


def near_equal(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(near_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return abs(a-b) <= 1e-7*max(1., abs(a))


def clobber(star, c, which):
    """Ask a question and overwrite the answer in place, as a caller may."""
    lat0, lon0 = Q(c['obs']['lat']), Q(c['obs']['lon'])
    pl = planet_kw(c['planet']) if c.get('planet') else {}

    def wipe(x):
        try:
            if isinstance(x, u.Quantity):
                x[...] = 1*x.unit
            elif isinstance(x, np.ndarray):
                x[...] = 1
        except (ValueError, TypeError):      # a read-only answer is as good
            pass
    if which == 'map':
        wipe(star.map)
    elif which == 'facmap':
        wipe(star.add_faculae_to_map(lat0, lon0))
    elif which in ('coverage', 'teff'):
        for d in star.calc_coverage(obs_dict(c['obs']), granulation_fraction=c['gfrac'], **pl)[:2]:
            for k in list(d):
                d[k] = -1.
            d['1.00 K'] = 5.
    elif which == 'transit':
        wipe(star.get_transit_mask(lat0, lon0, **(transit_kw(c['planet']) if c.get('planet') else transit_kw(DEFAULT_PLANET)))[0])
    elif which == 'mu':
        m = star.get_mu(lat0, lon0)
        for fn in (star.ld_mask, star.ld_mask_for_plotting, star.area_projection_coefficient):
            wipe(fn(m))
        wipe(m)
    elif which == 'grid':
        for x in (*star.gridmaker.grid(), star.gridmaker.area, star.get_jacobian(), star.gridmaker.zeros()):
            wipe(x)
    elif which == 'display':
        sh = star.gridmaker.zeros().shape
        for x in star.gridmaker.display_grid(*((sh[1], sh[0]) if len(sh) == 2 else (5, 7)), star.map):
            wipe(x)
    elif which == 'spotinfo':
        for s in star.spots.spots:
            for m in s.map_pixels(star.radius).values():
                wipe(m)
    elif which == 'facinfo':
        for f in star.faculae.faculae:
            wipe(f.map_pixels(star.radius))
    elif which == 'gran':
        wipe(star.get_granulation_coverage(times_of(c)))
        wipe(star.granulation.get_coverage(times_of(c)))
    elif which == 'flares' and star.flares is not None:
        w = c.get('window', [0., 30.])
        for d in star.get_flare_int_over_timeperiod(w[0]*u.hr, w[1]*u.hr, obs_dict(c['obs'])):
            d.clear()
        star.flares.get_flares_in_timeperiod(w[0]*u.hr, w[1]*u.hr).clear()
        wipe(star.flares.mask(w[0]*u.hr, w[1]*u.hr))
        star.flares.get_visible_flares_in_timeperiod(w[0]*u.hr, w[1]*u.hr, obs_dict(c['obs'])).clear()


def present(star, c):
    """The scene that describes the star now, for the reference model."""
    q = lambda x, un: [float(x.to_value(un)), {u.rad: 'rad', u.km: 'km', u.K: 'K', u.day: 'd'}[un]]
    spots = [dict(lat=float(s.coords['lat'].to_value(u.rad)), lon=float(s.coords['lon'].to_value(u.rad)), area=float(s.area_current.to_value(u.km**2)),
                  tu=float(s.teff_umbra.to_value(u.K)), tp=float(s.teff_penumbra.to_value(u.K)), ratio=float(s.total_area_over_umbra_area))
             for s in star.spots.spots]
    facs = []
    for f in star.faculae.faculae:
        facs.append(ref.FaculaRef(dict(
            lat=q(f.lat, u.rad), lon=q(f.lon, u.rad), r=q(f.radius, u.km), r_max=q(f.r_max, u.km), depth=q(f.depth, u.km), life=q(f.lifetime, u.day),
            floor_min_rad=q(f.floor_teff_min_rad, u.km), floor_slope=[float(f.floor_teff_slope.to_value(u.K/u.km)), 'K/km'],
            floor_base=q(f.floor_teff_base_dteff, u.K), wall_slope=[float(f.wall_teff_slope.to_value(u.K/u.km)), 'K/km'],
            wall_icpt=q(f.wall_teff_intercept, u.K), growing=bool(f.is_growing))))
    return dict(c, radius=q(star.radius, u.km), teff=q(star.teff, u.K)), spots, facs


@law('C21', looking, quick=500, rule='the star was looked at before and after a change')
def looking_changes_nothing(c, rec):
    """Questions never change the star, give the same answer twice, and always answer for the present state."""
    c = dict(c)
    rng = np.random.default_rng(c['seed'])
    star = make_star(c, rng=rng, spot_generator=spot_gen(c['sg'], rng), flare_generator=FlareGenerator(
        dist_teff_mean=9000*u.K, dist_teff_sigma=500*u.K, dist_fwhm_mean=3*u.hr, dist_fwhm_logsigma=0.3, alpha=-0.8, beta=26.,
        min_energy=1e32*u.erg, rng=rng))
    star.get_flares_over_observation(30*u.hr)
    lat, lon = grid_arrays(star.gridmaker, c['grid'])
    area = finite(star.gridmaker.area)
    looked = edited = False
    hit = False
    for stp in c['steps']:
        if stp[0] == 'edit':
            apply_edit(star, stp[1], stp[2], c)
            edited = looked
            rec.label('edit ' + stp[1])
            continue
        q, which = dict(c, **stp[1]), stp[1]['which']
        mu = ref.cos_from_center(ref.val(q['obs']['lat']), ref.val(q['obs']['lon']), lat, lon)
        if np.sum(area*np.clip(mu, 0, None)**3) < 1e-6 or clash(star):
            continue
        if q.get('planet') and ref.val(q['planet']['radius']) >= 0.999*finite(star.radius, u.km):
            q['planet'] = dict(q['planet'], radius=[0.3*finite(star.radius, u.km), 'km'])       # larger planets may be refused
        before, rs = state(star), copy.deepcopy(rng.bit_generator.state)
        obs0 = obs_dict(q['obs'])
        r1 = observation(star, q, which)
        require(state(star) == before, f'asking for {which} changed the star')
        require(rng.bit_generator.state == rs, f'asking for {which} used up random numbers')
        r2 = observation(star, q, which)
        require(r1 == r2, f'asking for {which} twice gives two answers')
        clobber(star, q, which)
        require(observation(star, q, which) == r1, f'changing the returned {which} changed the star')
        o = dict(obs0)
        star.calc_coverage(o)
        require(set(o) == set(obs0) and all(np.all(o[k] == obs0[k]) for k in obs0), 'the observer was changed')
        fresh = rebuild(star, c)
        r3 = observation(fresh, q, which)
        require(near_equal(r1, r3), lambda: f'{which} answers for an earlier state of the star: {str(r1)[:150]} vs {str(r3)[:150]} on a new star in the same state')
        # and by the reference model, which shares nothing with the code
        if which in ('map', 'facmap', 'mu'):
            sc, sp, fa = present(star, q)
            if which == 'mu':
                want, amb = mu, np.zeros(mu.shape, bool)
            else:
                want, amb = ref_map(sc, lat, lon, with_obs=which == 'facmap', spots=sp, facs=fa)
            bad = ~amb & (np.abs(np.asarray(r1[0])-want) > 1e-6)
            require(not bad.any(), lambda: f'{which} is not that of the present star and observer: {np.asarray(r1[0])[bad][0]} at a point with {want[bad][0]}')
        looked = True
        hit |= edited
        rec.label('look ' + which)
    rec.hit(hit)


# ---------------------------------------------------------------- C22

@st.composite
def seeded(draw):
    ops = draw(st.lists(st.tuples(st.sampled_from(['birth_spots', 'birth_fac', 'mature', 'age', 'flares', 'observe', 'gran', 'generate']),
                                  gen.logf(0.1, 5.)).map(list), min_size=1, max_size=6))
    return dict(spots=[], faculae=[], sg=draw(small_spotgen()), fg=draw(small_facgen()), seed=draw(st.integers(0, 2**32-1)), ops=ops,
                gran=dict(mean=draw(gen.fl(0.2, 0.8)), amp=0.1, period=[5., 'h'], dteff=[200., 'K'], seed=draw(st.integers(0, 10**6))),
                noise=draw(st.integers(1, 5)), grid=draw(gen.grid(10, 12, 80)))


def play(c, seed, noise):
    """Run the script on a new star; `noise` unrelated random activity happens in between."""
    rng = np.random.default_rng(seed)
    gp = grid_params(c['grid'])
    sc = dict(grid=c['grid'], teff=[3300., 'K'], radius=[RS, 'km'], period=[1., 'd'], limb=[0.1, 0.], spots=[], faculae=[], gran=c['gran'])
    star = make_star(sc, rng=rng, spot_generator=spot_gen(c['sg'], rng, grid_params=gp), fac_generator=fac_gen(c['fg'], rng, grid_params=gp),
                     flare_generator=FlareGenerator(dist_teff_mean=9000*u.K, dist_teff_sigma=500*u.K, dist_fwhm_mean=3*u.hr,
                                                    dist_fwhm_logsigma=0.3, alpha=-0.8, beta=26., min_energy=3e31*u.erg, rng=rng))
    out = []
    for k, (o, t) in enumerate(c['ops']):
        if noise:
            np.random.seed(noise*7919+k)
            np.random.random(noise)
            if noise > 2:
                other, _, _ = history_star(dict(c, seed=noise), grid={'kind': 'spiral', 'n': 9})
                other.birth_spots(1*u.day)
                other.birth_faculae(1*u.day)
                other.get_flares_over_observation(1*u.day)
        if o == 'birth_spots':
            star.birth_spots(t*u.day)
        elif o == 'birth_fac':
            star.birth_faculae(t*u.day)
        elif o == 'mature':
            star.generate_mature_spots(0.002)
        elif o == 'age':
            star.age(t*u.day)
        elif o == 'flares':
            star.get_flares_over_observation(t*u.day)
            for f in star.flares.flares:
                out += [finite(f.energy, u.erg), finite(f.tpeak, u.day), finite(f.fwhm, u.day), finite(f.Teff, u.K), finite(f.lat, u.rad), finite(f.lon, u.rad)]
        elif o == 'observe' and not clash(star):
            out += [sorted(coverage_dict(star.calc_coverage({'lat': 20*u.deg, 'lon': 50*u.deg})[0]))]
        elif o == 'gran':
            out += finite(star.get_granulation_coverage(np.linspace(0, 20, 12)*u.hr)).tolist()
        elif o == 'generate':
            for s in star.spot_generator.generate_spots(2):
                out += [finite(s.area_max, u.km**2), finite(s.coords['lat'], u.rad), finite(s.coords['lon'], u.rad)]
            for f in star.fac_generator.generate_faculae(2):
                out += [finite(f.r_max, u.km), finite(f.lat, u.rad)]
        out.append(state(star))
    return out


@law('C22', seeded, quick=160, thorough=6000, rule='something random was made')
def same_seed_same_star(c, rec):
    """A simulation is a function of its inputs and seeds: unrelated random activity never changes it; other seeds do."""
    a = play(c, c['seed'], 0)
    b = play(c, c['seed'], c['noise'])
    require(a == b, 'the same seed gives another simulation')
    r = play(c, c['seed'] ^ 0x5bd1e995, 0)
    made = any(o[0] in ('generate',) for o in c['ops'])
    if made:
        require(a != r, 'two seeds give the same simulation')
    rec.hit(made or len(a[-1]) > 7 or a != r)
    for o in c['ops']:
        rec.label(o[0])


@law('C22', lambda: st.fixed_dictionaries(dict(seed=st.integers(0, 2**32-1), sg=spotgen(), fg=facgen(), t=gen.logf(0.1, 3.))), quick=400,
     rule='every case')
def generators_use_their_rng(c, rec):
    """Each generator draws only from the random generator it was given, and does draw from it."""
    for make in (lambda r: spot_gen(c['sg'], r), lambda r: fac_gen(c['fg'], r)):
        res = []
        for noise in (0, 1):
            if noise:
                np.random.seed(c['seed'] % 1000)
            r = np.random.default_rng(c['seed'])
            g = make(r)
            before = copy.deepcopy(r.bit_generator.state)
            if isinstance(g, SpotGenerator):
                items = seq(g.generate_spots(3))
                vals = [[finite(s.area_max, u.km**2), finite(s.coords['lat'], u.rad), finite(s.coords['lon'], u.rad), float(s.total_area_over_umbra_area)]
                        for s in items]
                exp = finite(g.get_n_spots_to_birth(c['t']*u.day, 1*u.R_sun))
            else:
                items = seq(g.generate_faculae(3))
                vals = [[finite(f.r_max, u.km), finite(f.lat, u.rad), finite(f.lon, u.rad), finite(f.lifetime, u.day)] for f in items]
                exp = finite(g.get_n_faculae_expected(c['t']*u.day, 1*u.R_sun))
            require(r.bit_generator.state != before, 'a generator made features without its random generator')
            mid = copy.deepcopy(r.bit_generator.state)
            g.mean_area
            require(r.bit_generator.state == mid, 'asking for a mean used up random numbers')
            res.append((vals, exp, mid))
        require(res[0] == res[1], 'the same seed gives other features')
    fres = []
    for noise in (0, 1):
        r = np.random.default_rng(c['seed'])
        g = FlareGenerator(dist_teff_mean=9000*u.K, dist_teff_sigma=500*u.K, dist_fwhm_mean=3*u.hr, dist_fwhm_logsigma=0.3, alpha=-0.8, beta=26.,
                           min_energy=3e31*u.erg, rng=r)
        if noise:
            np.random.seed(5)
            FlareGenerator.off(rng=np.random.default_rng(3)).generate_flare_series(5*u.day)
        fres.append([[finite(f.energy, u.erg), finite(f.tpeak, u.day), finite(f.lat, u.rad), finite(f.lon, u.rad), finite(f.fwhm, u.day),
                      finite(f.Teff, u.K)] for f in seq(g.generate_flare_series(c['t']*u.day))])
    require(fres[0] == fres[1], 'the same seed gives other flares')
    rec.hit()


@law('C22', lambda: st.fixed_dictionaries(dict(seed=st.integers(0, 2**32-1), bit=st.integers(0, 31), gran=gen.granulation())), quick=60, thorough=1500,
     rule='granulation varies')
def granulation_seeds(c, rec):
    """The same granulation seed gives the same series, any other seed gives another one."""
    g = c['gran']
    if g is None or g['amp'] == 0:
        return
    g = dict(g, mean=0.5, amp=0.01)
    t = np.arange(12)*0.7*Q(g['period'])
    a, b, r = (finite(make_granulation(dict(g, seed=s)).get_coverage(t), None, 'granulation', (12,)) for s in (c['seed'], c['seed'], c['seed'] ^ (1 << c['bit'])))
    require(np.array_equal(a, b), 'the same seed gives another granulation series')
    require(not np.array_equal(a, r), f'seeds {c["seed"]} and {c["seed"] ^ (1 << c["bit"])} give the same granulation series')
    rec.hit()


class Watch:
    """Notices draws from any random source other than the ones handed over: numpy's and Python's global state and new generators."""

    def __enter__(self):
        import random
        self.random, self.made = random, []
        self.real = np.random.default_rng
        self.glob, self.py = copy.deepcopy(np.random.get_state()), random.getstate()

        def default_rng(*a, **k):
            r = self.real(*a, **k)
            if not a or not isinstance(a[0], (np.random.Generator, np.random.BitGenerator)):
                self.made.append((r, copy.deepcopy(r.bit_generator.state)))
            return r
        np.random.default_rng = default_rng
        return self

    def __exit__(self, *a):
        np.random.default_rng = self.real

    def drew(self):
        g = np.random.get_state()
        if g[0] != self.glob[0] or not np.array_equal(g[1], self.glob[1]) or g[2:] != self.glob[2:]:
            return "numpy's global random state"
        if self.random.getstate() != self.py:
            return "Python's global random state"
        for r, s0 in self.made:
            if str(r.bit_generator.state) != str(s0):
                return 'a random generator of its own'
        return None


SOURCES = ['generate_spots', 'spot_places', 'birth_spots', 'mature', 'generate_faculae', 'facula_places', 'birth_faculae', 'flare_series', 'peaks',
           'widths', 'temperatures', 'flare_places', 'star']


@law('C22', lambda: st.fixed_dictionaries(dict(seed=st.integers(0, 2**32-1), sg=spotgen(static=False), fg=facgen(), n=st.integers(1, 40),
                                               k=st.sampled_from(SOURCES))), quick=400, rule='random numbers were drawn from the given source')
def no_other_source(c, rec):
    """Everything random comes from the generator that was handed over: no global state, no private generators."""
    r = np.random.default_rng(c['seed'])
    before = str(r.bit_generator.state)
    sg, fg = spot_gen(dict(c['sg'], coverage=0.002), r), fac_gen(dict(c['fg'], coverage=0.0005), r)
    fl = FlareGenerator(dist_teff_mean=9000*u.K, dist_teff_sigma=500*u.K, dist_fwhm_mean=3*u.hr, dist_fwhm_logsigma=0.3, alpha=-0.8, beta=26.,
                        min_energy=3e31*u.erg, rng=r)
    n = c['n']
    life = 0.2*sg.mean_lifetime.to(u.day)
    big = (0.002*np.sqrt(sg.mean_area/(4*np.pi)*n)*500).to(u.km)       # a star big enough for n spots
    star = None
    if c['k'] == 'star':
        star = make_star(dict(grid=SMALL, teff=[3300., 'K'], radius=[RS, 'km'], period=[1., 'd'], limb=[0., 0.],
                              gran=dict(mean=0.4, amp=0.1, period=[5., 'h'], dteff=[100., 'K'], seed=c['seed'] % 999)), rng=r,
                         spot_generator=spot_gen(dict(c['sg'], coverage=0.002), r, grid_params=12),
                         fac_generator=fac_gen(dict(c['fg'], coverage=0.0005, r=[5000., 'km']), r, grid_params=12), flare_generator=fl)
    with Watch() as w:
        if c['k'] == 'generate_spots':
            sg.generate_spots(n)
        elif c['k'] == 'spot_places':
            sg.get_coordinates(n)
        elif c['k'] == 'birth_spots':
            sg.birth_spots(life, big)
        elif c['k'] == 'mature':
            sg.generate_mature_spots(0.003, big)
        elif c['k'] == 'generate_faculae':
            fg.generate_faculae(n)
        elif c['k'] == 'facula_places':
            fg.get_coords(n)
        elif c['k'] == 'birth_faculae':
            fg.birth_faculae(1*Q(c['fg']['life']), 100*Q(c['fg']['r']))
        elif c['k'] == 'flare_series':
            fl.generate_flare_series(n*u.day)
        elif c['k'] == 'peaks':
            fl.get_peaks(n)
        elif c['k'] == 'widths':
            fl.gen_fwhm(n)
        elif c['k'] == 'temperatures':
            fl.gen_teffs(n)
        elif c['k'] == 'flare_places':
            fl.gen_coords(n)
        else:
            star.birth_spots(0.1*u.day)
            star.birth_faculae(0.1*u.day)
            star.generate_mature_spots(0.001)
            star.get_flares_over_observation(3*u.day)
            star.age(0.1*u.day)
            if not clash(star):
                star.calc_coverage({'lat': 10*u.deg, 'lon': 0*u.deg})
            star.get_granulation_coverage(np.arange(3)*u.hr)
            star.get_flare_int_over_timeperiod(0*u.hr, 5*u.hr, {'lat': 10*u.deg, 'lon': 0*u.deg})
        src = w.drew()
    require(src is None, f'{c["k"]} draws from {src}, not only from the source it was given')
    rec.label(c['k'])
    rec.hit(str(r.bit_generator.state) != before)


# ---------------------------------------------------------------- C27

@st.composite
def plot_case(draw):
    grid = draw(st.one_of(st.tuples(st.integers(8, 20), st.integers(10, 30)).map(lambda t: {'kind': 'rect', 'nlat': t[0], 'nlon': t[1]}),
                          st.integers(150, 400).map(lambda n: {'kind': 'spiral', 'n': n})))
    c = draw(gen.scene(nspots=2, nfac=2, gridstrat=st.just(grid), gran=False, inbounds=True))
    c['obs']['lat'] = gen._clip_lat(c['obs']['lat'])
    c['planet'] = draw(st.one_of(st.none(), gen.planet(ref.val(c['radius']), maxrp=0.6), gen.planet(ref.val(c['radius']), transit=True, maxrp=0.6)))
    c['shape'] = [grid['nlat'], grid['nlon']] if grid['kind'] == 'rect' else [draw(st.integers(8, 20)), draw(st.integers(10, 30))]
    c['clim'] = draw(st.one_of(st.none(), st.just([2000., 4000.]), st.tuples(st.sampled_from([0, 0., 100., 3000.]), gen.fl(3100., 9000.)).map(list)))
    c['own_ax'] = draw(st.one_of(st.none(), st.just('own'), gen.obs()))
    return c


@law('C27', plot_case, quick=96, thorough=1600, rule='features, limb darkening or a planet are in the picture')
def surface_plot(c, rec):
    """The picture holds the present map with faculae, darkened toward the limb, and the planet when it is in front."""
    import matplotlib.pyplot as plt
    import cartopy.crs as ccrs
    star = make_star(c)
    lat0, lon0 = Q(c['obs']['lat']), Q(c['obs']['lon'])
    nlat, nlon = c['shape']
    kw = transit_kw(c['planet']) if c['planet'] else {}
    if c['clim']:
        kw.update(vmin=c['clim'][0], vmax=c['clim'][1])
    before = state(star)
    plt.close('all')
    try:
        if c['own_ax']:
            o = c['obs'] if c['own_ax'] in ('own', True) else c['own_ax']     # axes made for this or for another observer
            _, ax = plt.subplots(subplot_kw={'projection': ccrs.Orthographic(
                central_latitude=float(np.degrees(ref.val(gen._clip_lat(o['lat'])))), central_longitude=float(np.degrees(ref.val(o['lon']))))})
            star.plot_surface(lat0, lon0, ax, nlat=nlat, nlon=nlon, **kw)
        else:
            star.plot_surface(lat0, lon0, nlat=nlat, nlon=nlon, **kw)
            axs = [a for f in plt.get_fignums() for a in plt.figure(f).axes if hasattr(a, 'projection')]
            require(len(axs) == 1, 'no map was drawn')
            ax = axs[0]
        look_at(c, star, ax, rec)
        require(state(star) == before, 'plotting changed the star')
    finally:
        plt.close('all')


def look_at(c, star, ax, rec):
    lat0, lon0 = Q(c['obs']['lat']), Q(c['obs']['lon'])
    nlat, nlon = c['shape']
    p = ax.projection.proj4_params
    dlon = (p.get('lon_0', 0.)-lon0.to_value(u.deg)+180) % 360-180
    require(abs(p.get('lat_0', 0.)-lat0.to_value(u.deg)) < 1e-6 and (abs(dlon) < 1e-6),
            f'the map is centered on {p.get("lat_0")}, {p.get("lon_0")}, the observer is at {lat0.to(u.deg)}, {lon0.to(u.deg)}')
    mesh = [x for x in ax.collections if 'QuadMesh' in type(x).__name__]
    require(len(mesh) >= 1, 'no temperature map was drawn')
    got = np.asarray(mesh[0].get_array(), float).reshape(nlat, nlon)
    la, lo, want = star.gridmaker.display_grid(nlat, nlon, star.add_faculae_to_map(lat0, lon0))
    want = finite(want, u.K, 'displayed map').T
    require(np.max(np.abs(got-want)) < 1e-6, 'the drawn temperatures are not the surface map with faculae')
    # cell centers
    xy = np.asarray(mesh[0].get_coordinates())
    cx, cy = 0.5*(xy[:-1, :-1, 0]+xy[1:, 1:, 0]), 0.5*(xy[:-1, :-1, 1]+xy[1:, 1:, 1])
    if cx.shape == got.shape:
        require(np.allclose(cx, np.degrees(lo)[None, :], atol=1e-6) and np.allclose(cy, np.degrees(la)[:, None], atol=1e-6),
                'the temperatures are drawn in the wrong places')
    if c['clim']:
        require(np.allclose(mesh[0].get_clim(), c['clim']), f'colour limits {mesh[0].get_clim()}, asked for {c["clim"]}')
    # limb darkening
    u1, u2 = c['limb']
    im = ax.images
    require(len(im) >= 1, 'no limb darkening was drawn')
    al, arr = im[0].get_alpha(), np.ma.asarray(im[0].get_array())
    if arr.ndim == 3 and arr.shape[2] == 4:
        al = arr[..., 3]*(1. if arr.dtype.kind == 'f' else 1/255)*(1. if al is None else al)
    require(al is not None, 'the limb darkening is drawn opaque')
    if np.ndim(al) == 0:
        al = np.full(arr.shape[:2], float(al))
    al = np.ma.filled(np.ma.asarray(al).astype(float), np.nan)
    n1, n2 = al.shape
    drawn = sorted([x for x in ax.get_children() if x is im[0] or x is mesh[0]], key=lambda x: x.get_zorder())
    require(not len(drawn) == 2 or drawn[-1] is im[0], 'the limb darkening is drawn behind the surface')
    e = np.asarray(im[0].get_extent())/p['a']
    X, Y = np.meshgrid(e[0]+(np.arange(n2)+.5)/n2*(e[1]-e[0]), e[2]+(np.arange(n1)+.5)/n1*(e[3]-e[2]))
    if im[0].origin == 'upper':
        Y = Y[::-1]
    mu = np.sqrt(np.clip(1-X**2-Y**2, 0, 1))
    h = math.hypot(math.pi/(nlat-1), 2*math.pi/nlon)
    blur = math.sqrt(4*math.pi/c['grid']['n']) if c['grid']['kind'] == 'spiral' else 0.
    # away from the limb by the resolution of the picture: beyond the limb the star is opaque
    seen = (mu > math.cos(max(0.2, min(1., math.pi/2-2.2*blur-h)))) & np.isfinite(al)
    grid_mu = np.linspace(0, 1, 101)
    top = ref.ld(grid_mu, u1, u2).max()
    want = 1-ref.ld(mu, u1, u2)/top
    slope = (abs(u1)+2*abs(u2))/top
    h += 2*blur
    tol = 0.02 + slope*(1.5*h+h*h)
    d = np.abs(al-want)[seen]
    require(d.size > 0 and np.nanmax(d) < tol, lambda: f'limb darkening is off by {np.nanmax(d):.3f} (tolerance {tol:.3f})')
    require(np.mean(al[seen]-want[seen]) < 0.6*tol and np.mean(al[seen]-want[seen]) > -0.6*tol, 'limb darkening is off on average')
    # planet
    cs = [x for x in ax.collections if 'Contour' in type(x).__name__]
    verts = [q for x in cs for q in x.get_paths() if len(q.vertices)]
    kw = transit_kw(c['planet']) if c['planet'] else None
    mask = np.zeros((nlat, nlon))
    if kw:
        cov, _ = star.get_transit_mask(lat0, lon0, **kw)
        mask = finite(star.gridmaker.display_grid(nlat, nlon, np.asarray(cov, float))[2], None, 'mask').T
    if not np.any(mask > 0.5-1e-9):
        require(not verts, 'a planet is drawn that does not cover the star')
    block = (mask[:-1, :-1] > 0.5+1e-9) & (mask[1:, :-1] > 0.5+1e-9) & (mask[:-1, 1:] > 0.5+1e-9) & (mask[1:, 1:] > 0.5+1e-9)
    if np.any(block):
        require(bool(verts), 'a transiting planet is not drawn')
        require(all(x.get_zorder() > mesh[0].get_zorder() for x in cs), 'the planet is drawn behind the star')
        require(all(x.get_alpha() is None or np.min(x.get_alpha()) > 0.5 for x in cs) and
                any(np.min(np.asarray(x.get_facecolor(), float)[..., 3]) > 0.5 for x in cs if len(x.get_facecolor())), 'the planet is drawn but cannot be seen')
        i, j = np.argwhere(block)[0]
        pt = np.degrees([0.5*(lo[j]+lo[j+1]), 0.5*(la[i]+la[i+1])])
        require(any(q.contains_point(pt) for q in verts), 'the planet is drawn in the wrong place')
        rec.label('planet in front')
    rec.label(c['grid']['kind'])
    rec.hit(np.ptp(got) > 0 or slope > 0 or bool(verts))
