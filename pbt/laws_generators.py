"""C18 spot population, C19 facula population."""
import copy
import math
import numpy as np
from astropy import units as u
from hypothesis import strategies as st

from pbt.core import law, require, Violation
from pbt import ref, gen
from pbt.build import (Q, make_star, finite, num, seq, grid_params, grid_shape, SpotGenerator, FaculaGenerator, SpotCollection, StarSpot, Facula)

Z = 7.5      # a false alarm needs a 7.5 sigma fluctuation (p < 1e-13)


class TailRng(np.random.Generator):
    """A Generator whose normal draws sometimes fall far into the lower tail."""

    def __init__(self, seed, p, sigmas):
        super().__init__(np.random.PCG64(seed))
        self._p, self._s = p, sigmas

    def normal(self, loc=0.0, scale=1.0, size=None):
        x = super().normal(loc, scale, size)
        bad = super().random(size) < self._p
        return np.where(bad, np.asarray(loc)-self._s*np.asarray(scale), x) if size is not None else (
            loc-self._s*scale if bad else x)


def used(G, rng, seed, *calls):
    """Half of the generators have been used before, for another star and time; their random state is put back."""
    if seed % 2 and isinstance(rng, np.random.Generator):
        before = copy.deepcopy(rng.bit_generator.state)
        for call in calls:
            try:
                call()
            except Exception:       # judged where it is the question
                pass
        rng.bit_generator.state = before
    return G


def spot_gen(g, rng, **kw):
    kw = kw or dict(grid_params=grid_params(g.get('grid', {'kind': 'spiral', 'n': 8})))
    G = _spot_gen(g, rng, kw)
    rs = math.sqrt(ref.val(g['mean'])*1500/(4*math.pi))*u.km
    life = min(spot_rates(g)[0], 1e3)
    t = life*min(1., 1/max(1e-9, g['coverage']*1500))*u.day
    return used(G, rng, g.get('seed', 0), lambda: G.get_n_spots_to_birth(0.7*t, 0.3*rs), lambda: G.birth_spots(t, rs), lambda: G.generate_spots(1),
                lambda: G.generate_mature_spots(0.0015, rs), lambda: G.get_coordinates(1))


def _spot_gen(g, rng, kw):
    return SpotGenerator(dist_area_mean=Q(g['mean']), dist_area_logsigma=g['sigma'], umbra_teff=Q(g['tu']),
                         penumbra_teff=Q(g['tp']), growth_rate=Q(g['growth']), decay_rate=Q(g['decay']),
                         init_area=Q(g['init']), distribution=g['dist'], coverage=g['coverage'], rng=rng, **kw)


@st.composite
def spotgen(draw, static=None, dist=None):
    mean = draw(gen.logf(20., 2000.))
    static = draw(st.integers(0, 3)) == 3 if static is None else static
    life = draw(gen.logf(0.5, 100.))
    area = lambda v: gen.as_unit(v*ref.MSH, draw(st.sampled_from(gen.AREA)))
    return dict(mean=area(mean), init=area(mean*draw(gen.fl(0.02, 0.9))),
                sigma=draw(st.one_of(st.just(0.), gen.fl(0.05, 0.8))),
                tu=draw(gen.temp(2000, 3000)), tp=draw(gen.temp(3000, 4000)),
                growth=draw(gen.in_unit(gen.logf(0.05, 3.), gen.RATE)),
                decay=gen.as_unit(0. if static else mean*ref.MSH/life, draw(st.sampled_from(gen.ARATE))),
                dist=dist or draw(st.sampled_from(['iso', 'solar'])), coverage=draw(st.one_of(gen.fl(0., 1.), st.sampled_from([0., 0.2, 1, 0]))),
                seed=draw(st.integers(0, 2**32-1)))


def spot_rates(g):
    """mean lifetime (d) and time-averaged area (km2) of a typical spot by the documented model"""
    A, A0, w, k = ref.val(g['mean']), ref.val(g['init']), ref.val(g['decay']), ref.val(g['growth'])
    if w == 0:
        return math.inf, A
    life = A/w + math.log(A/A0)/k
    return life, ((A-A0)/k + A*A/(2*w))/life


@law('C18', lambda: st.fixed_dictionaries(dict(g=spotgen(), radius=gen.star_radius(), time=gen.in_unit(gen.logf(1e-3, 1e3), gen.TIME))),
     quick=1000, rule='births are expected')
def expected_spot_births(c, rec):
    """Expected births = coverage x stellar area / mean spot area x time / mean lifetime; none if spots never decay."""
    g = c['g']
    G = spot_gen(g, np.random.default_rng(g['seed']))
    life, area = spot_rates(g)
    require(bool(G.is_static) == math.isinf(life), f'is_static = {G.is_static} with a decay rate of {g["decay"]}')
    got = num(G.mean_lifetime, u.day, 'mean lifetime')
    require(got == life or abs(got/life-1) < 1e-9, f'mean spot lifetime {got} d, expected {life} d')
    got = finite(G.mean_area, u.km**2, 'mean area')
    require(abs(got/area-1) < 1e-9, f'time-averaged spot area {got} km2, expected {area} km2')
    if not math.isinf(life):
        lo, hi = min(0., ref.val(g['init'])), ref.val(g['mean'])
        require(lo <= got <= hi*(1+1e-9), f'time-averaged area {got} outside the range of areas of a spot')
    n = finite(G.get_n_spots_to_birth(Q(c['time']), Q(c['radius'])), None, 'expected births')
    want = 0. if math.isinf(life) else g['coverage']*4*math.pi*ref.val(c['radius'])**2/area*ref.val(c['time'])/life
    require(abs(n-want) <= 1e-9*want, f'{n} births expected, should be {want}')
    rec.label('static', math.isinf(life))
    rec.hit(n > 0)


def uniform_test(x, what):
    """Kolmogorov-Smirnov distance of x from uniform on [0, 1]."""
    x = np.sort(x)
    n = len(x)
    if n == 0:
        return
    require(x[0] >= -1e-9 and x[-1] <= 1+1e-9, f'{what} out of range')
    d = max(np.max(np.arange(1, n+1)/n-x), np.max(x-np.arange(n)/n))
    lim = math.sqrt(math.log(2/1e-12)/(2*n))
    require(d < lim, f'{what}: not uniform, KS distance {d:.4f} for {n} draws (limit {lim:.4f})')
    # the tails: numbers of draws below p and above 1-p are binomial
    from scipy.special import bdtr, bdtrc
    for p in (1e-4, 1e-3, 3e-3, 0.01, 0.02, 0.05, 0.1):
        for side, m in (('lowest', int(np.sum(x < p))), ('highest', int(np.sum(x > 1-p)))):
            lower, upper = float(bdtr(m, n, p)), 1. if m == 0 else float(bdtrc(m-1, n, p))
            require(min(lower, upper) > 1e-12, f'{what}: {m} of {n} draws are in the {side} {p:.2%} of the distribution')


def normal_test(z, what):
    """Mean, spread and shape of z against a standard normal."""
    n = len(z)
    require(abs(z.mean())*math.sqrt(n) < Z, f'{what}: mean off by {z.mean():.4f} standard deviations for {n} draws')
    v = np.mean(z**2)
    require(abs(v-1)*math.sqrt(n/2) < Z + 5*Z/math.sqrt(n), f'{what}: variance is {v:.4f} of the expected one for {n} draws')
    from scipy.special import ndtr
    uniform_test(ndtr(z), what)


def no_trend(x, what):
    """Neither a drift along the draws nor a relation between neighbours."""
    n = len(x)
    if n < 100 or np.std(x) == 0:
        return
    for name, a, b in (('position', np.arange(n), x), ('the next one', x[:-1], x[1:])):
        r = np.corrcoef(a, b)[0, 1]
        require(abs(r)*math.sqrt(n) < Z+1, f'{what} are correlated with {name} ({r:.3f} over {n} draws)')


def check_coords(lat, lon, dist, what):
    uniform_test(lon/(2*math.pi), what + ' longitudes')
    if dist == 'iso':
        uniform_test((np.sin(lat)+1)/2, what + ' sin(latitude)')
    else:
        d = np.degrees(lat)
        n = len(d)
        # +-15 +- 5 deg, hemispheres equally likely; folded: |lat| is N(15,5) but for 1e-3 of the draws
        south = np.mean(d < 0)
        require(abs(south-0.5)*2*math.sqrt(n) < Z, f'{what}: {south:.3f} of the spots are in the south')
        from scipy.special import ndtr
        F = 0.5*ndtr((d-15)/5)+0.5*ndtr((d+15)/5)
        uniform_test(F, what + ' solar latitudes')
    # independence of latitude and longitude, and no trend from one draw to the next
    n = len(lat)
    if n > 50:
        no_trend(np.sin(lat), what + ' latitudes')
        no_trend(np.cos(lon), what + ' longitudes')
        for f in (np.sin, np.cos):
            a, b = np.sin(lat), f(lon)
            r = np.corrcoef(a, b)[0, 1]
            require(abs(r)*math.sqrt(n) < Z, f'{what}: latitude and longitude are correlated ({r:.3f})')


def qarr(q, unit, what, n):
    return np.atleast_1d(finite(q, unit, what)) if n else np.zeros(0)


@law('C18', lambda: st.fixed_dictionaries(dict(g=spotgen(), n=st.one_of(st.integers(0, 60), st.sampled_from([600, 1500, 4000])))), quick=130, thorough=3000,
     rule='at least 100 spots in the sample')
def generated_spots(c, rec):
    """Each new spot has the configured parameters; sizes, umbra ratios and places follow the stated distributions."""
    g = c['g']
    G = spot_gen(g, np.random.default_rng(g['seed']))
    out = seq(G.generate_spots(c['n']))
    require(len(out) == c['n'], f'{len(out)} spots made, {c["n"]} requested')
    lat = np.array([finite(s.coords['lat'], u.rad, 'latitude') for s in out])
    lon = np.array([finite(s.coords['lon'], u.rad, 'longitude') for s in out])
    amax = np.array([finite(s.area_max, u.km**2, 'maximum area') for s in out])
    ratio = np.array([float(s.total_area_over_umbra_area) for s in out])
    for s in out[:50]:
        for name, a, b in (('umbra Teff', finite(s.teff_umbra, u.K), g['tu'][0]), ('penumbra Teff', finite(s.teff_penumbra, u.K), g['tp'][0]),
                           ('growth rate', finite(s.growth_rate, 1/u.day), ref.val(g['growth'])),
                           ('decay rate', finite(s.decay_rate, u.km**2/u.day), ref.val(g['decay'])),
                           ('initial area', finite(s.area_current, u.km**2), ref.val(g['init']))):
            require(abs(a-b) <= 1e-9*abs(b), f'new spot has {name} {a}, the generator {b}')
        require(s.is_growing, 'a new-born spot is not growing')
        for m in s.map_pixels(math.sqrt(ref.val(g['init'])/math.pi)*u.km).values():
            require(np.shape(m) == (8,), 'a new spot is not on the grid of its generator')
    require(np.all(ratio > 0), 'a spot has a non-positive area ratio')
    require(np.all(amax > 0), 'a spot has a non-positive maximum area')
    require(np.all(np.abs(lat) <= math.pi/2+1e-9), 'latitude beyond a pole')
    if len(out) >= 100:
        if g['sigma'] == 0:
            require(np.all(np.abs(amax/ref.val(g['mean'])-1) < 1e-9), 'maximum areas vary though their spread is zero')
        else:
            normal_test(np.log(amax/ref.val(g['mean']))/g['sigma'], 'log of the maximum area')
        normal_test(ratio-5, 'total-to-umbra area ratio')
        if g['sigma'] > 0:
            no_trend(np.log(amax), 'maximum areas')
        no_trend(ratio, 'area ratios')
        check_coords(lat, lon, g['dist'], 'spot')
        if g['sigma'] > 0:
            r = np.corrcoef(np.log(amax), ratio)[0, 1]
            require(abs(r)*math.sqrt(len(out)) < Z, 'size and umbra ratio are correlated')
        rec.hit()
    rec.label(g['dist'])


@law('C18', lambda: st.fixed_dictionaries(dict(g=spotgen(), n=st.sampled_from([0, 1, 2, 500, 5000, 20000]))), quick=300, rule='at least 100 places drawn')
def spot_places(c, rec):
    """Places are isotropic, or in two belts at 15 +- 5 degrees, as configured."""
    g = c['g']
    G = spot_gen(g, np.random.default_rng(g['seed']))
    lat, lon = G.get_coordinates(c['n'])
    lat, lon = qarr(lat, u.rad, 'latitude', c['n']), qarr(lon, u.rad, 'longitude', c['n'])
    require(len(lat) == len(lon) == c['n'], 'wrong number of coordinates')
    if c['n'] >= 100:
        check_coords(lat, lon, g['dist'], 'spot')
        rec.hit()
    rec.label(g['dist'])


@law('C18', lambda: st.fixed_dictionaries(dict(g=spotgen(), n=st.integers(1, 6), p=gen.fl(0.01, 0.3), s=gen.fl(5., 9.))), quick=400,
     rule='every case')
def rare_draws(c, rec):
    """Even when the normal draws fall far into the tail, no spot has an impossible umbra."""
    G = spot_gen(c['g'], TailRng(c['g']['seed'], c['p'], c['s']))
    out = seq(G.generate_spots(c['n']))
    require(len(out) == c['n'], f'{len(out)} spots made, {c["n"]} requested')
    for s in out:
        require(float(s.total_area_over_umbra_area) > 0, f'spot with a total-to-umbra area ratio of {s.total_area_over_umbra_area}')
    rec.hit()


@st.composite
def births(draw, maker, many=None, rare=False):
    g = draw(maker)
    lam = draw(st.one_of(gen.logf(0.05, 5.), gen.logf(0.5, 10.), gen.fl(0.5, 5.), gen.logf(1., 30.), st.just(0.)) if many is None else gen.logf(36., many))
    if rare:
        lam = draw(st.one_of(gen.logf(1e-5, 0.05), gen.logf(5e-3, 0.05)))
    return dict(g=g, lam=lam, radius=draw(gen.star_radius()), tunit=draw(st.sampled_from(gen.TIME)))


@law('C18', lambda: births(spotgen(static=False)), quick=80, thorough=1600, rule='at least 50 births over the calls')
def poisson_births(c, rec):
    """The number born in a time span is Poisson distributed about the expectation."""
    g = c['g']
    G = spot_gen(g, np.random.default_rng(g['seed']))
    life, area = spot_rates(g)
    rate = g['coverage']*4*math.pi*ref.val(c['radius'])**2/area/life
    if rate == 0:
        t, lam = 10., 0.
    else:
        t, lam = c['lam']/rate, c['lam']
    count_test(lambda k: len(seq(G.birth_spots(Q(gen.as_unit(t, c['tunit'])), Q(c['radius'])))), lam, rec)


@law('C18', lambda: births(spotgen(static=False), 250.), quick=8, thorough=120, rule='at least 50 births over the calls')
def many_spot_births(c, rec):
    """The number born is Poisson distributed also when very many are expected."""
    g = dict(c['g'], coverage=c['g']['coverage'] or 0.3)
    G = spot_gen(g, np.random.default_rng(g['seed']))
    life, area = spot_rates(g)
    t = c['lam']/(g['coverage']*4*math.pi*ref.val(c['radius'])**2/area/life)
    count_test(lambda k: len(seq(G.birth_spots(Q(gen.as_unit(t, c['tunit'])), Q(c['radius'])))), c['lam'], rec)


@law('C18', lambda: births(spotgen(static=False), rare=True), quick=4, thorough=120, rule='every case (6000 short steps)')
def rare_spot_births(c, rec):
    """The number born is Poisson distributed also over steps so short that a birth is rare."""
    g = dict(c['g'], coverage=c['g']['coverage'] or 0.3)
    G = spot_gen(g, np.random.default_rng(g['seed']))
    life, area = spot_rates(g)
    t = Q(gen.as_unit(c['lam']/(g['coverage']*4*math.pi*ref.val(c['radius'])**2/area/life), c['tunit']))
    r = Q(c['radius'])
    count_test(lambda k: len(seq(G.birth_spots(t, r))), c['lam'], rec)


@law('C18', lambda: st.fixed_dictionaries(dict(g=spotgen())), quick=3, thorough=60, rule='every case')
def spot_tails(c, rec):
    """Sizes and umbra ratios follow their laws out to the tails."""
    g = dict(c['g'], sigma=c['g']['sigma'] or 0.3)
    out = seq(spot_gen(g, np.random.default_rng(g['seed'])).generate_spots(20000))
    tails(np.log(np.array([finite(s.area_max, u.km**2) for s in out])/ref.val(g['mean']))/g['sigma'], 'maximum areas')
    tails(np.array([float(s.total_area_over_umbra_area) for s in out])-5, 'total-to-umbra area ratios')
    rec.hit()


def tails(z, what):
    """Numbers of standard normal draws beyond 1 to 3.2 sigma are binomial, and no draw comes twice."""
    from scipy.special import bdtr, bdtrc, ndtr
    n = len(z)
    for lim in (1., 1.5, 2., 2.5, 3., 3.2):
        for side in (1, -1):
            m, p = int(np.sum(side*z > lim)), float(ndtr(-lim))
            lower, upper = float(bdtr(m, n, p)), 1. if m == 0 else float(bdtrc(m-1, n, p))
            require(min(lower, upper) > 1e-11 and (m > 0 or lim > 3 or n*p < 26), f'{m} of {n} {what} lie beyond {side*lim} standard deviations ({n*p:.1f} expected)')
    require(len(np.unique(z)) > 0.99*n, f'{what} repeat: {n-len(np.unique(z))} of {n}')


def count_test(draw_one, lam, rec):
    """Counts of many calls are Poisson with mean lam: every cumulative frequency is a binomial proportion."""
    from scipy.special import pdtr, bdtr, bdtrc
    calls = 2 if lam == 0 else max(2 if lam <= 35 else 60, int(min(700, 700/lam))) if lam > 0.05 else 6000
    n = np.array([draw_one(k) for k in range(calls)])
    if lam == 0:
        require(not n.any(), f'{n.sum()} births where none are expected')
        return
    tot = int(n.sum())
    require(min(pdtr(tot, lam*calls), 1-pdtr(tot-1, lam*calls) if tot else 1.) > 1e-11,
            f'{tot} births over {calls} calls, {lam*calls:.4g} expected')
    for k in range(0, int(lam+8*math.sqrt(lam)+3)):
        p = float(pdtr(k, lam))                   # P(N <= k)
        m = int(np.sum(n <= k))
        lower, upper = float(bdtr(m, calls, p)), 1. if m == 0 else float(bdtrc(m-1, calls, p))
        require(min(lower, upper) > 1e-11, f'at most {k} births in {m} of {calls} calls where {lam:.4g} are expected: '
                f'not a Poisson number ({calls*p:.4g} calls expected)')
    rec.hit(tot >= 50 or lam <= 0.05)


@st.composite
def mature(draw):
    g = draw(spotgen())
    mean = ref.val(g['mean'])
    rs = math.sqrt(mean*draw(gen.logf(12., 3000.))/(4*math.pi))
    cov = draw(st.one_of(st.sampled_from([0., 1., 0, 0.1]), gen.fl(0., 1.)))
    # a few hundred spots at most
    cov = min(cov, 60*mean/(4*math.pi*rs**2))
    return dict(g=g, radius=gen.as_unit(rs, draw(st.sampled_from(['km', 'R_sun']))), cov=cov, star=draw(st.integers(-1, 2)))


@law('C18', mature, quick=300, thorough=8000, rule='at least two spots were needed')
def mature_spots(c, rec):
    """Mature spots are added until they cover the requested fraction, and no further; their ages are spread over a lifetime."""
    g = c['g']
    rs = ref.val(c['radius'])
    G = spot_gen(g, np.random.default_rng(g['seed']))
    if c['star'] >= 0:
        # asked through a star, which has so many spots already
        grid = {'kind': 'spiral', 'n': 8}
        old = seq(spot_gen(g, np.random.default_rng(1)).generate_spots(c['star']))
        star = make_star(dict(grid=grid, teff=[3300., 'K'], radius=c['radius'], period=[1., 'd'], limb=[0., 0.]),
                         spots=SpotCollection(*old, grid_params=grid_params(grid)), spot_generator=G)
        star.generate_mature_spots(c['cov'])
        ids = {id(s) for s in old}
        require(ids <= {id(s) for s in seq(star.spots.spots)}, 'spots were lost when mature spots were added')
        out = [s for s in seq(star.spots.spots) if id(s) not in ids]
    else:
        out = seq(G.generate_mature_spots(c['cov'], Q(c['radius'])))
    life, _ = spot_rates(g)
    A0 = ref.val(g['init'])
    omega = []
    for s in out:
        a, amax = finite(s.area_current, u.km**2, 'area'), finite(s.area_max, u.km**2)
        if 4*math.pi*rs**2 < max(a, amax):
            return      # larger than the star
        require(-1e-9*amax <= a <= max(amax, A0)*(1+1e-9), f'mature spot with area {a}, its maximum is {amax}')
        if math.isinf(life):
            require(min(A0, amax)*(1-1e-9) <= a, f'static spot of area {a} below its initial area {A0}')
        elif s.is_growing:
            require(a >= A0*(1-1e-9), f'growing spot of area {a} below its initial area {A0}')
            k = math.log1p(ref.val(g['growth']))
            require(math.log(a/A0)/k <= life*(1+1e-9), 'a mature spot is older than a mean lifetime')
        else:
            k = math.log1p(ref.val(g['growth']))
            age = math.log(amax/A0)/k + (amax-a)/ref.val(g['decay'])
            if a > 0:
                require(age <= life*(1+1e-9)+1e-9, 'a mature spot is older than a mean lifetime')
        omega.append(math.pi*ref.cap_angle(a, rs)**2)
    target = 4*math.pi*c['cov']
    if c['cov'] == 0:
        require(not out, 'spots were made to cover nothing')
        return
    require(sum(omega) >= target*(1-1e-6), f'mature spots cover {sum(omega)} sr, {target} sr requested')
    require(sum(omega)-(omega[-1] if c['star'] < 0 else max(omega)) <= target*(1+1e-6), f'spots were added after the requested {target} sr were covered')
    rec.label('static', math.isinf(life))
    rec.hit(len(out) >= 2)


@law('C18', lambda: st.fixed_dictionaries(dict(g=spotgen(), seedn=st.just(0))), quick=64, thorough=800, rule='every case')
def mature_ages(c, rec):
    """Ages of mature spots are uniform over the mean lifetime; sizes of static ones uniform between initial and maximum."""
    g = dict(c['g'], sigma=0.)
    G = spot_gen(g, np.random.default_rng(g['seed']))
    A, A0 = ref.val(g['mean']), ref.val(g['init'])
    rs = math.sqrt(A*1000/(4*math.pi))
    out = seq(G.generate_mature_spots(0.12, rs*u.km))
    a = np.array([finite(s.area_current, u.km**2, 'area') for s in out])
    life, _ = spot_rates(g)
    out, a = out[:-1], a[:-1]       # the stopping rule biases the last one only slightly
    n = len(a)
    if math.isinf(life):
        x = (a-A0)/(A-A0)
        require(np.all((x > -1e-9) & (x < 1+1e-9)), 'static mature spot outside its size range')
        uniform_test(x, 'sizes of static mature spots')
    else:
        k, w = math.log1p(ref.val(g['growth'])), ref.val(g['decay'])
        grow = np.array([bool(s.is_growing) for s in out])
        age = np.where(grow, np.log(np.maximum(a, 1e-300)/A0)/k, math.log(A/A0)/k + (A-a)/w)
        dead = a <= 0
        x = age/life
        require(np.all((x > -1e-9) & (x < 1+1e-9) | dead), 'mature spot older than a lifetime')
        xm = min(1., (math.log(A/A0)/k+A/w)/life)
        x = np.where(dead, xm, x)
        below = x[~dead]
        uniform_test(below/xm if xm < 1 else below, 'ages of mature spots')
    rec.hit()


@law('C18', lambda: st.fixed_dictionaries(dict(g=spotgen(), cov=st.one_of(gen.fl(1.0001, 100.), gen.fl(-5., -1e-6)),
     dist=st.text('abcdefghijklmnop', min_size=1, max_size=8).filter(lambda s: s not in ('iso', 'solar')))), quick=200, rule='every case')
def bad_spot_requests(c, rec):
    """Impossible coverage and unknown distributions are refused, not guessed."""
    g = c['g']
    G = spot_gen(g, np.random.default_rng(g['seed']))
    try:
        G.generate_mature_spots(c['cov'], 1*u.R_sun)
    except ValueError:
        pass
    else:
        raise Violation(f'a coverage of {c["cov"]} was accepted')
    try:
        G = spot_gen(dict(g, dist=c['dist']), np.random.default_rng(g['seed']))
        G.generate_spots(2)
    except ValueError:
        pass
    else:
        raise Violation(f'the distribution {c["dist"]!r} was accepted')
    rec.hit()


RARE = 1e-11        # an outcome less likely than this is a violation


def tail_bound(lam, W, x):
    """Chernoff bound on the probability that a sum of independent Poisson(lam) numbers of terms, each worth W[i], lies as far out as x."""
    w = np.asarray(W, float)/np.max(W)
    x = x/np.max(W)
    mean = lam*w.sum()
    if abs(x-mean) <= 1e-9*max(mean, 1.):
        return 1.
    sign = 1. if x > mean else -1.
    # every th > 0 gives a bound; the smallest over a fine grid is used
    th = np.geomspace(1e-4, 60., 400)[:, None]
    e = lam*np.sum(np.expm1(np.minimum(sign*th*w[None, :], 600.)), axis=1)-sign*th[:, 0]*x
    return math.exp(min(0., float(np.min(e))))


@st.composite
def equilibrium(draw):
    g = draw(spotgen(static=False))
    g['sigma'] = 0.
    return dict(g=g, n=draw(gen.fl(3., 60.)), steps=draw(st.integers(20, 60)), dt=draw(gen.logf(0.02, 0.15)), seed=g['seed'],
                birth_first=draw(st.booleans()))


@law('C18', equilibrium, quick=96, thorough=1500, rule='at least 20 births expected over the history')
def spot_coverage_history(c, rec):
    """Birth and ageing together: the total spot area over a history follows from the birth rate and the life of a spot."""
    g = c['g']
    life, area = spot_rates(g)
    A, A0 = ref.val(g['mean']), ref.val(g['init'])
    g = dict(g, coverage=0.3)
    # stellar radius such that c['n'] spots are alive in equilibrium
    rs = math.sqrt(c['n']*area/g['coverage']/(4*math.pi))
    rs = max(rs, math.sqrt(A*12/(4*math.pi)))
    rate = g['coverage']*4*math.pi*rs**2/area/life
    rng = np.random.default_rng(c['seed'])
    sc = dict(grid={'kind': 'spiral', 'n': 8}, teff=[3300., 'K'], radius=[rs, 'km'], period=[1., 'd'], limb=[0., 0.])
    star = make_star(sc, rng=rng, spot_generator=spot_gen(g, rng))
    dt = c['dt']*life
    tot = 0.
    for _ in range(c['steps']):
        if c['birth_first']:
            star.birth_spots(dt*u.day)
        star.age(dt*u.day)
        if not c['birth_first']:
            star.birth_spots(dt*u.day)
        tot += sum(finite(s.area_current, u.km**2, 'area') for s in seq(star.spots.spots))
    k0 = 1 if c['birth_first'] else 0
    areas = [ref.SpotModel(A0, A, True, ref.val(g['growth']), ref.val(g['decay'])).age(dt*k).a for k in range(k0, c['steps']+k0)]
    W = np.cumsum(areas)
    lam = rate*dt
    mean, var = lam*W.sum(), lam*np.sum(W**2)
    require(tail_bound(lam, W, tot) > RARE, f'summed spot area over the history {tot:.4g} km2, expected {mean:.4g} +- {math.sqrt(var):.2g}')
    rec.hit(lam*c['steps'] >= 20)


# ---------------------------------------------------------------- C19

def fac_gen(g, rng, **kw):
    kw = kw or dict(grid_params=grid_params(g.get('grid', {'kind': 'spiral', 'n': 8})))
    G = _fac_gen(g, rng, kw)
    rs = 40*ref.val(g['r'])*u.km
    try:
        cov = float(g['coverage'])
    except (TypeError, ValueError):
        cov = 1.
    t = ref.val(g['life'])*min(1., 1/max(1e-9, cov*20000))*u.day
    return used(G, rng, g.get('seed', 0), lambda: G.get_n_faculae_expected(0.7*t, 0.3*rs), lambda: G.birth_faculae(t, rs), lambda: G.generate_faculae(1),
                lambda: G.get_coords(1))


def _fac_gen(g, rng, kw):
    return FaculaGenerator(dist_r_peak=Q(g['r']), dist_r_logsigma=g['rsig'], depth=Q(g['depth']), dist_life_peak=Q(g['life']),
                           dist_life_logsigma=g['lsig'], floor_teff_slope=Q(g['fs']), floor_teff_min_rad=Q(g['fm']),
                           floor_teff_base_dteff=Q(g['fb']), wall_teff_slope=Q(g['ws']), wall_teff_intercept=Q(g['wi']),
                           coverage=g['coverage'], dist=g.get('dist', 'iso'), rng=rng, **kw)


@st.composite
def facgen(draw):
    L = lambda v: gen.as_unit(v, draw(st.sampled_from(gen.LENGTH)))
    r = draw(gen.logf(50., 20000.))
    return dict(r=L(r), rsig=draw(st.one_of(st.just(0.), gen.fl(0.02, 0.6))), depth=L(r*draw(gen.fl(0.05, 3.))),
                life=draw(gen.in_unit(gen.logf(0.05, 200.), gen.TIME)), lsig=draw(st.one_of(st.just(0.), gen.fl(0.02, 0.6))),
                fs=gen.as_unit(draw(gen.fl(-100., 100.))/r, draw(st.sampled_from(gen.SLOPE))), fm=L(r*draw(gen.fl(0., 2.))),
                fb=[draw(gen.fl(-300., 300.)), 'K'], ws=gen.as_unit(draw(gen.fl(-100., 100.))/r, draw(st.sampled_from(gen.SLOPE))),
                wi=[draw(gen.fl(-300., 300.)), 'K'], coverage=draw(st.one_of(gen.fl(0., 1.), st.sampled_from([0., 0.2, 1, 0]))),
                seed=draw(st.integers(0, 2**32-1)))


def fac_area(g):
    """Time average of pi r^2 over a life of two lifetimes, r e-folding twice per lifetime."""
    return 0.25*math.pi*(1-math.exp(-4))*ref.val(g['r'])**2


@law('C19', lambda: st.fixed_dictionaries(dict(g=facgen(), radius=gen.star_radius(), time=gen.in_unit(gen.logf(1e-3, 1e3), gen.TIME))),
     quick=1000, rule='births are expected')
def expected_facula_births(c, rec):
    """Expected births = coverage x stellar area / mean facula area x time / (two lifetimes)."""
    g = c['g']
    G = fac_gen(g, np.random.default_rng(g['seed']))
    got = finite(G.mean_area, u.km**2, 'mean area')
    require(abs(got/fac_area(g)-1) < 1e-9, f'time-averaged facula area {got} km2, expected {fac_area(g)} km2')
    n = finite(G.get_n_faculae_expected(Q(c['time']), Q(c['radius'])), None, 'expected births')
    want = g['coverage']*4*math.pi*ref.val(c['radius'])**2/fac_area(g)*ref.val(c['time'])/(2*ref.val(g['life']))
    require(abs(n-want) <= 1e-9*want, f'{n} births expected, should be {want}')
    rec.hit(n > 0)


@law('C19', lambda: st.fixed_dictionaries(dict(g=facgen(), n=st.one_of(st.integers(0, 60), st.sampled_from([600, 1500, 4000])))), quick=300, thorough=3000,
     rule='at least 100 faculae in the sample')
def generated_faculae(c, rec):
    """Each new facula has the configured parameters; radii and lifetimes are log-normal and fully correlated; places isotropic."""
    g = c['g']
    G = fac_gen(g, np.random.default_rng(g['seed']))
    out = seq(G.generate_faculae(c['n']))
    require(len(out) == c['n'], f'{len(out)} faculae made, {c["n"]} requested')
    r, life = ref.val(g['r']), ref.val(g['life'])
    rm = np.array([finite(f.r_max, u.km, 'maximum radius') for f in out])
    rr = np.array([finite(f.radius, u.km, 'radius') for f in out])
    ll = np.array([finite(f.lifetime, u.day, 'lifetime') for f in out])
    lat = np.array([finite(f.lat, u.rad, 'latitude') for f in out])
    lon = np.array([finite(f.lon, u.rad, 'longitude') for f in out])
    require(np.all(np.abs(rr*math.e**2/rm-1) < 1e-9), 'a facula is not born at 1/e^2 of its maximum radius')
    # one draw z sets both: log10(r_max/r) = z*rsig, log10(life/peak) = z*lsig
    a, b = np.log10(rm/r), np.log10(ll/life)
    require(np.all(np.abs(a*g['lsig']-b*g['rsig']) < 1e-8), 'radius and lifetime of a facula do not go together')
    for f in out[:50]:
        for name, x, y in (('depth', finite(f.depth, u.km), ref.val(g['depth'])), ('floor slope', finite(f.floor_teff_slope, u.K/u.km), ref.val(g['fs'])),
                           ('floor minimum radius', finite(f.floor_teff_min_rad, u.km), ref.val(g['fm'])),
                           ('floor temperature', finite(f.floor_teff_base_dteff, u.K), g['fb'][0]),
                           ('wall slope', finite(f.wall_teff_slope, u.K/u.km), ref.val(g['ws'])),
                           ('wall temperature', finite(f.wall_teff_intercept, u.K), g['wi'][0])):
            require(abs(x-y) <= 1e-9*abs(y), f'new facula has {name} {x}, the generator {y}')
        require(f.is_growing, 'a new-born facula is not growing')
    if c['n'] >= 100:
        for name, x, s in (('maximum radius', a, g['rsig']), ('lifetime', b, g['lsig'])):
            if s == 0:
                require(np.all(np.abs(x) < 1e-9), f'{name} varies though its spread is zero')
            else:
                normal_test(x/s, 'log of the ' + name)
                no_trend(x, name)
        check_coords(lat, lon, 'iso', 'facula')
        rec.hit()


@law('C19', lambda: st.fixed_dictionaries(dict(g=facgen(), n=st.sampled_from([0, 1, 2, 500, 5000, 20000]))), quick=300, rule='at least 100 places drawn')
def facula_places(c, rec):
    """Places are isotropic."""
    G = fac_gen(c['g'], np.random.default_rng(c['g']['seed']))
    lat, lon = G.get_coords(c['n'])
    lat, lon = qarr(lat, u.rad, 'latitude', c['n']), qarr(lon, u.rad, 'longitude', c['n'])
    require(len(lat) == len(lon) == c['n'], 'wrong number of coordinates')
    if c['n'] >= 100:
        check_coords(lat, lon, 'iso', 'facula')
        rec.hit()


@law('C19', lambda: births(facgen()), quick=160, thorough=1600, rule='at least 50 births over the calls')
def poisson_facula_births(c, rec):
    """The number born in a time span is Poisson distributed about the expectation."""
    g = c['g']
    G = fac_gen(g, np.random.default_rng(g['seed']))
    rate = g['coverage']*4*math.pi*ref.val(c['radius'])**2/fac_area(g)/(2*ref.val(g['life']))
    t, lam = (10., 0.) if rate == 0 else (c['lam']/rate, c['lam'])
    count_test(lambda k: len(seq(G.birth_faculae(Q(gen.as_unit(t, c['tunit'])), Q(c['radius'])))), lam, rec)


@law('C19', lambda: births(facgen(), 250.), quick=8, thorough=120, rule='at least 50 births over the calls')
def many_facula_births(c, rec):
    """The number born is Poisson distributed also when very many are expected."""
    g = dict(c['g'], coverage=c['g']['coverage'] or 0.3)
    G = fac_gen(g, np.random.default_rng(g['seed']))
    t = c['lam']/(g['coverage']*4*math.pi*ref.val(c['radius'])**2/fac_area(g)/(2*ref.val(g['life'])))
    count_test(lambda k: len(seq(G.birth_faculae(Q(gen.as_unit(t, c['tunit'])), Q(c['radius'])))), c['lam'], rec)


@law('C19', lambda: births(facgen(), rare=True), quick=6, thorough=120, rule='every case (6000 short steps)')
def rare_facula_births(c, rec):
    """The number born is Poisson distributed also over steps so short that a birth is rare."""
    g = dict(c['g'], coverage=c['g']['coverage'] or 0.3)
    G = fac_gen(g, np.random.default_rng(g['seed']))
    t = Q(gen.as_unit(c['lam']/(g['coverage']*4*math.pi*ref.val(c['radius'])**2/fac_area(g)/(2*ref.val(g['life']))), c['tunit']))
    r = Q(c['radius'])
    count_test(lambda k: len(seq(G.birth_faculae(t, r))), c['lam'], rec)


@law('C19', lambda: st.fixed_dictionaries(dict(g=facgen())), quick=4, thorough=60, rule='every case')
def facula_tails(c, rec):
    """Sizes and lifetimes follow their laws out to the tails."""
    g = dict(c['g'], rsig=c['g']['rsig'] or 0.2, lsig=c['g']['lsig'] or 0.2)
    out = seq(fac_gen(g, np.random.default_rng(g['seed'])).generate_faculae(20000))
    tails(np.log10(np.array([finite(f.r_max, u.km) for f in out])/ref.val(g['r']))/g['rsig'], 'maximum radii')
    tails(np.log10(np.array([finite(f.lifetime, u.day) for f in out])/ref.val(g['life']))/g['lsig'], 'lifetimes')
    rec.hit()


@law('C19', lambda: st.fixed_dictionaries(dict(g=facgen(), kind=st.sampled_from(['str', 'none', 'quantity', 'list', 'solar', 'dist']),
     dist=st.text('abcdefghijklmnop', min_size=1, max_size=8).filter(lambda s: s not in ('iso', 'solar')))), quick=200, rule='every case')
def bad_facula_requests(c, rec):
    """Coverages that are not numbers and unsupported distributions are refused when the generator is made."""
    g, k = c['g'], c['kind']
    bad = {'str': '0.2', 'none': None, 'quantity': 0.2*u.one, 'list': [0.2]}
    exc = TypeError
    if k in bad:
        g = dict(g, coverage=bad[k])
    elif k == 'solar':
        g, exc = dict(g, dist='solar'), NotImplementedError
    else:
        g, exc = dict(g, dist=c['dist']), ValueError
    try:
        fac_gen(g, np.random.default_rng(g['seed']))
    except exc:
        rec.label(k)
        rec.hit()
        return
    raise Violation(f'a facula generator with {k} = {g["coverage"] if k in bad else g["dist"]!r} was accepted')


@st.composite
def fac_equilibrium(draw):
    g = draw(facgen())
    g['rsig'] = g['lsig'] = 0.
    return dict(g=g, n=draw(gen.fl(3., 60.)), steps=draw(st.integers(20, 60)), dt=draw(gen.logf(0.02, 0.2)), seed=g['seed'],
                birth_first=draw(st.booleans()))


@law('C19', fac_equilibrium, quick=96, thorough=1500, rule='at least 20 births expected over the history')
def facula_coverage_history(c, rec):
    """Birth and ageing together: number and area of faculae over a history follow from the birth rate and the life of a facula."""
    g = dict(c['g'], coverage=0.3)
    life, r = ref.val(g['life']), ref.val(g['r'])
    rs = math.sqrt(c['n']*fac_area(g)/g['coverage']/(4*math.pi))
    rate = g['coverage']*4*math.pi*rs**2/fac_area(g)/(2*life)
    rng = np.random.default_rng(c['seed'])
    sc = dict(grid={'kind': 'spiral', 'n': 8}, teff=[3300., 'K'], radius=[rs, 'km'], period=[1., 'd'], limb=[0., 0.])
    star = make_star(sc, rng=rng, fac_generator=fac_gen(g, rng))
    dt = c['dt']*life
    tot = 0.
    for _ in range(c['steps']):
        if c['birth_first']:
            star.birth_faculae(dt*u.day)
        star.age(dt*u.day)
        if not c['birth_first']:
            star.birth_faculae(dt*u.day)
        tot += sum(math.pi*finite(f.radius, u.km, 'radius')**2 for f in seq(star.faculae.faculae))
    k0 = 1 if c['birth_first'] else 0
    areas = []
    for k in range(k0, c['steps']+k0):
        m = ref.FaculaModel(r*math.exp(-2), r, True, life).age(dt*k)
        if not m.growing and abs(m.dead_ratio-1) < 1e-9:
            return
        areas.append(0. if (not m.growing and m.dead_ratio <= 1) else math.pi*m.r**2)
    W = np.cumsum(areas)
    lam = rate*dt
    mean, var = lam*W.sum(), lam*np.sum(W**2)
    require(tail_bound(lam, W, tot) > RARE, f'summed facula area over the history {tot:.4g} km2, expected {mean:.4g} +- {math.sqrt(var):.2g}')
    rec.hit(lam*c['steps'] >= 20)
