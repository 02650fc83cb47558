"""C08 grids tile the sphere, C11 sky geometry, C24 display resampling."""
import math
import numpy as np
from astropy import units as u
from hypothesis import strategies as st

from pbt.core import law, require, Violation
from pbt import ref, gen
from pbt.build import (Q, make_grid, finite, num, grid_arrays, grid_params, grid_shape, CoordinateGrid)
from vspec_vsm.helpers import get_angle_between, proj_ortho


# ---------------------------------------------------------------- C08

def any_grid():
    usual = st.one_of(gen.rect_grid(60, 90), gen.spiral_grid(5000, 1),
                      st.sampled_from([{'kind': 'spiral', 'n': 1}, {'kind': 'rect', 'nlat': 3, 'nlon': 1}]))
    return st.integers(0, 29).flatmap(lambda k: usual if k < 29 else st.sampled_from(gen.BIG+gen.HUGE))


@st.composite
def grid_pair(draw):
    return dict(a=draw(any_grid()), b=draw(any_grid()))


@law('C08', grid_pair, quick=700, rule='the grid has at least 20 points')
def grid_basics(c, rec):
    """Shapes agree, points are on the sphere and distinct, areas are shares of the sphere."""
    g = make_grid(c['a'])
    shape = grid_shape(c['a'])
    lat, lon = grid_arrays(g, c['a'])
    require(np.all(np.abs(lat) <= math.pi/2+1e-12), 'grid latitude outside [-90, 90] deg')
    require(np.all((lon >= -1e-12) & (lon < 2*math.pi+1e-12)), 'grid longitude outside [0, 360) deg')
    area = finite(g.area, None, 'pixel areas', shape)
    require(np.all(area >= -1e-12), 'negative pixel area')
    require(abs(area.sum()-1) < 2e-5, lambda: f'pixel areas add up to {area.sum()}, not to the sphere')
    z = g.zeros()
    require(np.asarray(z).shape == shape and not np.any(z), 'zeros() does not match the grid')
    zi = g.zeros(dtype='int16')
    require(np.asarray(zi).shape == shape and np.asarray(zi).dtype == np.int16, 'zeros(dtype) ignores shape or dtype')
    for kw in ({}, dict(dtype='int16'), dict(dtype='float64')):
        g.zeros(**kw)[...] = 1
        require(not np.any(g.zeros(**kw)), 'a fresh array holds what was written into an earlier one')
    if c['a']['kind'] == 'rect':
        nlat, nlon = c['a']['nlat'], c['a']['nlon']
        want_lat = -math.pi/2 + math.pi*np.arange(nlat)/(nlat-1)
        want_lon = 2*math.pi*np.arange(nlon)/nlon
        require(np.allclose(lat, want_lat[None, :], atol=1e-9), 'rectangular grid: latitudes are not even from pole to pole')
        require(np.allclose(lon, want_lon[:, None], atol=1e-9), 'rectangular grid: longitudes are not even over the circle')
        la, lo = g.oned()
        require(np.allclose(finite(la, u.rad, 'latitudes', (nlat,)), want_lat, atol=1e-9), 'one-dimensional latitudes')
        require(np.allclose(finite(lo, u.rad, 'longitudes', (nlon,)), want_lon, atol=1e-9), 'one-dimensional longitudes')
        w = np.cos(want_lat)
        want = np.broadcast_to(w/w.sum()/nlon, shape)
        require(np.allclose(area, want, atol=1e-6*want.max()), 'rectangular grid: areas are not proportional to cos(latitude)')
        require(abs(finite(g.dlat, u.rad)-math.pi/(nlat-1)) < 1e-9, 'latitude spacing')
        require(abs(finite(g.dlon, u.rad)-2*math.pi/nlon) < 1e-9, 'longitude spacing')
    else:
        require(np.allclose(area, 1/c['a']['n'], rtol=1e-5), 'spiral grid: points do not have equal area')
        if c['a']['n'] > 1:
            # equal-area latitude bands hold equal numbers of points
            s = np.sort(np.sin(lat))
            n = len(s)
            want = -1 + (2*np.arange(n)+1)/n
            require(np.max(np.abs(s-want)) < 1.01/n, 'spiral grid: latitudes are not uniform in area')
    # distinct points
    v = ref.unit_vec(lat, lon).reshape(-1, 3)
    if c['a']['kind'] == 'rect':
        v = v[(np.abs(lat) < math.pi/2-1e-9).ravel()]
    require(len(np.unique(np.round(v, 9), axis=0)) == len(v), 'two grid points coincide')
    if c['a']['kind'] == 'spiral' and len(v) >= 5:
        # evenly spread: an even grid has its neighbours at 3.1 to 3.8 and no point of the sphere beyond 2.2 to 2.7 over sqrt(n)
        from scipy.spatial import cKDTree
        tree = cKDTree(v)
        near = tree.query(v, k=2)[0][:, 1].min()*math.sqrt(len(v))
        require(near > 2.2, f'spiral grid: two points are closer than an even spread allows ({near:.2f} instead of about 3 over the root of their number)')
        x = np.random.default_rng(7).normal(size=(3000, 3))
        far = tree.query(x/np.linalg.norm(x, axis=1)[:, None])[0].max()*math.sqrt(len(v))
        require(far < 3.3, f'spiral grid: part of the sphere has no point nearby ({far:.2f} instead of about 2.6 over the root of their number)')
    rec.label(c['a']['kind'])
    rec.hit(v.shape[0] >= 20)


@law('C08', grid_pair, quick=250, rule='the two grids differ')
def grid_equality(c, rec):
    """Grids are equal exactly when they have the same kind and resolution."""
    a, a2, b = make_grid(c['a']), make_grid(c['a']), make_grid(c['b'])
    require(bool(a == a2), 'two grids with the same parameters are not equal')
    if c['a']['kind'] == c['b']['kind']:
        require(bool(a == b) == (c['a'] == c['b']), f'equality of {c["a"]} and {c["b"]} is {a == b}')
        require(bool(a != b) == (c['a'] != c['b']), f'inequality of {c["a"]} and {c["b"]} is {a != b}')
    rec.hit(c['a'] != c['b'])


def quad_case():
    return st.fixed_dictionaries(dict(
        grid=st.one_of(gen.rect_grid(90, 120, 12, 12), gen.spiral_grid(6000, 100)),
        lat=gen.fl(-90, 90), lon=gen.fl(0, 360), rad=gen.fl(5., 175.)))


@law('C08', quad_case, quick=400, rule='every case (a cap of 5 to 175 deg and low-order harmonics)')
def grid_quadrature(c, rec):
    """Sums over the grid approximate integrals over the sphere: caps and low-order moments."""
    g = make_grid(c['grid'])
    lat, lon = grid_arrays(g, c['grid'])
    w = finite(g.area, None, 'pixel areas')
    w = w/w.sum()
    if c['grid']['kind'] == 'rect':
        h = math.hypot(math.pi/(c['grid']['nlat']-1), 2*math.pi/c['grid']['nlon'])
        mom_tol = 1.5*(math.pi/(c['grid']['nlat']-1))**2 + 1e-6
    else:
        h = math.sqrt(4*math.pi/c['grid']['n'])
        mom_tol = 6.0/c['grid']['n'] + 1e-6
    a = math.radians(c['rad'])
    r = ref.ang_dist(math.radians(c['lat']), math.radians(c['lon']), lat, lon)
    got, want = float(np.sum(w[r < a])), (1-math.cos(a))/2
    tol = 0.75*h*math.sin(a)/2 + 0.5*h*h
    require(abs(got-want) <= tol, lambda: f'a cap of {c["rad"]} deg holds {got} of the sphere, expected {want} +- {tol:.2g}')
    v = ref.unit_vec(lat, lon)
    d = ref.unit_vec(math.radians(c['lat']), math.radians(c['lon']))
    x = v @ d
    for p, want in ((1, 0.), (2, 1/3), (3, 0.), (4, 1/5)):
        got = float(np.sum(w*x**p))
        require(abs(got-want) <= mom_tol*p, lambda: f'the mean of cos^{p} over the sphere is {got}, expected {want}')
    rec.hit()


def nonfinite_new():
    return st.sampled_from(['list', 'float', 'str', 'none', 'rectfloat'])


@law('C08', nonfinite_new, quick=20, rule='every case', shards=1)
def grid_rejects_bad_parameters(c, rec):
    """Grid parameters that are neither an integer nor a pair of integers are refused with TypeError."""
    bad = {'list': [10, 20], 'float': 100., 'str': '100', 'none': None, 'rectfloat': (10., 20)}[c]
    try:
        g = CoordinateGrid.new(bad)
    except TypeError:
        rec.hit()
        return
    raise Violation(f'CoordinateGrid.new({bad!r}) returned {g!r}')


# ---------------------------------------------------------------- C11

@st.composite
def points(draw):
    """An observer and points: random, near the center, near the limb, antipodal, on poles and meridians."""
    lat0, lon0 = draw(gen.lat_deg()), draw(gen.lon_deg())
    pts = []
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.integers(0, 6))
        if k == 0:
            pts.append([lat0, lon0])
        elif k == 1:
            pts.append([-lat0, lon0+180.])
        elif k == 2:
            e = draw(gen.logf(1e-9, 1.))
            pts.append([max(-90., min(90., lat0+e*draw(st.sampled_from([-1, 0, 1])))), lon0+e*draw(st.sampled_from([-1, 1]))])
        elif k == 3:
            pts.append([draw(gen.lat_deg()), lon0+draw(st.sampled_from([0., 180., 90., -90.]))])
        else:
            pts.append([draw(gen.lat_deg()), draw(gen.lon_deg())])
    return dict(lat0=lat0, lon0=lon0, pts=pts, unit=draw(st.sampled_from(['deg', 'rad', 'arcmin'])),
                dlon=draw(st.sampled_from([0., 360., -360., 37.5])))


@law('C11', points, quick=3000, rule='at least one visible point away from disk center and one other point',
     examples=[dict(lat0=30., lon0=45., pts=[[30., 45.]], unit='deg', dlon=0.),
               dict(lat0=90., lon0=40., pts=[[60., 100.], [90., 0.]], unit='deg', dlon=0.),
               dict(lat0=-90., lon0=40., pts=[[-60., 100.]], unit='deg', dlon=0.),
               dict(lat0=89.99999999999999, lon0=0., pts=[[2., 90.]], unit='deg', dlon=0.),
               dict(lat0=10., lon0=0., pts=[[-10., 180.], [10.0000001, 0.]], unit='deg', dlon=0.)])
def projection(c, rec):
    """Orthographic projection: east right, north up, radius sin(angle), hidden points undefined."""
    un = c['unit']
    lat = np.array([p[0] for p in c['pts']])
    lon = np.array([p[1] for p in c['pts']])
    def q(x):
        return (x*u.deg).to({'deg': u.deg, 'rad': u.rad, 'arcmin': u.arcmin}[un])
    x, y = proj_ortho(q(c['lat0']), q(c['lon0']), q(lat), q(lon))
    x, y = num(x, None, 'projected x', lat.shape), num(y, None, 'projected y', lat.shape)
    la, lo, la0, lo0 = np.radians(lat), np.radians(lon), math.radians(c['lat0']), math.radians(c['lon0'])
    X, Y, Z = ref.ortho(la0, lo0, la, lo)
    hidden = Z < -1e-7
    vis = Z > 1e-7
    for i in range(len(lat)):
        where = f'point {c["pts"][i]} seen from {c["lat0"]},{c["lon0"]}'
        if hidden[i]:
            require(math.isnan(x[i]) and math.isnan(y[i]), lambda: f'{where}: hidden, but projected to {x[i]},{y[i]}')
        if vis[i]:
            require(math.isfinite(x[i]) and math.isfinite(y[i]), lambda: f'{where}: visible, but not projected')
            s = math.hypot(X[i], Y[i])
            require(abs(math.hypot(x[i], y[i])-s) < 1e-6, lambda: f'{where}: distance {math.hypot(x[i], y[i])} from disk center, expected {s}')
            # rounding of the position angle, taken from its cosine: worst next to the meridian and close to a pole
            if s > 1e-6:
                cc = Y[i]/s
                noise = 1e-12 + (1e-14/(s*abs(math.cos(la0))) if abs(math.cos(la0)) > 1e-9 else 0.)
                lo_c, hi_c = max(-1., cc-noise), min(1., cc+noise)
                require(s*lo_c-1e-6 <= y[i] <= s*hi_c+1e-6, lambda: f'{where}: y={y[i]}, expected {Y[i]}')
                xs = [math.sqrt(max(0., 1-v*v)) for v in (lo_c, hi_c)]
                xmin, xmax = s*min(xs), s*(max(xs) if lo_c*hi_c > 0 else 1.)
                if lo_c <= -1+1e-15 or hi_c >= 1-1e-15:
                    xmin = 0.
                require(xmin-1e-6 <= abs(x[i]) <= xmax+1e-6, lambda: f'{where}: x={x[i]}, expected {X[i]}')
                if abs(X[i]) > max(2e-6, 2*s*math.sqrt(2*noise)):
                    require(x[i]*X[i] > 0, lambda: f'{where}: x={x[i]} on the wrong side, expected {X[i]}')
    rec.label('pole-on', abs(c['lat0']) == 90)
    rec.label('disk center', np.any(Z > 1-1e-12))
    rec.label('hidden', np.any(hidden))
    rec.hit(bool(np.any(vis & (np.hypot(X, Y) > 0.01))) and len(lat) > 1)


@law('C11', points, quick=1500, rule='two points at least 0.01 rad apart and not antipodal',
     examples=[dict(lat0=l, lon0=0., pts=[[l, 0.], [-l, 180.]], unit='deg', dlon=0.) for l in (10., 33.3, 45., 59.9, 60.1)])
def angles(c, rec):
    """Angle between two directions: great-circle distance, symmetric, same for shifted longitudes."""
    un = {'deg': u.deg, 'rad': u.rad, 'arcmin': u.arcmin}[c['unit']]
    for p in c['pts']:
        a = [(v*u.deg).to(un) for v in (c['lat0'], c['lon0'], p[0], p[1])]
        got = finite(get_angle_between(*a), u.rad, f'angle between {c["lat0"]},{c["lon0"]} and {p}')
        want = float(ref.ang_dist(*[math.radians(v) for v in (c['lat0'], c['lon0'], p[0], p[1])]))
        # arccos is good to sqrt(eps) near 0 and pi
        tol = 1e-9 + min(1e-7, 1e-14/max(math.sin(want), 1e-9)+0)+ (1e-7 if math.sin(want) < 1e-6 else 0)
        require(abs(got-want) <= tol, lambda: f'angle between {c["lat0"]},{c["lon0"]} and {p}: {got} rad, expected {want}')
        back = finite(get_angle_between(a[2], a[3], a[0], a[1]), u.rad, 'angle')
        require(abs(back-got) <= tol, 'the angle between two points is not symmetric')
        sh = (c['dlon']*u.deg).to(un)
        shifted = finite(get_angle_between(a[0], a[1]+sh, a[2], a[3]+sh), u.rad, 'angle')
        require(abs(shifted-got) <= 10*tol+1e-8, 'the angle changes when both longitudes shift')
        rec.hit(0.01 < want < math.pi-0.01)
        rec.label('coincident', want < 1e-8)
        rec.label('antipodal', want > math.pi-1e-8)


@st.composite
def mu_case(draw):
    return dict(grid=draw(gen.grid(30, 40, 1500)), obs=draw(gen.obs()))


@law('C11', mu_case, quick=400, rule='every case')
def mu_on_grid(c, rec):
    """The cosine of the angle from disk center at every grid point is that of the great-circle distance."""
    g = make_grid(c['grid'])
    lat, lon = grid_arrays(g, c['grid'])
    mu = finite(g.cos_angle_from_disk_center(Q(c['obs']['lat']), Q(c['obs']['lon'])), None, 'mu', lat.shape)
    want = ref.cos_from_center(ref.val(c['obs']['lat']), ref.val(c['obs']['lon']), lat, lon)
    require(np.max(np.abs(mu-want)) < 1e-9, lambda: f'mu differs from cos(distance) by {np.max(np.abs(mu-want))}')
    rec.hit()


# ---------------------------------------------------------------- C24

@st.composite
def display_case(draw):
    n = draw(st.one_of(*[st.integers(1, 160)]*40, st.sampled_from([300, 513, 1025])))
    return dict(n=n, nlat=draw(st.integers(2, 20)), nlon=draw(st.integers(1, 24)),
                a=draw(gen.fl(-5, 5)), b=draw(gen.fl(-5, 5)),
                seed=draw(st.integers(0, 10**6)), unit=draw(st.sampled_from(['K', '', 'km'])),
                quantity=draw(st.booleans()))


@law('C24', display_case, quick=300, rule='at least 10 points and a non-constant field')
def spiral_resampling(c, rec):
    """Resampling is a normalised average: constants, bounds, linearity and units are preserved."""
    g = CoordinateGrid.new(c['n'])
    rng = np.random.default_rng(c['seed'])
    d1, d2 = rng.normal(size=c['n']), rng.normal(size=c['n'])
    un = {'K': u.K, '': u.dimensionless_unscaled, 'km': u.km}[c['unit']]
    wrap = (lambda x: x*un) if c['quantity'] else (lambda x: x)
    unit = un if c['quantity'] else u.dimensionless_unscaled
    shape = (c['nlon'], c['nlat'])

    def disp(d):
        lat, lon, out = g.display_grid(c['nlat'], c['nlon'], wrap(d))
        la = finite(lat, None, 'display latitude', (c['nlat'],))
        lo = finite(lon, None, 'display longitude', (c['nlon'],))
        require(np.allclose(la, np.linspace(-math.pi/2, math.pi/2, c['nlat']), atol=1e-9), 'display latitudes')
        require(np.allclose(lo, 2*math.pi*np.arange(c['nlon'])/c['nlon'], atol=1e-9), 'display longitudes')
        return finite(out, unit, 'resampled data', shape), la, lo
    o1, la, lo = disp(d1)
    o2, _, _ = disp(d2)
    o3, _, _ = disp(c['a']*d1+c['b']*d2)
    const, _, _ = disp(np.full(c['n'], 3000.5))
    require(np.max(np.abs(const-3000.5)) < 1e-6, lambda: f'a constant 3000.5 is resampled to {const.min()}..{const.max()}')
    require(o1.min() >= d1.min()-1e-9 and o1.max() <= d1.max()+1e-9, 'resampled values leave the range of the data')
    require(np.max(np.abs(o3-(c['a']*o1+c['b']*o2))) < 1e-6*(1+abs(c['a'])+abs(c['b'])), 'resampling is not linear')
    # every node is the gaussian average of the points around it
    lat, lon = grid_arrays(g, {'kind': 'spiral', 'n': c['n']})
    r = ref.ang_dist(la[None, :, None], lo[:, None, None], lat, lon)
    wgt = np.exp(-r**2*c['n']/(4*math.pi))
    want = (wgt @ d1)/wgt.sum(axis=-1)
    require(np.max(np.abs(o1-want)) < 1e-5, lambda: f'resampled value off the local average by {np.max(np.abs(o1-want))}')
    rec.hit(c['n'] >= 10)


@st.composite
def rect_display(draw):
    return dict(nlat=draw(st.integers(2, 20)), nlon=draw(st.integers(1, 24)), seed=draw(st.integers(0, 10**6)),
                bad=draw(st.sampled_from(['none', 'transposed', 'lat', 'lon', 'flat'])),
                quantity=draw(st.booleans()))


@law('C24', rect_display, quick=400, rule='every case with data that is not a single value')
def rect_passthrough(c, rec):
    """A rectangular grid shows its own data unchanged and refuses data of another shape."""
    g = CoordinateGrid.new((c['nlat'], c['nlon']))
    d = np.random.default_rng(c['seed']).normal(size=(c['nlon'], c['nlat']))
    un = u.K if c['quantity'] else u.dimensionless_unscaled
    wrap = (lambda x: x*u.K) if c['quantity'] else (lambda x: x)
    lat, lon, out = g.display_grid(c['nlat'], c['nlon'], wrap(d))
    require(np.array_equal(finite(out, un, 'displayed data', d.shape), d), 'a rectangular grid changed the data it displays')
    require(np.allclose(finite(lat, None, 'display latitude', (c['nlat'],)), np.linspace(-math.pi/2, math.pi/2, c['nlat']), atol=1e-9),
            'display latitudes')
    require(np.allclose(finite(lon, None, 'display longitude', (c['nlon'],)), 2*math.pi*np.arange(c['nlon'])/c['nlon'], atol=1e-9),
            'display longitudes')
    bad = None
    if c['bad'] == 'transposed' and c['nlat'] != c['nlon']:
        bad = (c['nlat'], c['nlon'], d.T)
    elif c['bad'] == 'lat':
        bad = (c['nlat']+1, c['nlon'], d)
    elif c['bad'] == 'lon':
        bad = (c['nlat'], c['nlon']+1, d)
    elif c['bad'] == 'flat':
        bad = (c['nlat'], c['nlon'], d.ravel())
    if bad:
        try:
            g.display_grid(bad[0], bad[1], wrap(bad[2]))
        except (TypeError, ValueError):
            rec.label('refused')
        else:
            raise Violation(f'data of shape {bad[2].shape} accepted for a {bad[1]}x{bad[0]} display')
    rec.hit(d.size > 1)


@st.composite
def spiral_bad(draw):
    return dict(n=draw(st.integers(2, 60)), m=draw(st.integers(1, 60)), two=draw(st.booleans()))


@law('C24', spiral_bad, quick=80, rule='the data does not fit the grid')
def spiral_refuses_other_shapes(c, rec):
    """A spiral grid refuses data that is not one value per point."""
    g = CoordinateGrid.new(c['n'])
    d = np.zeros((c['n'], 2)) if c['two'] else np.zeros(c['m'])
    if not c['two'] and c['m'] == c['n']:
        return
    try:
        g.display_grid(4, 5, d)
    except (ValueError, TypeError):
        rec.hit()
        return
    raise Violation(f'data of shape {d.shape} accepted by a spiral grid of {c["n"]} points')
