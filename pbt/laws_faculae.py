"""C05 facula time law, C12 hot-wall areas, C13 faculae on the map."""
import math
import numpy as np
from astropy import units as u
from hypothesis import strategies as st

from pbt.core import law, require, Violation
from pbt import ref, gen
from pbt.build import (Q, make_facula, make_star, make_grid, finite, num, grid_arrays, grid_params, grid_shape,
                       ref_map, FaculaCollection, spot_ref)


# ---------------------------------------------------------------- C05

@st.composite
def facula_history(draw):
    rmax = draw(gen.logf(50., 1e5))
    r0 = rmax*draw(st.one_of(st.just(1.), st.just(math.exp(-2)), gen.fl(0.02, 1.)))
    life = draw(gen.logf(0.05, 400.))
    growing = draw(st.booleans())
    tmax = 0.5*life*math.log(rmax/r0) if growing else 0.
    steps = draw(st.lists(st.one_of(
        st.just(0.), gen.fl(0., 1.5).map(lambda x: x*life), gen.fl(0., 1.2).map(lambda x: x*tmax), st.just(tmax),
        gen.fl(0., 0.1).map(lambda x: x*life)), min_size=1, max_size=8))
    steps = [gen.as_unit(t, draw(st.sampled_from(gen.TIME))) for t in steps]
    f = draw(gen.facula(7e5))
    f.update(r=gen.as_unit(r0, draw(st.sampled_from(gen.LENGTH))), r_max=gen.as_unit(rmax, draw(st.sampled_from(gen.LENGTH))),
             life=gen.as_unit(life, draw(st.sampled_from(gen.TIME))), growing=growing)
    return dict(facula=f, steps=steps)


def _fmodel(f):
    return ref.FaculaModel(ref.val(f['r']), ref.val(f['r_max']), f['growing'], ref.val(f['life']))


@law('C05', facula_history, quick=1500, rule='at least two non-zero steps, and the facula passes its maximum or only decays')
def facula_time_law(c, rec):
    """Radius e-folds twice per lifetime up to the maximum and then down, for every split of the time."""
    f = make_facula(c['facula'])
    rmax = ref.val(c['facula']['r_max'])
    tmax = _fmodel(c['facula']).time_to_max()
    total = 0.
    for t in c['steps']:
        was = bool(f.is_growing)
        f.age(Q(t))
        total += ref.val(t)
        r = finite(f.radius, u.km, 'facula radius')
        want = _fmodel(c['facula']).age(total).r
        require(abs(r-want) <= 1e-8*want + 1e-12*rmax, lambda: f'after {total} d the radius is {r} km, the law gives {want} km')
        require(0 < r <= rmax*(1+1e-9), f'radius {r} km outside (0, {rmax}] km')
        require(not (bool(f.is_growing) and not was), 'a decaying facula started to grow again')
        if c['facula']['growing'] and abs(total-tmax) > 1e-9*(1+tmax):
            require(bool(f.is_growing) == (total < tmax), lambda: f'is_growing={f.is_growing} at {total} d, maximum at {tmax} d')
        # the temperature laws follow the current radius
        fr = ref.FaculaRef(c['facula'], radius=r)
        for name, got, w in (('wall', f.wall_dteff, fr.wall_dteff), ('floor', f.floor_dteff, fr.floor_dteff)):
            g = finite(got, u.K, f'{name} dteff')
            require(abs(g-w) <= 1e-6*(1+abs(w)), lambda: f'{name} temperature excess {g} K at radius {r} km, the linear law gives {w} K')
    once = make_facula(c['facula'])
    once.age(total*u.day)
    r1 = finite(once.radius, u.km)
    require(abs(r1-r) <= 1e-8*r1, lambda: f'{len(c["steps"])} steps: {r} km, one step: {r1} km')
    rec.label('passed maximum', c['facula']['growing'] and total > tmax)
    rec.label('still growing', bool(f.is_growing))
    rec.hit(sum(t[0] > 0 for t in c['steps']) >= 2 and total > tmax)


@st.composite
def facula_life(draw):
    rmax = draw(gen.logf(50., 1e5))
    life = draw(gen.in_unit(gen.logf(0.05, 400.), gen.TIME))
    x = draw(st.one_of(gen.fl(0., 1.99), gen.fl(1.9, 1.999), gen.fl(2.001, 2.1), gen.fl(2.001, 5.)))
    cuts = sorted(draw(st.lists(gen.fl(0.01, 0.99), max_size=5)))
    f = draw(gen.facula(7e5))
    f.update(r=[rmax*math.exp(-2), 'km'], r_max=[rmax, 'km'], life=life, growing=True)
    return dict(facula=f, x=x, cuts=cuts)


@law('C05', facula_life, quick=500, rule='at least one intermediate step')
def facula_lives_two_lifetimes(c, rec):
    """Born at rmax/e^2 the facula peaks after one lifetime and is removed after two, however it is stepped."""
    f = make_facula(c['facula'])
    coll = FaculaCollection(f, grid_params=8)
    life = Q(c['facula']['life'])
    pts = [0.]+[q*c['x'] for q in c['cuts']]+[c['x']]
    for a, b in zip(pts, pts[1:]):
        coll.age((b-a)*life)
    alive = any(x is f for x in coll.faculae)
    require(alive == (c['x'] < 2), lambda: f'after {c["x"]} lifetimes (e-folding laws from rmax/e^2) the facula is '
            f'{"kept" if alive else "removed"}')
    rec.hit(len(c['cuts']) > 0)
    rec.label('removed', not alive)


# ---------------------------------------------------------------- C12

@st.composite
def facula_angle(draw):
    rs = draw(gen.star_radius())
    f = draw(gen.facula(ref.val(rs)))
    ang = draw(st.one_of(st.sampled_from([0., 30., 45., 60., 80., 89.9]), gen.fl(0., 89.99)))
    # sometimes exactly the angle at which the floor disappears
    dr = ref.val(f['depth'])/ref.val(f['r'])
    k = draw(st.integers(0, 5))
    if dr > 0 and k == 0:
        ang = math.degrees(math.atan(2/dr))
    elif dr > 0 and k < 4:          # wall and floor both visible
        ang = math.degrees(math.atan(draw(gen.fl(0.01, 1.99))/dr))
    return dict(facula=f, angle=draw(gen.in_unit(st.just(ang), ['deg', 'rad', 'arcmin'])), step=draw(gen.fl(0.01, 30.)))


def _areas(fac, angle, what):
    d = fac(angle)
    require(isinstance(d, dict) and len(d) == 2, f'{what}: expected wall and floor, got {d!r}')
    return d


def _split(d, unit, what, wall, floor):
    out = {}
    for k, v in d.items():
        t = finite(k, u.K, f'{what} key')
        out[round(t, 3)] = finite(v, unit, what)
    require(set(out) == {float(wall), float(floor)}, lambda: f'{what}: temperatures {sorted(out)}, expected wall {wall}, floor {floor}')
    return out[float(wall)], out[float(floor)]


@law('C12', facula_angle, quick=1200, rule='both wall and floor are visible (0 < wall share < 1)',
     examples=[dict(facula=dict(lat=[0., 'deg'], lon=[0., 'deg'], r=[100., 'km'], r_max=[100., 'km'], depth=[100., 'km'],
                                life=[1., 'd'], floor_min_rad=[20., 'km'], floor_slope=[0., 'K/km'], floor_base=[-100., 'K'],
                                wall_slope=[0., 'K/km'], wall_icpt=[100., 'K'], growing=False),
                    angle=[math.degrees(math.atan(2.)), 'deg'], step=1.)])
def hot_wall(c, rec):
    """Wall and floor share the facula's projected area as the shifted-circle geometry says."""
    f = make_facula(c['facula'])
    fr = ref.FaculaRef(c['facula'])
    ang = ref.val(c['angle'])
    wall, floor = ref.round_half(fr.wall_dteff), ref.round_half(fr.floor_dteff)
    w, fl_ = _split(_areas(f.effective_area, Q(c['angle']), 'effective area'), u.km**2, 'effective area', wall, floor)
    flat = math.pi*fr.r**2*math.cos(ang)
    tol = 1e-6*math.pi*fr.r**2*max(math.cos(ang), 1e-9)
    require(w >= -tol and fl_ >= -tol, f'negative effective area: wall {w}, floor {fl_}')
    require(abs(w+fl_-flat) <= tol, lambda: f'wall+floor = {w+fl_} km2, a flat facula there has {flat} km2')
    frac = fr.wall_fraction(ang)
    require(abs(w-frac*flat) <= tol+1e-6*flat, lambda: f'wall area {w} km2 at {math.degrees(ang)} deg, geometry gives {frac*flat} km2')
    fw, ff = _split(_areas(f.fractional_effective_area, Q(c['angle']), 'fractional area'), None, 'fractional area', wall, floor)
    require(abs(fw+ff-1) <= 1e-9, f'wall and floor fractions sum to {fw+ff}')
    require(abs(fw-frac) <= 1e-6, lambda: f'wall fraction {fw} at {math.degrees(ang)} deg, geometry gives {frac}')
    if fr.r < fr.min_rad:
        require(abs(ff) < 1e-12, 'a facula below the minimum radius shows its floor')
        rec.label('bright point')
    # nearer to the limb the wall fraction never decreases
    ang2 = min(ang+math.radians(c['step']), math.radians(89.995))
    if ang2 > ang:
        fw2, _ = _split(_areas(f.fractional_effective_area, ang2*u.rad, 'fractional area'), None, 'fractional area', wall, floor)
        require(fw2 >= fw-1e-7, lambda: f'the wall fraction falls from {fw} to {fw2} toward the limb')
    rec.label('all wall', frac > 1-1e-9)
    rec.label('all floor', frac < 1e-9)
    rec.hit(1e-6 < frac < 1-1e-6)


@st.composite
def equal_wall(draw):
    c = draw(facula_angle())
    t = draw(st.integers(-500, 500))
    c['facula'].update(wall_slope=[0., 'K/km'], wall_icpt=[t+draw(gen.fl(-0.45, 0.45)), 'K'],
                       floor_slope=[0., 'K/km'], floor_base=[t+draw(gen.fl(-0.45, 0.45)), 'K'])
    return c


@law('C12', equal_wall, quick=150, rule='wall and floor temperatures differ by less than the rounding to 1 K')
def equal_wall_and_floor_rejected(c, rec):
    """Wall and floor of the same (rounded) temperature are refused, never silently merged."""
    f = make_facula(c['facula'])
    for fn in (f.effective_area, f.fractional_effective_area):
        try:
            d = fn(Q(c['angle']))
        except ValueError:
            continue
        raise Violation(f'wall and floor round to the same temperature but {fn.__name__} returned {d!r}')
    rec.hit()


# ---------------------------------------------------------------- C13

@st.composite
def faculae_scene(draw):
    c = draw(gen.scene(nspots=2, nfac=5, gran=False, maxlat=26, maxlon=40, maxn=1200,
                       inbounds=draw(st.booleans())))
    # pile faculae up near the observer, the limb and one another
    o = c['obs']
    for f in c['faculae']:
        k = draw(st.integers(0, 5))
        dr = ref.val(f['depth'])/ref.val(f['r'])
        if k == 0:
            f['lat'], f['lon'] = o['lat'], o['lon']
        elif k >= 4 and dr > 0:      # where wall and floor both show
            d, th = math.atan(draw(gen.fl(0.05, 1.95))/dr), draw(gen.fl(0., 6.28))
            la0 = ref.val(o['lat'])
            la = math.asin(max(-1., min(1., math.sin(la0)*math.cos(d)+math.cos(la0)*math.sin(d)*math.cos(th))))
            lo = ref.val(o['lon'])+math.atan2(math.sin(th)*math.sin(d)*math.cos(la0), math.cos(d)-math.sin(la0)*math.sin(la))
            f['lat'], f['lon'] = [max(-1.5707, min(1.5707, la)), 'rad'], [lo, 'rad']
        elif k == 1:
            f['lat'], f['lon'] = [0., 'deg'], [ref.val(o['lon'])+draw(st.sampled_from([1, -1]))*draw(gen.fl(1., 1.8)), 'rad']
        elif k == 2 and c['faculae']:
            f['lat'] = [max(-1.5, min(1.5, ref.val(c['faculae'][0]['lat'])+draw(gen.fl(-0.2, 0.2)))), 'rad']
            f['lon'] = [ref.val(c['faculae'][0]['lon'])+draw(gen.fl(-0.2, 0.2)), 'rad']
    return c


@law('C13', faculae_scene, quick=900, rule='at least one facula shows both wall and floor pixels on the visible hemisphere')
def faculae_painted(c, rec):
    """Each facula paints its wall share on its limbward pixels and its floor on the rest, over what was there."""
    star = make_star(c)
    lat, lon = grid_arrays(star.gridmaker, c['grid'])
    lat0, lon0 = ref.val(c['obs']['lat']), ref.val(c['obs']['lon'])
    got = finite(star.add_faculae_to_map(Q(c['obs']['lat']), Q(c['obs']['lon'])), u.K, 'surface map with faculae',
                 grid_shape(c['grid']))
    want, amb = ref_map(c, lat, lon)
    bad = ~amb & (np.abs(got-want) > 1e-6)
    require(not bad.any(), lambda: f'surface map with faculae: {bad.sum()} pixels differ, e.g. lat,lon='
            f'{np.degrees(lat[bad][0]):.3f},{np.degrees(lon[bad][0]):.3f}: got {got[bad][0]} want {want[bad][0]}')
    mu = ref.cos_from_center(lat0, lon0, lat, lon)
    both = False
    for fc in c['faculae']:
        f = ref.FaculaRef(fc)
        inside = (ref.ang_dist(f.lat, f.lon, lat, lon) <= f.r/ref.val(c['radius'])) & (mu > 0)
        if inside.any():
            tw, tf = ref.clip_teff(c['teff'][0]+ref.round_half(f.wall_dteff)), ref.clip_teff(c['teff'][0]+ref.round_half(f.floor_dteff))
            both |= bool((got[inside] == tw).any() and (got[inside] == tf).any() and tw != tf)
        else:
            rec.label('sub-pixel or hidden facula')
        rec.label('clipped', not 2300 <= c['teff'][0]+ref.round_half(f.wall_dteff) <= 3900)
    rec.label('over a spot', len(c['spots']) > 0 and len(c['faculae']) > 0)
    rec.label(c['grid']['kind'])
    rec.hit(both)


@law('C13', faculae_scene, quick=250, rule='at least two faculae with pixels')
def facula_index_map(c, rec):
    """The integer facula map marks each photospheric pixel with the last facula on it, and nothing else."""
    star = make_star(c)
    lat, lon = grid_arrays(star.gridmaker, c['grid'])
    base = star.map
    int_map, keys = star.faculae.map_pixels(base, Q(c['radius']), Q(c['teff']))
    int_map = finite(int_map, None, 'facula index map', grid_shape(c['grid']))
    _, amb = ref.paint_spots([spot_ref(s) for s in c['spots']], ref.val(c['radius']), c['teff'][0], lat, lon)
    phot = np.abs(finite(base, u.K)-c['teff'][0]) == 0
    want = np.zeros(lat.shape)
    n = 0
    for i, fc in enumerate(c['faculae']):
        f = ref.FaculaRef(fc)
        r = ref.ang_dist(f.lat, f.lon, lat, lon)
        a = f.r/ref.val(c['radius'])
        amb |= (np.abs(r-a) < ref.EDGE) | ((r > math.pi-1e-3) & (np.abs(r-a) < 1e-5))
        want[(r <= a) & phot] = i+1
        n += bool(((r <= a) & phot).any())
    bad = ~amb & (want != int_map)
    require(not bad.any(), lambda: f'facula index map: {bad.sum()} pixels differ: got {int_map[bad][0]} want {want[bad][0]}')
    require(dict(keys) == {i: i+1 for i in range(len(c['faculae']))}, f'facula index keys: {keys}')
    rec.hit(n >= 2)


@st.composite
def facula_mask(draw):
    rs = draw(gen.star_radius())
    return dict(radius=rs, facula=draw(gen.facula(ref.val(rs))), grid=draw(gen.grid(30, 48, 1500)))


@law('C13', facula_mask, quick=400, rule='the facula covers some pixels but not all')
def facula_extent(c, rec):
    """A facula is the disk of angular radius r/R around its center."""
    g = make_grid(c['grid'])
    f = make_facula(c['facula'], gridmaker=g)
    lat, lon = grid_arrays(g, c['grid'])
    fr = ref.FaculaRef(c['facula'])
    a = fr.r/ref.val(c['radius'])
    got_a = finite(f.angular_radius(Q(c['radius'])), u.rad, 'facula angular radius')
    require(abs(got_a-a) <= 1e-9*a, lambda: f'facula angular radius {got_a} rad, r/R = {a} rad')
    m = num(f.map_pixels(Q(c['radius'])), None, 'facula mask', lat.shape).astype(bool)
    r = ref.ang_dist(fr.lat, fr.lon, lat, lon)
    amb = (np.abs(r-a) < ref.EDGE) | ((r > math.pi-1e-3) & (np.abs(r-a) < 1e-5))
    bad = ~amb & (m != (r <= a))
    require(not bad.any(), lambda: f'{bad.sum()} pixels wrongly in or out of the facula (radius {a} rad), e.g. at {r[bad][0]} rad')
    rec.hit(bool(np.any(r <= a) and np.any(r > a)))


@st.composite
def crowd(draw):
    c = draw(gen.scene(nspots=0, nfac=0, maxlat=14, maxlon=20, maxn=250, gran=False))
    rkm = ref.val(c['radius'])
    c['base'] = draw(gen.facula(rkm, big=False))
    c['n'] = draw(st.one_of(st.integers(2, 20), st.integers(100, 300)))
    c['stride'] = draw(st.tuples(gen.fl(0.1, 6.), gen.fl(0.1, 3.)))
    return c


@law('C13', crowd, quick=60, rule='more than 127 faculae, of which the last ones have pixels')
def facula_crowd(c, rec):
    """Painting and the index map hold for many faculae (a whole activity network)."""
    fs = []
    for i in range(c['n']):
        f = dict(c['base'])
        f['lon'] = [ref.val(f['lon'])+i*c['stride'][0], 'rad']
        f['lat'] = [math.asin(math.sin(ref.val(f['lat'])+i*c['stride'][1]))*0.999, 'rad']
        r0 = ref.FaculaRef(f)
        f['floor_base'] = [f['floor_base'][0]+math.copysign(i, r0.floor_dteff-r0.wall_dteff), 'K']
        fs.append(f)
    c = dict(c, faculae=fs)
    star = make_star(c)
    lat, lon = grid_arrays(star.gridmaker, c['grid'])
    int_map, keys = star.faculae.map_pixels(star.map, Q(c['radius']), Q(c['teff']))
    int_map = finite(int_map, None, 'facula index map', grid_shape(c['grid']))
    amb, want = np.zeros(lat.shape, bool), np.zeros(lat.shape)
    for i, fc in enumerate(fs):
        f = ref.FaculaRef(fc)
        r, a = ref.ang_dist(f.lat, f.lon, lat, lon), f.r/ref.val(c['radius'])
        amb |= (np.abs(r-a) < ref.EDGE) | ((r > math.pi-1e-3) & (np.abs(r-a) < 1e-5))
        want[r <= a] = i+1
    bad = ~amb & (want != int_map)
    require(not bad.any(), lambda: f'facula index map of {c["n"]} faculae: {bad.sum()} pixels differ: got {int_map[bad][0]} want {want[bad][0]}')
    require(dict(keys) == {i: i+1 for i in range(len(fs))}, 'facula index keys')
    got = finite(star.add_faculae_to_map(Q(c['obs']['lat']), Q(c['obs']['lon'])), u.K, 'surface map with faculae')
    want_t, amb_t = ref_map(c, lat, lon)
    bad = ~amb_t & (np.abs(got-want_t) > 1e-6)
    require(not bad.any(), lambda: f'surface map with {c["n"]} faculae: {bad.sum()} pixels differ: got {got[bad][0]} want {want_t[bad][0]}')
    rec.hit(c['n'] > 127 and bool((want > 127).any()))
