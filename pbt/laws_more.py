"""C26 (generators and flares in other units), C28 (partly switched off)."""
import math
import numpy as np
from astropy import units as u
from hypothesis import strategies as st

from pbt.core import law, require, Violation
from pbt import ref, gen
from pbt.build import (Q, make_star, make_granulation, finite, num, seq, obs_dict, grid_params, SpotGenerator, FaculaGenerator,
                       FlareGenerator, FlareCollection, Granulation)
from pbt.laws_generators import spotgen, facgen, spot_gen, fac_gen
from pbt.laws_flares import flare_gen, mk, make_flare, integral_bounds
from pbt.laws_coverage import reunit


@st.composite
def two_unit_generators(draw):
    flares = draw(st.lists(gen.flare(), min_size=1, max_size=5))
    f0 = draw(st.sampled_from(flares))
    span = draw(gen.logf(0.003, 5.))
    t0 = ref.val(f0['tpeak'])+draw(gen.fl(-1.5, 5.))*ref.val(f0['fwhm'])
    c = dict(sg=draw(spotgen()), fg=draw(facgen()), fl=draw(flare_gen()), radius=draw(gen.star_radius()),
             time=draw(gen.in_unit(gen.logf(1e-3, 30.), gen.TIME)), energy=draw(gen.in_unit(gen.logf(1e31, 1e36), gen.ENERGY)),
             flares=flares, t0=gen.as_unit(t0, draw(st.sampled_from(gen.TIME))), t1=gen.as_unit(t0+span, draw(st.sampled_from(gen.TIME))),
             obs=draw(gen.obs()), seed=draw(st.integers(0, 2**31)))
    # few features
    for k in ('sg', 'fg'):
        c[k]['coverage'] = draw(gen.fl(0.05, 0.9))
    return dict(a=c, b=reunit(draw, c))


def close(a, b, rel, what, scale=0.):
    a, b = np.asarray(a, float), np.asarray(b, float)
    require(a.shape == b.shape, f'{what}: {a.size} or {b.size} values depending on the units of the input')
    bad = np.abs(a-b) > rel*np.maximum(np.abs(a), scale)
    require(not np.any(bad), lambda: f'{what}: {a[bad][0]} or {b[bad][0]} depending on the units of the input')


@law('C26', two_unit_generators, quick=500, rule='a flare is integrated and generators expect births')
def generators_in_any_unit(c, rec):
    """Populations, rates and flare integrals are the same whatever units the settings come in."""
    res = []
    for x in (c['a'], c['b']):
        out = {}
        G = spot_gen(x['sg'], np.random.default_rng(c['a']['seed']))
        out['mean spot area'] = finite(G.mean_area, u.km**2)
        life = num(G.mean_lifetime, u.day)
        out['mean spot lifetime'] = 0. if not math.isfinite(life) else life
        out['expected spot births'] = finite(G.get_n_spots_to_birth(Q(x['time']), Q(x['radius'])), None)
        sp = seq(G.generate_spots(3))
        out['maximum spot areas'] = [finite(s.area_max, u.km**2) for s in sp]
        out['initial spot areas'] = [finite(s.area_current, u.km**2) for s in sp]
        out['spot growth rates'] = [finite(s.growth_rate, 1/u.day) for s in sp]
        out['spot decay rates'] = [finite(s.decay_rate, u.km**2/u.day) for s in sp]
        out['spot latitudes'] = [finite(s.coords['lat'], u.rad) for s in sp]
        F = fac_gen(x['fg'], np.random.default_rng(c['a']['seed']))
        out['mean facula area'] = finite(F.mean_area, u.km**2)
        out['expected facula births'] = finite(F.get_n_faculae_expected(Q(x['time']), Q(x['radius'])), None)
        fa = seq(F.generate_faculae(3))
        out['maximum facula radii'] = [finite(f.r_max, u.km) for f in fa]
        out['facula radii'] = [finite(f.radius, u.km) for f in fa]
        out['facula lifetimes'] = [finite(f.lifetime, u.day) for f in fa]
        out['facula depths'] = [finite(f.depth, u.km) for f in fa]
        g = mk(dict(x['fl'], seed=c['a']['seed']))
        out['flare rate'] = finite(g.frequency_greater_than(Q(x['energy'])), 1/u.day)
        out['expected flares above an energy'] = finite(g.get_nexp_greater_than(Q(x['energy']), Q(x['time'])), None)
        out['expected flares'] = finite(g.get_ntotal(Q(x['time'])), None)
        if ref.val(x['energy']) >= ref.val(x['fl']['emin']):
            out['share of flares below an energy'] = finite(g.cdf(Q(x['energy'])), None)+1
            d = g.pdf(Q(x['energy']))
            out['flare energy density'] = finite(d*u.dimensionless_unscaled if not hasattr(d, 'unit') or d.unit == u.dimensionless_unscaled else d*u.erg, None)
        out['flare energy quantiles'] = finite(g.quantile_func(np.array([0., 0.3, 0.9])), u.erg)
        out['flare widths'] = finite(g.gen_fwhm(3), u.day)
        res.append(out)
    for k in res[0]:
        if k in res[1]:
            close(res[0][k], res[1][k], 1e-6 if 'share' not in k else 1e-6, k, 1e-300)
    # flares in a window
    ints = []
    for x in (c['a'], c['b']):
        coll = FlareCollection([make_flare(f) for f in x['flares']])
        peaks = [finite(f.calc_peak_area(), u.km**2) for f in coll.flares]
        ints.append((peaks, seq(coll.get_flare_integral_in_timeperiod(Q(x['t0']), Q(x['t1']), obs_dict(x['obs'])))))
    close(ints[0][0], ints[1][0], 1e-6, 'flare peak area')
    t0, t1 = ref.val(c['a']['t0']), ref.val(c['a']['t1'])
    edge = False
    for f in c['a']['flares']:
        fw, tp = ref.val(f['fwhm']), ref.val(f['tpeak'])
        mu = float(ref.cos_from_center(ref.val(c['a']['obs']['lat']), ref.val(c['a']['obs']['lon']), ref.val(f['lat']), ref.val(f['lon'])))
        eps = 1e-7*(1+abs(tp)+abs(t0)+20*fw)
        edge |= abs(mu) < 1e-7 or min(abs(tp+20*fw-t0), abs(tp-10*fw-t1), abs(tp-fw-t1), abs(tp+10*fw-t0)) < eps
    if not edge:
        a, b = [x[1] for x in ints]
        require(len(a) == len(b), f'{len(a)} or {len(b)} flares in a window depending on the units of the input')
        err = max(integral_bounds(f, t0, t1)[1] for f in c['a']['flares'])
        ta, tb = [np.array([finite(r['timearea'], u.km**2*u.day) for r in x]) for x in (a, b)]
        require(np.all(np.abs(ta-tb) <= 2*err), f'time-area {ta} or {tb} depending on the units of the input')
        rec.hit(len(a) > 0 and np.any(ta > 0) and res[0]['expected facula births'] > 0)


# ---------------------------------------------------------------- C28

@st.composite
def partly_off(draw):
    b = draw(st.sampled_from([5, 10, 3, 12, 6, 9, 7, 11, 13, 14, 1, 2, 4, 8, 15, 0]))
    return dict(sg=draw(spotgen(static=False)), fg=draw(facgen()), fl=draw(flare_gen()), seed=draw(st.integers(0, 2**31)),
                on=[k for i, k in enumerate(['spots', 'faculae', 'flares', 'gran']) if (b >> i) & 1],
                steps=draw(st.lists(gen.logf(0.01, 20.), min_size=1, max_size=4)), obs=draw(gen.obs()),
                lam=draw(gen.fl(0.5, 6.)))


def run_partly(c, on):
    """A history on a star with only some kinds of variability; each has a random source of its own."""
    rs = 500000.
    kw = {}
    r = {k: np.random.default_rng([c['seed'], i]) for i, k in enumerate(['spots', 'faculae', 'flares', 'rest'])}
    sg = dict(c['sg'], coverage=0.002)
    fg = dict(c['fg'], coverage=0.0005, r=[max(2000., min(20000., ref.val(c['fg']['r']))), 'km'], life=[max(0.5, ref.val(c['fg']['life'])), 'd'])
    kw['spot_generator'] = spot_gen(sg, r['spots']) if 'spots' in on else SpotGenerator.off(grid_params=8, rng=r['spots'])
    kw['fac_generator'] = fac_gen(fg, r['faculae']) if 'faculae' in on else FaculaGenerator.off(grid_params=8, rng=r['faculae'])
    kw['flare_generator'] = mk(c['fl'], r['flares']) if 'flares' in on else FlareGenerator.off(rng=r['flares'])
    gran = dict(mean=0.3, amp=0.2, period=[6., 'h'], dteff=[200., 'K'], seed=c['seed'] % 1000) if 'gran' in on else None
    star = make_star(dict(grid={'kind': 'spiral', 'n': 8}, teff=[3300., 'K'], radius=[rs, 'km'], period=[1., 'd'], limb=[0., 0.],
                          gran=gran), rng=r['rest'], **kw)
    out = {}
    for t in c['steps']:
        t = min(t, 3.)
        star.birth_spots(t*u.day)
        star.birth_faculae(t*u.day)
        star.age(t*u.day)
        out.setdefault('spots', []).append(sorted([finite(s.area_current, u.km**2), finite(s.area_max, u.km**2), finite(s.coords['lat'], u.rad),
                                                   finite(s.coords['lon'], u.rad)] for s in seq(star.spots.spots)))
        out.setdefault('faculae', []).append([[finite(f.radius, u.km), finite(f.r_max, u.km), finite(f.lat, u.rad), finite(f.lon, u.rad)]
                                              for f in seq(star.faculae.faculae)])
    # a duration with a few flares expected
    rate = 10**(c['fl']['beta']+c['fl']['alpha']*math.log10(ref.val(c['fl']['emin'])))
    star.get_flares_over_observation(c['lam']/rate*u.day)
    out['flares'] = [[finite(f.energy, u.erg), finite(f.tpeak, u.day), finite(f.lat, u.rad)] for f in seq(star.flares.flares)]
    out['gran'] = finite(star.get_granulation_coverage(np.arange(12)*3*u.hr), None, 'granulation coverage', (12,)).tolist()
    return star, out


@law('C28', partly_off, quick=96, thorough=3000, rule='some kinds are on and some off')
def off_parts_leave_the_rest(c, rec):
    """What is switched off produces nothing; what is on produces the same as with everything on."""
    star, part = run_partly(c, c['on'])
    _, full = run_partly(c, ['spots', 'faculae', 'flares', 'gran'])
    for k in ('spots', 'faculae', 'flares', 'gran'):
        if k in c['on']:
            require(part[k] == full[k], f'{k} change when other variability is switched off')
            rec.label(f'{k} present', bool(np.any(np.array(part[k], dtype=object))))
        else:
            flat = [x for y in part[k] for x in y] if k in ('spots', 'faculae') else part[k]
            require(not np.any(flat), f'{k} are switched off but were produced')
    rec.hit(0 < len(c['on']) < 4)
