"""C20 granulation."""
import math
import numpy as np
from astropy import units as u
from hypothesis import strategies as st

from pbt.core import law, require, Violation
from pbt import ref, gen
from pbt.build import Q, make_star, make_granulation, finite, num, seq, Granulation
from pbt.laws_generators import uniform_test, normal_test, Z

TUN = ['h', 'd', 'min', 's']
N = 40          # one array length for most laws: each length is compiled once


def times(c, n=None, shift=0., unit=None):
    """Time axis in the case's unit: irregular steps of 0.1 to 3 periods, in hours scaled by the period."""
    p = ref.val(c['g']['period'])*24
    rng = np.random.default_rng(c['tseed'])
    x = np.cumsum(rng.uniform(*c['step'], n or N))*p + shift*p
    if c.get('order') == 'down':
        x = x[::-1].copy()
    elif c.get('order') == 'shuffled':
        x = rng.permutation(x)
    unit = unit or c['tunit']
    return x, (x/24/ref.UNITS[unit])*Q([1., unit]).unit


@st.composite
def gran(draw, mean=None, sd=None, step=(0.15, 1.5)):
    """Case with a given standard deviation sqrt(amp/period*cos(pi/4)) of the coverage."""
    p = draw(gen.logf(0.2, 200.))
    s = draw(sd if sd is not None else gen.logf(0.003, 0.05))
    amp = s*s*p*math.sqrt(2)
    return dict(g=dict(mean=draw(mean if mean is not None else gen.fl(0.4, 0.6)), amp=amp,
                       period=gen.as_unit(p/24, draw(st.sampled_from(['h', 'd', 'min']))),
                       dteff=[draw(gen.fl(1., 800.)), 'K'], seed=draw(st.integers(0, 2**31-1))),
                tseed=draw(st.integers(0, 10**6)), step=list(step), order=draw(st.sampled_from(['up', 'up', 'down', 'shuffled'])), tunit=draw(st.sampled_from(TUN)))


def cover(c, n=None, shift=0., unit=None, **over):
    x, t = times(c, n, shift, unit)
    G = make_granulation(dict(c['g'], **over))
    return x, finite(G.get_coverage(t), None, 'granulation coverage', (n or N,))


@law('C20', gran, quick=120, thorough=3000, rule='every case (40 irregular times)')
def covariance(c, rec):
    """Fluctuations have the stated mean and covariance: whitened with the reference kernel they are standard normal."""
    x, y = cover(c)
    p = ref.val(c['g']['period'])*24
    K = ref.granulation_kernel(c['g']['amp'], p, x[:, None]-x[None, :])
    L = np.linalg.cholesky(K+1e-14*K[0, 0]*np.eye(len(x)))
    d = y-c['g']['mean']
    require(np.max(np.abs(d)) < 9*math.sqrt(K[0, 0]), lambda: f'granulation {np.max(np.abs(d))/math.sqrt(K[0, 0]):.1f} sigma away from its mean')
    if np.any((y <= 0) | (y >= 1)):
        return
    z = np.linalg.solve(L, d)
    n = len(z)
    require(abs(z.sum())/math.sqrt(n) < Z, f'mean granulation coverage {y.mean():.5f}, configured {c["g"]["mean"]:.5f}')
    chi2 = float(z @ z)
    # Wilson-Hilferty
    q = ((chi2/n)**(1/3)-(1-2/(9*n)))/math.sqrt(2/(9*n))
    require(abs(q) < Z, f'granulation does not have the stated covariance: chi2 = {chi2:.1f} for {n} points')
    # lag correlations of the whitened series
    for k in (1, 2, 3):
        r = float(z[k:] @ z[:-k])/math.sqrt(n-k)
        require(abs(r) < Z, f'granulation has a wrong autocovariance (lag {k})')
    require(np.max(np.abs(z)) < 9, f'a granulation value is {np.max(np.abs(z)):.1f} sigma away from its prediction')
    rec.hit()


@law('C20', lambda: gran().flatmap(lambda c: st.sampled_from([150, 400, 1200]).map(lambda n: dict(c, n=n))), quick=24, thorough=400, shards=4, rule='every case')
def long_series(c, rec):
    """The stated law holds along a long time axis as a whole."""
    x, y = cover(c, c['n'])
    K = ref.granulation_kernel(c['g']['amp'], ref.val(c['g']['period'])*24, x[:, None]-x[None, :])
    require(np.max(np.abs(y-c['g']['mean'])) < 9*math.sqrt(K[0, 0]), 'granulation further than 9 sigma from its mean')
    if np.any((y <= 0) | (y >= 1)):
        return
    z = np.linalg.solve(np.linalg.cholesky(K+1e-14*K[0, 0]*np.eye(len(x))), y-c['g']['mean'])
    normal_test(z, 'whitened granulation')
    for k in (1, 2, 3):
        require(abs(float(z[k:] @ z[:-k]))/math.sqrt(len(z)-k) < Z, f'granulation has a wrong autocovariance (lag {k})')
    rec.label(f'n={c["n"]}')
    rec.hit()


@law('C20', lambda: gran(step=(0.2, 1.)).flatmap(lambda c: st.integers(0, 2**20).map(lambda s: dict(c, seed0=s))), quick=16, thorough=300,
     shards=8, rule='every case (60 seeds at 40 times)')
def ensemble(c, rec):
    """Over many seeds the coverage has the stated mean, variance and independence."""
    p = ref.val(c['g']['period'])*24
    zs = []
    for k in range(60):
        x, y = cover(c, seed=c['seed0']+k)
        if k == 0:
            K = ref.granulation_kernel(c['g']['amp'], p, x[:, None]-x[None, :])
            L = np.linalg.cholesky(K+1e-14*K[0, 0]*np.eye(len(x)))
        require(np.max(np.abs(y-c['g']['mean'])) < 9*math.sqrt(K[0, 0]), 'granulation further than 9 sigma from its mean')
        if np.any((y <= 0) | (y >= 1)):
            return
        zs.append(np.linalg.solve(L, y-c['g']['mean']))
    zs = np.array(zs)
    normal_test(zs.ravel(), 'whitened granulation')
    r = float(np.sum(zs[1:]*zs[:-1]))/math.sqrt(zs[1:].size)
    require(abs(r) < Z, 'granulation of different seeds is not independent')
    rec.hit()


def any_gran(step=(1e-4, 1.)):
    return gran(mean=st.one_of(st.sampled_from([0., 1., 0.5]), gen.fl(0., 1.)), sd=st.one_of(st.just(0.), gen.logf(1e-4, 2.)), step=step)


@law('C20', lambda: gran(step=(0.02, 0.5)), quick=60, thorough=1500, rule='every case (20 times, each asked for twice)')
def one_value_per_time(c, rec):
    """A time that is asked for twice in one call has one coverage."""
    x, _ = times(c, N//2)
    at = np.random.default_rng(c['tseed']+1).permutation(np.r_[np.arange(N//2), np.arange(N//2)])
    t = (x[at]/24/ref.UNITS[c['tunit']])*Q([1., c['tunit']]).unit
    y = finite(make_granulation(c['g']).get_coverage(t), None, 'granulation coverage', (N,))
    sd = math.sqrt(c['g']['amp']/(ref.val(c['g']['period'])*24)/math.sqrt(2))
    lo, hi = np.full(N//2, np.inf), np.full(N//2, -np.inf)
    np.minimum.at(lo, at, y)
    np.maximum.at(hi, at, y)
    require(np.max(hi-lo) < 2e-5+1e-3*sd, lambda: f'two coverages for one time, {np.max(hi-lo):.2g} apart (standard deviation {sd:.2g})')
    require(np.ptp(y) > 0, 'the coverage does not vary')
    rec.hit()


@st.composite
def range_case(draw):
    c = draw(any_gran())
    c['step'] = draw(st.sampled_from([[1e-6, 1e-5], [1e-4, 1e-3], [1e-2, 0.1], [0.1, 2.], [5., 50.], [0., 0.]]))
    c['n'] = draw(st.sampled_from([1, 2, N, N, N]))
    return c


@law('C20', range_case, quick=160, thorough=4000, rule='the coverage varies')
def in_range(c, rec):
    """A coverage is a number in [0, 1] for each time, for any sampling, mean and amplitude."""
    _, t = times(c, c['n'])
    t0 = t.copy()
    G = make_granulation(c['g'])
    y = finite(G.get_coverage(t), None, 'granulation coverage', (c['n'],))
    require(np.all((y >= 0) & (y <= 1)), lambda: f'granulation coverage in [{y.min()}, {y.max()}]')
    require(np.all(t == t0), 'asking for granulation changed the time axis')
    again = finite(G.get_coverage(t), None, 'granulation coverage', (c['n'],))
    require(np.array_equal(y, again), 'the same granulation asked twice differs')
    t2 = (t*1.7)[::-1]
    other = finite(G.get_coverage(t2), None, 'granulation coverage', (c['n'],))
    fresh = finite(make_granulation(c['g']).get_coverage(t2), None, 'granulation coverage', (c['n'],))
    require(np.allclose(other, fresh, rtol=0, atol=1e-9), 'granulation depends on what was asked before')
    if c['g']['amp'] == 0:
        require(np.all(np.abs(y-c['g']['mean']) < 1e-9), f'no amplitude, but coverage {y.min()} to {y.max()} instead of {c["g"]["mean"]}')
    star = make_star(dict(grid={'kind': 'spiral', 'n': 50}, teff=[3300., 'K'], radius=[1., 'R_sun'], period=[1., 'd'], limb=[0., 0.], gran=c['g']))
    w = finite(star.get_granulation_coverage(t), None, 'granulation coverage', (c['n'],))
    off = c['g']['mean'] == 0 and c['g']['amp'] == 0
    require(np.max(np.abs(w-(0 if off else y))) < 1e-9, 'the star does not report its granulation')
    d = make_star(dict(grid={'kind': 'spiral', 'n': 50}, teff=[3300., 'K'], radius=[1., 'R_sun'], period=[1., 'd'], limb=[0., 0.],
                       gran=dict(c['g'], dteff=[0., 'K'])))
    w = finite(d.get_granulation_coverage(t), None, 'granulation coverage', (c['n'],))
    require(not np.any(w), 'granulation without a temperature contrast is reported')
    rec.label(f'n={c["n"]}')
    rec.label('clipped', np.any((y == 0) | (y == 1)))
    rec.hit(np.ptp(y) > 0)


@law('C20', lambda: gran().flatmap(lambda c: st.tuples(gen.fl(-50., 50.), st.sampled_from(TUN), st.sampled_from(['h', 'd', 'min']),
     st.one_of(st.sampled_from([0., 1., 0.02]), gen.fl(0., 1.))).map(lambda t: dict(c, shift=t[0], tunit2=t[1], punit2=t[2], mean2=t[3]))),
     quick=100, thorough=2500, rule='every case')
def relations(c, rec):
    """Same seed: units do not matter, a shifted time axis gives the same values, another mean only shifts (and is cut at 0 and 1)."""
    x, y = cover(c)
    sd = math.sqrt(c['g']['amp']/(ref.val(c['g']['period'])*24)/math.sqrt(2))
    require(np.max(np.abs(y-c['g']['mean'])) < 9*sd, 'granulation further than 9 sigma from its mean')
    if np.any((y <= 0) | (y >= 1)):
        return
    p2 = gen.as_unit(ref.val(c['g']['period']), c['punit2'])
    _, y2 = cover(c, unit=c['tunit2'], period=p2)
    require(np.max(np.abs(y-y2)) < 1e-4*sd, f'granulation depends on the units of its inputs (by {np.max(np.abs(y-y2)):.2g})')
    _, y3 = cover(c, shift=c['shift'])
    require(np.max(np.abs(y-y3)) < 1e-4*sd, f'granulation is not stationary: shifting the time axis changes it by {np.max(np.abs(y-y3)):.2g}')
    _, y4 = cover(c, mean=c['mean2'])
    want = np.clip(y-c['g']['mean']+c['mean2'], 0, 1)
    require(np.max(np.abs(want-y4)) < 1e-6, f'a mean of {c["mean2"]} is not a shift, cut to [0, 1] (off by {np.max(np.abs(want-y4)):.2g})')
    _, y5 = cover(c, seed=c['g']['seed'] ^ 1)
    require(np.max(np.abs(y5-y)) > 1e-3*sd, 'two seeds give the same granulation')
    rec.hit()
