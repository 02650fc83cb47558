"""C15 flare light curves and energy, C16 observing windows, C17 flare population."""
import math
import numpy as np
from astropy import units as u
from hypothesis import strategies as st
from scipy import stats

from pbt.core import law, require, Violation
from pbt import ref, gen
from pbt.build import (Q, finite, num, seq, obs_dict, StellarFlare, FlareCollection, FlareGenerator, Star, make_star)
from pbt.laws_generators import used
from vspec_vsm.xoflares import get_light_curvenp

P_MIN = 1e-9     # a statistical law fails only below this probability (times the number of tests made)


def make_flare(f):
    return StellarFlare(fwhm=Q(f['fwhm']), energy=Q(f['energy']), lat=Q(f['lat']), lon=Q(f['lon']), Teff=Q(f['teff']), tpeak=Q(f['tpeak']))


def peak(f):
    return ref.flare_peak_area(ref.val(f['energy']), f['teff'][0], ref.val(f['fwhm']))


# ---------------------------------------------------------------- C15

@st.composite
def flare_case(draw):
    return dict(flare=draw(gen.flare()), tunit=draw(st.sampled_from(gen.TIME)),
                x=draw(st.lists(st.one_of(gen.fl(-1.5, 3.), gen.fl(-3., 25.), st.sampled_from([0., -1.01, 20.01, -0.99, 19.99])), min_size=1, max_size=25)),
                n=draw(st.integers(400, 1500)), off=draw(gen.fl(0., 1.)))


def template_scale(x):
    return ref.flare_shape(x)


@law('C15', flare_case, quick=1200, rule='samples fall on the rise and on the decay of the flare')
def flare_area_curve(c, rec):
    """The emitting area follows the flare template scaled to the energy; zero before and after."""
    f = c['flare']
    fl = make_flare(f)
    fw, tp = ref.val(f['fwhm']), ref.val(f['tpeak'])
    want_peak = peak(f)
    got_peak = finite(fl.calc_peak_area(), u.km**2, 'peak area')
    require(abs(got_peak-want_peak) <= 1e-6*want_peak, lambda: f'peak area {got_peak} km2, energy and template give {want_peak} km2')
    x = np.array(c['x'])
    # keep off the two ends of the template and the jump between its halves
    near = (np.abs(x+1) < 1e-6) | (np.abs(x-20) < 1e-6) | (np.abs(x) < 1e-6)
    t = (tp + x*fw)/ref.UNITS[c['tunit']]
    a = finite(fl.areacurve(t*Q([1., c['tunit']])), u.km**2, 'area curve', x.shape)
    xx = (t*ref.UNITS[c['tunit']]-tp)/fw
    want = want_peak*ref.flare_shape(xx)
    ok = near | (np.abs(a-want) <= 1e-6*want_peak*(1+abs(tp)/fw*1e-6))
    require(ok.all(), lambda: f'area {a[~ok][0]} km2 at {xx[~ok][0]} fwhm from the peak, template gives {want[~ok][0]} km2')
    require(np.all(a >= -1e-9*want_peak), 'negative flare area')
    rec.hit(bool(((xx > -1) & (xx < 0)).any() and ((xx > 0) & (xx < 20)).any()))
    rec.label('outside', ((xx < -1) | (xx > 20)).any())


@law('C15', flare_case, quick=500, rule='every case')
def flare_energy(c, rec):
    """Time-integrated area times sigma*T^4 is the flare's energy; partial windows get their exact share."""
    f = c['flare']
    fl = make_flare(f)
    fw, tp = ref.val(f['fwhm']), ref.val(f['tpeak'])
    n = c['n']*4
    xs = np.linspace(-1.2, 21, n)+c['off']*1e-3
    ta = finite(fl.get_timearea((tp+xs*fw)*u.day), u.km**2*u.day, 'time-area')
    e = ta*1e6*86400*ref.SIGMA_SB*f['teff'][0]**4*1e7
    want = ref.val(f['energy'])
    require(abs(e-want) <= 5e-3*want, lambda: f'the flare radiates {e:.5e} erg, its energy is {want:.5e} erg')
    # full width at half maximum
    xs = np.linspace(-1, 3, 8001)
    a = finite(fl.areacurve((tp+xs*fw)*u.day), u.km**2, 'area curve')
    above = xs[a > 0.5*a.max()]
    width = above[-1]-above[0]
    require(abs(width-1) < 0.1, lambda: f'full width at half maximum is {width} of the requested')
    require(abs(xs[np.argmax(a)]) < 0.01, lambda: f'the area peaks {xs[np.argmax(a)]} fwhm from the peak time')
    # arbitrary sampling: trapezoid of the template
    x = np.sort(np.array(c['x']))
    if len(x) > 1:
        got = finite(fl.get_timearea((tp+x*fw)*u.day), u.km**2*u.day, 'time-area')
        lo = np.trapz(np.minimum(ref.flare_shape(x+1e-7), ref.flare_shape(x-1e-7)), x)*peak(f)*fw
        hi = np.trapz(np.maximum(ref.flare_shape(x+1e-7), ref.flare_shape(x-1e-7)), x)*peak(f)*fw
        tol = 1e-5*peak(f)*fw*(1+x[-1]-x[0])
        require(lo-tol <= got <= hi+tol, lambda: f'time-area of the samples {got}, trapezoid of the template {hi}')
    rec.hit()


@st.composite
def multi(draw):
    n = draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(6, 40)))
    return dict(fl=[[draw(gen.fl(-2, 10)), draw(gen.logf(0.05, 1.)), draw(gen.logf(0.1, 100.))] for _ in range(n)],
                t=draw(st.lists(gen.fl(-5, 15), min_size=1, max_size=30)), texp=draw(st.one_of(st.none(), gen.logf(1e-3, 0.5))),
                over=draw(st.integers(1, 12)), k=draw(gen.logf(0.1, 10.)),
                dense=draw(st.sampled_from([0, 0, 0, 0, 0, 200, 3000])))


@law('C15', multi, quick=900, rule='two flares overlap in time')
def light_curves_add(c, rec):
    """The light curve of several flares is the sum of their light curves; exposures are averages."""
    t = np.concatenate([np.array(c['t']), np.linspace(-4.9, 14.9, c.get('dense', 0))])
    tp, fw, am = [np.array([f[i] for f in c['fl']]) for i in range(3)]
    edge = np.zeros(t.shape, bool)
    def model(tt):
        x = (tt[..., None]-tp)/fw
        return np.sum(am*ref.flare_shape(x), axis=-1)
    def near(tt):
        x = (tt[..., None]-tp)/fw
        return np.any((np.abs(x) < 1e-9) | (np.abs(x+1) < 1e-9) | (np.abs(x-20) < 1e-9), axis=-1)
    lc = finite(get_light_curvenp(t, tp, fw, am), None, 'light curve', t.shape)
    bad = ~near(t) & (np.abs(lc-model(t)) > 1e-9*am.sum())
    require(not bad.any(), lambda: f'light curve of {len(tp)} flares: {lc[bad][0]}, sum of the templates {model(t)[bad][0]}')
    one = sum(finite(get_light_curvenp(t, [p], [f], [a]), None, 'light curve', t.shape) for p, f, a in zip(tp, fw, am))
    require(np.allclose(lc, one, atol=1e-9*am.sum()), 'the light curve of several flares is not the sum of their light curves')
    sc = finite(get_light_curvenp(t, tp, fw, am*c['k']), None, 'light curve', t.shape)
    require(np.allclose(sc, c['k']*lc, rtol=1e-9, atol=1e-12), 'the light curve is not proportional to the amplitude')
    if c['texp']:
        le = finite(get_light_curvenp(t, tp, fw, am, texp=c['texp'], oversample=c['over']), None, 'exposure light curve', t.shape)
        o = c['over'] + 1 - c['over'] % 2
        dt = np.linspace(-c['texp']/2, c['texp']/2, o)
        tt = t[:, None]+dt
        want = model(tt).mean(axis=1)
        bad = ~near(tt).any(axis=1) & (np.abs(le-want) > 1e-8*am.sum())
        require(not bad.any(), lambda: f'exposure of {c["texp"]}: {le[bad][0]}, mean of the light curve {want[bad][0]}')
        rec.label('exposures')
    s = sorted(zip(tp-fw, tp+20*fw))
    rec.hit(len(s) > 1 and any(b[0] < a[1] for a, b in zip(s, s[1:])))


# ---------------------------------------------------------------- C16

@st.composite
def window(draw):
    flares = draw(st.lists(gen.flare(), max_size=7))
    if len(flares) == 7 and draw(st.booleans()):
        flares += draw(st.lists(gen.flare(), min_size=1, max_size=18))
    span = draw(gen.logf(0.0001, 30.))
    t0 = draw(gen.fl(-5, 12))
    # near the ends of some flare
    if flares and draw(st.booleans()):
        f = draw(st.sampled_from(flares))
        k = draw(st.sampled_from([-1., 20., 0., -10., 5.]))
        t0 = ref.val(f['tpeak']) + k*ref.val(f['fwhm']) - draw(st.sampled_from([0., 1.]))*span + draw(gen.fl(-0.3, 0.3))*ref.val(f['fwhm'])
    shift = draw(st.sampled_from([0., 0., 0., 0., 0., 400., -250., 20000.]))      # late in a long observation
    if shift:
        t0 += shift
        flares = [dict(f, tpeak=gen.as_unit(ref.val(f['tpeak'])+shift, f['tpeak'][1])) for f in flares]
    return dict(flares=flares, t0=t0, span=span, obs=draw(st.one_of(gen.obs(), st.none())),
                u1=draw(st.sampled_from(gen.TIME)), u2=draw(st.sampled_from(gen.TIME)), cuts=draw(st.lists(gen.fl(0.05, 0.95), max_size=3)),
                single=draw(st.booleans()), star=draw(st.booleans()))


def _win(c):
    return (gen.as_unit(c['t0'], c['u1']), gen.as_unit(c['t0']+c['span'], c['u2']))


def integral_bounds(f, t1, t2):
    """Exact time-area of a flare in a window and the error of a trapezoid of 10 min and a tenth of its width."""
    fw, tp, pk = ref.val(f['fwhm']), ref.val(f['tpeak']), peak(f)
    exact = pk*fw*ref.flare_shape_integral((t1-tp)/fw, (t2-tp)/fw)
    h = min(10/1440., t2-t1, 0.1*fw)
    # kink at the peak, curvature, jumps at the ends; the times themselves are rounded
    err = pk*(0.8*h*h/fw + 0.006*h) + 1e-6*pk*min(t2-t1, 21*fw) + 1e-14*pk*(1+abs(t1)+abs(t2)+abs(tp))
    return exact, err


EXW = dict(flares=[dict(fwhm=[3., 'h'], energy=[1e33, 'erg'], lat=[0., 'deg'], lon=[0., 'deg'], teff=[9000., 'K'], tpeak=[0.5, 'd'])],
           t0=0.45, span=0.1, obs=None, u1='d', u2='d', cuts=[], single=False, star=False)


@law('C16', window, quick=1200, rule='the window cuts at least one flare and misses at least one, or hides one',
     examples=[dict(EXW, span=0.005), dict(EXW, span=0.012), dict(EXW, flares=EXW['flares'], single=True), dict(EXW, flares=[])])
def flares_in_window(c, rec):
    """Every flare that emits in the window and faces the observer is integrated, exactly those, each correctly."""
    objs = [make_flare(f) for f in c['flares']]
    coll = FlareCollection(objs[0]) if (c['single'] and len(objs) == 1) else FlareCollection(objs)
    q1, q2 = _win(c)
    t1, t2 = ref.val(q1), ref.val(q2)
    sel = seq(coll.get_flares_in_timeperiod(Q(q1), Q(q2)), 'flares in window')
    ids = [id(x) for x in sel]
    require(len(set(ids)) == len(ids) and all(any(x is o for o in objs) for x in sel), 'the selection has flares that are not in the collection')
    mask = np.asarray(coll.mask(Q(q1), Q(q2)))
    require(mask.shape == (len(objs),), 'window mask has the wrong length')
    inside = []
    for o, f, m in zip(objs, c['flares'], mask):
        fw, tp = ref.val(f['fwhm']), ref.val(f['tpeak'])
        eps = 1e-9*(1+abs(tp)+abs(t1)+20*fw)
        emits = tp+20*fw > t1+eps and tp-fw < t2-eps
        far = tp+20*fw < t1-eps or tp-10*fw > t2+eps
        is_in = any(x is o for x in sel)
        require(bool(m) == is_in, 'window mask and selection disagree')
        require(not (emits and not is_in), lambda: f'flare peaking at {tp} d (fwhm {fw} d) emits in [{t1}, {t2}] d but is not selected')
        require(not (far and is_in), lambda: f'flare peaking at {tp} d (fwhm {fw} d) is selected for [{t1}, {t2}] d')
        inside.append(emits)
    # visibility
    o = c['obs']
    kw = {} if o is None else dict(sub_obs_coords=obs_dict(o))
    la0, lo0 = (0., 0.) if o is None else (ref.val(o['lat']), ref.val(o['lon']))
    vis = seq(coll.get_visible_flares_in_timeperiod(Q(q1), Q(q2), **kw), 'visible flares')
    hidden_n, want = 0, []
    for ob, f in zip(objs, c['flares']):
        mu = float(ref.cos_from_center(la0, lo0, ref.val(f['lat']), ref.val(f['lon'])))
        is_sel, is_vis = any(x is ob for x in sel), any(x is ob for x in vis)
        if abs(mu) > 1e-9:
            require(is_vis == (is_sel and mu > 0), lambda: f'flare at {math.degrees(math.acos(max(-1, min(1, mu)))):.4f} deg from disk center: visible={is_vis}')
        hidden_n += is_sel and mu < 0
        if is_vis:
            want.append((ob, f))
    require(len(vis) == len(want), 'a visible flare is reported twice')
    if c['star']:
        star = make_star(dict(grid={'kind': 'spiral', 'n': 8}, teff=[3000., 'K'], radius=[1., 'R_sun'], period=[1., 'd'], limb=[0., 0.]))
        star.flares = coll
        res = seq(star.get_flare_int_over_timeperiod(Q(q1), Q(q2), kw.get('sub_obs_coords', {'lat': 0*u.deg, 'lon': 0*u.deg})))
    else:
        res = seq(coll.get_flare_integral_in_timeperiod(Q(q1), Q(q2), **kw), 'flare integrals')
    require(len(res) == len(want), lambda: f'{len(want)} visible flares but {len(res)} integrals')
    # match each reported integral with the visible flares (order of the collection is kept by the code; accept any)
    left = list(res)
    for ob, f in want:
        exact, err = integral_bounds(f, t1, t2)
        hit = None
        for r in left:
            require(isinstance(r, dict) and 'Teff' in r and 'timearea' in r, f'flare integral without Teff or timearea: {r!r}')
            ta = finite(r['timearea'], u.km**2*u.day, 'time-area')
            if abs(finite(r['Teff'], u.K)-f['teff'][0]) < 1e-6 and abs(ta-exact) <= err:
                hit = r
                break
        require(hit is not None, lambda: f'no integral for the flare peaking at {ref.val(f["tpeak"])} d: expected Teff {f["teff"][0]} K and '
                f'{exact} +- {err:.3g} km2 d, got {[(finite(r["Teff"], u.K), finite(r["timearea"], u.km**2*u.day)) for r in left]}')
        left = [r for r in left if r is not hit]
    rec.label('no flares', not objs)
    rec.label('hidden flare', hidden_n > 0)
    rec.label('window shorter than 10 min', c['span'] < 10/1440)
    rec.label('cut flare', any(inside))
    rec.hit(any(inside) and (hidden_n > 0 or not all(inside)))


@law('C16', window, quick=400, rule='at least one flare emits in the window and the window is cut')
def windows_add(c, rec):
    """Adjacent windows add up to the whole window for every flare."""
    if not c['flares']:
        return
    objs = [make_flare(f) for f in c['flares']]
    t1, t2 = c['t0'], c['t0']+c['span']
    o = {'lat': 0*u.deg, 'lon': 0*u.deg}
    edges = [t1]+[t1+k*c['span'] for k in sorted(c['cuts'])]+[t2]
    for ob, f in zip(objs, c['flares']):
        ob.lat, ob.lon = 0*u.deg, 0*u.deg
        coll = FlareCollection([ob])

        def tot(a, b):
            r = seq(coll.get_flare_integral_in_timeperiod(a*u.day, b*u.day, o))
            return sum(finite(x['timearea'], u.km**2*u.day) for x in r)
        whole = tot(t1, t2)
        parts = sum(tot(a, b) for a, b in zip(edges, edges[1:]) if b > a)
        err = integral_bounds(f, t1, t2)[1] + sum(integral_bounds(f, a, b)[1] for a, b in zip(edges, edges[1:]) if b > a)
        require(abs(whole-parts) <= err, lambda: f'time-area {whole} in one window, {parts} in {len(edges)-1} adjacent windows')
        rec.hit(whole > 0 and len(edges) > 2)


# ---------------------------------------------------------------- C17

@st.composite
def flare_gen(draw):
    alpha = draw(st.one_of(st.just(-0.829), gen.fl(-2.5, -0.2)))
    emin = draw(gen.in_unit(gen.logf(1e30, 1e35), gen.ENERGY))
    # beta so that the rate above emin is between 1e-3 and 1e2 per day
    rate = draw(gen.logf(1e-3, 1e2))
    beta = math.log10(rate) - alpha*math.log10(ref.val(emin))
    return dict(alpha=alpha, beta=beta, emin=emin, tmean=draw(gen.fl(5000, 12000)), tsig=draw(gen.fl(0, 1500)),
                fmean=draw(gen.in_unit(gen.logf(0.01, 1.), gen.TIME)), fsig=draw(gen.fl(0., 0.5)),
                cluster=draw(st.integers(1, 8)), seed=draw(st.integers(0, 2**31)), tunit=draw(st.sampled_from(['K'])),
                time=draw(gen.in_unit(gen.logf(0.5, 300.), gen.TIME)),
                X=draw(st.lists(st.one_of(gen.fl(0., 0.999999), st.just(0.)), min_size=1, max_size=12)),
                k=draw(gen.logf(1., 1e4)))


def mk(c, rng=None):
    rng = rng if rng is not None else np.random.default_rng(c['seed'])
    G = FlareGenerator(dist_teff_mean=c['tmean']*u.K, dist_teff_sigma=c['tsig']*u.K, dist_fwhm_mean=Q(c['fmean']),
                       dist_fwhm_logsigma=c['fsig'], alpha=c['alpha'], beta=c['beta'], min_energy=Q(c['emin']),
                       cluster_size=c['cluster'], rng=rng)
    rate = 10**(c['beta']+c['alpha']*math.log10(ref.val(c['emin'])))
    return used(G, rng, c['seed'], lambda: G.generate_flare_series(2.5/rate*u.day), lambda: G.get_ntotal(0.1/rate*u.day), lambda: G.cdf(3*Q(c['emin'])),
                lambda: G.get_peaks(2), lambda: G.gen_fwhm(2), lambda: G.gen_teffs(2), lambda: G.quantile_func(np.array([0.2])),
                lambda: G.frequency_greater_than(7*Q(c['emin'])))


@law('C17', flare_gen, quick=1200, rule='at least two distinct probabilities')
def flare_energy_law(c, rec):
    """Frequency, distribution, density and quantile of flare energies describe one and the same power law."""
    g = mk(c)
    a, e0 = c['alpha'], ref.val(c['emin'])
    X = np.array(c['X'])
    E = finite(g.quantile_func(X), u.erg, 'quantile energies', X.shape)
    require(np.all(E >= e0*(1-1e-9)), 'quantile energy below the minimum energy')
    want = e0*(1-X)**(1/a)
    require(np.allclose(E, want, rtol=1e-8, atol=0), lambda: f'quantiles {E} do not follow the power law {want}')
    i = np.argsort(X)
    require(np.all(np.diff(E[i]) >= -1e-9*E[i][1:] if len(X) > 1 else True), 'the quantile function is not increasing')
    back = finite(g.cdf(E*u.erg), None, 'cumulative distribution', X.shape)
    require(np.allclose(back, X, atol=1e-8), lambda: f'cdf(quantile(X)) = {back}, X = {X}')
    require(abs(finite(g.cdf(Q(c['emin'])), None)) < 1e-9, 'the distribution does not start at the minimum energy')
    # the density is the derivative of the distribution (per erg)
    d = 1e-4
    p = finite(g.pdf(E*u.erg), None, 'probability density', X.shape)
    num_d = (finite(g.cdf(E*(1+d)*u.erg), None)-finite(g.cdf(E*(1-d)*u.erg), None))/(2*d*E)
    require(np.allclose(p, num_d, rtol=1e-3, atol=0), lambda: f'density {p} is not the derivative {num_d} of the distribution')
    # frequency
    ee = e0*c['k']
    f = finite(g.frequency_greater_than(ee*u.erg), 1/u.day, 'frequency')
    wf = 10**(c['beta'] + a*math.log10(ee))
    require(abs(f-wf) <= 1e-6*wf, lambda: f'{f} flares per day above {ee} erg, the law gives {wf}')
    tot = finite(g.get_ntotal(Q(c['time'])), None, 'expected flares')
    want_n = 10**(c['beta']+a*math.log10(e0))*ref.val(c['time'])
    require(abs(tot-want_n) <= 1e-6*want_n, lambda: f'{tot} flares expected in {ref.val(c["time"])} d, the law gives {want_n}')
    n2 = finite(g.get_nexp_greater_than(ee*u.erg, Q(c['time'])), None, 'expected flares')
    require(abs(n2 - f*ref.val(c['time'])) <= 1e-6*n2, 'expected number is not frequency times time')
    # share above ee is what the distribution says
    require(abs(n2/tot-(1-finite(g.cdf(ee*u.erg), None))) < 1e-6, 'frequency law and energy distribution disagree')
    rec.hit(len(set(c['X'])) >= 2)


@law('C17', lambda: st.fixed_dictionaries(dict(g=flare_gen(), x=st.one_of(gen.fl(1., 3.), gen.fl(-3., -1e-6)), pad=st.integers(0, 3))),
     quick=200, rule='every case')
def quantile_domain(c, rec):
    """Probabilities outside [0, 1) are refused, wherever they are in the array."""
    g = mk(c['g'])
    X = np.array([0.5]*c['pad']+[c['x']]+[0.1])
    try:
        r = g.quantile_func(X)
    except ValueError:
        rec.hit()
        return
    raise Violation(f'quantile of {X} returned {r}')


@st.composite
def series(draw):
    c = draw(flare_gen())
    c['nexp'] = draw(gen.logf(30., 400.))
    # set the duration to expect that many flares
    rate = 10**(c['beta']+c['alpha']*math.log10(ref.val(c['emin'])))
    c['time'] = gen.as_unit(c['nexp']/rate, draw(st.sampled_from(gen.TIME)))
    c['reps'] = 8
    return c


def _p(ok_p, what, ntests=60):
    require(ok_p > P_MIN, f'{what} (p = {ok_p:.2g})')


@law('C17', series, quick=200, rule='at least 100 flares in the pooled series')
def flare_series(c, rec):
    """A generated series has the number, energies, times, widths, temperatures and places of the laws it was made from."""
    rng = np.random.default_rng(c['seed'])
    counts, fl = [], []
    T = ref.val(c['time'])
    for _ in range(c['reps']):
        s = seq(mk(c, rng).generate_flare_series(Q(c['time'])), 'flare series')
        counts.append(len(s))
        tp = np.array([finite(f.tpeak, u.day) for f in s])
        require(np.all(tp >= 0), 'a flare peaks before the observation starts')
        require(np.all(np.diff(tp) >= 0), 'the peak times of a series are not in order')
        fl += s
    n, lam = sum(counts), c['nexp']*c['reps']
    p = 2*min(stats.poisson.cdf(n, lam), stats.poisson.sf(n-1, lam))
    _p(p, f'{n} flares generated where {lam:.1f} are expected')
    if n < 20:
        return
    E = np.array([finite(f.energy, u.erg, 'flare energy') for f in fl])
    e0, a = ref.val(c['emin']), c['alpha']
    require(np.all(E >= e0*(1-1e-9)), 'a flare has less than the minimum energy')
    _p(stats.kstest(1-(E/e0)**a, 'uniform').pvalue, 'flare energies do not follow the power law')
    Te = np.array([finite(f.Teff, u.K, 'flare temperature') for f in fl])
    if c['tsig'] > 1:
        _p(stats.kstest((Te-c['tmean'])/c['tsig'], 'norm').pvalue, 'flare temperatures do not follow their normal law')
    else:
        require(np.all(np.abs(Te-c['tmean']) < 20), 'flare temperatures far from a law without spread')
    W = np.array([finite(f.fwhm, u.day, 'flare fwhm') for f in fl])
    require(np.all(W > 0), 'flare without duration')
    if c['fsig'] > 1e-3:
        _p(stats.kstest((np.log10(W)-math.log10(ref.val(c['fmean'])))/c['fsig'], 'norm').pvalue, 'flare widths do not follow their lognormal law')
    else:
        require(np.allclose(W, ref.val(c['fmean']), rtol=0.02, atol=0), 'flare widths far from a law without spread')
    la = np.array([finite(f.lat, u.rad, 'flare latitude') for f in fl])
    lo = np.array([finite(f.lon, u.rad, 'flare longitude') for f in fl])
    _p(stats.kstest((np.sin(la)+1)/2, 'uniform').pvalue, 'flare latitudes are not uniform over the sphere')
    _p(stats.kstest((lo % (2*math.pi))/(2*math.pi), 'uniform').pvalue, 'flare longitudes are not uniform')
    if n >= 100:
        for nm, u_, v_ in (('latitude and longitude', la, lo), ('energy and latitude', np.log(E), la), ('energy and longitude', np.log(E), lo)):
            _p(stats.spearmanr(u_, v_).pvalue, f'flare {nm} are correlated')
        # no trend along a series
        order = np.concatenate([np.arange(k)/max(k, 1) for k in counts])
        for nm, v_, on in (('energies', E, True), ('latitudes', la, True), ('longitudes', lo, True), ('widths', W, c['fsig'] > 1e-3), ('temperatures', Te, c['tsig'] > 1)):
            if on:
                _p(stats.spearmanr(order, v_).pvalue, f'flare {nm} have a trend along the series')
        if c['fsig'] > 1e-3 and c['tsig'] > 1:
            _p(stats.spearmanr(np.log(E), W).pvalue, 'flare energy and width are correlated')
            _p(stats.spearmanr(Te, W).pvalue, 'flare temperature and width are correlated')
    # the flares spread over the observation: clusters of exponential waiting times that fill it on average
    span = np.array([finite(f.tpeak, u.day) for f in fl])/T
    k = c['cluster']
    require(np.median(span) < 2.5 and np.max(span) < 12, lambda: f'peak times reach {np.max(span)} observation lengths')
    require(np.median(span) > 0.1, lambda: f'half of the flares peak in the first {np.median(span)} of the observation')
    rec.hit(n >= 100)


@law('C17', flare_gen, quick=120, thorough=2000, rule='the distributions have spread')
def flare_draws(c, rec):
    """Large samples of widths, temperatures, places and energies follow their laws out to the tails."""
    n = 20000
    g = mk(c)
    rng = np.random.default_rng(c['seed']+1)
    z = []
    if c['tsig'] > 1:
        z.append(('temperatures', (finite(g.gen_teffs(n), u.K, 'flare temperatures', (n,))-c['tmean'])/c['tsig']))
    if c['fsig'] > 1e-3:
        z.append(('widths', (np.log10(finite(g.gen_fwhm(n), u.day, 'flare widths', (n,)))-math.log10(ref.val(c['fmean'])))/c['fsig']))
    for what, x in z:
        _p(stats.kstest(x, 'norm').pvalue, f'flare {what} do not follow their normal law')
        for lim in (1.5, 2., 2.5, 3.):
            for side in (1, -1):
                k = int(np.sum(side*x > lim))
                _p(stats.binomtest(k, n, stats.norm.sf(lim)).pvalue, f'{k} of {n} flare {what} lie beyond {side*lim} sigma')
        require(len(np.unique(x)) > 0.99*n, f'flare {what} repeat')
    la, lo = g.gen_coords(n)
    la, lo = finite(la, u.rad, 'latitudes', (n,)), finite(lo, u.rad, 'longitudes', (n,))
    _p(stats.kstest((np.sin(la)+1)/2, 'uniform').pvalue, 'flare latitudes are not uniform over the sphere')
    _p(stats.kstest((lo % (2*math.pi))/(2*math.pi), 'uniform').pvalue, 'flare longitudes are not uniform')
    _p(stats.spearmanr(la, lo).pvalue, 'flare latitudes and longitudes are correlated')
    rec.hit(bool(z))


@st.composite
def peaks_case(draw):
    return dict(c=draw(flare_gen()), n=draw(st.one_of(st.integers(1, 60), st.sampled_from([1, 2, 3, 500, 3000]))))


@law('C17', peaks_case, quick=600, rule='at least two flares')
def peak_times(c, rec):
    """Exactly the requested number of peak times, in order, positive."""
    g = mk(c['c'])
    t = finite(g.get_peaks(c['n']), None, 'peak times', (c['n'],))
    require(np.all(t >= 0) and np.all(np.diff(t) >= 0), 'peak times are not an increasing positive series')
    if c['n'] >= 500:
        # n_cl clusters of exponential gaps of mean 1/n_cl fill the observation, whatever happens inside a cluster
        lam = c['c']['cluster']
        ncl = c['n']/(lam+6*math.sqrt(lam)+6)
        tol = 7.5/math.sqrt(ncl)
        require(1-tol <= t[-1] <= 2+2*tol, f'{c["n"]} flares in clusters end after {t[-1]:.2f} of the observing time')
        for q in (0.25, 0.5, 0.75):
            m = float(np.quantile(t, q))
            require(abs(m/t[-1]-q) < 2*tol, f'a share {q} of {c["n"]} flares peaks before {m/t[-1]:.2f} of the time')
    for name in ('gen_fwhm', 'gen_teffs'):
        finite(getattr(g, name)(c['n']), u.day if name == 'gen_fwhm' else u.K, name, (c['n'],))
    la, lo = g.gen_coords(c['n'])
    la, lo = finite(la, u.deg, 'latitudes', (c['n'],)), finite(lo, u.deg, 'longitudes', (c['n'],))
    require(np.all(np.abs(la) <= 90) and np.all((lo >= 0) & (lo <= 360)), 'flare coordinates off the sphere')
    rec.hit(c['n'] >= 2)


@law('C17', flare_gen, quick=100, thorough=1500, rule='every case (3000 flares)')
def clusters(c, rec):
    """Flares come in clusters: Poisson sizes about the configured mean, exponential gaps, shorter within a cluster."""
    n, lam = 3000, c['cluster']
    dt = np.diff(finite(mk(c).get_peaks(n), None, 'peak times', (n,)), prepend=0.)
    k = np.arange(1, lam+12+6*int(math.sqrt(lam)))
    p = stats.poisson.pmf(k, lam)
    p = p/p.sum()
    ncl = n/np.sum(p*k)
    x = np.sort(dt)*ncl
    F = np.sum(p*((1-np.exp(-x[:, None])) + (k-1)*(1-np.exp(-2*k*x[:, None]))), axis=1)/np.sum(p*k)
    d = float(np.max(np.abs(F-(np.arange(n)+.5)/n)))
    require(d < 0.085, f'gaps between flares in clusters of {lam} do not follow their law (distance {d:.3f})')
    rec.hit()


@law('C17', flare_gen, quick=40, thorough=800, rule='every case')
def few_flares(c, rec):
    """A lone flare peaks after an exponential waiting time of one observation; the first of a few peaks at a random time too."""
    g = mk(c)
    t = np.array([finite(g.get_peaks(1), None, 'peak times', (1,))[0] for _ in range(400)])
    _p(stats.kstest(t, 'expon').pvalue, 'peak times of lone flares are not exponential waiting times')
    for n in (2, 3, 5):
        t = np.array([finite(g.get_peaks(n), None, 'peak times', (n,)) for _ in range(150)])
        for k in range(n):
            require(len(np.unique(t[:, k])) > 140 and np.std(t[:, k]) > 0.1*np.mean(t[:, k]), f'flare {k+1} of {n} always peaks at about {np.mean(t[:, k]):.3f} of the observation')
    rec.hit()


@st.composite
def many_case(draw):
    c = draw(flare_gen())
    c['nexp'] = draw(gen.logf(36., 400.))
    c['time'] = gen.as_unit(c['nexp']/10**(c['beta']+c['alpha']*math.log10(ref.val(c['emin']))), draw(st.sampled_from(gen.TIME)))
    return c


@law('C17', many_case, quick=8, thorough=120, rule='at least 50 flares over the series')
def many_flare_counts(c, rec):
    """The number of flares is Poisson also when very many are expected."""
    from pbt.laws_generators import count_test
    G = mk(c, np.random.default_rng(c['seed']))
    count_test(lambda k: len(seq(G.generate_flare_series(Q(c['time'])), 'flare series')), c['nexp'], rec)


@st.composite
def counts_case(draw):
    c = draw(flare_gen())
    c['nexp'] = draw(st.one_of(gen.logf(0.05, 5.), gen.fl(0.3, 4.), gen.logf(1., 12.)) if draw(st.integers(0, 15)) else gen.logf(1e-5, 0.05))
    rate = 10**(c['beta']+c['alpha']*math.log10(ref.val(c['emin'])))
    c['time'] = gen.as_unit(c['nexp']/rate, draw(st.sampled_from(gen.TIME)))
    return c


@law('C17', counts_case, quick=100, rule='at least 50 flares over the series')
def flare_counts(c, rec):
    """The number of flares in an observation is Poisson about its expectation, also when few are expected."""
    from pbt.laws_generators import count_test
    rng = np.random.default_rng(c['seed'])
    G = mk(c, rng)
    count_test(lambda k: len(seq(G.generate_flare_series(Q(c['time'])), 'flare series')), c['nexp'], rec)
