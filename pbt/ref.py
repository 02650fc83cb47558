"""
Independent reference model (numpy float64 only; own unit table; no code of /repo).

Angles in rad, lengths in km, areas in km^2, times in day, temperatures in K,
energies in erg unless a name says otherwise.
"""
import math
import numpy as np

R_SUN, R_EARTH, R_JUP, AU = 695700.0, 6378.1, 71492.0, 149597870.7   # km
MSH = 1e-6 * 2*math.pi*R_SUN**2                                      # km^2
SIGMA_SB = 5.670374419e-8                                            # W m^-2 K^-4

UNITS = {
    # angle -> rad
    'deg': math.pi/180, 'rad': 1., 'arcmin': math.pi/180/60, 'hourangle': math.pi/12,
    # time -> day
    's': 1/86400., 'min': 1/1440., 'h': 1/24., 'd': 1., 'wk': 7., 'yr': 365.25, 'Myr': 365.25e6, 'ms': 1/86400e3,
    # length -> km
    'm': 1e-3, 'km': 1., 'R_sun': R_SUN, 'R_earth': R_EARTH, 'R_jup': R_JUP, 'AU': AU, 'pc': AU*648000/math.pi, 'mm': 1e-6,
    # area -> km^2
    'msh': MSH, 'km2': 1., 'm2': 1e-6, 'R_sun2': R_SUN**2, 'R_earth2': R_EARTH**2, 'AU2': AU**2, 'cm2': 1e-10,
    # temperature
    'K': 1.,
    # rates -> 1/day
    '1/d': 1., '1/h': 24., '1/s': 86400., '1/yr': 1/365.25, '1/ms': 86400e3,
    # area rates -> km^2/day
    'msh/d': MSH, 'msh/h': 24*MSH, 'km2/d': 1., 'km2/s': 86400., 'R_sun2/yr': R_SUN**2/365.25, 'R_sun2/s': R_SUN**2*86400, 'AU2/d': AU**2,
    # energy -> erg
    'erg': 1., 'J': 1e7, 'kJ': 1e10, 'foe': 1e51,
    # slopes -> K/km
    'K/km': 1., 'K/m': 1e3, 'K/R_earth': 1/R_EARTH, 'K/AU': 1/AU,
    '': 1.,
}


def val(q):
    """Value of a case quantity [value, unit] in the reference unit of its kind."""
    return q[0]*UNITS[q[1]]


# --- sphere -----------------------------------------------------------------

def unit_vec(lat, lon):
    return np.stack(np.broadcast_arrays(np.cos(lat)*np.cos(lon), np.cos(lat)*np.sin(lon),
                                        np.sin(lat)), axis=-1)


def ang_dist(lat1, lon1, lat2, lon2):
    """Great-circle distance, accurate at all separations."""
    a, b = unit_vec(lat1, lon1), unit_vec(lat2, lon2)
    a, b = np.broadcast_arrays(a, b)
    cross = np.linalg.norm(np.cross(a, b), axis=-1)
    return np.arctan2(cross, np.sum(a*b, axis=-1))


def cos_from_center(lat0, lon0, lat, lon):
    return np.sum(unit_vec(lat0, lon0)*unit_vec(lat, lon), axis=-1)


def ortho(lat0, lon0, lat, lon):
    """Orthographic projection: x east, y north, z toward the observer."""
    v = unit_vec(lat, lon)
    z_ = np.array([math.cos(lat0)*math.cos(lon0), math.cos(lat0)*math.sin(lon0), math.sin(lat0)])
    e_ = np.array([-math.sin(lon0), math.cos(lon0), 0.])
    n_ = np.array([-math.sin(lat0)*math.cos(lon0), -math.sin(lat0)*math.sin(lon0), math.cos(lat0)])
    return v @ e_, v @ n_, v @ z_


def cap_angle(area, star_radius):
    """Angular radius of a spherical cap of given area."""
    return 2*math.asin(min(1., math.sqrt(max(area, 0.)/(4*math.pi*star_radius**2))))


# --- circles ----------------------------------------------------------------

def lens_fraction(d, r, n=20001):
    """Fraction of a circle of radius r, center at distance d, inside the unit circle.

    Integrates the chord of the small circle that lies in the unit circle:
    an angle-substituted midpoint rule, no closed form shared with the code.
    """
    d = abs(d)
    if d >= 1 + r:
        return 0.
    if d + r <= 1:
        return 1.
    # points of the small circle at abscissa d + r*cos(t); strip half-height r*sin(t)
    t = (np.arange(n) + 0.5)*math.pi/n
    x = d + r*np.cos(t)
    h_small = r*np.sin(t)
    h_unit = np.sqrt(np.clip(1 - x**2, 0, None))
    h = np.where(np.abs(x) < 1, np.minimum(h_small, h_unit), 0)
    area = np.sum(2*h*r*np.sin(t))*math.pi/n
    return float(area/(math.pi*r**2))


# --- time laws ---------------------------------------------------------------

class SpotModel:
    """Growth A*exp(ln(1+g)t) to the maximum, then linear decay to zero."""

    def __init__(self, area, area_max, growing, growth, decay):
        self.a, self.amax, self.growing = area, area_max, growing
        self.k = math.log1p(growth)     # growth in 1/day
        self.w = decay                  # km2/day

    def age(self, t):
        if self.growing:
            if self.k <= 0:
                return self
            tmax = math.log(self.amax/self.a)/self.k
            if t < tmax:
                self.a *= math.exp(self.k*t)
                return self
            self.growing = False
            self.a = self.amax
            t -= tmax
        self.a = max(0., self.a - self.w*t)
        return self

    def time_to_max(self):
        if not self.growing:
            return 0.
        return math.inf if self.k <= 0 else math.log(self.amax/self.a)/self.k


class FaculaModel:
    """Radius e-folds twice per lifetime, up to r_max and then down."""

    def __init__(self, r, rmax, growing, lifetime):
        self.r, self.rmax, self.growing, self.life = r, rmax, growing, lifetime

    def age(self, t):
        if self.growing:
            tmax = 0.5*self.life*math.log(self.rmax/self.r)
            if t < tmax:
                self.r *= math.exp(2*t/self.life)
                return self
            self.growing = False
            self.r = self.rmax
            t -= tmax
        self.r *= math.exp(-2*t/self.life)
        return self

    def time_to_max(self):
        return 0.5*self.life*math.log(self.rmax/self.r) if self.growing else 0.

    @property
    def dead_ratio(self):
        """radius over the removal threshold; <= 1 and not growing means removed"""
        return self.r/(self.rmax*math.exp(-2))


# --- limb darkening ----------------------------------------------------------

def ld(mu, u1, u2):
    return np.where(mu < 0, 0., 1 - u1*(1-mu) - u2*(1-mu)**2)


def disk_weight(area, mu, u1, u2):
    return np.asarray(area, dtype=float)*np.clip(mu, 0, None)*ld(mu, u1, u2)


def cap_flux_fraction(a, u1, u2):
    """Share of the disk's light (uniform Teff) inside angular radius a of disk center."""
    def prim(mu):   # integral of I(mu) mu
        return ((1-u1-u2)*mu**2/2 + (u1+2*u2)*mu**3/3 - u2*mu**4/4)
    a = min(a, math.pi/2)
    return (prim(1.)-prim(math.cos(a)))/(prim(1.)-prim(0.))


# --- faculae ------------------------------------------------------------------

def round_half(x):
    return int(round(x))


class FaculaRef:
    def __init__(self, f, radius=None):
        self.lat, self.lon = val(f['lat']), val(f['lon'])
        self.r = val(f['r']) if radius is None else radius
        self.depth = val(f['depth'])
        self.min_rad = val(f['floor_min_rad'])
        self.wall_dteff = val(f['wall_slope'])*self.r + val(f['wall_icpt'])
        self.floor_dteff = (self.r - self.min_rad)*val(f['floor_slope']) + val(f['floor_base'])

    def wall_fraction(self, angle):
        if self.r < self.min_rad:
            return 1.
        return 1 - lens_fraction(self.depth/self.r*abs(math.tan(angle)), 1.)


def clip_teff(t):
    return min(max(t, 2300.), 3900.)


# --- surface map ----------------------------------------------------------------

EDGE = 1e-7


def paint_spots(spots, star_radius, star_teff, lat, lon):
    """Coolest-wins map. `spots`: dicts with lat, lon, area, tu, tp, ratio (reference units).

    Returns map and a boolean array of pixels within rounding of an edge.
    """
    tmap = np.full(lat.shape, float(star_teff))
    amb = np.zeros(lat.shape, bool)
    for s in spots:
        r = ang_dist(s['lat'], s['lon'], lat, lon)
        a = cap_angle(s['area'], star_radius)
        au = a/math.sqrt(s['ratio'])
        far = r > math.pi - 1e-3
        amb |= (np.abs(r-a) < EDGE) | (np.abs(r-au) < EDGE) | (far & (np.abs(r-a) < 1e-5)) | (far & (np.abs(r-au) < 1e-5))
        if s['ratio'] < 1 and s['tu'] == s['tp']:
            amb |= (r >= a) & (r < au)      # an umbra larger than its spot and not distinct from it: not specified
        if s['tu'] > s['tp']:
            amb |= (r < a) & (r < au)       # an umbra hotter than its penumbra: which of the two shows is not specified
        tmap = np.where(r < a, np.minimum(tmap, s['tp']), tmap)
        tmap = np.where(r < au, np.minimum(tmap, s['tu']), tmap)
    return tmap, amb


def paint_faculae(tmap, amb, facs, star_radius, star_teff, lat0, lon0, lat, lon, mu):
    """Later faculae over earlier ones and over spots; wall on the limbward pixels."""
    tmap, amb = tmap.copy(), amb.copy()
    for f in facs:
        r = ang_dist(f.lat, f.lon, lat, lon)
        a = f.r/star_radius
        edge = np.abs(r-a) < EDGE
        edge |= (r > math.pi-1e-3) & (np.abs(r-a) < 1e-5)
        inside = r <= a
        if np.any(edge):
            # membership decides the wall/floor split of the whole facula
            amb |= inside | edge
        else:
            amb[inside] = False
        if not np.any(inside):
            continue
        angle = float(ang_dist(lat0, lon0, f.lat, f.lon))
        frac = f.wall_fraction(angle)
        m = np.sort(mu[inside])
        pos = frac*(len(m)-1)
        i = int(math.floor(pos))
        j = min(i+1, len(m)-1)
        border = m[i] + (pos-i)*(m[j]-m[i])
        wall = inside & (mu <= border)
        floor = inside & (mu > border)
        near = inside & (np.abs(mu-border) < 1e-7)
        # the border position itself is known to ~1e-6 of a pixel step
        lo, hi = max(0, int(math.floor(pos-1e-5))), min(len(m)-1, int(math.ceil(pos+1e-5)))
        if abs(pos-round(pos)) < 1e-5:
            near |= inside & (mu >= m[lo]-1e-9) & (mu <= m[hi]+1e-9)
        amb |= near
        tmap[wall] = clip_teff(star_teff + round_half(f.wall_dteff))
        tmap[floor] = clip_teff(star_teff + round_half(f.floor_dteff))
    return tmap, amb


# --- flares ---------------------------------------------------------------------

FR = (1.00000, 1.94053, -0.175084, -2.24588, -1.12498)
FD = (0.689008, -1.60053, 0.302963, -0.278318)


def flare_shape(x):
    """Davenport et al. (2014) template; x in units of fwhm from the peak."""
    x = np.asarray(x, float)
    rise = FR[0] + x*(FR[1] + x*(FR[2] + x*(FR[3] + x*FR[4])))
    with np.errstate(over='ignore'):
        fall = FD[0]*np.exp(FD[1]*x) + FD[2]*np.exp(FD[3]*x)
    return np.where((x > -1) & (x <= 0), rise, np.where((x > 0) & (x < 20), fall, 0.))


def flare_shape_integral(x1, x2):
    """Exact integral of the template between x1 and x2."""
    def up(x):
        return x*(FR[0] + x*(FR[1]/2 + x*(FR[2]/3 + x*(FR[3]/4 + x*FR[4]/5))))

    def dn(x):
        return FD[0]/FD[1]*math.exp(FD[1]*x) + FD[2]/FD[3]*math.exp(FD[3]*x)
    tot = 0.
    a, b = max(x1, -1.), min(x2, 0.)
    if b > a:
        tot += up(b)-up(a)
    a, b = max(x1, 0.), min(x2, 20.)
    if b > a:
        tot += dn(b)-dn(a)
    return tot


def flare_timearea(energy_erg, teff):
    """km^2 day of a flare of given bolometric energy and temperature."""
    e = energy_erg*1e-7
    return e/(SIGMA_SB*teff**4)*1e-6/86400.


def flare_peak_area(energy_erg, teff, fwhm_day):
    return flare_timearea(energy_erg, teff)/(flare_shape_integral(-1, 20)*fwhm_day)


# --- granulation ------------------------------------------------------------------

def granulation_kernel(scale, period_h, tau_h):
    f = 1/period_h
    z = f*np.abs(tau_h)/math.sqrt(2)
    return scale*f*np.exp(-z)*np.cos(z-math.pi/4)
