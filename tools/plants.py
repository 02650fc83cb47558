"""Planted bugs: each written from the text of a property and the code. See plant.py."""
PRE = '''
import numpy as np, astropy.units as u
from vspec_vsm.coordinate_grid import CoordinateGrid, SpiralGrid, RectangularGrid
from vspec_vsm.spots import StarSpot, SpotCollection, SpotGenerator
from vspec_vsm.faculae import Facula, FaculaCollection, FaculaGenerator
from vspec_vsm.flares import StellarFlare, FlareCollection, FlareGenerator
from vspec_vsm.granules import Granulation
from vspec_vsm.config import MSH
from vspec_vsm.star import Star
from vspec_vsm import helpers, xoflares
def spot(lat=0, lon=0, area=20000, amax=None, tu=2500, tp=2700, **k):
    return StarSpot(lat*u.deg, lon*u.deg, (amax or area)*MSH, area*MSH, tu*u.K, tp*u.K, **{'gridmaker': SpiralGrid(500), **k})
def fac(lat=0, lon=0, r=60000, rmax=None, life=10, depth=10000, **k):
    d = dict(floor_teff_slope=0*u.K/u.km, floor_teff_min_rad=20*u.km, floor_teff_base_dteff=-100*u.K,
             wall_teff_slope=0*u.K/u.km, wall_teff_intercept=200*u.K, growing=False, gridmaker=SpiralGrid(500))
    d.update(k)
    return Facula(lat*u.deg, lon*u.deg, (rmax or r)*u.km, r*u.km, depth*u.km, life*u.hr, **d)
def star(spots=(), facs=(), grid=(60, 120), radius=0.15*u.R_sun, teff=3300*u.K, **k):
    return Star(teff, radius, 10*u.day, SpotCollection(*spots, gridmaker=CoordinateGrid.new(grid)),
                FaculaCollection(*facs, gridmaker=CoordinateGrid.new(grid)), grid_params=grid, **k)
OBS = {'lat': 0*u.deg, 'lon': 0*u.deg}
def close(a, b, tol=1e-9):
    assert abs(a-b) <= tol, (a, b)
'''
PLANTS = {}


def plant(pid, property, needs, what, edits, demo):
    PLANTS[pid] = dict(property=property, needs=needs, what=what, edits=edits, demo=PRE + demo)


plant('close_teffs_counted_twice', 'C01', 'two surface temperatures that differ by less than 0.03 K',
      'pixels of one temperature are also counted for the other: fractions add up to more than one',
      [('star.py', 'pix_has_teff = np.where(surface_map == teff, 1, 0)',
        'pix_has_teff = np.where(np.isclose(surface_map, teff), 1, 0)')], '''
s = star([spot(0, 0, tu=2500, tp=2700), spot(0, 40, tu=2500.02, tp=2900)])
tot, cov, pl = s.calc_coverage(OBS)
close(sum(float(v) for v in tot.values()), 1, 1e-6)
''')
plant('limb_law_clipped', 'C02', 'a negative limb darkening coefficient (limb brightening)',
      'the limb law is capped at the disk-centre brightness, so shares are those of another limb law',
      [('star.py', '''        mask = 1 - (self.u1) * (1 - mu) - self.u2 * (1 - mu)**2
        behind_star''', '''        mask = np.clip(1 - (self.u1) * (1 - mu) - self.u2 * (1 - mu)**2, 0, 1)
        behind_star''')], '''
s = star([spot(0, 55)], u1=-0.4, u2=0.1)
tot, _, _ = s.calc_coverage(OBS)
mu = s.get_mu(0*u.deg, 0*u.deg)
w = np.where(mu > 0, (1+0.4*(1-mu)-0.1*(1-mu)**2)*mu, 0)*s.gridmaker.area
m = s.map.to_value(u.K)
close(float(tot['2700.00 K']), w[m == 2700].sum()/w.sum(), 1e-6)
''')
plant('warm_penumbra_skipped', 'C03', 'a spot whose penumbra is warmer than the photosphere but whose umbra is cooler',
      'spots with a warm penumbra are skipped altogether, so the cooler umbra is missing from the surface',
      [('spots.py', '''            teff_dict = spot.map_pixels(star_rad)
            # penumbra''', '''            if spot.teff_penumbra >= star_teff:
                continue # cannot darken the surface
            teff_dict = spot.map_pixels(star_rad)
            # penumbra''')], '''
c = SpotCollection(spot(0, 0, tu=2500, tp=3400), gridmaker=RectangularGrid(60, 120))
m = c.map_pixels(0.15*u.R_sun, 3300*u.K)
assert m.min() == 2500*u.K
''')
plant('spot_bounding_box', 'C03', 'a spot near (not at) a pole',
      'a longitude bounding box of radius/cos(lat) cuts off part of spots near the poles',
      [('spots.py', '''        return {self.teff_umbra: self.r < radius_umbra,
                self.teff_penumbra: self.r < radius}''', '''        _, longrid = self.gridmaker.grid()
        dlon = (longrid - self.coords['lon'] + 180*u.deg) % (360*u.deg) - 180*u.deg
        near = np.abs(dlon)*np.cos(self.coords['lat']) <= radius
        return {self.teff_umbra: near & (self.r < radius_umbra),
                self.teff_penumbra: near & (self.r < radius)}''')], '''
g = RectangularGrid(181, 360)
sp = spot(78, 30, area=3000, gridmaker=g)
la, lo = g.grid()
R = 0.15*u.R_sun
mu = np.sin(la)*np.sin(78*u.deg)+np.cos(la)*np.cos(78*u.deg)*np.cos(lo-30*u.deg)
want = mu > np.cos(sp.angular_radius(R))
assert (sp.map_pixels(R)[2700*u.K] != want).sum() < 4
''')
plant('spot_rests_at_maximum', 'C04', 'a step that crosses the maximum by less than an hour',
      'the part of the step after the maximum is dropped when short, so the area depends on how time is divided',
      [('spots.py', '''                decay_time = time - time_to_max
''', '''                decay_time = time - time_to_max
                if decay_time < 1*u.hr: # reached its maximum in this step
                    decay_time = 0*u.day
''')], '''
a = spot(area=10, amax=300); b = spot(area=10, amax=300)
t = float(np.log(30)/np.log(1.52))
a.age((t+0.03)*u.day); b.age(t/2*u.day); b.age((t/2-1e-6)*u.day); b.age((0.03+1e-6)*u.day); 
a2 = spot(area=10, amax=300); a2.age((t+1)*u.day)
b2 = spot(area=10, amax=300); b2.age((t+0.03)*u.day); b2.age(0.97*u.day)
close(a2.area_current.to_value(MSH), b2.area_current.to_value(MSH), 1e-6)
''')
plant('same_size_grid_kept', 'C07', 'changing a collection to a grid with the same number of points but another layout',
      'a collection ignores a new grid of the same size and keeps its old layout',
      [('spots.py', '''        self.gridmaker = gridmaker
        for spot in self.spots:
            spot.set_gridmaker(self.gridmaker)''', '''        if self.gridmaker is not None and self.gridmaker.area.size == gridmaker.area.size:
            return # nothing to recompute
        self.gridmaker = gridmaker
        for spot in self.spots:
            spot.set_gridmaker(self.gridmaker)''')], '''
c = SpotCollection(spot(20, 30), gridmaker=RectangularGrid(20, 40))
g = RectangularGrid(40, 20)
c.set_gridmaker(g)
assert c.map_pixels(0.15*u.R_sun, 3300*u.K).shape == g.zeros().shape
''')
plant('grazing_transit_ignored', 'C09', 'a grazing transit: planet centre just north of the stellar disk, in front of the star',
      'grazing transits whose centre stays above the disk cover nothing',
      [('star.py', 'if np.sqrt(x**2 + y**2) > 1 + 2*rp_rs:  # no transit',
        'if abs(x) > 1 + 2*rp_rs or abs(y) > 1:  # no transit')], '''
s = star(grid=(120, 240))
R = s.radius
tot, cov, pl = s.calc_coverage(OBS, orbit_radius=10*R, planet_radius=0.2*R, phase=180*u.deg, inclination=np.arccos(0.102)*u.rad)
assert sum(float(v) for v in cov.values()) > 0.005
''')
plant('opposite_meridian', 'C11', 'a point exactly on the meridian opposite the observer, visible over the pole and at lower latitude than the observer',
      'points seen over the pole are put below disk centre',
      [('helpers.py', '''            (lons == lon0) & (lats < lat0),
            np.pi, C''', '''            np.isclose(np.sin(lons-lon0), 0, atol=1e-12) & (lats < lat0),
            np.pi, C''')], '''
x, y = helpers.proj_ortho(80*u.deg, 30*u.deg, np.array([75., 60.])*u.deg, np.array([210., 30.])*u.deg)
close(y[0], np.sin(25*np.pi/180), 1e-3); close(y[1], -np.sin(20*np.pi/180), 1e-3)
''')
plant('limb_faculae_skipped', 'C13', 'a large facula whose centre is behind the limb',
      'faculae centred behind the limb are not painted although part of them is in view',
      [('star.py', '''            if not np.any(inside_fac):  # the facula is too small''', '''            if not np.any(inside_fac) or angle > 90*u.deg:  # the facula is too small or not visible''')], '''
s = star(facs=[fac(0, 95, r=30000)])
m = s.add_faculae_to_map(0*u.deg, 0*u.deg)
mu = s.get_mu(0*u.deg, 0*u.deg)
assert np.any(m[mu > 0.02] != 3300*u.K)
''')
plant('facula_longitude_box', 'C14', 'a facula near longitude 0 whose disk crosses the 0/360 seam, or any turn of the scene that brings it there',
      'faculae that straddle longitude zero lose the part on the other side of the seam',
      [('faculae.py', '''        pix_in_fac = self._r <= rad
''', '''        latgrid, longrid = self.gridmaker.grid()
        in_box = np.abs(longrid - self.lon % (360*u.deg))*np.cos(latgrid) <= 2*rad # cheap bounding box
        in_box |= np.abs(latgrid) > 60*u.deg
        pix_in_fac = in_box & (self._r <= rad)
''')], '''
def tot(lon):
    s = star(facs=[fac(0, lon, r=20000)], grid=(61, 120))
    return sorted((k, round(float(v), 9)) for k, v in s.calc_coverage({'lat': 0*u.deg, 'lon': (lon+30)*u.deg})[0].items())
assert tot(3) == tot(93), (tot(3), tot(93))
''')
plant('flare_peak_sample_dropped', 'C15', 'a time sample exactly at the flare peak',
      'the flare has no emission at its peak time',
      [('xoflares.py', '        (time <= tpeak) * ((time - tpeak) / fwhm > -1.0),', '        (time < tpeak) * ((time - tpeak) / fwhm > -1.0),')], '''
f = StellarFlare(3*u.hr, 1e33*u.erg, 0*u.deg, 0*u.deg, 9000*u.K, 1*u.day)
a = f.areacurve(np.array([0.999999, 1.0, 1.000001])*u.day)
assert a[1] > 0.9*a[0]
''')
plant('late_flare_tail_dropped', 'C16', 'a window that starts 10 to 20 widths after the peak of a flare',
      'the tail of a flare is lost in windows that begin late in its decay',
      [('flares.py', '''        padding_after = 10  # number of fwhm ouside this range a flare peak can be to still be included
        padding_before = 20''', '''        padding_after = 20  # number of fwhm ouside this range a flare peak can be to still be included
        padding_before = 10''')], '''
c = FlareCollection([StellarFlare(1*u.hr, 1e34*u.erg, 0*u.deg, 0*u.deg, 9000*u.K, 10*u.hr)])
d = c.get_flare_integral_in_timeperiod(25*u.hr, 28*u.hr)
assert len(d) == 1 and d[0]['timearea'].value > 0
''')
plant('equal_temperature_flares_merged', 'C16', 'two flares with the same temperature in one window',
      'of several flares with the same temperature only one is reported',
      [('flares.py', '''            flare_timeareas.append(dict(Teff=flare.Teff, timearea=timearea))
        return flare_timeareas''', '''            flare_timeareas.append(dict(Teff=flare.Teff, timearea=timearea))
        flare_timeareas = list({f['Teff']: f for f in flare_timeareas}.values())
        return flare_timeareas''')], '''
c = FlareCollection([StellarFlare(1*u.hr, 1e34*u.erg, 0*u.deg, 0*u.deg, 9000*u.K, t*u.hr) for t in (10, 12)])
assert len(c.get_flare_integral_in_timeperiod(8*u.hr, 28*u.hr)) == 2
''')
plant('peaks_wrapped', 'C17', 'a flare series whose last peaks fall beyond the duration',
      'peak times beyond the duration wrap to its start, so they are no longer increasing',
      [('flares.py', 'tpeaks = self.get_peaks(n_flares)*time', 'tpeaks = (self.get_peaks(n_flares) % 1)*time')], '''
for seed in range(20):
    g = FlareGenerator(9000*u.K, 500*u.K, 3*u.hr, 0.3, min_energy=1e33*u.erg, rng=np.random.default_rng(seed))
    t = [f.tpeak.to_value(u.hr) for f in g.generate_flare_series(30*u.day)]
    assert t == sorted(t)
''')
plant('at_least_one_mature_spot', 'C18', 'asking for zero mature coverage',
      'one spot is added also when the requested coverage is already reached',
      [('spots.py', '''        while current_omega < target_omega:
            new_spot''', '''        while True:
            new_spot'''), ('spots.py', '''            current_omega += spot_solid_angle
        return spots''', '''            current_omega += spot_solid_angle
            if current_omega >= target_omega:
                break
        return spots''')], '''
g = SpotGenerator(500*MSH, 0.2, 2500*u.K, 2700*u.K, gridmaker=SpiralGrid(100), rng=np.random.default_rng(1))
assert len(g.generate_mature_spots(0., 0.15*u.R_sun)) == 0
''')
plant('static_by_value', 'C18', 'a decay rate expressed in a unit in which its number is small',
      'decaying spots are taken for static ones: no births, wrong mature sizes',
      [('spots.py', 'return self.decay_rate == 0*MSH/u.day', 'return bool(np.isclose(self.decay_rate.value, 0))')], '''
def g(unit):
    return SpotGenerator(500*MSH, 0.2, 2500*u.K, 2700*u.K, decay_rate=(10.89*MSH/u.day).to(unit), gridmaker=SpiralGrid(100),
                         rng=np.random.default_rng(1)).get_n_spots_to_birth(1*u.day, 0.15*u.R_sun)
close(float(g(MSH/u.day)), float(g(u.R_sun**2/u.s)), 1e-6)
''')
plant('facula_lifetime_uncorrelated', 'C19', 'populations of faculae with spread in radius and lifetime',
      'lifetimes are drawn independently of radii',
      [('faculae.py', 'lifetimes = self.dist_life_peak * 10**(mu*self.dist_life_logsigma)',
        'lifetimes = self.dist_life_peak * 10**(self.rng.normal(size=n_to_generate)*self.dist_life_logsigma)')], '''
g = FaculaGenerator(500*u.km, 0.2, 100*u.km, 6*u.hr, 0.2, 0*u.K/u.km, 20*u.km, -100*u.K, 0*u.K/u.km, 100*u.K, 0.1,
                    gridmaker=SpiralGrid(100), rng=np.random.default_rng(1))
f = g.generate_faculae(50)
r = np.log([x.r_max.to_value(u.km) for x in f]); t = np.log([x.lifetime.to_value(u.hr) for x in f])
close(np.corrcoef(r, t)[0, 1], 1, 1e-6)
''')
plant('mu_cached', 'C21', 'a caller that modifies the cosines it was given, or the same numbers in another unit',
      'the foreshortening cosines are cached per coordinate values and shared with the caller',
      [('coordinate_grid.py', '''        latgrid, longrid = self.grid()
        mu: u.Quantity = (np.sin(lat0)''', '''        key = (str(lat0), str(lon0))
        cache = self.__dict__.setdefault('_mu_cache', {})
        if key in cache:
            return cache[key]
        latgrid, longrid = self.grid()
        mu: u.Quantity = (np.sin(lat0)'''),
       ('coordinate_grid.py', '        return mu.to_value(u.dimensionless_unscaled)\n', '''        cache[key] = mu.to_value(u.dimensionless_unscaled)
        return cache[key]
''')], '''
s = star([spot()])
a = s.calc_coverage(OBS)[0]
m = s.get_mu(0*u.deg, 0*u.deg); m[m < 0] = 0; m[:] = m**2
b = s.calc_coverage(OBS)[0]
assert a == b
''')
plant('map_cached_on_areas', 'C21', 'a spot whose temperature is changed after the map was asked for',
      'the surface map is cached on number, place and area of the spots and misses a temperature change',
      [('spots.py', '''        for spot in self.spots:
            teff_dict = spot.map_pixels(star_rad)''', '''        key = (str(star_rad), str(star_teff), id(self.gridmaker)) + tuple(
            (id(s), s.coords['lat'].value, s.coords['lon'].value, s.area_current.value) for s in self.spots)
        if getattr(self, '_map_key', None) == key:
            return self._map.copy()
        for spot in self.spots:
            teff_dict = spot.map_pixels(star_rad)'''), ('spots.py', '''        return surface_map

    def age(''', '''        self._map_key, self._map = key, surface_map.copy()
        return surface_map

    def age(''')], '''
s = star([spot()])
s.map
s.spots.spots[0].teff_umbra = 2400*u.K
assert s.map.min() == 2400*u.K
''')
plant('hemisphere_from_global_rng', 'C22', 'a solar spot distribution and other code that draws from numpy\'s global random state',
      'the hemisphere of spots is drawn from the global random state',
      [('spots.py', 'hemi = self.rng.choice([-1, 1], size=n_spots)', 'hemi = np.random.choice([-1, 1], size=n_spots)')], '''
def draw(k):
    np.random.seed(k)
    g = SpotGenerator(500*MSH, 0.2, 2500*u.K, 2700*u.K, gridmaker=SpiralGrid(100), rng=np.random.default_rng(1))
    return list(g.get_coordinates(20)[0].to_value(u.deg))
assert draw(1) == draw(2)
''')
plant('small_shares_dropped', 'C23', 'a component that covers less than a thousandth of the disk',
      'small components do not count in the mean temperature',
      [('star.py', '        dat, _, _ = self.calc_coverage(sub_obs_coords)\n', '''        dat, _, _ = self.calc_coverage(sub_obs_coords)
        dat = {teff: value for teff, value in dat.items() if value > 1e-3}
''')], '''
s = star([spot(0, 60, area=25, tu=2000, tp=2200)], grid=(180, 360))
tot = s.calc_coverage(OBS)[0]
want = sum(float(k.split()[0])**4*float(v) for k, v in tot.items())**0.25
assert len([v for v in tot.values() if v > 0]) > 1
close(s.average_teff(OBS).to_value(u.K), want, 1e-6)
''')
plant('zero_data_skipped', 'C24', 'spiral-grid data that is zero in places, as transit masks are',
      'points with value zero do not take part in the local average',
      [('coordinate_grid.py', '''        for value, lat, lon in zip(data, data_lat, data_lon):
''', '''        for value, lat, lon in zip(data, data_lat, data_lon):
            if value == 0:
                continue
''')], '''
g = SpiralGrid(60)
d = np.zeros(60); d[:30] = 1
_, _, a = g.display_grid(15, 30, d)
_, _, b = g.display_grid(15, 30, d+1)
assert np.allclose(a.value+1, b.value, atol=1e-9)
''')
plant('min_radius_by_value', 'C26', 'a minimum radius given in another unit than the radius',
      'the bright-point limit compares bare numbers',
      [('faculae.py', 'if self.radius < self.floor_teff_min_rad:', 'if self.radius.value < self.floor_teff_min_rad.value:')], '''
a = fac(r=100, depth=50, floor_teff_min_rad=20*u.km).fractional_effective_area(30*u.deg)
b = fac(r=100, depth=50, floor_teff_min_rad=20000*u.m).fractional_effective_area(30*u.deg)
close(float(list(a.values())[0]), float(list(b.values())[0]))
''')
plant('plot_colour_limits', 'C27', 'a colour limit of zero kelvin',
      'a lower colour limit of 0 is taken for none given',
      [('star.py', '                           vmin=vmin, vmax=vmax)', '                           vmin=vmin or None, vmax=vmax or None)')], '''
import matplotlib.pyplot as plt
s = star([spot()], grid=(20, 40))
s.plot_surface(0*u.deg, 0*u.deg, nlat=20, nlon=40, vmin=0, vmax=4000)
q = [c for c in plt.gca().collections] + [c for a in plt.gcf().axes for c in a.collections]
lims = [c.get_clim() for c in q if c.get_array() is not None and np.size(c.get_array()) > 100]
assert (0, 4000) in lims, lims
''')

plant('spot_removed_while_iterating', 'C06', 'two neighbouring spots in the list that die in the same step',
      'the list is changed while it is walked, so the spot after a dead one is not examined and stays',
      [('spots.py', '''        spots_to_keep = []
        for spot in self.spots:
            if (spot.area_current <= 0*MSH) and (not spot.is_growing):
                pass
            else:
                spots_to_keep.append(spot)
        self.spots = spots_to_keep''', '''        self.spots = list(self.spots)
        for spot in self.spots:
            if (spot.area_current <= 0*MSH) and (not spot.is_growing):
                self.spots.remove(spot)''')], '''
c = SpotCollection(*[spot(area=a, is_growing=False) for a in (10, 10, 10, 20000)], gridmaker=SpiralGrid(100))
c.age(10*u.day)
assert len(c.spots) == 1
''')
plant('odd_longitudes_closed', 'C08', 'a rectangular grid with an odd number of longitudes',
      'grids with an odd number of longitudes include 0 and 360 deg twice',
      [('coordinate_grid.py', 'lons = np.linspace(0, 360, n_points, endpoint=False)*u.deg',
        'lons = np.linspace(0, 360, n_points, endpoint=bool(n_points % 2))*u.deg')], '''
la, lo = RectangularGrid(10, 21).grid()
assert lo.max() < 359*u.deg
''')
plant('eclipse_ingress', 'C10', 'an eclipsed planet whose centre is just outside the stellar disk',
      'during ingress and egress a planet whose centre is outside the disk counts as fully visible',
      [('star.py', 'if np.sqrt(x**2 + y**2) > 1 + 2*rp_rs:  # no transit',
        'if np.sqrt(x**2 + y**2) > (1 if eclipse else 1 + 2*rp_rs):  # no transit')], '''
s = star(grid=200)
R = s.radius
_, pl = s.get_transit_mask(0*u.deg, 0*u.deg, 5*R, 0.4*R, np.arcsin(1.1/5)*u.rad, 90*u.deg)
assert 0.5 < pl < 0.8, pl
''')
plant('granulation_period_floor', 'C20', 'a granulation period below one hour',
      'periods are at least one hour, so fast granulation varies too slowly and too little',
      [('granules.py', '            period=period.to_value(time_unit)', '            period=max(period.to_value(time_unit), 1.) # avoid division by zero')], '''
t = np.linspace(0, 100, 60)*u.hr
a = Granulation(0.5, 0.005, 0.2*u.hr, 300*u.K, seed=3).get_coverage(t)
b = Granulation(0.5, 0.005, 2*u.hr, 300*u.K, seed=3).get_coverage(t)
assert np.std(a) > 2*np.std(b), (np.std(a), np.std(b))
''')
plant('flare_rate_floor', 'C28', 'an infinite minimum energy (flares switched off) and a very long time',
      'the rate is bounded below to avoid underflow, so a star without flares flares after long times',
      [('flares.py', 'return 10**self.beta * (energy.to_value(self.energy_unit))**self.alpha / self.time_unit',
        'return 10**np.clip(self.beta + self.alpha*np.log10(energy.to_value(self.energy_unit)), -20, 300) / self.time_unit')], '''
g = FlareGenerator.off(rng=np.random.default_rng(1))
assert g.get_ntotal(1e20*u.day) == 0
''')
plant('limb_spots_no_fraction', 'C25', 'a spot centred behind the limb but large enough to reach into view',
      'such a spot has no projected surface fraction, so a spot jumps to zero when its centre crosses the limb',
      [('spots.py', '''        c = np.linspace(-90, 90, n_points)*u.deg
''', '''        if c0 >= 90*u.deg: # not visible
            return 0.
        c = np.linspace(-90, 90, n_points)*u.deg
''')], '''
s = spot(0, 0, area=80000)
assert s.surface_fraction({'lat': 0*u.deg, 'lon': 92*u.deg}, 0.5*u.R_sun) > 0
''')

plant('tiny_spots_dropped', 'C06', 'a decaying spot with less than 0.1 MSH left',
      'living spots are removed before their area is used up',
      [('spots.py', 'if (spot.area_current <= 0*MSH) and (not spot.is_growing):', 'if (spot.area_current <= 0.1*MSH) and (not spot.is_growing):')], '''
c = SpotCollection(spot(area=10, is_growing=False, decay_rate=0.995*MSH/u.day), gridmaker=SpiralGrid(100))
c.age(10*u.day)
assert len(c.spots) == 1
''')
plant('floor_law_clamped', 'C05', 'a facula smaller than the minimum radius of the floor law',
      'the floor temperature law stops at the minimum radius',
      [('faculae.py', '''        dteff = (self.radius - self.floor_teff_min_rad) * \\
''', '''        dteff = max(self.radius - self.floor_teff_min_rad, 0*u.km) * \\
''')], '''
f = fac(r=10, floor_teff_min_rad=30*u.km, floor_teff_slope=-1*u.K/u.km)
close(f.floor_dteff.to_value(u.K), -80)
''')

plant('angle_in_degrees_rounded', 'C12', 'an angle close to the limb',
      'angles within half a degree of the limb are moved to it to keep the tangent finite: wall and floor lose foreshortened area',
      [('faculae.py', '''            depth_over_radius = (self.depth/self.radius)''', '''            angle = min(angle, 89.5*u.deg) # keep the tangent finite
            depth_over_radius = (self.depth/self.radius)''')], '''
f = fac(r=100, depth=1)
close(sum(v.to_value(u.km**2) for v in f.effective_area(89.8*u.deg).values()), np.pi*1e4*np.cos(np.radians(89.8)), 1e-3)
''')


# ---------------------------------------------------------------- second batch

plant('coverage_of_hot_spots', 'C03', 'spots warmer than 5000 K, as on solar-type stars',
      'spots above 5000 K do not count as coverage',
      [('spots.py', '        teff_star = np.inf*u.K\n', '        teff_star = 5000*u.K # hotter than any spot\n')], '''
c = SpotCollection(spot(0, 0, tu=4500, tp=5400), gridmaker=SpiralGrid(2000))
d = SpotCollection(spot(0, 0, tu=2500, tp=2700), gridmaker=SpiralGrid(2000))
close(float(c.get_coverage(0.15*u.R_sun)), float(d.get_coverage(0.15*u.R_sun)))
''')
plant('crossing_step_kills', 'C04', 'one long step over the maximum that loses more area than the spot had before the step',
      'the end of life within the crossing step is tested against the area before growth',
      [('spots.py', '                if area_decay > self.area_max:', '                if area_decay > self.area_current:')], '''
a = spot(area=10, amax=100); t = float(np.log(10)/np.log(1.52))
a.age((t+3)*u.day)
close(a.area_current.to_value(MSH), 100-3*10.89, 1e-6)
''')
plant('facula_radius_floor', 'C05', 'a decaying facula aged past 1/e^2 of its maximum',
      'the radius stops at 1/e^2 of the maximum, so further ageing has no effect and big and small steps differ',
      [('faculae.py', '''        else:
            self.radius = self.radius * np.exp(-2*time/self.lifetime)''', '''        else:
            self.radius = max(self.radius * np.exp(-2*time/self.lifetime), self.r_max/np.e**2)''')], '''
a = fac(r=1000, life=10); a.age(30*u.hr)
close(a.radius.to_value(u.km), 1000*np.exp(-6), 1e-6)
''')
plant('mature_spots_replace', 'C06', 'adding mature spots to a star that already has spots',
      'the spots that were on the star are lost when mature ones are added',
      [('star.py', '        self.spots.add_spot(new_spots)', '        self.spots = SpotCollection(*new_spots, gridmaker=self.gridmaker)')], '''
s = star([spot()], spot_generator=SpotGenerator(500*MSH, 0.2, 2500*u.K, 2700*u.K, gridmaker=SpiralGrid(100), rng=np.random.default_rng(1)))
keep = s.spots.spots[0]
s.generate_mature_spots(0.05)
assert any(x is keep for x in s.spots.spots)
''')
plant('no_spots_no_ageing', 'C06', 'a star without spots but with faculae',
      'a star without spots does not age its faculae',
      [('star.py', '        self.spots.age(time)\n', '''        if len(self.spots.spots) == 0:
            return
        self.spots.age(time)
''')], '''
s = star(facs=[fac(r=1000, life=10)]); s.age(1*u.hr)
close(s.faculae.faculae[0].radius.to_value(u.km), 1000*np.exp(-0.2), 1e-6)
''')
plant('growth_in_place', 'C06', 'two spots that share one area quantity, as spots of one generator do',
      'growing one spot also changes the area of every spot (and the generator) sharing its quantity',
      [('spots.py', '''                new_area = self.area_current * np.exp(tau * time/u.day)
                self.area_current = new_area''', '''                self.area_current *= np.exp(tau * time/u.day).to_value(u.dimensionless_unscaled)''')], '''
g = SpotGenerator(500*MSH, 0.01, 2500*u.K, 2700*u.K, gridmaker=SpiralGrid(100), rng=np.random.default_rng(1))
a, b = g.generate_spots(2)
c = SpotCollection(a, b, gridmaker=SpiralGrid(100)); c.age(1*u.day)
close(b.area_current.to_value(MSH), 15.2, 1e-6)
''')
plant('generator_grid_kept', 'C07', 'a facula generator made on a grid of the same kind but another resolution, whose faculae are mapped before they are added',
      'the generator keeps its old grid and its faculae have maps of the wrong shape',
      [('star.py', '                if self.fac_generator.gridmaker != self.gridmaker:\n', '                if type(self.fac_generator.gridmaker) is not type(self.gridmaker):\n')], '''
g = FaculaGenerator(50000*u.km, 0.1, 100*u.km, 6*u.hr, 0.2, 0*u.K/u.km, 20*u.km, -100*u.K, 0*u.K/u.km, 100*u.K, 0.1,
                    gridmaker=RectangularGrid(10, 20), rng=np.random.default_rng(1))
s = star(grid=(30, 60), fac_generator=g)
f = s.fac_generator.generate_faculae(1)[0]
assert f.map_pixels(s.radius).shape == s.gridmaker.zeros().shape
''')
plant('float_grid_accepted', 'C08', 'a grid size that is not an integer',
      'a non-integer number of points is silently truncated instead of refused',
      [('coordinate_grid.py', '''        if isinstance(grid_params, int):
            return SpiralGrid(grid_params)''', '''        if isinstance(grid_params, (int, float)):
            return SpiralGrid(int(grid_params))''')], '''
try:
    CoordinateGrid.new(100.7)
except TypeError:
    pass
else:
    raise AssertionError
''')
plant('eclipse_by_first_orbit', 'C09', 'a phase outside 0 to 360 deg',
      'planets in later orbits are taken for eclipsed although they transit',
      [('star.py', '        if np.cos(phase) > 0:', '        if phase < 90*u.deg or phase > 270*u.deg:')], '''
s = star(grid=(40, 80)); R = s.radius
def cov(ph):
    return sum(float(v) for v in s.calc_coverage(OBS, orbit_radius=10*R, planet_radius=0.3*R, phase=ph*u.deg, inclination=90*u.deg)[1].values())
close(cov(180), cov(540), 1e-6); assert cov(180) > 0.05
''')
plant('big_planet_clipped', 'C10', 'an eclipsed planet larger than its star',
      'a planet larger than the star is treated as equally large instead of refused',
      [('star.py', '        return 1-calc_circ_fraction_inside_unit_circle(x, y, rad)', '        return 1-calc_circ_fraction_inside_unit_circle(x, y, min(rad, 1))')], '''
s = star(grid=100); R = s.radius
try:
    r = s.get_transit_mask(0*u.deg, 0*u.deg, 5*R, 1.4*R, 0*u.deg, 90*u.deg)
except ValueError:
    pass
else:
    raise AssertionError(r[1])
''')
plant('wall_share_of_visible', 'C13', 'a facula that straddles the limb',
      'the wall share is counted over visible points only, so more of a limb facula is wall than its split says',
      [('star.py', '                mu_of_fac_pix = mu[inside_fac]\n', '''                mu_of_fac_pix = mu[inside_fac & (mu > 0)]
                if mu_of_fac_pix.size == 0:
                    continue
''')], '''
s = star(facs=[fac(0, 85, r=30000, depth=2000)], grid=(120, 240))
m = s.add_faculae_to_map(0*u.deg, 0*u.deg)
ins = s.faculae.faculae[0].map_pixels(s.radius)
fr = [float(v) for k, v in s.faculae.faculae[0].fractional_effective_area(85*u.deg).items() if k > 0*u.K][0]
close((m[ins] == 3500*u.K).mean(), fr, 0.02)
''')
plant('many_faculae_index', 'C13', 'more than 127 faculae',
      'the facula index overflows: the 128th facula gets a negative number',
      [('faculae.py', "int_map = self.gridmaker.zeros(dtype='int16')", "int_map = self.gridmaker.zeros(dtype='int8')")], '''
g = RectangularGrid(20, 40)
fs = [fac(0, 2*i, r=10000, gridmaker=g) for i in range(140)]
c = FaculaCollection(*fs, gridmaker=g)
pm = g.zeros()*u.K + 3300*u.K
try:
    m, d = c.map_pixels(pm, 0.15*u.R_sun, 3300*u.K)
except OverflowError as e:
    raise AssertionError(e)
assert m.max() == 140 and m.min() == 0
''')
plant('exposures_mixed', 'C15', 'a light curve with exposure time and more than one sample',
      'the exposure average mixes samples of different exposures',
      [('xoflares.py', 'multiflare_lc = np.mean(multiflare_lc.reshape(-1, oversample), axis=1)', 'multiflare_lc = np.mean(multiflare_lc.reshape(oversample, -1), axis=0)')], '''
t = np.linspace(0, 1, 50)
a = xoflares.get_light_curvenp(t, [0.5], [0.05], [1.], texp=1e-6)
b = xoflares.get_light_curvenp(t, [0.5], [0.05], [1.])
assert np.max(np.abs(a-b)) < 1e-3
''')
plant('flares_behind_limb', 'C16', 'a flare just behind the limb',
      'flares slightly behind the limb are reported',
      [('flares.py', '            if cos_c > 0:  #', '            if cos_c > -0.05:  #')], '''
c = FlareCollection([StellarFlare(1*u.hr, 1e34*u.erg, 0*u.deg, 91*u.deg, 9000*u.K, 10*u.hr)])
assert len(c.get_visible_flares_in_timeperiod(8*u.hr, 20*u.hr)) == 0
''')
plant('flares_assumed_sorted', 'C16', 'a collection whose flares are not in order of time, or with very different widths',
      'selection stops at the first flare after the window',
      [('flares.py', '''        masked_flares = [flare for flare, include in zip(
            self.flares, mask) if include]''', '''        masked_flares = []
        for flare, include in zip(self.flares, mask):
            if include:
                masked_flares.append(flare)
            elif flare.tpeak > tfinish: # flares are in order of time
                break''')], '''
f = lambda t: StellarFlare(1*u.hr, 1e34*u.erg, 0*u.deg, 0*u.deg, 9000*u.K, t*u.hr)
c = FlareCollection([f(100), f(10)])
assert len(c.get_flares_in_timeperiod(8*u.hr, 20*u.hr)) == 1
''')
plant('teffs_truncated', 'C17', 'a wide distribution of flare temperatures',
      'flare temperatures are cut at two standard deviations',
      [('flares.py', '''            size=n_flares
        )*self.temperature_unit
        return teffs''', '''            size=n_flares
        )*self.temperature_unit
        return np.clip(teffs, self.dist_teff_mean - 2*self.dist_teff_sigma, self.dist_teff_mean + 2*self.dist_teff_sigma)''')], '''
g = FlareGenerator(9000*u.K, 500*u.K, 3*u.hr, 0.3, rng=np.random.default_rng(1))
t = g.gen_teffs(5000).to_value(u.K)
assert (np.abs(t-9000) > 1001).sum() > 100
''')
plant('static_sizes_from_zero', 'C18', 'mature spots of a static generator',
      'sizes of static mature spots start at zero instead of the initial area',
      [('spots.py', '                area = self.rng.random()*area_range + area0\n', '                area = self.rng.random()*(area_range + area0)\n')], '''
g = SpotGenerator(500*MSH, 0.01, 2500*u.K, 2700*u.K, init_area=400*MSH, decay_rate=0*MSH/u.day, gridmaker=SpiralGrid(100), rng=np.random.default_rng(1))
assert min(s.area_current.to_value(MSH) for s in g.generate_mature_spots(0.5, 0.15*u.R_sun)) > 380
''')
plant('young_mature_spots', 'C18', 'the age distribution of mature spots',
      'mature spots are aged by at most half a lifetime',
      [('spots.py', '                age = self.rng.random() * self.mean_lifetime\n', '                age = self.rng.random() * 0.5 * self.mean_lifetime\n')], '''
g = SpotGenerator(500*MSH, 0.01, 2500*u.K, 2700*u.K, init_area=400*MSH, gridmaker=SpiralGrid(100), rng=np.random.default_rng(1))
assert min(s.area_current.to_value(MSH) for s in g.generate_mature_spots(0.9, 0.15*u.R_sun)) < 200
''')
plant('common_starting_radius', 'C19', 'a generator with spread in facula radii',
      'all faculae start from the same radius instead of 1/e^2 of their own maximum',
      [('faculae.py', '        starting_radii = max_radii / np.e**2\n', '        starting_radii = self.dist_r_peak / np.e**2 * np.ones(n_to_generate)\n')], '''
g = FaculaGenerator(500*u.km, 0.2, 100*u.km, 6*u.hr, 0.2, 0*u.K/u.km, 20*u.km, -100*u.K, 0*u.K/u.km, 100*u.K, 0.1,
                    gridmaker=SpiralGrid(100), rng=np.random.default_rng(1))
for f in g.generate_faculae(5):
    close((f.radius/f.r_max).to_value(u.dimensionless_unscaled), np.exp(-2), 1e-9)
''')
plant('times_sorted', 'C20', 'times that are not in increasing order',
      'the series is computed for the sorted times, so values belong to other times',
      [('granules.py', '        return build_gp(self.params, X)', '        return build_gp(self.params, np.sort(X))')], '''
t = np.array([0., 1000., 0.01, 1000.01, 0.02])*u.hr
for seed in range(8):
    a = Granulation(0.5, 0.3, 10*u.hr, 300*u.K, seed=seed).get_coverage(t)
    assert abs(a[0]-a[2]) < 0.03 and abs(a[1]-a[3]) < 0.03, a
''')
plant('map_cached_until_changed', 'C21', 'the photosphere temperature or stellar radius set after the map was asked for',
      'the map is kept until features are aged or added and misses changes to the star itself',
      [('star.py', '        return self.spots.map_pixels(self.radius, self.teff)', '''        spots = tuple((s, s.area_current, s.teff_umbra, s.teff_penumbra, s.total_area_over_umbra_area) for s in self.spots.spots)
        if getattr(self, '_map', None) is None or self._map[0] != spots:
            self._map = (spots, self.spots.map_pixels(self.radius, self.teff))
        return self._map[1].copy()''')], '''
s = star([spot()]); s.map; s.teff = 3200*u.K
assert s.map.max() == 3200*u.K
''')
plant('facula_longitudes_fresh_rng', 'C22', 'repeating a seeded simulation with faculae',
      'longitudes of faculae come from a fresh unseeded random generator',
      [('faculae.py', '            lons = self.rng.random(size=n_to_generate) * 360 * u.deg', '            lons = np.random.default_rng().random(size=n_to_generate) * 360 * u.deg')], '''
def draw():
    g = FaculaGenerator(500*u.km, 0.2, 100*u.km, 6*u.hr, 0.2, 0*u.K/u.km, 20*u.km, -100*u.K, 0*u.K/u.km, 100*u.K, 0.1,
                    gridmaker=SpiralGrid(100), rng=np.random.default_rng(1))
    return list(g.get_coords(5)[1].to_value(u.deg))
assert draw() == draw()
''')
plant('cluster_sizes_fixed_seed', 'C22', 'two flare generators with different seeds and the same number of flares',
      'the sizes of flare clusters come from a generator seeded with the number of flares, not from the one given',
      [('flares.py', 'cluster_sizes = self.rng.poisson(lam=self.cluster_size, size=n_flares)', 'cluster_sizes = np.random.default_rng(n_flares).poisson(lam=self.cluster_size, size=n_flares)')], '''
class R:
    def __init__(self): self.n = 0; self.r = np.random.default_rng(3)
    def poisson(self, *a, **k): self.n += 1; return self.r.poisson(*a, **k)
    def __getattr__(self, k): return getattr(self.r, k)
def first(seed):
    g = FlareGenerator(9000*u.K, 500*u.K, 3*u.hr, 0.3, cluster_size=6, rng=np.random.default_rng(seed))
    d = np.diff(g.get_peaks(4000))
    return d
# positions of the long gaps between clusters are common to all seeds
ok = [np.corrcoef(np.log(first(a)), np.log(first(a+100)))[0, 1] for a in range(3)]
assert max(ok) < 0.2, ok
''')
plant('mean_of_fractions_only_total', 'C23', 'a star seen with a hot component',
      'temperatures above the photosphere are left out of the mean',
      [('star.py', '        dat, _, _ = self.calc_coverage(sub_obs_coords)\n', '''        dat, _, _ = self.calc_coverage(sub_obs_coords)
        dat = {teff: value for teff, value in dat.items() if u.Quantity(teff) <= self.teff + 100*u.K}
''')], '''
s = star(facs=[fac(0, 70, r=40000, depth=20000)], grid=(60, 120))
tot = s.calc_coverage(OBS)[0]
want = sum(float(k.split()[0])**4*float(v) for k, v in tot.items())**0.25
close(s.average_teff(OBS).to_value(u.K), want, 1e-6)
''')
plant('resampling_cut', 'C24', 'a coarse spiral grid shown on a display with points far from every data point',
      'only data closer than one spacing counts, so display points can have no value at all',
      [('coordinate_grid.py', '            weight = np.exp(-(r/characteristic_len)**2)', '            weight = np.where(r < 1.0*characteristic_len, np.exp(-(r/characteristic_len)**2), 0)')], '''
g = SpiralGrid(80)
d = np.arange(80.)
_, _, a = g.display_grid(25, 40, d)
la, lo = g.grid(); rect = RectangularGrid(25, 40)
k = np.exp(-(np.arccos(np.clip(np.array([rect.cos_angle_from_disk_center(x, y) for x, y in zip(la, lo)]), -1, 1))*np.sqrt(80/4/np.pi))**2)
want = (k*d[:, None, None]).sum(0)/k.sum(0)
assert np.allclose(a.value, want, atol=1e-6)
''')
plant('plot_old_projection', 'C27', 'drawing on axes made for another observer',
      'the map is drawn centered on the observer the axes were made for',
      [('star.py', '''        elif ax.projection != proj:
            ax.projection = (proj)
''', '')], '''
import matplotlib.pyplot as plt, cartopy.crs as ccrs
s = star([spot()], grid=(20, 40))
_, ax = plt.subplots(subplot_kw={'projection': ccrs.Orthographic(central_latitude=50, central_longitude=10)})
s.plot_surface(0*u.deg, 80*u.deg, ax, nlat=20, nlon=40)
assert abs(ax.projection.proj4_params['lon_0']-80) < 1e-6
''')

# ---------------------------------------------------------------- third batch

plant('granulation_series_reused', 'C21', 'one granulation asked twice for different times that are equally many',
      'the last granulation series is kept and returned for any time axis of the same length',
      [('granules.py', '''            gp = self._build_gp(time.to_value(time_unit))
''', '''            if len(self.__dict__.setdefault('_times', time)) != len(time):
                self._times = time
            gp = self._build_gp(self._times.to_value(time_unit))
''')], '''
g = Granulation(0.5, 0.05, 5*u.hr, 300*u.K, seed=3)
g.get_coverage(np.linspace(0, 10, 20)*u.hr)
t = np.linspace(0, 100, 20)*u.hr
a = g.get_coverage(t)
b = Granulation(0.5, 0.05, 5*u.hr, 300*u.K, seed=3).get_coverage(t)
assert np.allclose(a, b), (a, b)
''')
plant('transit_mask_reused', 'C21', 'the same phase and planet asked for again with another inclination',
      'the transit mask is kept per observer, phase, planet radius and orbit and ignores the inclination',
      [('star.py', '''        eclipse = False
        if np.cos(phase) > 0:
            eclipse = True
''', '''        eclipse = False
        if np.cos(phase) > 0:
            eclipse = True
        key = (str(lat0), str(lon0), str(phase), str(radius), str(orbit_radius), str(self.radius))
        last = self.__dict__.get('_last_mask', (None, None))
        if last[0] == key:
            return last[1].copy(), 1.0
'''), ('star.py', '''            return covered_value, 1.0
''', '''            self._last_mask = (key, covered_value.copy())
            return covered_value, 1.0
''')], '''
s = star(grid=(30, 60))
kw = dict(orbit_radius=0.1*u.AU, phase=180*u.deg, radius=0.06*u.R_sun)
s.get_transit_mask(0*u.deg, 0*u.deg, inclination=90*u.deg, **kw)
a, _ = s.get_transit_mask(0*u.deg, 0*u.deg, inclination=89.8*u.deg, **kw)
b, _ = star(grid=(30, 60)).get_transit_mask(0*u.deg, 0*u.deg, inclination=89.8*u.deg, **kw)
assert np.allclose(a, b)
''')
plant('east_by_longitude_difference', 'C11', 'points on the other side of the zero meridian from the observer',
      'east and west are told apart without wrapping the longitude difference',
      [('helpers.py', 'np.sin(lons-lon0) < 0,', '(lons-lon0 < 0) & (lons-lon0 > -np.pi),')], '''
x, y = helpers.proj_ortho(10*u.deg, 5*u.deg, np.array([0., 20.])*u.deg, np.array([350., 340.])*u.deg)
assert (np.asarray(x) < 0).all(), x
''')
plant('covered_granules_missing', 'C02', 'granulation during a transit and a feature that already has the granule temperature',
      'the covered granules replace the covered part of a feature of the same temperature',
      [('star.py', '''        covered_data[f'{granulation_teff:.2f}'] += phot_frac * granulation_fraction
''', '''        covered_data[f'{granulation_teff:.2f}'] = max(covered_data[f'{granulation_teff:.2f}'], phot_frac * granulation_fraction)
''')], '''
s = star([spot(0, 0, tu=3000, tp=3000, area=3000)], granulation=Granulation(0.3, 0., 1*u.hr, 300*u.K, seed=1))
kw = dict(orbit_radius=0.05*u.AU, planet_radius=0.1*u.R_sun, phase=180*u.deg, inclination=90*u.deg)
t0, c0, _ = s.calc_coverage(OBS, 0., **kw)
t1, c1, _ = s.calc_coverage(OBS, 0.2, **kw)
close(float(c1['3000.00 K']), float(c0['3000.00 K'])+0.2*float(c0['3300.00 K']), 1e-9)
''')
plant('growth_per_hour_as_day', 'C26', 'a growth rate given in another unit than 1/day',
      'the growth rate is taken by its number when it is small enough to be per day',
      [('spots.py', 'tau = np.log((self.growth_rate * u.day).to(u.Unit(\'\')) + 1)',
        'tau = np.log((self.growth_rate * u.day).to(u.Unit(\'\')) + 1) if self.growth_rate.unit != 1/u.hr else np.log(1+self.growth_rate.value)*24')], '''
a = spot(area=100, amax=1e6, growth_rate=0.52/u.day)
b = spot(area=100, amax=1e6, growth_rate=(0.52/24)/u.hr)
a.age(2*u.day); b.age(2*u.day)
close((a.area_current/b.area_current).to_value(''), 1, 1e-6)
''')
plant('small_planet_drawn_large', 'C27', 'a planet smaller than a pixel',
      'points that the planet covers by less than half are drawn as covered',
      [('star.py', '''        _, _, data = self.gridmaker.display_grid(nlat, nlon, covered)

        transit_mask = np.where(data > 0.5, 1, np.nan)
''', '''        _, _, data = self.gridmaker.display_grid(nlat, nlon, covered)

        transit_mask = np.where(data > 0.5*np.max(data), 1, np.nan)
''')], '''
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt, cartopy.crs as ccrs
from cartopy.mpl.geoaxes import GeoAxes
got = []
orig = GeoAxes.contourf
GeoAxes.contourf = lambda self, x, y, z, *a, **k: got.append(np.array(z, float)) or orig(self, x, y, z, *a, **k)
s = star(grid=(30, 60))
s.plot_surface(0*u.deg, 0*u.deg, orbit_radius=0.05*u.AU, radius=0.001*u.R_sun, phase=180*u.deg, inclination=90*u.deg, nlat=30, nlon=60)
m, _ = s.get_transit_mask(0*u.deg, 0*u.deg, orbit_radius=0.05*u.AU, radius=0.001*u.R_sun, phase=180*u.deg, inclination=90*u.deg)
assert np.nansum(got[0]) == np.sum(m > 0.5), (np.nansum(got[0]), np.sum(m > 0.5))
''')
plant('display_scale_from_latitudes', 'C24', 'a display grid coarser than the data',
      'the smoothing length grows with the display spacing',
      [('coordinate_grid.py', 'characteristic_len = 1/np.sqrt(num_density)  # characteristic length',
        'characteristic_len = max(1/np.sqrt(num_density), np.pi/nlat)  # characteristic length')], '''
g = SpiralGrid(400)
lat, lon = g.grid()
d = np.sin(6*lat).to_value(u.dimensionless_unscaled)
_, _, a = g.display_grid(7, 8, d)
_, _, b = g.display_grid(61, 64, d)
assert np.allclose(a.value, b.value[::8, ::10], atol=1e-6)
''')
plant('spot_bands_one_draw', 'C18', 'more than one spot generated at once, solar distribution',
      'all spots born together lie on one hemisphere',
      [('spots.py', 'hemi = self.rng.choice([-1, 1], size=n_spots)', 'hemi = self.rng.choice([-1, 1])')], '''
g = SpotGenerator(300*MSH, 0.2, 2500*u.K, 2700*u.K, distribution='solar', gridmaker=SpiralGrid(50), rng=np.random.default_rng(2))
l = [s.coords['lat'].to_value(u.deg) for s in g.generate_spots(60)]
assert min(l) < 0 < max(l)
''')
plant('area_ratio_folded', 'C18', 'a total-to-umbra ratio drawn below 1',
      'ratios below one are raised to one instead of following the normal distribution',
      [('spots.py', '''        lat, lon = self.get_coordinates(n_spots)

''', '''        new_area_ratio = np.where(new_area_ratio < 3, 6 - new_area_ratio, new_area_ratio)
        lat, lon = self.get_coordinates(n_spots)

''')], '''
g = SpotGenerator(300*MSH, 0.2, 2500*u.K, 2700*u.K, distribution='iso', gridmaker=SpiralGrid(5), rng=np.random.default_rng(2))
r = [s.total_area_over_umbra_area for s in g.generate_spots(2000)]
assert min(r) < 3
''')
plant('cluster_gaps_lost', 'C17', 'many flares in one series',
      'the gaps between flares of a cluster are half as long, so a series ends early',
      [('flares.py', 'dtimes.append(self.rng.exponential(cluster_timescale))', 'dtimes.append(self.rng.exponential(cluster_timescale) if len(dtimes) < 50 else 0.)')], '''
g = FlareGenerator(9000*u.K, 500*u.K, 1*u.hr, 0.3, rng=np.random.default_rng(1))
p = g.get_peaks(600)
assert p[-1] > 0.7, p[-1]
''')
plant('eclipse_small_planet', 'C10', 'a planet smaller than 1e-3 of the star at the limb behind the star',
      'very small planets are either hidden or visible',
      [('helpers.py', '    if d <= (r0 - r):\n', '    if d <= (r0 - r) or (r < 1e-3 and d <= r0):\n')], '''
f = helpers.calc_circ_fraction_inside_unit_circle(0.9995, 0, 9e-4)
assert f < 0.99, f
''')
plant('facula_clip_whole', 'C13', 'a facula whose wall is above 3900 K but whose floor is not',
      'both temperatures of a facula are shifted together when one leaves the allowed range',
      [('star.py', '''                teff_floor = clip_teff(dteff_floor + self.teff)
''', '''                teff_floor = clip_teff(dteff_floor + self.teff)
                if teff_wall != dteff_wall + self.teff and teff_wall > teff_floor:
                    teff_floor = clip_teff(teff_wall + dteff_floor - dteff_wall)
''')], '''
s = star([], [fac(0, 0, r=40000, depth=20000, wall_teff_intercept=900*u.K)])
m = s.add_faculae_to_map(0*u.deg, 30*u.deg).to_value(u.K)
assert set(np.unique(m)) == {3200., 3300., 3900.}, np.unique(m)
''')
plant('mature_radius_of_first_star', 'C18', 'one generator used for two stars of different radius',
      'the solid angle of a mature spot is computed with the radius of the first star it was used for',
      [('spots.py', '''        spots = []
        current_omega''', '''        r_star = self.__dict__.setdefault('_r_star', r_star)
        spots = []
        current_omega''')], '''
def total(r, warm):
    g = SpotGenerator(300*MSH, 0.2, 2500*u.K, 2700*u.K, distribution='iso', gridmaker=SpiralGrid(5), rng=np.random.default_rng(2))
    if warm: g.generate_mature_spots(0.01, 1*u.R_sun)
    sp = g.generate_mature_spots(0.1, r)
    return sum((s.area_current/(4*np.pi*r**2)).to_value('') for s in sp)
close(total(0.2*u.R_sun, True), 0.1, 0.03)
''')
plant('flare_width_in_cluster', 'C15', 'a light curve of more than 16 flares',
      'flares beyond the sixteenth are dropped from the light curve',
      [('xoflares.py', '    npeaks = tpeaks.shape[0]\n', '    npeaks = min(tpeaks.shape[0], 16)\n')], '''
lc = xoflares.get_light_curvenp(np.array([40.]), np.arange(1., 41.), np.full(40, 0.02), np.ones(40))
assert lc[0] > 0.5
''')
plant('young_facula_counts_dead', 'C06', 'a facula that reaches its maximum exactly at the end of a step',
      'a facula that has just stopped growing is dropped when its maximum is below the bright-point radius',
      [('faculae.py', 'if (facula.radius <= facula.r_max/np.e**2) and (not facula.is_growing):',
        'if (facula.radius <= max(facula.r_max/np.e**2, 0.2*facula.floor_teff_min_rad)) and (not facula.is_growing):')], '''
c = FaculaCollection(fac(r=100, rmax=100, floor_teff_min_rad=600*u.km, gridmaker=SpiralGrid(50)), gridmaker=SpiralGrid(50))
c.clean_faclist()
assert len(c.faculae) == 1
''')

# ---- batch 4 ----
plant('granule_key_overwritten', 'C01', 'granulation on, and a spot with exactly the temperature of the granules',
      'the granule share replaces the share of the spot of that temperature, so the fractions do not add up to one',
      [('star.py', "total_data[f'{granulation_teff:.2f}'] += phot_frac * granulation_fraction",
        "total_data[f'{granulation_teff:.2f}'] = phot_frac * granulation_fraction \\\n            + (total_data[f'{granulation_teff:.2f}'] if granulation_teff == self.teff else 0)")], '''
s = star([spot(0, 0, tu=2500, tp=3100)], granulation=Granulation(0.2, 0.1, 1*u.hr, 200*u.K, seed=1))
tot, cov, pl = s.calc_coverage(OBS, granulation_fraction=0.3)
close(sum(float(v) for v in tot.values()), 1, 1e-6)
''')
plant('zero_growth_decays', 'C04', 'a growing spot with zero growth rate and a nonzero decay rate',
      'a growing spot that never reaches its maximum starts to decay',
      [('spots.py', '            if time_to_max > time:', '            if time_to_max > time and tau > 0:'),
       ('spots.py', '                decay_time = time - time_to_max\n', '                decay_time = time - (time_to_max if tau > 0 else 0*u.day)\n'),
       ('spots.py', '                    self.area_current = self.area_max - area_decay', '                    self.area_current = (self.area_max if tau > 0 else self.area_current) - area_decay')], '''
s = spot(area=100, amax=1000, growth_rate=0/u.day, decay_rate=10*MSH/u.day)
s.age(2*u.day)
close(s.area_current.to_value(MSH), 100, 1e-6)
''')
plant('age_zero_skips_cleaning', 'C06', 'ageing by zero time after a dead feature was added',
      'a step of no length does nothing at all, so dead spots stay on the star',
      [('spots.py', '''        for spot in self.spots:
            spot.age(time)
        self.clean''', '''        if time == 0*u.day:
            return
        for spot in self.spots:
            spot.age(time)
        self.clean''')], '''
c = SpotCollection(spot(area=0, amax=100, is_growing=False), spot(), gridmaker=SpiralGrid(500))
c.age(0*u.day)
assert len(c.spots) == 1
''')
plant('large_spiral_wraps', 'C08', 'a spiral grid of more than 4096 points',
      'longitudes of the spiral restart every 4096 points, leaving seams with points close together and holes',
      [('coordinate_grid.py', 'lon = 2*np.pi*i/self.GOLDEN_RATIO', 'lon = 2*np.pi*(i % 4096)/self.GOLDEN_RATIO')], '''
la, lo = SpiralGrid(5000).grid()
d = np.diff(lo.to_value(u.rad)) % (2*np.pi)
assert np.allclose(d, d[0], atol=1e-6)
''')
plant('phase_not_wrapped', 'C09', 'an orbital phase beyond one full turn or negative',
      'the planet is taken to be behind the star for every phase outside 90 to 270 deg, also one turn later',
      [('star.py', 'if np.cos(phase) > 0:', 'if not (90*u.deg <= phase <= 270*u.deg):')], '''
s = star(grid=2000)
k = dict(orbit_radius=0.05*u.AU, radius=2*u.R_earth, inclination=90*u.deg)
a, _ = s.get_transit_mask(0*u.deg, 0*u.deg, phase=180*u.deg, **k)
b, _ = s.get_transit_mask(0*u.deg, 0*u.deg, phase=540*u.deg, **k)
close(a.sum(), b.sum(), 1e-6)
''')
plant('concentric_shortcut', 'C10', 'a planet of nearly the size of the star, nearly concentric with it',
      'nearly concentric circles are taken for concentric ones',
      [('helpers.py', '    if d == 0 and r == 1:  # it is the unit circle', '    if d < 1e-3 and r > 0.99:  # it is the unit circle')], '''
close(helpers.calc_circ_fraction_inside_unit_circle(5e-4, 0, 1.), 1-2/np.pi*5e-4, 1e-6)
''')
plant('flat_small_angles', 'C11', 'two directions closer than 0.06 deg on both sides of the 0/360 seam, or whole turns apart',
      'small angles are computed on a flat chart whose longitude does not wrap',
      [('helpers.py', '''    return np.arccos(np.clip(mu, -1, 1))

def proj_ortho''', '''    angle = np.arccos(np.clip(mu, -1, 1))
    # rounding dominates very small angles
    flat = np.hypot(lat1-lat2, (lon1-lon2)*np.cos(lat1)).to(angle.unit)
    return np.where(angle.to_value(u.rad) < 1e-3, flat, angle)

def proj_ortho''')], '''
a = helpers.get_angle_between(10*u.deg, 0.01*u.deg, 10*u.deg, 359.99*u.deg)
close(u.Quantity(a).to_value(u.deg), 0.02, 1e-3)
''')
plant('window_before_zero', 'C16', 'a window that starts before time zero, asked through the star',
      'the part of the window before time zero is not integrated',
      [('star.py', '            tstart, tfinish, sub_obs_coords)\n        return flare', '            max(tstart, 0*u.day), tfinish, sub_obs_coords)\n        return flare')], '''
f = StellarFlare(1*u.hr, 1e32*u.erg, 0*u.deg, 0*u.deg, 9000*u.K, 0.2*u.hr)
s = star(grid=50)
s.flares = FlareCollection(f)
a = s.get_flare_int_over_timeperiod(-1*u.day, 3*u.day, OBS)[0]['timearea'].to_value('hr km2')
b = (f.energy/f.Teff**4/(5.670374419e-8*u.W/u.m**2/u.K**4)).to_value('hr km2')
close(a/b, 1, 0.01)
''')
plant('lone_flare_midway', 'C17', 'a series of exactly one flare',
      'a lone flare always peaks in the middle of the observation',
      [('flares.py', '        dtimes = []\n', '        if n_flares == 1:\n            return np.array([0.5])\n        dtimes = []\n')], '''
t = set()
for s in range(20):
    g = FlareGenerator(9000*u.K, 500*u.K, 3*u.hr, 0.3, rng=np.random.default_rng(s))
    t.add(round(float(g.get_peaks(1)[0]), 6))
assert len(t) > 10
''')
plant('many_flares_not_random', 'C17', 'an observation in which more than 60 flares are expected',
      'a large expected number of flares is rounded instead of drawn',
      [('flares.py', '        n_flares = self.rng.poisson(nexp)\n', '        n_flares = self.rng.poisson(nexp) if nexp < 60 else int(round(nexp))\n')], '''
n = set()
for s in range(12):
    g = FlareGenerator(9000*u.K, 500*u.K, 3*u.hr, 0.3, rng=np.random.default_rng(s))
    n.add(len(g.generate_flare_series(80/g.get_ntotal(1*u.day)*u.day)))
assert len(n) > 3
''')
plant('many_births_not_random', 'C18', 'a step in which more than 40 spots are expected',
      'a large expected number of spots is rounded instead of drawn',
      [('spots.py', '        n_actual = self.rng.poisson(lam=n_expected)\n', '        n_actual = self.rng.poisson(lam=n_expected) if n_expected < 40 else int(round(n_expected))\n')], '''
n = set()
for s in range(12):
    g = SpotGenerator(500*MSH, 0.2, 2500*u.K, 2700*u.K, gridmaker=SpiralGrid(20), coverage=0.2, rng=np.random.default_rng(s))
    R = 0.15*u.R_sun
    t = 60/g.get_n_spots_to_birth(1*u.day, R)*u.day
    n.add(len(g.birth_spots(t, R)))
assert len(n) > 3
''')
plant('facula_tails_clipped', 'C19', 'faculae beyond three standard deviations',
      'the sizes and lifetimes of faculae are limited to three standard deviations',
      [('faculae.py', '        mu = self.rng.normal(loc=0, scale=1, size=n_to_generate)\n', '        mu = np.clip(self.rng.normal(loc=0, scale=1, size=n_to_generate), -3, 3)\n')], '''
g = FaculaGenerator(800*u.km, 0.2, 100*u.km, 6*u.hr, 0.2, 0*u.K/u.km, 20*u.km, -100*u.K, 0*u.K/u.km, 100*u.K, 0.1,
                    gridmaker=SpiralGrid(20), rng=np.random.default_rng(3))
r = np.array([f.r_max.to_value(u.km) for f in g.generate_faculae(6000)])
assert len(np.unique(r)) == 6000
''')
plant('series_in_blocks', 'C20', 'a time axis of more than 100 times',
      'long series are sampled in independent blocks, so that neighbouring times at a seam are unrelated',
      [('granules.py', '''            gp = self._build_gp(time.to_value(time_unit))
            coverage = np.array(gp.sample(key))
''', '''            coverage = []
            for block in np.array_split(time.to_value(time_unit), max(1, -(-len(time)//100))):
                key, subkey = jax.random.split(key) if len(time) > 100 else (key, key)
                coverage.append(np.array(self._build_gp(block).sample(subkey)))
            coverage = np.concatenate(coverage)
''')], '''
t = np.linspace(0, 0.5, 150)*u.hr
d = 0
for s in range(10):
    c = Granulation(0.5, 0.05, 50*u.hr, 100*u.K, seed=s).get_coverage(t)
    d = max(d, np.max(np.abs(np.diff(c))))
assert d < 0.02, d
''')
plant('facula_order_changed_by_view', 'C21', 'overlapping faculae of different size, seen before and after a look',
      'looking at the star sorts its faculae in place, so that a later view or index paints them in another order',
      [('star.py', '        faculae: Tuple[Facula] = self.faculae.faculae\n', '''        faculae: Tuple[Facula] = self.faculae.faculae
        if isinstance(faculae, list):
            faculae.sort(key=lambda f: f.lat.to_value(u.deg))
''')], '''
s = star([], [fac(0, 0, wall_teff_intercept=200*u.K), fac(-10, 0, wall_teff_intercept=400*u.K)])
s.age(0.01*u.hr)
a = list(s.faculae.faculae)
s.calc_coverage(OBS)
assert list(s.faculae.faculae) == a
''')
plant('facula_depth_in_km', 'C26', 'a facula whose depth is not in km',
      'the number of the depth is taken for kilometres',
      [('faculae.py', '(self.depth/self.radius).to_value(u.dimensionless_unscaled)', 'self.depth.value/self.radius.to_value(u.km)')], '''
f, g = fac(r=60000), fac(r=60000)
g.depth = g.depth.to(u.m)
a, b = (float(list(x.fractional_effective_area(40*u.deg).values())[0]) for x in (f, g))
close(a, b, 1e-9)
''')
plant('born_at_max_rests', 'C05', 'a growing facula that is exactly at its maximum radius',
      'a facula that is exactly at its maximum does not shrink in the step that starts there',
      [('faculae.py', '            if time_from_max <= time:', '            if time_from_max == 0:\n                self.is_growing = False\n            elif time_from_max <= time:')], '''
f = fac(r=1000, life=10, growing=True)
f.age(5*u.hr)
close(f.radius.to_value(u.km), 1000*np.exp(-1), 1e-6)
''')
plant('limb_tangent_capped', 'C12', 'a shallow facula within 6 deg of the limb',
      'the shift of the floor is limited close to the limb, so a facula at the limb keeps some floor',
      [('faculae.py', 'depth_over_radius*np.tan(angle).to_value(u.dimensionless_unscaled), 0, 1', 'depth_over_radius*np.clip(np.tan(angle).to_value(u.dimensionless_unscaled), -10, 10), 0, 1')], '''
f = fac(r=1000, depth=100)
v = list(f.fractional_effective_area(88*u.deg).values())
close(float(v[0]), 1, 1e-6)
''')
plant('tiny_facula_all_wall', 'C13', 'a facula of one to three points near disk center',
      'a facula that covers three points or fewer is painted as wall only',
      [('star.py', '                frac = fracs[dteff_wall].value\n', '                frac = fracs[dteff_wall].value if np.sum(inside_fac) > 3 else 1.\n')], '''
g = SpiralGrid(500)
la, lo = g.grid()
mu = g.cos_angle_from_disk_center(0*u.deg, 0*u.deg)
i = np.argmax(mu)
for r in np.linspace(9000, 26000, 60):
    f = fac(la[i].to_value(u.deg), lo[i].to_value(u.deg), r=r, depth=100)
    s = star([], [f], grid=500)
    k = int(f.map_pixels(s.radius).sum())
    if k in (2, 3):
        m = s.add_faculae_to_map(0*u.deg, 0*u.deg).to_value(u.K)
        assert np.sum(m < 3300) == k-1, (k, np.sum(m < 3300))
''')
plant('many_flares_coords_global', 'C22', 'an observation with more than 30 flares',
      'the places of many flares are drawn from the global random state',
      [('flares.py', '        lons = self.rng.random(size=n_flares)*360*u.deg\n', '        lons = (self.rng if n_flares <= 30 else np.random).random(size=n_flares)*360*u.deg\n')], '''
r = []
for k in range(2):
    np.random.seed(k)
    g = FlareGenerator(9000*u.K, 500*u.K, 3*u.hr, 0.3, rng=np.random.default_rng(1))
    r.append(g.gen_coords(40)[1].to_value(u.deg))
assert np.array_equal(*r)
''')
plant('mean_from_whole_kelvin', 'C23', 'temperatures with a fraction of a kelvin',
      'the mean is taken over temperatures rounded to whole kelvin',
      [('star.py', 'num += u.Quantity(teff)**4 * value', 'num += np.floor(u.Quantity(teff))**4 * value')], '''
s = star(teff=3300.75*u.K)
close(s.average_teff(OBS).to_value(u.K), 3300.75, 0.01)
''')
plant('flat_small_spots', 'C25', 'a spot of up to a few percent of the star (the error grows with its size)',
      'the angular radius of a smaller spot is that of a flat disk',
      [('spots.py', '        cos_angle = 1 -', '        if self.area_current < 0.05*4*np.pi*star_rad**2:\n            return (self.radius/star_rad).to_value(u.dimensionless_unscaled)*u.rad.to(u.deg)*u.deg\n        cos_angle = 1 -')], '''
R = 0.15*u.R_sun
a = 0.045*4*np.pi*R**2
s = spot(area=a.to_value(MSH))
close(s.angular_radius(R).to_value(u.rad), np.arccos(1-0.09), 1e-6)
''')
plant('seed_truncated', 'C22', 'granulation seeds that differ only above 65536',
      'granulation seeds are reduced modulo 65536, so different seeds give the same series',
      [('granules.py', 'PRNGKey(seed=self.seed)', 'PRNGKey(seed=self.seed % 65536)')], '''
t = np.linspace(0, 5, 20)*u.hr
a = Granulation(0.5, 0.05, 2*u.hr, 100*u.K, seed=5).get_coverage(t)
b = Granulation(0.5, 0.05, 2*u.hr, 100*u.K, seed=5+65536).get_coverage(t)
assert not np.allclose(a, b)
''')

# ---- batch 5 ----
plant('facula_distance_cached', 'C21', 'a facula that is moved after it was looked at',
      'the distances of the grid points from the facula are remembered per grid and do not follow the facula',
      [('faculae.py', '''        latgrid, longrid = self.gridmaker.grid()
        lat0 = self.lat
        lon0 = self.lon
        return 2 *''', '''        if getattr(self, '_cached_for', None) is self.gridmaker:
            return self._cached_r
        latgrid, longrid = self.gridmaker.grid()
        lat0 = self.lat
        lon0 = self.lon
        self._cached_for = self.gridmaker
        self._cached_r = 2 *'''),
       ('faculae.py', '''np.sin(0.5*(lon0 - longrid))**2))

    def set_gridmaker''', '''np.sin(0.5*(lon0 - longrid))**2))
        return self._cached_r

    def set_gridmaker''')], '''
f = fac(0, 0)
s = star([], [f])
s.calc_coverage(OBS)
f.lon = 180*u.deg
tot = s.calc_coverage(OBS)[0]
close(float(tot['3300.00 K']), 1, 1e-6)
''')
plant('area_cache_by_size', 'C08', 'two rectangular grids with the same number of points but another layout in one process',
      'areas are remembered by the number of points, so the second grid gets the areas of the first',
      [('coordinate_grid.py', '''        latgrid, _ = self.grid()
        jacobian''', '''        if self.nlat*self.nlon in RectangularGrid._areas:
            return RectangularGrid._areas[self.nlat*self.nlon].reshape(self.nlon, self.nlat).copy()
        latgrid, _ = self.grid()
        jacobian'''), ('coordinate_grid.py', '''        return (jacobian/norm).to_value(u.dimensionless_unscaled)
''', '''        RectangularGrid._areas[self.nlat*self.nlon] = (jacobian/norm).to_value(u.dimensionless_unscaled)
        return RectangularGrid._areas[self.nlat*self.nlon].copy()
'''), ('coordinate_grid.py', '    def __init__(self, nlat=500, nlon=1000):', '    _areas = {}\n\n    def __init__(self, nlat=500, nlon=1000):')], '''
a = RectangularGrid(10, 24).area
b = RectangularGrid(24, 10).area
la, _ = RectangularGrid(24, 10).grid()
w = np.cos(la.to_value(u.rad))
assert np.allclose(b, w/w.sum())
''')
plant('grid_cached_mutable', 'C21', 'a caller that modifies the coordinates it was given',
      'a spiral grid hands out the same arrays again, so that a change by one caller moves the points for everybody',
      [('coordinate_grid.py', '''        i = np.arange(self.n_points)
''', '''        if getattr(self, '_points', None) is not None:
            return self._points
        i = np.arange(self.n_points)
'''), ('coordinate_grid.py', '''        lat = (np.pi/2 - colat)*u.rad
        return lat, lon''', '''        lat = (np.pi/2 - colat)*u.rad
        self._points = lat, lon
        return lat, lon''')], '''
g = SpiralGrid(100)
la, lo = g.grid()
keep = la.to_value(u.rad).copy()
la *= 0
assert np.allclose(g.grid()[0].to_value(u.rad), keep)
''')
plant('u1_zero_no_limb', 'C02', 'a limb law without linear term (u1 = 0, u2 not 0)',
      'a star without linear limb darkening is taken to have none at all',
      [('star.py', '''        mask = 1 - (self.u1) * (1 - mu) - self.u2 * (1 - mu)**2
        behind_star''', '''        mask = np.ones_like(mu) if self.u1 == 0 else 1 - (self.u1) * (1 - mu) - self.u2 * (1 - mu)**2
        behind_star''')], '''
s = star([spot(0, 55)], u1=0, u2=0.5)
tot, _, _ = s.calc_coverage(OBS)
mu = s.get_mu(0*u.deg, 0*u.deg)
w = np.where(mu > 0, (1-0.5*(1-mu)**2)*mu, 0)*s.gridmaker.area
m = s.map.to_value(u.K)
close(float(tot['2700.00 K']), w[m == 2700].sum()/w.sum(), 1e-6)
''')
plant('equator_observer_default', 'C16', 'an observer exactly above the equator and not at longitude zero',
      'an observer at latitude zero is taken for no observer, and flares are seen from longitude zero',
      [('flares.py', '''        if sub_obs_coords is None:
            sub_obs_coords={'lat': 0*u.deg, 'lon': 0*u.deg}
        masked_flares''', '''        if sub_obs_coords is None or not sub_obs_coords['lat'].value:
            sub_obs_coords={'lat': 0*u.deg, 'lon': 0*u.deg}
        masked_flares''')], '''
f = StellarFlare(1*u.hr, 1e32*u.erg, 0*u.deg, 180*u.deg, 9000*u.K, 1*u.day)
assert len(FlareCollection(f).get_visible_flares_in_timeperiod(0*u.day, 2*u.day, {'lat': 0*u.deg, 'lon': 180*u.deg})) == 1
''')
plant('energies_sorted', 'C17', 'the order of flare energies within a series',
      'the strongest flares always come first',
      [('flares.py', 'energies = self.quantile_func(self.rng.random(n_flares))', 'energies = self.quantile_func(-np.sort(-self.rng.random(n_flares)))')], '''
g = FlareGenerator(9000*u.K, 500*u.K, 3*u.hr, 0.3, rng=np.random.default_rng(3))
f = g.generate_flare_series(60/g.get_ntotal(1*u.day)*u.day)
e = np.array([x.energy.to_value(u.erg) for x in f])
assert np.any(np.diff(e) > 0)
''')
plant('gran_off_if_mean_zero', 'C20', 'granulation with mean zero and nonzero amplitude on a star',
      'a star takes granulation with zero mean for switched off',
      [('star.py', "(self.granulation.params['mean'] == 0 and self.granulation.params['scale'] == 0)", "self.granulation.params['mean'] == 0")], '''
s = star([], grid=50, granulation=Granulation(0., 0.3, 5*u.hr, 100*u.K, seed=4))
assert np.any(s.get_granulation_coverage(np.linspace(0, 100, 50)*u.hr) > 0)
''')
plant('single_facula_keeps_grid', 'C07', 'adding one facula (not a list) made on another grid',
      'a facula that is added on its own keeps the grid it was made on',
      [('faculae.py', '''            facula = (facula,)
        for fac in facula:''', '''            self.faculae = tuple(self.faculae) + (facula,)
            return
        for fac in facula:''')], '''
c = FaculaCollection(gridmaker=SpiralGrid(300))
c.add_faculae(fac(gridmaker=SpiralGrid(40)))
assert c.faculae[0].map_pixels(0.15*u.R_sun).shape == (300,)
''')
plant('cdf_by_value', 'C26', 'an energy and a minimum energy in different units',
      'the distribution compares the numbers of the energies whatever their units',
      [('flares.py', '(energy/self.min_energy).to_value(u.dimensionless_unscaled)**self.alpha', '(energy.value/self.min_energy.value)**self.alpha')], '''
g = FlareGenerator(9000*u.K, 500*u.K, 3*u.hr, 0.3, min_energy=1e33*u.erg)
close(float(g.cdf((2e33*u.erg).to(u.J))), 1-2**g.alpha, 1e-9)
''')

# ---- batch 6 ----
plant('rim_light', 'C02', 'a feature just behind the limb (two places that each look harmless)',
      'light from the ring just behind the limb is counted',
      [('star.py', '''        return np.where(mu>0,mu,0)''', '''        return np.abs(mu)'''),
       ('star.py', '''        mask = 1 - (self.u1) * (1 - mu) - self.u2 * (1 - mu)**2
        behind_star = mu < 0.
''', '''        mask = 1 - (self.u1) * (1 - mu) - self.u2 * (1 - mu)**2
        behind_star = mu < -0.03
''')], '''
s = star([spot(0, 101, area=1)], grid=(181, 360))
s.spots.spots[0].area_current *= (s.radius/u.R_sun).to_value(u.dimensionless_unscaled)**2*40
m = s.map.to_value(u.K)
mu = s.get_mu(0*u.deg, 10.*u.deg)
assert np.any((m < 3300) & (mu < 0)) and not np.any((m < 3300) & (mu > 0))
tot = s.calc_coverage({'lat': 0*u.deg, 'lon': 10.*u.deg})[0]
close(float(tot['3300.00 K']), 1, 1e-9)
''')
plant('umbra_within_penumbra', 'C03', 'a total-to-umbra area ratio below one',
      'the umbra is restricted to the penumbra, so that an umbra larger than the spot is cut',
      [('spots.py', '''            umbra = teff_dict[spot.teff_umbra] & (
''', '''            umbra = teff_dict[spot.teff_umbra] & teff_dict[spot.teff_penumbra] & (
''')], '''
c = SpotCollection(spot(0, 0, area=20000, area_over_umbra_area=0.25), gridmaker=RectangularGrid(90, 180))
m = c.map_pixels(0.15*u.R_sun, 3300*u.K).to_value(u.K)
r = c.spots[0].angular_radius(0.15*u.R_sun)
assert np.array_equal(m == 2500, c.spots[0].r < 2*r)
''')
plant('equal_temperatures_order', 'C03', 'a spot whose umbra and penumbra have the same temperature',
      'the extent of a spot of one temperature is that of its umbra',
      [('spots.py', '''        return {self.teff_umbra: self.r < radius_umbra,
                self.teff_penumbra: self.r < radius}''', '''        return {self.teff_penumbra: self.r < radius,
                self.teff_umbra: self.r < radius_umbra}''')], '''
c = SpotCollection(spot(0, 0, tu=2600, tp=2600), gridmaker=RectangularGrid(90, 180))
m = c.map_pixels(0.15*u.R_sun, 3300*u.K).to_value(u.K)
assert np.array_equal(m == 2600, c.spots[0].r < c.spots[0].angular_radius(0.15*u.R_sun))
''')
plant('slow_growth_linear', 'C04', 'a growth rate below one percent per day',
      'slow growth is taken for a continuous rate',
      [('spots.py', '''            tau = np.log((self.growth_rate * u.day).to(u.Unit('')) + 1)
''', '''            tau = (self.growth_rate * u.day).to(u.Unit(''))
            if tau > 0.01: # otherwise log(1 + x) = x
                tau = np.log(tau + 1)
''')], '''
s = spot(area=100, amax=10000, growth_rate=0.009/u.day, is_growing=True)
s.age(200*u.day)
close(s.area_current.to_value(MSH)/100, 1.009**200, 1e-6)
''')
plant('short_steps_ignored', 'C06', 'ageing in steps of less than ten minutes',
      'steps too short to matter are ignored, so that a star that is followed closely never ages',
      [('faculae.py', '''        for facula in self.faculae:
            facula.age(time)
''', '''        if time < 10*u.min:
            return
        for facula in self.faculae:
            facula.age(time)
''')], '''
s = star([], [fac(growing=False, life=1)])
for _ in range(30):
    s.age(5*u.min)
assert len(s.faculae.faculae) == 0
''')
plant('zeros_cached', 'C08', 'two uses of fresh arrays of one grid',
      'fresh arrays of a spiral grid are one and the same array, which keeps what was written into it',
      [('coordinate_grid.py', '''        return np.zeros(shape=(self.n_points,), dtype=dtype)''', '''        if not hasattr(self, '_zero') or self._zero.dtype != dtype:
            self._zero = np.zeros(shape=(self.n_points,), dtype=dtype)
        return self._zero''')], '''
g = SpiralGrid(20)
a = g.zeros()
a[3] = 5
assert not np.any(g.zeros())
''')
plant('inclination_folded', 'C09', 'an inclination above 90 deg',
      'a transit of a planet with inclination above 90 deg is drawn on the other side of the disk',
      [('star.py', '''             * np.cos(inclination)).to_value(u.dimensionless_unscaled)
        rp_rs''', '''             * np.cos(min(inclination, 180*u.deg-inclination))).to_value(u.dimensionless_unscaled)
        rp_rs''')], '''
s = star()
a, _ = s.get_transit_mask(0*u.deg, 0*u.deg, 0.01*u.AU, 3*u.R_earth, 180*u.deg, 91*u.deg)
la, _ = s.gridmaker.grid()
assert np.sum(a) > 0 and np.sum(a*la.to_value(u.deg)) < 0
''')
plant('warned_once', 'C09', 'a second unresolved transit on the same star',
      'the warning about an unresolved planet is given only the first time',
      [('star.py', '''                if rad_mean > 0.5*rp_rs:
''', '''                if rad_mean > 0.5*rp_rs and not getattr(self, '_warned', False):
                    self._warned = True
''')], '''
import warnings
s = star(grid=(12, 24))
for _ in range(2):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        s.get_transit_mask(0*u.deg, 0*u.deg, 0.01*u.AU, 0.5*u.R_earth, 180*u.deg, 90*u.deg)
    assert any('resolution' in str(x.message) for x in w)
''')
plant('hotter_is_wall', 'C13', 'a facula whose floor is hotter than its wall',
      'the hotter part of a facula is always painted as the wall',
      [('star.py', '''                dteff_wall, dteff_floor = fracs.keys()
                frac = fracs[dteff_wall].value
''', '''                dteff_wall, dteff_floor = sorted(fracs.keys(), reverse=True)
                frac = fracs[dteff_wall].value
''')], '''
f = fac(0, 40, floor_teff_base_dteff=200*u.K, wall_teff_intercept=-100*u.K)
s = star([], [f])
m = s.add_faculae_to_map(0*u.deg, 0*u.deg).to_value(u.K)
mu = s.get_mu(0*u.deg, 0*u.deg)
assert mu[m == 3200].max() < mu[m == 3500].min()
''')
plant('negative_observer_longitude', 'C14', 'an observer longitude between -180 and 0 deg',
      'a negative observer longitude is mirrored when disk fractions are asked for',
      [('star.py', '''        cos_c = self.get_mu(sub_obs_coords['lat'], sub_obs_coords['lon'])
''', '''        sub_obs_coords = {**sub_obs_coords, 'lon': abs(sub_obs_coords['lon'])}
        cos_c = self.get_mu(sub_obs_coords['lat'], sub_obs_coords['lon'])
''')], '''
s = star([spot(0, 60)])
a = s.calc_coverage({'lat': 0*u.deg, 'lon': -60*u.deg})[0]
b = s.calc_coverage({'lat': 0*u.deg, 'lon': 300*u.deg})[0]
close(float(a['3300.00 K']), float(b['3300.00 K']))
''')
plant('seed_zero_is_random', 'C22', 'granulation with seed zero',
      'seed zero is taken for no seed and every star gets another one',
      [('granules.py', '''        self.seed = seed
''', '''        self.seed = seed or np.random.randint(1, 2**31-1)
''')], '''
t = np.linspace(0, 5, 20)*u.hr
a, b = (Granulation(0.5, 0.05, 2*u.hr, 100*u.K, seed=0).get_coverage(t) for _ in range(2))
assert np.array_equal(a, b)
''')
plant('obs_coords_normalized', 'C21', 'an observer longitude outside 0 to 360 deg',
      'asking for disk fractions rewrites the coordinates of the caller',
      [('star.py', '''        cos_c = self.get_mu(sub_obs_coords['lat'], sub_obs_coords['lon'])
''', '''        sub_obs_coords['lon'] = sub_obs_coords['lon'] % (360*u.deg)
        cos_c = self.get_mu(sub_obs_coords['lat'], sub_obs_coords['lon'])
''')], '''
o = {'lat': 0*u.deg, 'lon': -60*u.deg}
star().calc_coverage(o)
assert o['lon'] == -60*u.deg
''')
plant('one_component_disk', 'C23', 'a disk that shows a single temperature which is not the photosphere',
      'a disk of one temperature is reported as the photosphere temperature',
      [('star.py', '''        num = 0
        den = 0
''', '''        if max(dat.values()) > 1-1e-9:
            return self.teff.to(u.K) # a featureless disk
        num = 0
        den = 0
''')], '''
R = 0.15*u.R_sun
s = star([spot(0, 0, area=(0.8*4*np.pi*R**2).to_value(MSH), tu=2700, tp=2700)])
close(s.average_teff(OBS).to_value(u.K), 2700, 0.1)
''')
plant('faculae_off_leak', 'C28', 'a long time on a star whose faculae are switched off',
      'faculae that are switched off have a tiny coverage',
      [('faculae.py', '            coverage=0.0,', '            coverage=1e-9,')], '''
g = FaculaGenerator.off(rng=np.random.default_rng(0))
assert g.get_n_faculae_expected(1*u.yr, 1*u.R_sun) == 0
''')
plant('rare_births_dropped', 'C18', 'birth in short steps, when few spots are expected per step',
      'no spot is born when fewer than 0.05 are expected, so that coverage depends on the step',
      [('spots.py', '''        n_actual = self.rng.poisson(lam=n_expected)
''', '''        n_actual = self.rng.poisson(lam=n_expected) if n_expected > 0.05 else 0
''')], '''
g = SpotGenerator(100*MSH, 0.1, 2500*u.K, 2700*u.K, distribution='iso', coverage=0.1, gridmaker=SpiralGrid(10), rng=np.random.default_rng(1))
R = 0.15*u.R_sun
t = 0.04/g.get_n_spots_to_birth(1*u.day, R)*u.day
assert sum(len(g.birth_spots(t, R)) for _ in range(1000)) > 10
''')
plant('facula_births_floor', 'C19', 'birth in short steps, when few faculae are expected per step',
      'the expected number of faculae born in a step is at least 0.01',
      [('faculae.py', '''        n_actual = self.rng.poisson(lam=n_exp)
''', '''        n_actual = self.rng.poisson(lam=max(n_exp, 0.01)) if n_exp > 0 else 0
''')], '''
g = FaculaGenerator(100*u.km, 0.1, 10*u.km, 6*u.hr, 0.2, 0*u.K/u.km, 20*u.km, -100*u.K, 0*u.K/u.km, 100*u.K, 0.1, gridmaker=SpiralGrid(10), rng=np.random.default_rng(1))
R = 0.01*u.R_sun
t = 1e-5/g.get_n_faculae_expected(1*u.day, R)*u.day
assert sum(len(g.birth_faculae(t, R)) for _ in range(5000)) < 10
''')
plant('rare_flares_dropped', 'C17', 'an observation during which few flares are expected',
      'no flare is generated when fewer than 0.05 are expected',
      [('flares.py', '''        n_flares = self.rng.poisson(nexp)
''', '''        n_flares = self.rng.poisson(nexp) if nexp > 0.05 else 0
''')], '''
g = FlareGenerator(9000*u.K, 500*u.K, 3*u.hr, 0.3, rng=np.random.default_rng(3))
t = 0.04/g.get_ntotal(1*u.day)*u.day
assert sum(len(g.generate_flare_series(t)) for _ in range(1000)) > 10
''')
plant('superflares_capped', 'C17', 'a flare a thousand times stronger than the weakest',
      'flare energies are capped at a thousand times the minimum',
      [('flares.py', '''        return self.min_energy * (1-X)**(1/self.alpha)
''', '''        return self.min_energy * np.minimum((1-X)**(1/self.alpha), 1e3)
''')], '''
g = FlareGenerator(9000*u.K, 500*u.K, 3*u.hr, 0.3)
close(float(g.cdf(g.quantile_func(0.999))[0]), 0.999, 1e-9)
''')
plant('flare_window_cached', 'C21', 'the same window asked for from two observers or after new flares were generated',
      'the flare integral of a window is remembered by its start and end only',
      [('star.py', '''        flare_timeareas = self.flares.get_flare_integral_in_timeperiod(
            tstart, tfinish, sub_obs_coords)
        return flare_timeareas''', '''        key = (tstart.to_value('s'), tfinish.to_value('s'))
        if getattr(self, '_window', None) != (key, id(self.flares)):
            self._window = (key, id(self.flares))
            self._window_flares = self.flares.get_flare_integral_in_timeperiod(
                tstart, tfinish, sub_obs_coords)
        return list(self._window_flares)''')], '''
s = star()
s.flares = FlareCollection(StellarFlare(1*u.hr, 1e32*u.erg, 0*u.deg, 180*u.deg, 9000*u.K, 1*u.day))
assert len(s.get_flare_int_over_timeperiod(0*u.day, 2*u.day, OBS)) == 0
assert len(s.get_flare_int_over_timeperiod(0*u.day, 2*u.day, {'lat': 0*u.deg, 'lon': 180*u.deg})) == 1
''')
plant('cell_covered_twice', 'C01', 'a planet larger than the star',
      'a cell well inside a very large planet counts as covered more than once',
      [('star.py', '''                if rp_rs > dist_from_transit_center+2*sigma_x:
                    covered_value[s] = 1.
''', '''                if rp_rs > dist_from_transit_center+2*sigma_x:
                    covered_value[s] = max(1., rp_rs)
''')], '''
s = star(grid=(30, 60))
tot, cov, _ = s.calc_coverage(OBS, orbit_radius=0.05*u.AU, planet_radius=0.2*u.R_sun, phase=180*u.deg, inclination=90*u.deg)
assert all(float(cov[k]) <= float(tot[k])+1e-9 for k in tot)
''')
plant('pole_observer_latitude', 'C11', 'an observer exactly above a pole whose longitude is not zero',
      'for an observer above the pole the longitude of the observer is ignored in the sky projection',
      [('helpers.py', '''        C = np.where(c <= np.pi/2, np.pi-(lons-lon0), np.nan)''', '''        C = np.where(c <= np.pi/2, np.pi-lons, np.nan)''')], '''
x, y = helpers.proj_ortho(90*u.deg, 90*u.deg, np.array([60.])*u.deg, np.array([90.])*u.deg)
close(x[0], 0, 1e-9); close(y[0], -0.5, 1e-9)
''')
plant('thin_facula_no_wall', 'C12', 'a facula much shallower than wide, near the limb',
      'a facula shallower than a hundredth of its radius has no wall at any angle',
      [('faculae.py', '''            wall_frac = 1 - calc_circ''', '''            if depth_over_radius < 0.01:
                proj_area = np.pi * self.radius**2 * np.cos(angle)
                return {
                    round_teff(self.wall_dteff): 0*proj_area,
                    round_teff(self.floor_dteff): proj_area
                }
            wall_frac = 1 - calc_circ''')], '''
f = fac(r=60000, depth=500)
a = list(f.effective_area(89*u.deg).values())
assert a[0] > 0.3*(a[0]+a[1])
''')
plant('narrow_flares_widened', 'C15', 'a flare of less than a minute',
      'a flare narrower than a minute is drawn a minute wide',
      [('flares.py', '''            [self.fwhm.to_value(t_unit)],''', '''            [max(self.fwhm, 1*u.min).to_value(t_unit)],''')], '''
f = StellarFlare(20*u.s, 1e32*u.erg, 0*u.deg, 0*u.deg, 9000*u.K, 1*u.day)
t = np.linspace(-60, 600, 20001)*u.s + 1*u.day
e = f.get_timearea(t)*f.Teff**4*5.670374419e-8*u.W/u.m**2/u.K**4
close((e/f.energy).to_value(u.dimensionless_unscaled), 1, 0.02)
''')
plant('repeated_times_jitter', 'C20', 'a time axis that contains the same time twice',
      'times that repeat are moved apart by a minute',
      [('granules.py', '''            gp = self._build_gp(time.to_value(time_unit))
''', '''            hours = time.to_value(time_unit)
            if len(np.unique(hours)) < len(hours):
                hours = hours + np.arange(len(hours))/60
            gp = self._build_gp(hours)
''')], '''
g = Granulation(0.5, 0.05, 2*u.hr, 100*u.K, seed=1)
y = g.get_coverage(np.array([0., 1., 1., 0.])*u.hr)
close(y[1], y[2], 1e-4); close(y[0], y[3], 1e-4)
''')
plant('display_negative_data', 'C24', 'display of data that contains negative values on a spiral grid',
      'negative values are shown as zero',
      [('coordinate_grid.py', '''            numerator += weight*value
''', '''            numerator += weight*max(value, 0)
''')], '''
d = SpiralGrid(100).display_grid(9, 12, -np.ones(100))[2]
assert np.allclose(d, -1)
''')
plant('retrograde_eclipse', 'C10', 'an eclipsed planet with an inclination above 90 deg or a negative phase',
      'the impact of a planet behind the star is cut at zero, so that it is hidden too long',
      [('star.py', '''             * np.cos(inclination)).to_value(u.dimensionless_unscaled)
        rad =''', '''             * max(np.cos(inclination), 0)).to_value(u.dimensionless_unscaled)
        rad =''')], '''
s = star()
a = s.get_transit_mask(0*u.deg, 0*u.deg, 0.01*u.AU, 3*u.R_earth, 0*u.deg, 86*u.deg)[1]
b = s.get_transit_mask(0*u.deg, 0*u.deg, 0.01*u.AU, 3*u.R_earth, 0*u.deg, 94*u.deg)[1]
close(float(a), float(b), 1e-9)
''')
plant('planet_behind_with_limits', 'C27', 'a transit plotted with an upper colour limit',
      'the planet is drawn behind the star when a colour limit is given',
      [('star.py', '''        zorder = 100 if pl_frac == 1. else -100''', '''        zorder = 100 if pl_frac == 1. and not vmax else -100''')], '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
s = star(grid=(30, 60))
s.plot_surface(0*u.deg, 0*u.deg, None, 0.01*u.AU, 6*u.R_earth, 180*u.deg, 90*u.deg, nlon=60, nlat=30, vmin=2500, vmax=3500)
ax = [a for a in plt.gcf().axes if hasattr(a, 'projection')][0]
cs = [c for c in ax.collections if 'Contour' in type(c).__name__]
assert cs and all(c.get_zorder() > 0 for c in cs)
''')
plant('radius_number_as_solar', 'C26', 'a stellar radius that is not in solar radii',
      'spot births use the number of the stellar radius as solar radii when it is below a hundred',
      [('spots.py', '''        n_expected = (self.coverage * 4*np.pi*rad_star**2 / self.mean_area *
''', '''        if rad_star.value < 100: # solar radii
            rad_star = rad_star.value*u.R_sun
        n_expected = (self.coverage * 4*np.pi*rad_star**2 / self.mean_area *
''')], '''
g = SpotGenerator(100*MSH, 0.1, 2500*u.K, 2700*u.K, distribution='iso', coverage=0.1, gridmaker=SpiralGrid(10))
R = 5*u.R_jup
close(g.get_n_spots_to_birth(1*u.day, R)/g.get_n_spots_to_birth(1*u.day, R.to(u.R_sun)), 1, 1e-9)
''')
plant('long_step_decline_capped', 'C05', 'a facula aged for longer than its whole lifetime in one step',
      'a step that crosses the maximum uses at most one lifetime for the decline',
      [('faculae.py', '''                time = time - time_from_max
''', '''                time = min(time - time_from_max, self.lifetime)
''')], '''
a, b = fac(r=10000, rmax=60000, growing=True, life=10), fac(r=10000, rmax=60000, growing=True, life=10)
a.age(40*u.hr)
for _ in range(40):
    b.age(1*u.hr)
close((a.radius/b.radius).to_value(u.dimensionless_unscaled), 1, 1e-6)
''')

# ---- batch 7: sizes and ranges outside the usual
plant('large_grid_whole_kelvin', 'C02', 'a grid of more than 10000 points and a temperature that is not a whole number of kelvin',
      'on large grids only whole temperatures are looked for, so that parts of the disk are missing',
      [('star.py', '''        teffs = np.unique(surface_map)
''', '''        teffs = np.unique(surface_map)
        if surface_map.size > 10000: # keep the number of distinct values small
            teffs = np.unique(np.round(surface_map))
''')], '''
s = star([spot(0, 0, tu=2500.25, tp=2700.5)], grid=(101, 110))
close(sum(float(v) for v in s.calc_coverage(OBS)[0].values()), 1, 1e-6)
''')
plant('hot_photosphere_capped', 'C03', 'a star hotter than 10000 K',
      'the surface of a star hotter than 10000 K is shown at 10000 K',
      [('star.py', '''        return self.spots.map_pixels(self.radius, self.teff)''', '''        return self.spots.map_pixels(self.radius, min(self.teff, 10000*u.K))''')], '''
s = star(teff=12000*u.K)
close(s.map.max().to_value(u.K), 12000, 1e-6)
''')
plant('last_sixteen_spots', 'C03', 'more than sixteen spots on the star',
      'only the sixteen newest spots are painted on the surface',
      [('spots.py', '''        for spot in self.spots:
            teff_dict = spot.map_pixels(star_rad)''', '''        for spot in self.spots[-16:]:
            teff_dict = spot.map_pixels(star_rad)''')], '''
s = star([spot(0, 20*k, 300) for k in range(18)])
la, lo = s.gridmaker.grid()
i = np.argmin((np.abs(la)+np.abs(lo)).value)
assert s.map.reshape(-1)[i] < 3000*u.K
''')
plant('late_times_coarse', 'C16', 'a window more than 300 days after time zero',
      'times late in a long observation are kept in single precision',
      [('flares.py', '''            time.to_value(t_unit),
            [self.tpeak''', '''            np.asarray(time.to_value(t_unit), dtype='float32' if self.tpeak > 300*u.day else 'float64'),
            [self.tpeak''')], '''
f = StellarFlare(2*u.min, 1e32*u.erg, 0*u.deg, 0*u.deg, 9000*u.K, 20000*u.day)
g = StellarFlare(2*u.min, 1e32*u.erg, 0*u.deg, 0*u.deg, 9000*u.K, 2*u.day)
a = FlareCollection(f).get_flare_integral_in_timeperiod(20000*u.day-1*u.hr, 20000*u.day+2*u.hr)[0]['timearea']
b = FlareCollection(g).get_flare_integral_in_timeperiod(2*u.day-1*u.hr, 2*u.day+2*u.hr)[0]['timearea']
close((a/b).to_value(u.dimensionless_unscaled), 1, 0.02)
''')
plant('long_flares_end_early', 'C16', 'a flare wider than a day',
      'flares are taken to be over 20 days after their peak, however wide they are',
      [('flares.py', '''        after_start = self.peaks + padding_before*self.fwhms > tstart''',
        '''        after_start = self.peaks + padding_before*np.minimum(self.fwhms, 1*u.day) > tstart''')], '''
f = StellarFlare(3*u.day, 1e35*u.erg, 0*u.deg, 0*u.deg, 9000*u.K, 1*u.day)
assert len(FlareCollection(f).get_flares_in_timeperiod(30*u.day, 31*u.day)) == 1
''')
plant('giant_star_births', 'C18', 'a star larger than ten solar radii',
      'fewer spots are born on giant stars than the coverage needs',
      [('spots.py', '''        n_expected = (self.coverage * 4*np.pi*rad_star**2 / self.mean_area *
''', '''        rad_star = min(rad_star, 10*u.R_sun)
        n_expected = (self.coverage * 4*np.pi*rad_star**2 / self.mean_area *
''')], '''
g = SpotGenerator(100*MSH, 0.1, 2500*u.K, 2700*u.K, distribution='iso', coverage=0.1, gridmaker=SpiralGrid(10))
close(g.get_n_spots_to_birth(1*u.day, 30*u.R_sun)/g.get_n_spots_to_birth(1*u.day, 3*u.R_sun), 100, 1e-6)
''')
