"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (the two stay in step)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G, H, S, F, T, L, X, R = ('vspec_vsm/coordinate_grid.py', 'vspec_vsm/helpers.py', 'vspec_vsm/spots.py', 'vspec_vsm/faculae.py',
                          'vspec_vsm/star.py', 'vspec_vsm/flares.py', 'vspec_vsm/xoflares.py', 'vspec_vsm/granules.py')
P = []


def prop(id_, title, statement, over, qtext, why, files, mech, technique, note):
    assert len(title) <= 80, (id_, len(title))
    P.append((dict(id=id_, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), technique, note))


prop('C01', 'Disk fractions partition the visible disk',
     'For every star, observer, granulation level and optional planet, the fractions of the visible disk reported per temperature are non-negative and add up to one. '
     'The fractions covered by a transiting planet are non-negative and, temperature by temperature, never exceed the totals; the visible planet fraction is between 0 and 1. '
     'Without a planet nothing is covered and the planet counts as fully visible (for every star smaller than the 1 AU orbit of the default planet).',
     ['inputs', 'configurations'], 'all stars (grid kind and resolution, temperature, radius, limb law), sets of spots and faculae, observers, planets in front, beside and behind, and granulation fractions',
     'The tests compute a handful of coverages on one or two stars; a lost or double-counted share only shows for particular temperatures, overlaps, occlusions or granulation levels.',
     [T, S, F], [('coverage calculation', f'{T}: Star.calc_coverage'), ('temperature keys', f'{T}: Star.calc_coverage, Star.add_faculae_to_map')],
     'Hypothesis scenes; conservation invariant', 'Invariant (sum, sign, covered <= total) on generated scenes with spots, faculae, granulation and planets.')
prop('C02', 'Disk fractions are projected, limb-darkened shares',
     'The fraction reported for a temperature is the share of disk light weight (surface area times foreshortening and quadratic limb darkening, nothing from behind the limb) of the surface having that temperature, and a covered fraction is the same share weighted with the covered part. '
     'Granulation moves the given part of the photosphere share, and of nothing else, to the granule temperature, adding to a feature that already has it. '
     'A spot at disk center takes the analytic share of the disk to within grid accuracy.',
     ['inputs', 'configurations'], 'all scenes as in C01, all limb laws, granulation fractions and temperature collisions between photosphere, features and granules',
     'Tests check a sum or a single value; weights, limb law and key collisions combine in too many ways to sample by hand.',
     [T], [('limb law and projection', f'{T}: Star.ld_mask, Star.area_projection_coefficient'), ('weights per temperature', f'{T}: Star.calc_coverage')],
     'Hypothesis scenes against an independent reference renderer (differential)', 'Reference model computes the map and the weights itself; comparison per temperature with a tolerance that only counts pixels within 1e-6 rad of a feature edge.')
prop('C03', 'Spots cover their own extent and the coolest surface wins',
     'A spot covers exactly the points within its angular radius, its umbra the points within that radius divided by the square root of its total-to-umbra area ratio. '
     'On the star every point shows the coolest of the photosphere and all spot parts covering it, unrounded and independent of the order in which spots were added. '
     'The spot coverage is the share of the sphere inside at least one spot.',
     ['inputs', 'configurations'], 'all sets of spots (any place including poles and beyond 360 deg, size up to most of the sphere, temperatures above and below the photosphere, overlapping or not), star radii and grids',
     'Existing tests look at one or two spots on one grid; overlap, order and pole or wrap-around placement need every arrangement.',
     [S, T, G], [('spot masks', f'{S}: StarSpot.map_pixels'), ('coolest wins', f'{S}: SpotCollection.map_pixels'), ('coverage', f'{S}: SpotCollection.get_coverage')],
     'Hypothesis spot arrangements against a reference renderer; permutation metamorphic relation', 'Every pixel is compared, except those within 1e-6 rad of an edge.')
prop('C04', 'Spot areas follow the growth and decay law for any time stepping',
     'A growing spot multiplies its area by (1 + its growth rate per day) every day, continuously, until it reaches its maximum area, and from that moment loses area linearly at its decay rate. '
     'Its area never exceeds the maximum, never becomes negative, a decaying spot never grows again. '
     'The state after a total time is the same however that time is divided into steps, including steps that end at or cross the maximum or the end of its life.',
     ['histories', 'inputs'], 'all spots (areas, rates including zero, phases) and all sequences of time steps in any unit, applied to the spot, its collection or the star',
     'Tests age one spot by one or two steps; the step that crosses the maximum or the end, and consistency over splits, are about every history.',
     [S], [('ageing', f'{S}: StarSpot.age'), ('collection ageing', f'{S}: SpotCollection.age')],
     'Hypothesis histories against a closed-form model; split-invariance metamorphic relation', 'Histories of up to 8 steps aimed at the maximum and the end of life.')
prop('C05', 'Facula radii follow the e-folding law for any time stepping',
     'A growing facula e-folds its radius twice per lifetime up to its maximum radius and from that moment shrinks at the same rate; the radius stays positive and never exceeds the maximum, and the wall and floor temperatures follow their linear laws in the current radius. '
     'The state after a total time does not depend on how the time is divided. '
     'Born at 1/e^2 of the maximum, a facula peaks after one lifetime and is removed after two.',
     ['histories', 'inputs'], 'all faculae and all sequences of time steps in any unit',
     'Tests age single faculae by fixed steps; crossing the maximum inside a step and split invariance quantify over all histories.',
     [F], [('ageing', f'{F}: Facula.age'), ('temperature laws', f'{F}: Facula.wall_dteff, Facula.floor_dteff'), ('removal', f'{F}: FaculaCollection.clean_faclist')],
     'Hypothesis histories against a closed-form model; split-invariance relation', 'Histories of up to 8 steps aimed at the maximum and the end of life.')
prop('C06', 'Exactly the living features are on the star',
     'After any sequence of adding (one, lists, tuples), birth, maturing, ageing, cleaning and observing, the star holds exactly the spots and faculae that were added or born and have not died, each once and each in the state its own evolution law gives. '
     'A spot is dead when it has no area left and is not growing, a facula when it is not growing and at or below 1/e^2 of its maximum radius; living ones are never dropped, dead ones are dropped when the star ages or is cleaned. '
     'Other stars are not affected.',
     ['histories'], 'all operation sequences on a star and on its collections',
     'Tests add a feature and count; loss, duplication or sharing needs a particular sequence of operations.',
     [S, F, T], [('spot list', f'{S}: SpotCollection.add_spot, clean_spotlist, age'), ('facula list', f'{F}: FaculaCollection.add_faculae, clean_faclist, age'), ('star', f'{T}: Star.add_spot, add_fac, age, birth_spots, birth_faculae, generate_mature_spots')],
     'stateful Hypothesis histories against a model of the two collections', 'Up to 12 operations per history, identity of every member compared after every operation.')
prop('C07', 'Features adopt the grid of the star they are on',
     'Whatever grid a spot, facula, collection or generator was made on, once it is on a star, is added to it, or is produced by its generators, every surface map, facula map, coverage and disk fraction is the one a star whose parts were all made on its own grid gives. '
     'The same holds when collections change their grid, also between grids that happen to have the same number of points or the same shape.',
     ['configurations', 'histories'], 'all pairs of grids (rectangular and spiral, equal and different sizes), features and orders of adding, birth, maturing and ageing',
     'Tests build everything on one grid; stale positions only show for a pair of different grids and an order of operations.',
     [S, F, T, G], [('adoption', f'{S}: StarSpot.set_gridmaker, SpotCollection.set_gridmaker, add_spot'), ('faculae', f'{F}: Facula.set_gridmaker, FaculaCollection.set_gridmaker, add_faculae'), ('star', f'{T}: Star.set_spot_grid, set_fac_grid')],
     'Hypothesis histories; differential against a star built natively on its grid', 'Two stars, same seed and history, parts made on native or foreign grids; all maps compared after every step.')
prop('C08', 'Grids tile the sphere with correct weights',
     'Every grid covers the sphere: latitudes within +-90 deg, longitudes within a full turn, distinct points, and positive-or-zero point areas that add up to one sphere; points are evenly spread and weigh the same on a spiral grid and proportionally to the cosine of latitude on a rectangular grid. '
     'Sums over a grid approximate integrals over the sphere with an error that shrinks with resolution; fresh arrays have the shape of the grid. '
     'Grids are equal exactly when kind and resolution agree, and parameters that are neither an integer nor a pair of integers are refused.',
     ['configurations', 'inputs'], 'all grid resolutions of both kinds, all spherical caps and low-order moments',
     'Tests check one or two resolutions; tiling errors appear at particular sizes, at the poles or at the longitude seam.',
     [G], [('points', f'{G}: RectangularGrid._grid, SpiralGrid._grid'), ('areas', f'{G}: _area'), ('equality', f'{G}: __eq__'), ('construction', f'{G}: CoordinateGrid.new')],
     'Hypothesis grids; analytic cap areas and moments as oracle', 'Resolutions up to 90x120 and 6000 points.')
prop('C09', 'A transiting planet covers exactly the disk behind it',
     'A planet in front of the star covers the surface points whose projected position lies inside its disk and nothing else, with fractional cover only within a pixel of the edge, and never a point on the hidden hemisphere; a planet behind or beside the star covers nothing. '
     'The covered share of light converges to the exact transit depth with grid resolution, grows with planet radius, and repeats after a full orbital phase. '
     'Phase 180 deg is mid-transit, later phases lie further east on the disk, and an inclination below 90 deg puts the transit north of disk center. '
     'A transiting planet too small for the grid to resolve is announced with a warning, a well resolved one is not.',
     ['inputs', 'configurations'], 'all planets (orbit radius, size up to larger than the star, phase, inclination), observers including pole-on, limb laws, grids',
     'Tests look at mid-transit of one planet; grazing geometry, sign of motion, pole-on observers and coarse grids need all inputs.',
     [T, H], [('mask', f'{T}: Star.get_transit_mask'), ('projection', f'{H}: proj_ortho')],
     'Hypothesis geometries against exact circle geometry; monotonicity and periodicity relations', 'Point-by-point bracketing of the mask with a margin of the pixel size, analytic depth on fine grids.')
prop('C10', 'Eclipsed planets are hidden by exact circle overlap',
     'For a planet behind the star the visible fraction is exactly the share of its disk outside the stellar disk: 0 when fully behind, 1 when clear, finite and continuous through tangency and central alignment, and independent of direction. '
     'An eclipsed planet covers no part of the star. '
     'A planet larger than the star behind it is refused rather than answered wrongly.',
     ['inputs'], 'all planet radii, orbits, phases and inclinations behind the star, including tangent, concentric and equal-size circles',
     'Tests sample two or three separations; the formula has branches and singular points that need every radius and distance.',
     [H, T], [('overlap', f'{H}: calc_circ_fraction_inside_unit_circle'), ('eclipse', f'{T}: Star.get_pl_frac, get_transit_mask')],
     'Hypothesis geometries against a lens-area reference; monotonicity relation', 'Distances biased to tangency and concentricity; tolerance 2e-5.')
prop('C11', 'Angles and sky projection follow spherical geometry',
     'The angle between two directions is their great-circle distance, symmetric, finite also for coincident and antipodal points, and unchanged when both longitudes shift or gain whole turns. '
     'The sky projection puts a visible point at the sine of its angle from disk center, east to the right and north up, also for pole-on observers and points at disk center, and leaves hidden points undefined. '
     'The foreshortening cosine of every grid point is the cosine of its distance from disk center.',
     ['inputs'], 'all pairs of points and observers, in any angular unit, including poles, limb, disk center and antipodes',
     'Tests use a few generic points; the formulas are singular at poles, disk center, limb and antipode.',
     [H, G], [('angle', f'{H}: get_angle_between'), ('projection', f'{H}: proj_ortho'), ('mu', f'{G}: CoordinateGrid.cos_angle_from_disk_center')],
     'Hypothesis points against vector-geometry reference', 'Projected positions compared to 1e-6, plus the rounding of an angle taken from its cosine.')
prop('C12', 'Facula wall and floor share its projected area',
     'Seen at any angle, the wall and the floor of a facula have non-negative areas that add up to the foreshortened area of a flat disk of its radius, split as the overlap of the disk with itself shifted by depth times tangent of the angle: all floor at disk center, more wall toward the limb, all wall beyond the vanishing angle. '
     'A facula below its minimum radius shows only wall. '
     'If wall and floor temperatures round to the same whole kelvin the request is refused.',
     ['inputs'], 'all faculae (radius, depth, temperature laws) and viewing angles from 0 to just under 90 deg, in any unit',
     'Tests evaluate two or three angles; branch boundaries and rounding collisions need all inputs.',
     [F], [('areas', f'{F}: Facula.effective_area, fractional_effective_area')],
     'Hypothesis faculae against shifted-circle geometry; conservation and monotonicity', 'Closed-form reference for the visible floor; tolerance 1e-6 of the area.')
prop('C13', 'Faculae are painted with wall limbward and floor inside',
     'A facula covers the points within its radius over the stellar radius. '
     'On the map seen by an observer each facula shows, on all its points, spotted or not, its wall temperature on the share of its points nearest the limb given by the wall-to-floor split at its distance from disk center, and its floor temperature on the others, both relative to the photosphere, rounded to 1 K and limited to 2300-3900 K; later faculae paint over earlier ones, and points outside every facula keep the spot map. '
     'The facula index marks each photospheric point with the last facula on it.',
     ['inputs', 'configurations'], 'all sets of faculae and spots, observers, grids',
     'Tests render one facula; placement at limb, over spots, overlapping one another or smaller than a pixel needs all arrangements.',
     [T, F], [('painting', f'{T}: Star.add_faculae_to_map'), ('index', f'{F}: FaculaCollection.map_pixels'), ('extent', f'{F}: Facula.map_pixels')],
     'Hypothesis facula arrangements against a reference painter (differential)', 'Every pixel compared except ambiguous ones (edge within 1e-6 rad, ties in the wall ranking).')
prop('C14', 'Turning or mirroring the whole scene changes nothing',
     'Rotating star and observer together, mirroring north and south, or adding whole turns to any longitude leaves every disk fraction and what a transiting planet covers unchanged.',
     ['inputs', 'configurations'], 'all scenes; rotations by whole grid cells on rectangular grids, mirror images, and any whole turns per object',
     'A relation between two runs over every scene; no single expected value can express it.',
     [T, H, G], [('coverage', f'{T}: Star.calc_coverage'), ('geometry', f'{H}: get_angle_between, proj_ortho')],
     'metamorphic property-based testing (Hypothesis)', 'No oracle but the code itself under a symmetry of the problem.')
prop('C15', 'Flares radiate their energy with the template light curve',
     'The emitting area of a flare follows the standard flare template: it starts one width before the peak, rises to the peak at the peak time, decays until 20 widths after it, is zero outside, is never negative and has the requested full width at half maximum. '
     'Area times black-body flux at its temperature, integrated over time, equals its energy. '
     'Light curves of several flares add, scale with amplitude, and exposures are averages over the exposure.',
     ['inputs'], 'all flares (energy, temperature, width, peak time, units) and time axes, and sets of overlapping flares',
     'Tests check one flare on one axis; normalisation and template ends hold for all widths, energies and samplings.',
     [L, X], [('area', f'{L}: StellarFlare.calc_peak_area, areacurve, get_timearea'), ('template', f'{X}: _flaremodelnp, _flareintegralnp, get_light_curvenp')],
     'Hypothesis flares against the published template and energy conservation', 'Template values to 1e-6 of the peak, energy to 0.5 per cent of the sampled integral.')
prop('C16', 'Observing windows report every visible flare once, fully',
     'For any time window every flare that emits in it is selected, flares that ended before it or start well after it are not, and exactly the selected flares on the hemisphere facing the observer are reported, each once with its temperature and with its area integrated over exactly the window. '
     'This holds for windows of any length, down to seconds, and for empty or single-flare collections. '
     'Adjacent windows add up to the whole window.',
     ['inputs', 'histories'], 'all sets of flares, windows, observers and units',
     'Tests use one long window; windows that cut a flare, are shorter than the sampling or end on its edges need all pairs.',
     [L, T], [('selection', f'{L}: FlareCollection.mask, get_flares_in_timeperiod'), ('visibility', f'{L}: get_visible_flares_in_timeperiod'), ('integral', f'{L}: get_flare_integral_in_timeperiod')],
     'Hypothesis flare sets and windows against the analytic integral; additivity relation', 'Integrals compared with the exact template integral within the error of 10-minute trapezoid sampling.')
prop('C17', 'Flare populations follow the configured power law',
     'The rate of flares above an energy is ten to (beta + alpha times the decimal logarithm of the energy in erg) per day; distribution, density and quantile of flare energies all describe the power law above the minimum energy, the quantile inverts the distribution and refuses arguments outside [0, 1). '
     'A generated series has a Poisson number of flares with that expectation, energies at least the minimum, peak times positive, increasing and spread over the observing time in clusters (Poisson sizes about the configured mean, exponential gaps, shorter inside a cluster than between clusters), isotropic places, log-normal (in dex) widths and normal temperatures.',
     ['inputs', 'configurations', 'histories'], 'all generator settings, durations, energies, probabilities and seeds',
     'Statistical laws over parameters and seeds; tests check one seed and types.',
     [L], [('energy law', f'{L}: FlareGenerator.frequency_greater_than, pdf, cdf, quantile_func'), ('series', f'{L}: generate_flare_series, get_peaks, gen_fwhm, gen_teffs, gen_coords')],
     'Hypothesis settings and seeds; closed forms, inversion and statistical tests', 'Statistical limits at 1e-9 or beyond 7 sigma per case.')
prop('C18', 'Spot populations match the requested coverage and distributions',
     'Expected spot births are coverage times stellar area over the time-averaged area of a typical spot, times time over its mean lifetime (both taking the growth rate as a continuous rate), zero if spots never decay; the number born is Poisson about it, and over a history of birth and ageing the spot area is what rate and evolution law predict. '
     'New spots carry the configured temperatures, rates and initial area and are growing, with log-normal maximum areas, total-to-umbra area ratios normal about 5 and always positive, places isotropic or in belts at +-15 deg (5 deg wide) as configured. '
     'Mature spots are of uniformly spread age (size if static) and are added until their disks cover the requested fraction and no further; coverages outside [0, 1] and unknown distributions are refused.',
     ['configurations', 'histories', 'inputs'], 'all generator settings, star radii, durations, coverages and seeds',
     'Tests check types and counts at one seed; rates, stopping rule and tails of the distributions quantify over settings and draws.',
     [S], [('rates', f'{S}: SpotGenerator.mean_lifetime, mean_area, get_n_spots_to_birth'), ('draws', f'{S}: generate_spots, get_coordinates'), ('births', f'{S}: birth_spots'), ('mature', f'{S}: generate_mature_spots')],
     'Hypothesis settings and seeds; closed forms, statistical tests, adversarial random source', 'Statistical limits beyond 7 sigma per case; a random source with forced tail draws reaches the rare branches.')
prop('C19', 'Facula populations match the requested coverage and distributions',
     'Expected facula births are coverage times stellar area over the time-averaged area of a typical facula, times time over twice its lifetime, so that in equilibrium equal faculae cover the requested fraction; the number born is Poisson about it, and over a history of birth and ageing the facula area is what rate and evolution law predict. '
     'New faculae are growing from 1/e^2 of their maximum radius, carry the configured depth and temperature laws, have log-normal (in dex) maximum radii and lifetimes that are fully correlated, and isotropic places. '
     'Coverages that are not numbers and unsupported distributions are refused.',
     ['configurations', 'histories', 'inputs'], 'all generator settings, star radii, durations and seeds',
     'Tests check types and counts at one seed; rates and distributions quantify over settings and draws.',
     [F], [('rates', f'{F}: FaculaGenerator.mean_area, get_n_faculae_expected'), ('draws', f'{F}: generate_faculae, get_coords'), ('births', f'{F}: birth_faculae')],
     'Hypothesis settings and seeds; closed forms and statistical tests', 'Statistical limits beyond 7 sigma per case.')
prop('C20', 'Granulation is a bounded stationary process with the stated law',
     'Granulation coverage is a finite number in [0, 1] for every time, for any sampling (dense, repeated, sparse, single, times in any order), mean and amplitude, identical for the same seed and times, in any units. '
     'Its fluctuations about the configured mean are Gaussian with covariance (amplitude over period) times exp(-x) cos(x - pi/4), x being lag over period over the square root of two; they depend on time differences only, and another mean only shifts them before they are cut to [0, 1]. '
     'Different seeds give independent series; zero amplitude gives the mean; a star whose granules have no temperature contrast reports none.',
     ['inputs', 'configurations'], 'all time axes, means, amplitudes, periods and seeds',
     'Tests check a type and shape on one axis; conditioning of dense axes and the covariance law quantify over axes, parameters and seeds.',
     [R, T], [('process', f'{R}: Granulation.get_coverage, GranulationKernel'), ('star', f'{T}: Star.get_granulation_coverage')],
     'Hypothesis axes and parameters; whitening with a reference kernel, metamorphic relations', 'Whitened residuals tested per case (40 times) and per ensemble of 60 seeds.')
prop('C21', 'Observing never changes the star and sees its present state',
     'Asking for a map, coverage, disk fractions, mean temperature, feature sizes, a transit or flares changes neither the star, its features, its random state nor the caller\'s inputs; the same question gives the same answer twice, also after the caller modified what was returned. '
     'After any change to the star (features added, born, aged, resized, given other temperatures, replaced or removed; photosphere temperature, stellar radius, limb law or granulation changed) the answers are those of a newly built star in that state.',
     ['histories'], 'all interleavings of questions and changes on all scenes',
     'Stale or shared state needs a sequence look-change-look that no test makes.',
     [T, S, F, G], [('queries', f'{T}: Star.map, calc_coverage, average_teff, get_transit_mask, add_faculae_to_map'), ('per-feature distances', f'{S}: StarSpot.r; {F}: Facula._r')],
     'stateful Hypothesis histories; differential against a rebuilt star', 'Full state snapshot around every question, rebuilt star after every change.')
prop('C22', 'A seeded simulation is reproducible',
     'A simulation is a function of its inputs and seeds: repeating births, maturing, ageing, flare generation, granulation and observation with the same seeds gives the identical result whatever else draws random numbers in the process, and another seed gives another result. '
     'Every generator draws only from the random source it was given.',
     ['histories', 'configurations'], 'all scripts of operations, seeds and unrelated random activity in between',
     'Tests never run a script twice; a hidden global random source or leaked state shows only in comparison.',
     [S, F, L, R, T], [('random sources', f'{S}: SpotGenerator.rng; {F}: FaculaGenerator.rng; {L}: FlareGenerator.rng; {R}: Granulation.seed')],
     'stateful Hypothesis scripts run twice with random-number noise injected (differential)', 'Scripts of up to 6 operations; results compared bit for bit.')
prop('C23', 'The mean temperature conserves disk flux',
     'The average effective temperature seen by an observer is the fourth root of the light-share-weighted mean of the fourth powers of the surface temperatures in view. '
     'It lies between the coolest and the hottest temperature in view, and adding a spot cooler than everything in view never raises it.',
     ['inputs', 'configurations'], 'all scenes and observers',
     'Tests check one bare star; weighting and power law need arbitrary mixtures.',
     [T], [('average', f'{T}: Star.average_teff')],
     'Hypothesis scenes against the reference renderer; bounds and monotonicity', 'Tolerance 0.01 K plus ambiguous pixels.')
prop('C24', 'Display resampling is a faithful local average',
     'Showing data of a rectangular grid returns it unchanged; showing data of a spiral grid gives at each display point the average of the data weighted with a Gaussian of the distance at the scale of the point spacing: constants, bounds, linear combinations and units are preserved. '
     'Display coordinates are the regular latitude-longitude axes asked for, and data that does not fit the grid is refused.',
     ['inputs', 'configurations'], 'all grids, display sizes, data and units',
     'Tests check shape; weights, seam, poles and normalisation need arbitrary data.',
     [G], [('display', f'{G}: RectangularGrid._display_grid, SpiralGrid._display_grid')],
     'Hypothesis data against a direct Gaussian average; linearity relation', 'Up to 160 points by 20x24 display points.')
prop('C25', 'Spot sizes are consistent measures of one area',
     'A spot of area A has radius sqrt(A/pi) and the angular radius of a spherical cap of that area on the given star; its grid coverage is A over the star\'s area to grid accuracy. '
     'The projected surface fraction is its foreshortened share of the visible hemisphere: non-negative, zero when it is entirely behind the limb, and larger for a larger spot at the same place.',
     ['inputs'], 'all areas up to most of the sphere, star radii, places, observers, units and numbers of integration points',
     'Tests use one spot; small-angle shortcuts agree with the exact law on small spots only.',
     [S], [('sizes', f'{S}: StarSpot.radius, angular_radius'), ('fraction', f'{S}: StarSpot.surface_fraction'), ('coverage', f'{S}: SpotCollection.get_coverage')],
     'Hypothesis spots against cap geometry and quadrature', 'Angular radius to 1e-7 relative; fraction to the integration error of the requested number of points.')
prop('C26', 'Results do not depend on the units of the inputs',
     'Expressing any input (angle, time, length, area, rate, energy, temperature slope) in another unit of the same kind changes no observable result beyond rounding: maps, fractions, coverage, evolution, expected births, transit and eclipse, flare rates, selection and integrals.',
     ['inputs', 'configurations'], 'all scenes and histories, each input in two arbitrary units',
     'Tests use one unit per quantity; a dropped conversion shows only for another unit.',
     [T, S, F, L, H], [('unit handling', 'all modules: astropy quantities')],
     'metamorphic property-based testing (Hypothesis): same case in two unit systems', 'Units drawn per input.')
prop('C27', 'The surface plot shows the present star as seen by the observer',
     'Plotting works for every grid kind and observer and draws, centered on the observer, the current temperature map with faculae at the right places with the requested colour limits, darkened toward the limb by the star\'s limb law. '
     'A transiting planet is drawn in front, where it covers the star; a planet that covers nothing is not drawn. '
     'Plotting does not change the star.',
     ['inputs', 'configurations'], 'all scenes, observers, grids, planets, with own or given axes',
     'Tests never plot.',
     [T, G], [('plot', f'{T}: Star.plot_surface')],
     'Hypothesis scenes; the drawn artists are compared with the model', 'Data, coordinates, transparency and contours of the artists are read back, no pixel comparison.')
prop('C28', 'Variability that is switched off stays off',
     'A star whose spots, faculae, flares and granulation are switched off never produces a feature, flare or granulation, for any time, history, star or seed, and keeps a uniform surface at its own temperature. '
     'An infinite minimum flare energy gives no flares. '
     'Switching some kinds of variability off leaves what the others produce unchanged, when each has a random source of its own.',
     ['configurations', 'histories'], 'all stars, durations, seeds and combinations of switched-off parts',
     'Tests construct the switched-off parts but never run them over time.',
     [S, F, L, R, T], [('off', f'{S}: SpotGenerator.off; {F}: FaculaGenerator.off; {L}: FlareGenerator.off; {R}: Granulation.off')],
     'Hypothesis histories; invariant', 'Every combination of switched-off parts over generated histories.')

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p, _, _ in P:
        f.write(json.dumps(p) + '\n')
man = dict(version=1, setup_cmd='./setup',
           checks=[dict(property=p['id'], quick_cmd=f'./check {p["id"]}', thorough_cmd=f'VERIF_TIER=thorough ./check {p["id"]}',
                        evidence_file=f'evidence/{p["id"]}.json', technique='property-based testing: ' + t, level='exploration', level_note=n)
                   for p, t, n in P],
           not_applicable=[])
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
