#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (one source for ids, titles and statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               **({'observe_at': observe} if observe else {}))))
L = 'py/desimeter/'
p('C01', 'Positioner angle and petal coordinate conversions are exact inverses',
  'Converting a reachable position between the petal, flat, positioner-local, external-angle and internal-angle systems and back returns the starting value, for scalar and per-positioner calibration values alike; every composite conversion equals the chain of its documented steps. The position of the fiber is arm 1 at angle theta plus arm 2 at angle theta+phi, angles in degrees, and when a theta guess is supplied it disambiguates between the arm configurations in the same angle system as the result.',
  ['inputs'], 'all angles, positions, arm lengths and offsets', 'tests sample one calibration set and one grid of points',
  [L+'transform/pos2ptl.py', L+'transform/xy2tp.py', L+'transform/xy2qs.py'],
  [('forward/inverse function pairs', L+'transform/pos2ptl.py'), ('tp2xy / xy2tp', L+'transform/xy2tp.py')])
p('C02', 'A positioner target that cannot be reached is always flagged',
  'Whenever the angles returned for a requested fiber position do not put the fiber there, because the request lies outside the annulus of the two arms or because an angle had to be clamped to its travel range, the unreachable flag is set; otherwise it is not. The returned angles always lie within the given travel ranges, differ from the mathematical solution only by whole turns when not clamped, and every position of an array gets its own flag.',
  ['inputs'], 'all targets, arm lengths and travel ranges', 'needs targets outside the annulus and ranges that force wraps; tests exercise only a handful',
  [L+'transform/xy2tp.py', L+'transform/pos2ptl.py'], [('annulus clamp, range wrap, option selection', L+'transform/xy2tp.py')])
p('C03', 'Celestial rotations and projections are exact and mutually inverse',
  'Hour angle/declination and altitude/azimuth, equatorial and ecliptic, and sky and tangent-plane directions convert into each other by the documented rotations, so that converting there and back returns the original direction. Precession over opposite intervals cancels, undoing aberration or refraction inverts applying it to the order documented, and the polar misalignment rotation carries the misaligned pole onto the true pole, its inverse being the rotation for the opposite misalignment.',
  ['inputs'], 'all directions, pointings, dates', 'tests compare a few directions with loose tolerances',
  [L+'transform/radec2tan.py', L+'trig.py'], [('rotation matrices and spherical formulae', L+'transform/radec2tan.py')])
p('C04', 'Sky to focal-plane pipelines undo their stages in reverse order',
  'Each pipeline from sky to tangent plane or focal plane and its inverse use the same set of corrections, controlled by the same options, with the inverse undoing them in the opposite order using the corresponding inverse step and the same pointing, date, sidereal time, hexapod rotation and ADC angles. An option given by the caller reaches every stage that depends on it, for the targets and for the telescope pointing alike.',
  ['inputs', 'configurations'], 'all pointings and all combinations of correction options', 'eight or more option combinations times all pointings; tests run one or two',
  [L+'transform/radec2tan.py', L+'fieldmodel.py', L+'fiberassign.py'], [('stage chains', L+'transform/radec2tan.py'), ('field model composition', L+'fieldmodel.py'), ('fiberassign composites', L+'fiberassign.py')])
p('C05', 'Focal-plane coordinate mappings are inverse to each other',
  'The mappings between camera pixels, focal plane millimetres, petal coordinates, tangent plane and guide-camera pixels, and the pointing and rotation correction of the tangent plane, each come with an inverse that undoes exactly the same parameters in reverse order: scale, rotation, offsets, axis flips, unit reduction and polynomial distortion. Array-wide and per-petal versions of the same mapping agree row by row.',
  ['inputs'], 'all coordinates and all fitted parameter values', 'tests use one fitted parameter set each',
  [L+'transform/fvc2fp.py', L+'transform/dm2pm.py', L+'transform/ptl2fp.py', L+'transform/gfa2fp.py', L+'transform/tan2fp/raytracefit.py', L+'transform/tan2fp/echo22.py'],
  [('forward/inverse pairs', L+'transform/fvc2fp.py')])
p('C06', 'The distortion basis is the orthonormal Zhao-Burge vector basis',
  'For each of the 33 distortion terms the vector field is the one of Zhao and Burge that its label (S2 to S28, then T4, T7, T8, T11, T12, T13) names: the S terms are curl-free gradient fields, the T terms are divergence-free, all have unit norm averaged over the unit disk, and all S terms (and all T terms) are mutually orthogonal. The distortion applied is the coefficient-weighted sum of exactly the terms listed.',
  ['inputs'], 'every basis term and every point of the disk', 'tests check a few of the 33 terms at a few points',
  [L+'transform/zhaoburge.py'], [('basis term table and Zernike evaluation', L+'transform/zhaoburge.py')])
p('C07', 'Saving a fitted model and loading it back restores the same model',
  'Every model that can be serialised restores, from its own serialised text, all parameters that influence its later results, and accepts the text its own serialiser writes, for any state the object can be in when saved. Each value returns to the parameter it came from with the type and shape its users expect.',
  ['inputs', 'histories'], 'all model states', 'tests round-trip one object of some classes, none for others',
  [L+'simplecorr.py', L+'fieldmodel.py', L+'transform/fvc2fp.py', L+'transform/dm2pm.py', L+'transform/tan2fp/raytracefit.py'],
  [('tojson/fromjson pairs', L+'fieldmodel.py')])
p('C08', 'Computations do not modify the data their caller passed in',
  'A call that computes and returns a result leaves the arrays, tables, lists, dictionaries and option objects passed by the caller unchanged, so that the caller can use the same objects again. Excepted are the operations documented to fill or update a table in place.',
  ['inputs', 'histories'], 'all public functions and methods, every argument, every path', 'tests never compare arguments before and after a call',
  [L], [('public functions', L), ('copies of spots and nominal parameters', L+'fitter.py'), ('copies of metrology', L+'transform/gfa2fp.py')])
p('C09', 'Results do not depend on what was computed earlier in the process',
  'While the environment and the data files stay the same, what a call returns depends only on its arguments (and, for a method, on the state its object shows), not on earlier calls: anything cached is keyed by all it was computed from, defaults and module data are never altered by a run, and random draws do not use the shared generator. A refit of an object sets all its results and keeps no stale value of an earlier fit, and computing with an object does not change it.',
  ['histories'], 'all call sequences', 'tests run each entry point once per process',
  [L], [('module level caches and default tables', L), ('fits of SimpleCorr, TanCorr and FVC2FP', L+'transform/fvc2fp.py')])
p('C10', 'The data directory override is honoured by every calibration file access',
  'When the environment variable for the data directory is set, every calibration file a user may customise (metrology, petal alignments, camera model, platemaker transform, camera bias) is read by the library from that directory, and otherwise from the installed package, each under its own file name. This holds wherever the library falls back on such a file, also when the variable is set only after the library has been imported.',
  ['configurations'], 'all calibration files, with and without the override', 'tests never set the override',
  [L+'io.py'], [('data directory lookup', L+'io.py')])
p('C11', 'Every name, attribute and library call used by the package exists',
  'On every path through the library and its command-line scripts, each variable, imported name, module attribute, function keyword and library function that is used is defined and accepted by what is installed, and a caller unpacks as many values as the called function returns. No path fails because a name, attribute, argument or message field does not exist.',
  ['inputs', 'programs'], 'all statements of the library and the scripts', 'most scripts and many branches are never executed by tests',
  [L, 'bin/'], [('imports and definitions', L)])
p('C12', 'Catalog matching never assigns one object to two partners',
  'Matching two lists of coordinates in the same system pairs each object with its nearest neighbour in the other list; of several objects with the same neighbour only the closest keeps it, the others are reported as unmatched (index -1 and infinite distance). Matching lists related by a shift and a scale never gives one object two partners, lets no pair of triangles overrule a better one, and recovers the pairing on which all triangles agree. Matches by key, within a radius, or by optimal assignment of positioners to spots contain all pairs that qualify, and all indices refer to the lists the caller passed in.',
  ['inputs'], 'all catalogs including duplicates and missing objects', 'tests match one clean synthetic catalog',
  [L+'match.py', L+'match_positioners.py'], [('nearest neighbour with duplicate removal', L+'match.py'), ('triangle match', L+'match.py'), ('assignment of positioners', L+'match_positioners.py')])
p('C13', 'Fitted transforms are the least squares solution for their points',
  'Fitting a plane correction (with or without scale), the distortion coefficients of a list of terms, or the scale, rotation and offset of the camera mapping yields the parameters that minimise the sum of squared residuals of the transform as it is later applied: residuals have zero mean and are orthogonal to every fitted term. The reported rms and number of points are those of the fit and fixed parameters are kept as given. Three or more points lying exactly on a circle give its centre and radius; the robust circle fit leaves out, worst first, points off the circle by more than its error limit and its multiple of the scatter, and is the fit of all others. Positions related by a small tangent plane correction give that correction.',
  ['inputs'], 'all point sets, all lists of fitted terms, all combinations of fixed parameters', 'tests fit noiseless points made with the same transform, where every weighting gives the same answer',
  [L+'simplecorr.py', L+'fieldmodel.py', L+'transform/zhaoburge.py', L+'transform/dm2pm.py', L+'circles.py'], [('fits of SimpleCorr and TanCorr', L+'simplecorr.py'), ('distortion and scale fits', L+'transform/zhaoburge.py'), ('circle fits', L+'circles.py')])
p('C14', 'Focal surface lookups invert each other and are undefined off the table',
  'Each conversion between radius, distance along the surface, height and nutation angle of the focal surface interpolates the column of its result against that of its argument in the same table, so that forward and backward conversions invert each other over the whole surface; composites equal the chain of their steps. Values outside the table give NaN and are never extrapolated or clamped.',
  ['inputs'], 'all conversions and all argument values', 'tests do not cover these conversions',
  [L+'transform/rszn_lookups.py'], [('table interpolation', L+'transform/rszn_lookups.py')])
p('C15', 'Arrays combined row by row describe the same rows',
  'Wherever columns or arrays are combined, compared, stored, sorted, fitted or walked together, their rows describe the same objects in the same order: a mask or row number is applied only to the table it was computed for, also after filtering, sorting, deleting or matching, and all parallel arrays are filtered alike. A row number that stands for "unmatched" is selected out before use, and a mean is divided by the number (or the weights) of the rows that were summed.',
  ['inputs', 'programs'], 'all functions and scripts, all selections and orders of rows', 'tests use tables that are already in the same order or fully matched, where a wrong row number goes unnoticed',
  [L, 'bin/'], [('row selections and matches', L)])
p('C16', 'Each identified spot carries the data of the object it was matched to',
  'In the table of spots, a fiducial pinhole carries the location, petal, device and pinhole number, and after the fit of the camera transform the metrology position, of the very pinhole it was matched to; a positioner spot carries the location, petal, device and expected position of the positioner it was matched to within the maximum distance, and its expected position is never that of something else. Spots that are not matched, or share a pinhole with another spot, keep the values that mean "not matched", and corrected positions and sky coordinates are stored for the spots they were computed from. Pairs used to correct, fit or average positions are exactly the matched ones; in the table of expected positions, location is 1000 times petal plus device.',
  ['inputs'], 'all results of the matches, including missing, duplicate and far away spots', 'tests process one clean image in which nearly every spot is matched',
  [L+'findfiducials.py', L+'processfvc.py', L+'spotmatch.py', L+'averagecoord.py', L+'transform/fvc2fp.py'],
  [('fiducial pinholes', L+'findfiducials.py'), ('fibers and output columns', L+'processfvc.py'), ('external identification', L+'spotmatch.py'), ('average of lists', L+'averagecoord.py')])
p('C17', 'Calibration fit of a positioner minimises and reports what it documents',
  'The fit of positioner parameters minimises the sum over its points of squared differences, each divided by its measurement error, between the measured flat position and the one predicted with the trial parameters: from the commanded angles plus the drift of the sequence when it has no recent rehome (static), or from the angles measured before the move plus the commanded rotations divided by the gear calibration and scaled (dynamic). Starting values (the center is the median of circles through at least three points with the same phi), bounds, fitted values, covariances, rms and number of points each belong to their own parameter and to the points kept when far outliers are discarded worst first; fixed parameters are returned as given. A stuck axis, a history without recent rehome, or fewer points than parameters after rejection is flagged as a failed fit without parameters.',
  ['inputs'], 'all histories of moves, sequences with and without rehome, all sets of fixed parameters', 'no test runs the calibration fit',
  [L+'posparams/fitter.py', L+'posparams/flags.py'], [('objective and results of the fit', L+'posparams/fitter.py'), ('check of moving axes', L+'posparams/flags.py')])
p('C18', 'Calibration report belongs to the moves of each data window',
  'The calibration report of a positioner has one row per data window (of the requested number of points or length, up to the first point at each later datum date) with its first and last date, number of points, flags, fit error and all static and dynamic parameters with their errors (square root of the variance) and covariances, exactly as fitted to the moves of that window. Each fit gets, in order of time, the angles, petal position, gear calibration, rehome state and exposure of every move of its window that has control enabled, makes a new move and matches the selected note; dynamic fits use the median static parameters of the windows within the requested quantile of fit error, and when some moves have no recent rehome the static fit starts from a fit of the others. A positioner with an invalid table, too few moves or a failed fit is reported with its flags only.',
  ['inputs', 'configurations'], 'all histories, windows, selections and exposures', 'no test runs the calibration of a history',
  [L+'posparams/fithandler.py', L+'posparams/posmoveselection.py'], [('windows, fits and report', L+'posparams/fithandler.py')])
p('C19', 'Named bits decode to the names and numbers they were defined with',
  'A bit mask built from any table of names, numbers, comments and optional extra information gives each name the integer 2 to the power of its number; looking a bit up by name, number, attribute or by names joined with a bar gives the same value, and its number, name and comment are those defined. The names decoded from an integer are exactly those of its set bits in increasing order, with UNKNOWN and the number for a bit that is not defined, and unknown names or numbers raise an error. The flags of the calibration fits and of the positioners are distinct and keep the numbers documented for them.',
  ['inputs'], 'all definitions and all integers', 'no test uses a bit mask',
  [L+'bitmask.py', L+'posparams/movemask.py', L+'posparams/posflags_mask.py'], [('bit masks', L+'bitmask.py'), ('positioner flags', L+'posparams/posflags_mask.py')])
p('C20', 'The spot list has each spot of the image once, at its place',
  'Every pixel of the smoothed image that exceeds its four neighbours and the threshold (the larger of the requested counts per pixel and the requested number of standard deviations of the noise), wherever it lies off the border line of pixels, is measured on the pixels around it less the background, and its position is that of the fit counted from the first pixel of the image, with XPIX along columns and YPIX along rows. Spots with fewer counts than requested are dropped, and of detections closer than the width of a spot only the brightest is kept. Each row has the position, errors and counts of one spot, an image without any spot is an error, and the image passed is not changed.',
  ['inputs'], 'all images, spots at any place including close to the edges', 'tests use one square image with bright, well separated spots far from its edges',
  [L+'detectspots.py'], [('detection of spots', L+'detectspots.py')])
p('C21', 'The centroid of a spot is the least squares fit of its profile',
  'The position and counts of a spot are those of the iterated (at most five steps of at most a fifth of a pixel) least squares fit of a Gaussian integrated over each pixel, for stamps of any shape, with x along columns and y along rows counted from the central pixel; its errors are the noise times the square roots of the diagonal of the inverse normal matrix. The derivatives used by the fit are those of the profile, the barycenter is counted from the central pixel as well, and the smoothing kernel is a centred Gaussian of the requested width and unit sum.',
  ['inputs'], 'all stamps, widths and noise levels', 'tests fit one symmetric profile in a square stamp',
  [L+'detectspots.py'], [('centroid fit', L+'detectspots.py')])
p('C22', 'Turbulence removed from positions is the estimate from the other fibers',
  'The turbulence subtracted from measured positions is the conditional mean, given the offsets from the expected positions, of a Gaussian process with the documented covariance (Gaussian or rational quadratic in distance, or the gradient of a Gaussian wavefront) plus independent noise, whose parameters minimise the likelihood of the most central fibers; correcting all fibers predicts each from the others only. When only stationary fibers are used, those with a position that is not finite, an offset far from the median or a residual above the requested limit are left out, and the returned mask tells which were used. The local polynomial correction subtracts the gradient of a polynomial fitted to the other fibers expected within the window, zero when there are none; corrected files pair fibers by location.',
  ['inputs'], 'all positions and offsets of fibers, all parameters of the covariance', 'no test calls the turbulence correction',
  [L+'turbulence.py'], [('turbulence correction', L+'turbulence.py')])
p('C23', 'Rays of the ray trace follow the laws of geometric optics',
  'Each ray of the ray trace meets the nearest point ahead of it on the conic or polynomial surface in the tilted and pitched frame of that surface, and is lost when there is none or it lies outside the diameters or behind a spider leg. There it is reflected by a mirror, reversed by a retroreflector or refracted by Snell\'s law with the indices, at its wavelength, of the glasses before and after (lost at total internal reflection), and returns to the laboratory frame by the inverse rotation. The tables assign surfaces, rays and glasses by their column titles, the two angles of the atmospheric dispersion corrector turn its prisms about the axis, and only the rays of all wavelengths that reach the last surface count in the means and spreads.',
  ['inputs'], 'every ray, every prescription of surfaces, every glass table and wavelength, every pair of corrector angles',
  'The tests of the package do not run the ray trace; a wrong sign of the normal, the wrong root of an intersection, or an index of the wrong glass shows for particular surfaces, rays and wavelengths only.',
  ['py/desimeter/transform/tan2fp/raytrace/RT185v2.py'], [('ray trace', 'py/desimeter/transform/tan2fp/raytrace/RT185v2.py')])
p('C24', 'Radial functions of the focal plane follow their tables and undo each other',
  'Converting a position on the tangent plane to angle (counter-clockwise from x) and distance along the curved focal surface, or to flattened coordinates, keeps its direction, and converting back returns to it. The polynomials between radius and distance agree with the focal surface table, and undo each other, to 1 micron from 25 to 415 mm and to 5 microns inside. The functions between radius and field angle of the nominal optics agree with their table, and undo each other, to 1 micron and 0.012 arcsec up to 415 mm.',
  ['inputs'], 'all positions on the focal plane', 'tests sample a few radii with looser tolerances',
  [L+'transform/xy2qs.py', L+'transform/tan2fp/echo22.py'], [('curved surface', L+'transform/xy2qs.py'), ('nominal optics', L+'transform/tan2fp/echo22.py')])
p('C25', 'Travel between two angles goes the requested way and ends at the final angle',
  'The signed travel from a start to a final angle (degrees, any number of revolutions) is their difference when no direction is requested or the difference has the requested direction; otherwise it is the travel the requested way round, of less than one revolution, that ends at the final angle. A travel of whole revolutions keeps their number in either direction. Start, final angle and direction may each be a single value or one per element, whatever the others are.',
  ['inputs'], 'all angles, all directions, all mixtures of single values and vectors', 'tests use one list of angles with all arguments of one length',
  [L+'transform/pos2ptl.py'], [('angle travel', L+'transform/pos2ptl.py')])
p('C26', 'Images are processed with the options given and results go to the files named',
  'Processing a camera file reads the image asked for (the only one, the named one, the last F image, or in a sequence every F image in order), subtracts from each the bias image once (that of the caller, else the default one when it exists, none when switched off) and detects spots with the requested thresholds and width. The options reach the search of fiducials, the fit and the match; each image of a sequence is fitted on its own. Spots go to the output file, in a sequence to one file per image named after it; a number of spots outside the requested limits gives no file. The transform goes to the requested JSON file, and on request the directories of both outputs are made. The kept result of an image is never used for an image with another path.',
  ['inputs', 'histories'], 'all option combinations, sequences and paths', 'tests process one simulated image with default options',
  [L+'processfvc.py'], [('image processing driver', L+'processfvc.py')])
p('C27', 'The external spot identification gets the metrology and the expected positions it is asked to match',
  'The input of match_positions describes the given data: a target file with each expected target, or each positioner of the metrology if none are given, at the pixel position of the transform in use (flag 4) and each fiducial once at the mean position of its pinholes (flag 8); the fiducial patterns as offsets of pinholes 1 to 4 from that mean; all measured spots numbered from 1 in the order given; reference positions of pinholes 1 to 4 under the numbers 515, 1027, 259 and 771 and the centers of positioners and fiducials, both with the default transform; positions with at least 3 decimals. The command names these files, the pixel scale (root of the absolute Jacobian determinant) of the transform in use, a reach of 6.6 mm in pixels of that scale, and the given match radius and verbosity. The files are private to the call. A failing program raises an error; one that only refuses the reach option is run once more without it.',
  ['inputs', 'histories', 'faults'], 'all metrologies, expected positions and spots, all outcomes of the program', 'the program is not part of the repository and no test runs it',
  [L+'spotmatch.py'], [('exchange of files with match_positions', L+'spotmatch.py')])
p('C28', 'Guide stars give the pointing, and the field rotation follows from it',
  'Reading a guide star catalogue moves each Gaia position to the date of observation with its proper motion (unknown, that is not finite or masked, motions are zero; the motion in right ascension is divided by the cosine of the declination) and keeps exactly the stars measured within the requested separation on the sky. The fit of the field model takes each star through the transform of its own petal (leaving out petals without metrology) and the corrector at the ADC angles of the model, compares it with its catalogue position projected for the current pointing, date, sidereal time, hexapod rotation and correction options, and at least three times moves the pointing by the fitted offset; arguments take precedence over settings of the model, these over the catalogue. The scales, rotation, number of stars and rms kept are those of the last step. The field rotation is the mean turn of a cross of one degree seen on the sky against the local meridian; its rates per minute agree with it or with the polynomial in hour angle (within half a turn) and declination, limited to 1.5 arcsec. The hexapod rotation of a header is the sixth focus value in arcsec.',
  ['inputs', 'configurations'], 'all catalogues, pointings, dates and options', 'tests fit one catalogue with default options',
  [L+'fieldmodel.py', L+'io.py'], [('guide star selection, field model fit, field rotation', L+'fieldmodel.py'), ('hexapod rotation', L+'io.py')])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P), 'properties')
