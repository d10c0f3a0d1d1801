"""Authoring source of properties.jsonl and MANIFEST.json (run me after edits)"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, mech, level='proof', note='', observe=()):
    files = sorted({m[1].split(':')[0] for m in mech})
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe))), level, note))


DESIGN = {}
I = ['inputs']

prop('P01', 'Tide height is the harmonic sum of its constituents',
     'predict.map, predict.drift and predict.time_series return, for every date and point, exactly the sum over all the given constituents of f*(Re z cos(theta) - Im z sin(theta)), with theta and f taken at that date (with its deltat) under the selected corrections. A point is masked exactly where one of its constituents is masked, and the arguments are not modified.',
     I, 'all dates, deltat (scalar or array), complex constituents, masks, numbers and orders of constituents, all correction kinds',
     'tests compare a few model time series; the sum must hold for every constituent list, length and mask',
     [('predict.map', 'pyTMD/predict.py:map'), ('predict.drift', 'pyTMD/predict.py:drift'), ('predict.time_series', 'pyTMD/predict.py:time_series')],
     note='loops over symbolic numbers of constituents by loop rule; arguments.arguments replaced by its contract (P04-P06)')

prop('P14', 'Geodetic, Cartesian and spherical coordinates agree',
     'spatial.to_cartesian returns the ellipsoid foot point plus h times the ellipsoid normal, for any longitude convention, scalar or array, any ellipsoid; spatial.to_sphere represents its point with longitude in [0,360], latitude in [-90,90] and the Euclidean radius; spatial.to_geodetic (each method) inverts to_cartesian, longitude modulo 360. None of them modifies its arguments.',
     I, 'all finite longitudes, latitudes, heights and ellipsoids; every array length, mixtures of polar, equatorial and ordinary points',
     'no test covers mixtures of polar and other points, wrapped longitudes or other ellipsoids',
     [('to_cartesian', 'pyTMD/spatial.py:to_cartesian'), ('to_sphere', 'pyTMD/spatial.py:to_sphere'), ('to_geodetic', 'pyTMD/spatial.py:to_geodetic')],
     note='to_cartesian and to_sphere proved; the iterative inversions of to_geodetic are checked natively on a stated bound')

prop('P15', 'Local east/north/up frames are exact rigid transformations',
     'spatial.to_ENU returns the components of the vector from the reference point along the local east, north and up directions; spatial.from_ENU inverts it exactly and lengths are preserved. spatial.to_horizontal and spatial.to_zenith return elevation, azimuth (clockwise from north, in [0,360]), distance and zenith angle that represent that same vector.',
     I, 'all positions, reference points (any longitude sign, scalar), ellipsoids and array lengths',
     'tests sample a few positions; the identities must hold for every reference point and quadrant',
     [('to_ENU', 'pyTMD/spatial.py:to_ENU'), ('from_ENU', 'pyTMD/spatial.py:from_ENU'), ('to_horizontal', 'pyTMD/spatial.py:to_horizontal'), ('to_zenith', 'pyTMD/spatial.py:to_zenith')])

prop('P16', 'Angle formats and longitude conventions convert without loss',
     'spatial.to_dms returns whole degrees, whole minutes in [0,60) and seconds in [0,60) with the sign of the angle on the degrees, and spatial.from_dms returns the decimal angle degree + minute/60 + second/3600 with that sign, so that the pair is a round trip for every angle, of either sign. spatial.wrap_longitudes returns the same meridian in [-180, 180].',
     I, 'all finite angles, scalar or array, including angles below one degree, whole degrees and multiples of 360',
     'tests use single angles and random samples; small, negative and boundary angles are not reached',
     [('to_dms', 'pyTMD/spatial.py:to_dms'), ('from_dms', 'pyTMD/spatial.py:from_dms'), ('wrap_longitudes', 'pyTMD/spatial.py:wrap_longitudes')])

prop('P11', 'Tidal ellipse parameters describe the current hodograph, invertibly',
     'ellipse.ellipse returns the semi-major and semi-minor axes, inclination in [0,180) and phase in [0,360) of the ellipse traced by the velocity Re(u e^ia), Re(v e^ia) over a tidal cycle. ellipse.inverse returns the complex amplitudes whose hodograph is the given ellipse, so that inverse(ellipse(u, v)) = (u, v). Neither modifies its arguments.',
     I, 'all complex amplitudes (including zero, linear and circular motion), scalar or arrays of any length; all axes, inclinations and phases',
     'no test covers ellipse.py on general inputs; degenerate and quadrant cases are not reached',
     [('ellipse', 'pyTMD/ellipse.py:ellipse'), ('inverse', 'pyTMD/ellipse.py:inverse')])

prop('P12', 'Special functions equal their mathematical definitions',
     'The Legendre functions, fully normalised associated Legendre functions, spherical harmonics, polynomial sums, normalised angles and rotation matrices of math.py equal their definitions at every argument, for scalars and arrays, every degree and order supported; unsupported degrees are rejected. No argument is modified.',
     I, 'all arguments in the domain (end points included), degrees and orders listed in the evidence, symbolic array lengths',
     'tests compare a handful of points with scipy, not the normalisation, sign and end point behaviour of each degree and order',
     [('legendre', 'pyTMD/math.py:legendre'), ('assoc_legendre', 'pyTMD/math.py:assoc_legendre'), ('sph_harm', 'pyTMD/math.py:sph_harm'), ('polynomial_sum', 'pyTMD/math.py:polynomial_sum'), ('normalize_angle', 'pyTMD/math.py:normalize_angle'), ('rotate', 'pyTMD/math.py:rotate')],
     note='degrees are finitely many instances; each is proved for all arguments')

prop('P17', 'Reference ellipsoids and conversions between them are consistent',
     'Every named ellipsoid of crs.datum has its published parameters in both unit systems, and its derived geometric and gravimetric constants satisfy their defining formulas for any ellipsoid. spatial.convert_ellipsoid and compute_delta_h return the latitude and height of the same point (or the height difference) on the second ellipsoid, and scale_factors the inverse polar stereographic scale.',
     I, 'all ellipsoid parameters, latitudes, heights and array lengths',
     'tests compare single constants and a few points; the formulas must hold for every ellipsoid and latitude',
     [('datum', 'pyTMD/crs.py:datum'), ('convert_ellipsoid', 'pyTMD/spatial.py:convert_ellipsoid'), ('compute_delta_h', 'pyTMD/spatial.py:compute_delta_h'), ('scale_factors', 'pyTMD/spatial.py:scale_factors')],
     note='the Newton iteration of convert_ellipsoid away from poles and equator, and the limit of scale_factors at the poles, are checked natively on a stated bound')

prop('P04', 'Nodal corrections are those of the selected convention',
     'For every constituent and correction kind, arguments.nodal returns the nodal factor f and phase u (radians) of the published table of that kind, compound tides the product and sum of those of their parents, and each column depends on its own constituent, N and p alone. arguments.minor_arguments returns f and u of the 20 minor constituents in the tables used for inference. Unknown constituents are an error.',
     I, 'all node and perigee longitudes and dates, every constituent of the tables, every correction kind and M1 variant, scalar or array',
     'tests compare a few dates with a stored implementation; a wrong coefficient or column shows only for one constituent and one kind',
     [('nodal', 'pyTMD/arguments.py:nodal'), ('minor_arguments', 'pyTMD/arguments.py:minor_arguments')],
     note='each constituent and kind is an instance proved for all N, p; lists of arbitrary composition are a bounded contract')

prop('P05', 'Constituent tables, Doodson numbers and frequencies agree',
     'Every supported constituent has its published Doodson coefficients; doodson_number converts them to Doodson, Cartwright and extended form and the inverses recover them. arguments.frequency is the coefficients times the rates of the fundamental arguments (rad/s), aliasing_period the reciprocal of the aliased frequency, and _constituent_parameters and _love_numbers return their published tables. Unknown constituents, models and formalisms are errors, not wrong numbers.',
     I, 'all constituents of the tables, all correction kinds, lists of any length and order, all sampling intervals and frequencies',
     'tests look at a sample of constituents; a wrong digit is visible only for its own constituent',
     [('coefficients_table', 'pyTMD/arguments.py:coefficients_table'), ('doodson_number', 'pyTMD/arguments.py:doodson_number'), ('frequency', 'pyTMD/arguments.py:frequency'),
      ('aliasing_period', 'pyTMD/arguments.py:aliasing_period'), ('_constituent_parameters', 'pyTMD/arguments.py:_constituent_parameters'), ('_love_numbers', 'pyTMD/arguments.py:_love_numbers'),
      ('doodson.json', 'pyTMD/data/doodson.json')],
     note='finitely many constituents, each an instance; list composition and inversion of arbitrary coefficients are bounded contracts')

prop('P06', 'Equilibrium arguments follow the astronomical mean longitudes',
     'astro.mean_longitudes, doodson_arguments, delaunay_arguments and mean_obliquity evaluate their published series at every date, and arguments.arguments returns for each date and constituent G = sum of Doodson coefficients times (tau, s, h, p, n, pp, 90) modulo 360 degrees with f and u of arguments.nodal at that date. Lunar time uses the Universal Time of the date, longitudes its terrestrial time (date plus deltat, but for OTIS-type models). minor_arguments does the same for the 20 minor constituents.',
     I, 'all dates, deltat (scalar or array), constituents, correction kinds, M1 variants and the three longitude series',
     'tests compare few dates with reference values; the phase must hold at every date, order of constituents and deltat',
     [('mean_longitudes', 'pyTMD/astro.py:mean_longitudes'), ('doodson_arguments', 'pyTMD/astro.py:doodson_arguments'), ('delaunay_arguments', 'pyTMD/astro.py:delaunay_arguments'),
      ('mean_obliquity', 'pyTMD/astro.py:mean_obliquity'), ('arguments', 'pyTMD/arguments.py:arguments'), ('minor_arguments', 'pyTMD/arguments.py:minor_arguments')],
     note='polynomials and linear forms compared exactly; timescale conversions assumed as functions of the date')

prop('P07', 'Celestial to terrestrial rotations follow the IERS conventions',
     'astro.itrs is W R3(GAST) N P B, where B is the ICRS frame bias, P the IAU 2006 precession, N the nutation by the IERS series and W the polar motion of the date, each a rotation with the published angles, and so a proper rotation. astro.gast is the mean sidereal time plus the equation of the equinoxes with its complementary terms, in turns within [0, 1).',
     I, 'all dates (scalar or array of any length) and pole coordinates',
     'tests compare single matrices at one date with loose tolerances; signs and order of small rotations are not visible there',
     [('_precession_matrix', 'pyTMD/astro.py:_precession_matrix'), ('_nutation_matrix', 'pyTMD/astro.py:_nutation_matrix'), ('_nutation_angles', 'pyTMD/astro.py:_nutation_angles'),
      ('_frame_bias_matrix', 'pyTMD/astro.py:_frame_bias_matrix'), ('_polar_motion_matrix', 'pyTMD/astro.py:_polar_motion_matrix'), ('_eqeq_complement', 'pyTMD/astro.py:_eqeq_complement'),
      ('gast', 'pyTMD/astro.py:gast'), ('itrs', 'pyTMD/astro.py:itrs')],
     note='parsing of the IERS tables and orthogonality of the whole product are bounded contracts; timescale (pole, UT1) assumed')

prop('P08', 'Sun and moon positions follow their ephemeris in the rotating frame',
     'astro.solar_ecef and lunar_ecef return, for the selected ephemerides, the Cartesian coordinates in meters of the sun and moon in the earth-fixed frame: the low-precision series of Montenbruck rotated by the sidereal time, or the geocentric vector of the JPL kernel rotated by astro.itrs of the same date. One row of coordinates per date, in order.',
     I, 'all dates (scalar or array of any length), both bodies and both ephemerides',
     'tests compare the two ephemerides with loose tolerances at a few dates; a wrong small term or sign passes',
     [('solar_approximate', 'pyTMD/astro.py:solar_approximate'), ('lunar_approximate', 'pyTMD/astro.py:lunar_approximate'), ('solar_ephemerides', 'pyTMD/astro.py:solar_ephemerides'),
      ('lunar_ephemerides', 'pyTMD/astro.py:lunar_ephemerides'), ('solar_ecef', 'pyTMD/astro.py:solar_ecef'), ('lunar_ecef', 'pyTMD/astro.py:lunar_ecef')],
     note='jplephem and timescale assumed as functions of the date')

prop('P02', 'Minor constituents are inferred from the majors of the model',
     'predict.infer_minor returns the sum over the minor constituents missing from the given list of f Re(z exp(i(G + u))), where z is the admittance of the selected method applied to the given majors: fixed ratios or linear, Munk-Cartwright or FES spline interpolation in frequency for the diurnal and semidiurnal species, and equilibrium-scaled linear interpolation for long periods. A minor already given, in any case, is never added again, masked majors give masked tides, and fewer than the required majors is an error.',
     I, 'all complex amplitudes, lists of majors and minors, times, deltat, corrections, and all lengths of the series',
     'tests compare a few series with a stored or loosely similar result; a wrong weight or a doubled constituent shows only for one selection',
     [('infer_minor', 'pyTMD/predict.py:infer_minor'), ('_infer_short_period', 'pyTMD/predict.py:_infer_short_period'), ('_infer_semi_diurnal', 'pyTMD/predict.py:_infer_semi_diurnal'),
      ('_infer_diurnal', 'pyTMD/predict.py:_infer_diurnal'), ('_infer_long_period', 'pyTMD/predict.py:_infer_long_period')],
     note='the arguments f, u, G are those under the contracts of P04 to P06; lists of arbitrary composition are a bounded contract')

prop('P03', 'Long-period equilibrium tide is the published spectral sum',
     'predict.equilibrium_tide returns for every date and latitude gamma_2 = 1 + k2 - h2 (0.6932 by default) times the normalised degree two zonal harmonic of the latitude times the sum over the selected spectral lines of amplitude times cos(Doodson coefficients times the fundamental arguments), in meters. Each constituent contributes its own line only, and the mean longitudes follow the selected corrections.',
     I, 'all dates and latitudes (series, drift, map and single values of any length) and all subsets of the spectral lines',
     'tests compare one sum with another implementation; a wrong line of small amplitude is below their tolerance',
     [('equilibrium_tide', 'pyTMD/predict.py:equilibrium_tide')],
     note='fundamental arguments are those of the contracts of P06')

prop('P09', 'Solid earth tide is the IERS Conventions displacement',
     'predict.solid_earth_tide returns for each date the Cartesian displacement of the station by the degree two and three tides of the given sun and moon with latitude-dependent Love numbers, plus the out-of-phase diurnal and semidiurnal, latitude-dependent and frequency-dependent corrections of IERS 2010 chapter 7. The mean_tide system, and no other, adds the permanent displacement; unknown systems are an error. Inputs are not changed.',
     I, 'all station, sun and moon positions, all dates, Love numbers and mass ratios; one station for many dates or one per date, any length',
     'tests compare a few positions with reference values within a millimeter; corrections are smaller than that for most inputs',
     [('solid_earth_tide', 'pyTMD/predict.py:solid_earth_tide'), ('_out_of_phase_diurnal', 'pyTMD/predict.py:_out_of_phase_diurnal'), ('_out_of_phase_semidiurnal', 'pyTMD/predict.py:_out_of_phase_semidiurnal'),
      ('_latitude_dependence', 'pyTMD/predict.py:_latitude_dependence'), ('_frequency_dependence_diurnal', 'pyTMD/predict.py:_frequency_dependence_diurnal'),
      ('_frequency_dependence_long_period', 'pyTMD/predict.py:_frequency_dependence_long_period'), ('_free_to_mean', 'pyTMD/predict.py:_free_to_mean')],
     note='stations off the rotation axis; square roots and divisions are exact in the proofs')

prop('P10', 'Load and ocean pole tides are the IERS Conventions displacements',
     'predict.load_pole_tide and ocean_pole_tide return for each date and station the Cartesian displacement by the wobble m1 = x - mean x, m2 = -(y - mean y) of the pole at that date (date plus deltat, mean pole of the selected convention), by equations 7.26 and 7.29 of IERS 2010. The ocean response uses real and imaginary parts of the loading coefficients, and inputs are not changed.',
     I, 'all dates, stations, pole coordinates, loading coefficients and parameters; series, drift, map and single values of any length',
     'tests compare with another evaluation of the same formulas at few dates',
     [('load_pole_tide', 'pyTMD/predict.py:load_pole_tide'), ('ocean_pole_tide', 'pyTMD/predict.py:ocean_pole_tide')],
     note='pole and mean pole series of timescale assumed as functions of the date')

prop('P13', 'Harmonic analysis solves the least squares problem of the synthesis',
     'solve.constants gives its solver the design matrix whose columns are the mean and, per constituent, f cos(theta) and -f sin(theta) exactly as the synthesis uses them, with the heights as observations. Amplitude (not negative) and phase (in [0,360]) are the polar form of the solution, so heights synthesised from constants give these constants back. Series with too few dates or other lengths are errors.',
     I, 'all times, heights, deltat, lists of constituents, solvers, correction kinds and lengths of the series',
     'the test fits one series of one model; a design matrix that differs from the synthesis for one correction or deltat still fits closely',
     [('constants', 'pyTMD/solve/constants.py:constants'), ('time_series', 'pyTMD/predict.py:time_series')],
     note='the linear solvers of numpy and scipy are assumed to return the least squares solution; natively its normal equations are checked')

prop('P18', 'Interpolation returns the value of its method, masked without data',
     'interpolate.bilinear, spline, regulargrid and extrapolate return for each point, in its order, the bilinear, spline, regular grid or nearest valid value of the grid at its coordinates (real or complex), masked outside of the grid, where every contributing node is invalid, or beyond the cutoff. Node values are reproduced at nodes, invalid values never contaminate a valid result, and inputs are not changed.',
     I, 'all grids with increasing axes of any size, masks, real and complex values and points (inside, on nodes and edges, outside)',
     'tests interpolate a smooth analytic function inside a grid without gaps',
     [('bilinear', 'pyTMD/interpolate.py:bilinear'), ('spline', 'pyTMD/interpolate.py:spline'), ('regulargrid', 'pyTMD/interpolate.py:regulargrid'),
      ('extrapolate', 'pyTMD/interpolate.py:extrapolate'), ('_distance', 'pyTMD/interpolate.py:_distance')],
     note='interpolants of scipy are assumed (their arguments are proved; natively they are compared with the formula); extrapolate by the nearest neighbor of an assumed scipy cKDTree.query, and natively against a search of all nodes on a stated bound')

M5 = ('OTIS', 'ATLAS', 'GOT', 'FES', 'IERS')
prop('P19', 'Model grids stay the same field when extended, shifted, cropped',
     'The readers extend a grid by its own columns continued around the globe, shift it so that columns start at the base longitude with longitudes changed by whole cycles only, and crop it to every node within the bounds and buffer, each keeping coordinates, values and masks together. Staggered velocity nodes lie between a node and its western or southern neighbour (around the globe only for global grids), are wet when both are, and have their mean depth.',
     I, 'all grid sizes, axes, values, masks, base longitudes, bounds and longitude conventions',
     'tests read one model on whole grids with bounds well inside; a shifted coordinate at a seam or an edge is not sampled',
     [('_extend_array', 'pyTMD/io/%s.py:_extend_array' % m) for m in M5] + [('_extend_matrix', 'pyTMD/io/%s.py:_extend_matrix' % m) for m in M5]
     + [('_shift', 'pyTMD/io/%s.py:_shift' % m) for m in M5] + [('_crop', 'pyTMD/io/%s.py:_crop' % m) for m in M5[:4]]
     + [('_mask_nodes', 'pyTMD/io/OTIS.py:_mask_nodes'), ('_interpolate_mask', 'pyTMD/io/OTIS.py:_interpolate_mask'), ('_interpolate_zeta', 'pyTMD/io/OTIS.py:_interpolate_zeta')],
     note='axes increase with a constant step where the reader assumes it')

prop('P20', 'Tidal constants at a point are those of the model around it',
     'extract_constants of each model format returns at every point the amplitude and phase of each constituent field (heights, transports, or velocities: transport over depth) interpolated there by the method asked for on its own nodes and in the coordinate system of the model, around the globe and in any convention of longitudes, whatever the other points are. read_constants followed by interpolate_constants, once or repeatedly, gives the same constants. Points outside of the model, or whose nodes have no value (unless extrapolated within the cutoff), are masked, and only those.',
     I, 'all grids (global or regional, geographic or projected), bathymetries, masks, fields and points; formats, types, methods, extrapolation, cropping enumerated',
     'tests need downloaded models; seams, conventions, coasts and batches of points are never sampled together',
     [(f, 'pyTMD/io/%s.py:%s' % (m, f)) for m in ('OTIS', 'ATLAS', 'GOT', 'FES') for f in ('extract_constants', 'read_constants', 'interpolate_constants')],
     note='interpolation by contract (P18), grids extended, cropped and staggered by contract (P19); files by contract of their readers')

prop('P21', 'Drivers return each point and time its own tide, masked if invalid',
     'For grids, drift tracks, time series and stations, in any coordinate reference system, time standard and epoch, the compute drivers return at each point and time the tide of exactly that point and that time (with the model options, corrections and inferred minor constituents asked for), in the shape of the form, masked with the fill value exactly where its constants are invalid. Radial displacements are the component of the predicted vector along the direction of the point; tide_masks marks points in the model domain (around the globe for global grids) whose surrounding nodes are not all invalid.',
     I, 'all numbers of points and times, coordinates, dates, forms given or inferred, model formats, methods, corrections, masks',
     'tests run a few models on one form of input (and need downloads); the pairing of points, times, shapes and masks must hold for every form and size',
     [(n, 'pyTMD/compute.py:' + n) for n in ('corrections', 'tide_elevations', 'tide_currents', 'tide_masks', 'LPET_elevations', 'LPT_displacements', 'OPT_displacements', 'SET_displacements')]
     + [('data_type', 'pyTMD/spatial.py:data_type'), ('extract_coefficients', 'pyTMD/io/IERS.py:extract_coefficients'), ('read_binary_file', 'pyTMD/io/IERS.py:read_binary_file')],
     note='pyproj, timescale and scipy interpolants as functions of their arguments; model readers and predictions by contract (P01, P02, P09, P10); read_binary_file is bounded (files of up to 400 nodes)')

prop('P22', 'Constituent containers keep each field under its name, in order',
     'io.constituents keeps an ordered map of names to fields: what is appended is returned unchanged under its name and position, updates and removals affect one field only, and returned copies never alias the stored values. amplitude and phase are the polar form (amplitude exp(-i phase), phase in degrees in [0,360]) with the masks of the field. Names parsed from file names are those of the constituent, for every file of the model database, and the numbers are those of each field.',
     I, 'all fields (any size, complex values, masks), histories of appends, updates and removals; every file name of the database in plain and compressed form',
     'tests append, read and compare one model; aliasing, masks and histories are not sampled',
     [(n, 'pyTMD/io/constituents.py:constituents.' + n) for n in ('append', 'get', 'pop', 'update', 'amplitude', 'phase', 'shape', 'parse', 'doodson_number', 'cartwright_number', 'extended_doodson')]
     + [('parse_file', 'pyTMD/io/model.py:model.parse_file')],
     note='lists of up to eight fields; nested iterations of one container excluded (they share an index)')

MM = ('elevation', 'current', 'pathfinder', 'from_file', '_parse_json', 'from_dict', 'to_dict', 'serialize', 'parse_constituents', 'validate_format', 'corrections', 'file_format',
      'formats', 'ocean_elevation', 'load_elevation', 'ocean_current', 'extract_constants', 'read_constants', 'interpolate_constants', 'node_equilibrium')
prop('P23', 'A model is its database entry or definition, read by its own reader',
     'Every model of the database resolves to its entry: files under the working directory (compressed or not, all existing when verified), constituents in file order, corrections and attributes of its format; a definition file written from a model gives that model back. extract_constants, read_constants and interpolate_constants use the reader of the format with exactly the files of the type and the options asked for, and append the equilibrium node tide when asked for. The model is not changed by using it.',
     I, 'all models of the database, all formats, types, single or several files, all values of the constants and positions, repeated use',
     'tests cover a few definition files; most models need downloads, so their paths, constituents and dispatch are never run',
     [(n, 'pyTMD/io/model.py:model.' + n) for n in MM] + [('load_database', 'pyTMD/io/model.py:load_database')],
     note='readers by contract (their arguments are proved); definition files are bounded (stated examples of every format)')

prop('P24', 'Model files are read and written exactly as their format says',
     'The readers of OTIS, ATLAS-compact, TMD3, ATLAS, GOT and FES files return the coordinates, names, masks, bathymetry and complex constituents stored in the file at the places of its format, for any sizes and any number of constituents, local solutions and boundary nodes; missing values are masked. What an output function writes is what its reader returns. A constituent asked for is the one returned, wherever it is in the file.',
     I, 'all grid sizes, limits, numbers and names of constituents, boundary nodes, fill values and values; formats, types, local solutions and compression enumerated',
     'tests need downloaded models of a few sizes; offsets, strides and sign conventions for other sizes are never run',
     [(f, 'pyTMD/io/OTIS.py:' + f) for f in ('read_otis_grid', 'read_otis_elevation', 'read_otis_transport', 'read_atlas_grid', 'read_atlas_elevation', 'read_atlas_transport', 'read_constituents', 'read_netcdf_grid', 'read_netcdf_file',
                                             'output_otis_grid', 'output_otis_elevation', 'output_otis_transport', 'interpolate_atlas_model', 'combine_atlas_model', 'create_atlas_mask')]
     + [(f, 'pyTMD/io/ATLAS.py:' + f) for f in ('read_netcdf_grid', 'read_netcdf_file', 'read_netcdf_elevation', 'read_netcdf_transport', 'output_netcdf_grid', 'output_netcdf_elevation', 'output_netcdf_transport')]
     + [(f, 'pyTMD/io/%s.py:%s' % (m, f)) for m in ('GOT', 'FES') for f in ('read_netcdf_file', 'read_ascii_file', 'output_netcdf_file')],
     note='binary files as maps from offsets to values (big-endian, closed form offsets by induction over the loops); netCDF4 by an assumed contract of its containers; outputs of OTIS files as a log of the pieces written, at their positions in closed form; text files, records beyond 2 GB and the local solutions of ATLAS-compact models are bounded native checks of real files')

prop('P25', 'Spatial data files read back as what was written',
     'What to_netCDF4, to_HDF5, to_geotiff, to_ascii, to_parquet and to_file write is what from_netCDF4, from_HDF5, from_geotiff, from_ascii, from_parquet and from_file return: every value at its coordinates and time, with its fill value masked, its attributes and projection, for drift, grid and time series data of any sizes, appended or not, compressed or not, windowed or not. Reading and writing change neither the arrays nor the dictionaries given. File names match without case as whole names.',
     I, 'all sizes (equal sizes of axes included), values, extents, spacings and windows; types, formats, fill values (number, zero, NaN), groups, modes, field mappings and compression enumerated',
     'tests write a few fixed fields and do not read most of them back',
     [(f, 'pyTMD/spatial.py:' + f) for f in ('to_file', 'from_file', 'to_netCDF4', '_drift_netCDF4', '_grid_netCDF4', '_time_series_netCDF4', 'from_netCDF4', 'to_HDF5', 'from_HDF5', 'to_geotiff', 'from_geotiff', 'to_ascii', 'from_ascii', 'to_parquet', 'from_parquet', 'expand_dims', 'default_field_mapping', 'inverse_mapping', 'case_insensitive_filename')],
     note='netCDF4, h5py and GDAL by assumed contracts of their containers in the proofs, real libraries in the native trials; text and parquet files and file names are bounded native checks. Preconditions: the window of an image is given by its left and upper edges inside a north-up image; bands are read first axis first; the mask of the main field only')

prop('P26', 'Command-line programs give each point of a file its tide',
     'compute_tidal_elevations, compute_tidal_currents, compute_LPET_elevations, compute_LPT_displacements, compute_OPT_displacements and compute_SET_displacements write, for every point and time of the input file, the tide that the prediction functions give for that point (reprojected from the system of the file), that time (in its units, epoch and time standard) and the options chosen, at the same coordinates and times, with the fill value where it is not valid. Every option of the command line, or of a file of arguments, reaches the computation under its name and with its value, and without an output name the result goes to a file of its own beside the input. reduce_OTIS_files writes the part of a model inside the bounds, and writes over no file.',
     I, 'all sizes, coordinates, times and constituents; formats, data types, time standards, units, projections and options enumerated; command lines and reduced models are bounded native checks',
     'no test runs the programs',
     [(f, 'scripts/%s.py:%s' % (f, f)) for f in ('compute_tidal_elevations', 'compute_tidal_currents', 'compute_LPET_elevations', 'compute_LPT_displacements', 'compute_OPT_displacements', 'compute_SET_displacements')] + [('reduce_OTIS_files', 'scripts/reduce_OTIS_files.py:make_regional_OTIS_files'), ('main', 'scripts/compute_tidal_elevations.py:main'), ('convert_arg_line_to_args', 'pyTMD/utilities.py:convert_arg_line_to_args')],
     note='readers and writers of spatial files by their contracts (P25), predictions by theirs (P01-P10), model constants by theirs (P20); command lines and reduced OTIS models are bounded native checks. Preconditions: bounds of a reduction lie in the grid, in its own longitudes; one file for all constituents')

prop('P27', 'Coordinates are converted between the systems that were named',
     'crs().convert takes points from the system EPSG (longitude and latitude of WGS84 by default) to the system of a model (F) or back (B), always longitude or easting first, whether a system is written as a number, a name, a string or dictionary of PROJ, WKT or an object; there and back is the same point. Polar coordinates follow the formulas of their projections, and every model of the database has a system its points can be taken to and from. A name that is no system is refused with CRSError, in the programs too.',
     I, 'all points; systems, ways of writing them and directions enumerated; formulas of the projections and the systems of the database are bounded native checks',
     'tests convert a few points of three projections',
     [(f, 'pyTMD/crs.py:crs.' + f) for f in ('convert', 'get', 'transform', 'from_input', 'direction', 'is_geographic')] + [('get_projection', 'scripts/compute_tidal_elevations.py:get_projection')],
     note='pyproj by an assumed contract (a function of the two systems, axis order and direction, INVERSE undoing FORWARD)')

prop('P28', 'Former names give the result of the functions that replaced them',
     'The functions of pyTMD.time and pyTMD.eop, pyTMD.check_points, compute_tide_corrections (compute_corrections and the functions of each correction) and spatial.scale_areas call the function that replaced them once, with the same arguments whatever they are, and return its value. compute_corrections chooses by the type of correction in any case of letters and refuses unknown types. Readers accept former names of their options with the same effect.',
     I, 'all arguments (nothing is assumed of their values); names of functions, ways of passing arguments and types enumerated',
     'tests call none of the former names',
     [('pyTMD.time', 'pyTMD/time.py:convert_julian'), ('timescale', 'pyTMD/time.py:timescale'), ('pyTMD.eop', 'pyTMD/eop.py:iers_mean_pole'), ('compute_corrections', 'pyTMD/compute_tide_corrections.py:compute_corrections'), ('check_points', 'pyTMD/check_points.py:check_points'), ('scale_areas', 'pyTMD/spatial.py:scale_areas')],
     note='arguments are opaque values, so that what is proved holds for any; the functions of timescale are taken by their documentation and sampled against calendars')

prop('P29', 'Files are fetched whole from the servers named and stored where they belong',
     'The functions of pyTMD.utilities that fetch files (HTTP, FTP, CDDIS, JPL) ask the server for the file named, with the credentials given, return its contents and store them at the path wanted unless the checksum given is that of the file there; lists of files have the names and times of the server and only those that match, and a failure raises and leaves no file. The programs that fetch models (gsfc_got_tides, arcticdata_tides, aviso_fes_tides, verify_box_tpxo, usap_cats_tides) put every file of the model chosen, and of the options chosen, in its place with contents and times of the server, compressed only if it says so by its name, and replace a file only by a newer one. Times are those of their zone (UTC if none is given) wherever the computer is, and checksums, Roman numerals and addresses are what they say.',
     I, 'sampled files up to 20000 bytes, archives up to eight members, directories, times, credentials; servers, models, options and failures enumerated',
     'tests need the network and fetch a few files from live servers',
     [(f, 'pyTMD/utilities.py:' + f) for f in ('from_http', 'from_ftp', 'from_cddis', 'ftp_list', 'http_list', 'cddis_list', 'get_hash', 'get_unix_time', 'attempt_login', 'get_token')] + [(f, 'scripts/%s.py:%s' % (f, f)) for f in ('gsfc_got_tides', 'arcticdata_tides', 'aviso_fes_tides', 'verify_box_tpxo', 'usap_cats_tides')],
     level='exploration', note='rounding of times proved; the rest bounded native checks: the functions are made of calls to urllib, ftplib, tarfile and the file system, none within reach of the verifier; servers are stand-ins that record what they are asked. Preconditions: names of the members of an archive are trusted')

if __name__ == '__main__':
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for d, _, _ in P:
            assert len(d['title']) <= 80, d['title']
            assert d['statement'].count('. ') <= 2, d['id']
            f.write(json.dumps(d) + '\n')
    checks = [dict(property=d['id'], quick_cmd='./check.py %s --tier quick' % d['id'], thorough_cmd='./check.py %s --tier thorough' % d['id'],
                   technique='contract-based deductive verification of the real functions (pyvc: contracts, loop rule, callee contracts; normal-form prover + z3)' if l == 'proof' else
                   'bounded native checks of the contracts (labelled bounded, not proved)', level=l, level_note=n or 'every obligation discharged; native runs of the same contracts cross-check the axioms')
              for d, l, n in P]
    m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, scipy, sys; sys.path.append(\'/opt/veriftools/pyvenv/lib/python3.12/site-packages\'); import z3"',
             checks=checks, not_applicable=NA, notes='see DESIGN.md')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
