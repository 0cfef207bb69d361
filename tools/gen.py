import json
B='eoxmagmod/eoxmagmod/'; M=B+'magnetic_model/'
def P(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    assert len(title)<=80,(id,len(title))
    return {'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a}
ps=[
P('C01','Compiled functions never access memory outside their buffers',
 "Whatever array shapes (scalar, empty, mismatched, broadcast), numbers of dimensions, degrees, orders, time-series lengths, modes and option values a caller passes to the compiled functions, they either raise an exception or complete while reading and writing only inside the arrays passed in, the arrays returned and the temporary buffers of sufficient size allocated by the call. They never dereference a null pointer and never use memory which has been already released.",
 ['inputs','fault_sequences'],'all shapes, ranks, strides, degrees, coefficient indices, series lengths, modes and flags; every failing allocation or conversion',
 'An out of bounds access is silent unless the heap layout makes it crash; the existing tests use a handful of well-formed shapes and never run under a memory checker.',
 [B+'pymm.c',B+'pymm_sheval.h',B+'pymm_shevaltemp.h',B+'pymm_sheval2dfs.h',B+'pymm_fourier2d.h',B+'pymm_aux.h',B+'include/spherical_harmonics.h',B+'include/fourier_series.h',B+'pysunpos.c',B+'pyqd.c',B+'pytimeconv.c'],
 [('array views advanced one dimension at a time',B+'pymm_aux.h:_get_arrd_item_nocheck'),('shape checks of the inputs before the evaluation',B+'pymm_sphar_common.h'),('buffer sizes derived from the degree',B+'pymm_sheval.h:_model_init'),('coefficient index validation',B+'pymm_shevaltemp.h:_coefset_init')],
 [('ARRAY_DATA','pointer, rank, dimensions and strides of an array view',B+'pymm_aux.h'),('MODEL','work buffers of the spherical harmonics',B+'pymm_sheval.h')],['each entry point of the extension modules']),
P('C02','Compiled functions release everything they acquire exactly once',
 "On every way out of a compiled function - success, rejected arguments, failed conversion, failed allocation - each temporary array reference and each temporary memory block acquired by the call is released exactly once and nothing the call does not own is released. A returned result owns exactly the references handed over to the caller.",
 ['inputs','fault_sequences'],'all call paths including every failing conversion, allocation and argument check',
 'Leaks and double releases on the error paths are invisible to tests asserting values; none of the tests counts references or injects allocation failures.',
 [B+'pymm_sheval.h',B+'pymm_shevaltemp.h',B+'pymm_sheval2dfs.h',B+'pymm_legendre.h',B+'pyqd_eval_qdlatlon.h',B+'pymm_aux.h'],
 [('single exit block releasing the acquired objects',B+'pymm_sheval.h:sheval'),('structure destructors',B+'pymm_shevaltemp.h:_coefset_destroy'),('hand-over of the output arrays',B+'pymm_legendre.h:legendre')]),
P('C03','Failures inside of compiled functions always surface as exceptions',
 "A compiled function returns a result if and only if no step of the call failed: whenever an argument conversion, a consistency check of the arguments, a memory allocation or a library call fails the call stops and raises an exception. It never returns a result with a pending error and never fails without an exception set.",
 ['inputs','fault_sequences'],'all arguments and every failing step of each call',
 'Needs each of the failure points to fire; the tests exercise only few invalid arguments and no failing allocation or truth-value conversion.',
 [B+'pymm_sheval.h',B+'pymm_shevaltemp.h',B+'pymm_sheval2dfs.h',B+'pymm_aux.h',B+'pymm_coord.h',B+'pyqd_eval_qdlatlon.h'],
 [('error return values of the helpers',B+'pymm_aux.h'),('goto exit on error',B+'pymm_sheval.h:sheval')]),
P('C04','Results do not depend on the memory layout of the input arrays',
 "For input arrays with equal shapes and values a compiled function computes the same results whether the arrays are contiguous, sliced with a step, reversed, transposed or broadcast: each input element is always located by the strides of its own array (or read from a contiguous copy). The same element of the input always contributes to the same element of the output.",
 ['inputs'],'all strides, ranks and shapes of all the array arguments',
 'The tests pass almost exclusively freshly created C-contiguous arrays, for which ignoring or mixing up the strides makes no difference.',
 [B+'pymm_aux.h',B+'pymm_sheval.h',B+'pymm_cconv.h',B+'pymm_vrot_sph2geod.h',B+'pysunpos.h',B+'pyqd_eval_mlt.h'],
 [('strided array views',B+'pymm_aux.h:ARRAY_DATA'),('contiguity requested from the array conversion',B+'pyqd_eval_qdlatlon.h'),('coordinates read with the stride of the last dimension',B+'pymm_sheval.h:_sheval_grd')]),
P('C05','Evaluations never modify their inputs',
 "No public evaluation, conversion, coefficient or model function changes the content of an array, list or dictionary passed by the caller. The model, coefficients and dictionary objects shared between the calls are not altered by being evaluated.",
 ['inputs','histories'],'all public functions and methods and all kinds of inputs (arrays of the exact expected type, views, shared option dictionaries)',
 'Tests rarely compare the inputs after a call and mostly pass temporaries or types which get copied.',
 [B+'pymm_aux.h',B+'util.py',B+'magnetic_model/model.py',B+'magnetic_model/model_composed.py',B+'magnetic_model/model_mio.py',B+'magnetic_model/coefficients.py',B+'magnetic_model/coefficients_mio.py',B+'dipole.py',B+'magnetic_time.py',B+'solar_position.py',B+'dipole_coords.py'],
 [('outputs are always newly allocated arrays',B+'pymm_aux.h:_get_new_array'),('options copied into new dictionaries',B+'magnetic_model/model_composed.py')]),
P('C06','The value at a point does not depend on other points or previous calls',
 "A value computed for one point depends only on the coordinates, time and options of this point: it does not change with the other points evaluated by the same call, with their order, or with any previous call. Values cached between the points or calls are reused only when all quantities they were computed from are unchanged (the quasi-dipole and magnetic local time coefficients may be reused within one call for times less than one day apart).",
 ['inputs','histories'],'all batches, all orders of points and all sequences of calls',
 'The order and repetition of coordinates and times decides whether a stale cached value is used; the tests evaluate few fixed batches.',
 [B+'pymm_sheval.h',B+'pymm_shevaltemp.h',B+'pymm_sheval2dfs.h','qdipole/eval_qdlatlon.f90','qdipole/eval_mlt.f90','qdipole/apexsh.f90'],
 [('last evaluated coordinates kept with the cached series',B+'pymm_sheval.h:_model_eval'),('last evaluated time kept with the interpolated coefficients',B+'pymm_shevaltemp.h:_shevaltemp_grd'),('reload of the coefficients when the time changes','qdipole/eval_qdlatlon.f90')],
 [('clat_last, clon_last, crad_last','coordinates of the cached series',B+'pymm_sheval.h'),('time_last, time1_last, time2_last, idx_last','times of the cached coefficients',B+'pymm_shevaltemp.h'),('datafilelast, epochlast, altlastq','keys of the loaded coefficients','qdipole/apexsh.f90')]),
P('C07','Returned arrays have the common shape and are completely filled',
 "The arrays returned by a compiled function have the shape of the longest of the input arrays (followed by the documented component, series or coefficient dimensions) and each of their elements is assigned by the call; no element is left uninitialised whatever the shapes, ranks, modes and options.",
 ['inputs'],'all shapes and ranks of the inputs, all modes and flags',
 'Uninitialised memory often contains plausible numbers or zeros; only few of the shape combinations are tested.',
 [B+'pymm_sheval.h',B+'pymm_shevaltemp.h',B+'pymm_sheval2dfs.h',B+'pymm_interp.h',B+'pymm_fourier2d.h',B+'pymm_legendre.h',B+'pysunpos.h',B+'pymm_sphargrd.h','qdipole/eval_qdlatlon.f90','qdipole/eval_mlt.f90','qdipole/eval_subsol.f90'],
 [('recursion over the dimensions of the output',B+'pymm_sheval.h:_sheval_pot'),('output allocated with the common shape',B+'pymm_sphar_common.h:_extract_common_shape')]),
P('C08','No public call terminates the process',
 "Whatever the arguments (any times, coordinates, NaNs, huge values) and whatever the content of the data files (missing, unreadable, truncated, damaged), no public function or method of the package ends or kills the Python process: neither the Python modules, nor the C extensions, nor the Fortran quasi-dipole code stop, exit, abort or let the run-time library abort on a failed input/output statement. Such failures surface as exceptions or NaN results.",
 ['inputs','fault_sequences'],'all inputs of all public functions and all contents of the quasi-dipole coefficient file; every failing input/output statement',
 'A terminated process cannot be observed by a test of the same process; needs unusual times or damaged files at a particular statement.',
 ['qdipole/eval_mlt.f90','qdipole/eval_subsol.f90','qdipole/eval_qdlatlon.f90','qdipole/apexsh.f90','qdipole/apex.f90',B+'pyqd.c',B+'quasi_dipole_coordinates.py'],
 [('times restricted to the supported range','qdipole/eval_mlt.f90:eval_mlt'),('I/O status checked','qdipole/apexsh.f90:loadapxsh'),('status passed to Python',B+'pyqd_eval_qdlatlon.h:eval_qdlatlon')]),
P('C09','Arguments and results keep their meaning across Python, C and Fortran',
 "Each call crossing a language boundary (Python to the C extensions, C to the Fortran routines, Fortran to Fortran) passes the number, order and types of the arguments declared on the other side; a keyword accepted by a compiled function reaches the routine as the quantity of this name (latitude as latitude, time as time) and the results are returned in the documented order. Names and keywords used by the Python code exist in the compiled modules.",
 ['inputs','programs'],'all calls between the layers, all argument positions and keywords',
 'There is no compiler checking the calls between the languages; a swapped or mistyped argument reads plausible numbers and is seen only for inputs where the values differ enough.',
 [B+'quasi_dipole_coordinates.py',B+'pyqd_eval_qdlatlon.h',B+'pyqd_eval_mlt.h',B+'pyqd_eval_subsol.h','qdipole/cqdipole.c','qdipole/cqdipole.h','qdipole/eval_qdlatlon.f90',B+'magnetic_model/model.py',B+'magnetic_model/coefficients_mio.py'],
 [('wrappers passing the arguments by reference','qdipole/cqdipole.c'),('argument formats and keyword lists',B+'pymm_sheval.h:sheval'),('thin Python functions',B+'quasi_dipole_coordinates.py')]),
P('C10','Spherical harmonic building blocks follow their mathematical definitions',
 "For every latitude (the poles included) and degree `legendre` returns the Schmidt semi-normalised associated Legendre functions and their derivatives by the latitude, ordered n(n+1)/2+m, whichever of its algorithms is chosen by the degree. For every longitude and degree `loncossin` returns the cosines and sines of the multiples of the longitude with either algorithm, and for every radius `relradpow` returns (a/r)**(n+2) for internal and (r/a)**(n-1) for external fields.",
 ['inputs'],'all latitudes including the poles, longitudes, radii and reference radii; all degrees',
 'Sampled points and degrees do not establish a recurrence; the degree > 16 algorithm, the poles and the external series are sampled at few values only.',
 [B+'include/spherical_harmonics.h',B+'include/fourier_series.h',B+'pymm_legendre.h',B+'pymm_loncossin.h',B+'pymm_relradpow.h'],
 [('Legendre recurrences (low and high degrees)',B+'include/spherical_harmonics.h:shc_legendre'),('multiple-angle recurrence',B+'include/fourier_series.h:fs_cos_sin'),('power series of the relative radius',B+'include/spherical_harmonics.h:shc_relradpow')]),
P('C11','Potential is the spherical harmonic expansion of the given coefficients',
 "For every point, in every input coordinate system, `sheval` (modes POTENTIAL and POTENTIAL_AND_GRADIENT alike) returns the sum of the spherical harmonic expansion over all the given coefficients up to the requested degree - and only those - for internal and external fields, multiplied exactly once by `scale_potential`. `spharpot` returns the same sum from the separately calculated series, and the result is linear in the coefficients.",
 ['inputs'],'all points in the three coordinate systems, coefficients, degrees, degree limits, modes and scales',
 'The tests compare a few degrees, scales and coordinate systems to a reference at sampled points within a tolerance; a coefficient dropped or a scale applied twice in one combination of the options passes.',
 [B+'pymm_sheval.h',B+'pymm_spharpot.h',B+'include/spherical_harmonics.h',B+'include/geo_conversion.h'],
 [('summation of the expansion',B+'include/spherical_harmonics.h:shc_eval_v'),('choice of the evaluated quantity',B+'include/spherical_harmonics.h:shc_eval'),('coordinates, caches and scaling of one point',B+'pymm_sheval.h:_model_eval')]),
P('C12','Gradient is the spatial derivative of the potential in the chosen frame',
 "For every point the gradient returned by `sheval` (modes GRADIENT and POTENTIAL_AND_GRADIENT alike) is the exact spatial derivative of the potential which the same options yield: north, east and up components in the geocentric spherical or geodetic frame or XYZ in the Cartesian one, whatever the input coordinate system, internal or external field, also at the poles, each component multiplied exactly once by its own `scale_gradient`. `sphargrd` returns the same gradient in the spherical frame from the separately calculated series.",
 ['inputs'],'all points including the poles, input and output coordinate systems, coefficients, degrees, modes and scales',
 'Numeric samples cannot relate the two separately coded quantities for all points; the pole branches, the external field and most of the pairs of coordinate systems are hardly sampled.',
 [B+'pymm_sheval.h',B+'pymm_sphargrd.h',B+'include/spherical_harmonics.h',B+'include/geo_conversion.h'],
 [('gradient of the expansion',B+'include/spherical_harmonics.h:shc_eval_dv'),('azimuth component at the poles',B+'include/spherical_harmonics.h:shc_eval_dvaz_pole'),('rotation to the output frame and scaling',B+'pymm_sheval.h:_model_eval')]),
P('C13','Time-dependent evaluation equals evaluation of interpolated coefficients',
 "For every time `interp` returns the piecewise constant, piecewise linear or first-derivative interpolation of the node values (at a node the value of the interval starting there; outside of the nodes NaN, unless extrapolation is requested or, for constants, the time is past the last node), and `bisect` returns the interval holding the value for both sides. `shevaltemp` equals the static evaluation with each coefficient of its sets interpolated by its own nodes (extrapolated outside of them) and stored at its own degree and order.",
 ['inputs'],'all times (before, at, between and after the nodes), numbers of nodes, coefficient sets, orders and modes',
 'Times coinciding with nodes, single-interval series and combinations of sets with different nodes are rarely sampled.',
 [B+'include/interpolation.h',B+'include/bisect.h',B+'pymm_interp.h',B+'pymm_bisect.h',B+'pymm_shevaltemp.h'],
 [('search of the interval',B+'include/bisect.h:bisect_right'),('interpolation basis',B+'include/interpolation.h:get_interp1_basis'),('mapping of the coefficients',B+'pymm_shevaltemp.h:_coeff_set_interp1')]),
P('C14','Fourier coefficients and their evaluation follow the documented 2D series',
 "For all times `fourier2d` returns the sum of a*cos(i*scale1*t1+j*scale2*t2)+b*sin(i*scale1*t1+j*scale2*t2) over all terms of the given coefficients, with i and j starting at the given (possibly negative) minimal degrees. `sheval2dfs` equals the static evaluation, in any coordinate systems, mode and scale, with the coefficients given by this series stored at their own degree and order.",
 ['inputs'],'all pairs of times, scales, minimal degrees and numbers of terms',
 'Negative and mixed minimal degrees need an unusual set of coefficients; the existing data exercise one layout.',
 [B+'include/fourier_series.h',B+'pymm_fourier2d.h',B+'pymm_sheval2dfs.h'],
 [('cosines and sines of the negative multiples',B+'include/fourier_series.h:fs_cos_sin_neg'),('products of the two series',B+'include/fourier_series.h:fs_cos_sin_2d'),('mapping of the coefficients',B+'pymm_sheval2dfs.h')]),
P('C15','Coordinate conversions and vector rotations are exact and mutually inverse',
 "For every regular point `convert` maps geodetic (WGS84), geocentric spherical and Cartesian coordinates onto each other consistently: each pair of conversions is inverse and a path through a third system gives the same point. `vrot_sph2cart`, `vrot_cart2sph` and `vrot_sph2geod` re-express the same vector in the local frame of the given position, so they preserve its length and undo each other.",
 ['inputs'],'all points outside of the singularities, all vectors and angles',
 'Conversions agreeing at sampled points may differ elsewhere (other hemisphere, other quadrant, large height).',
 [B+'include/geo_conversion.h',B+'include/math_aux.h',B+'pymm_cconv.h',B+'pymm_vrot_sph2cart.h',B+'pymm_vrot_cart2sph.h',B+'pymm_vrot_sph2geod.h'],
 [('closed-form geodetic latitude',B+'include/geo_conversion.h:_geocentric2geodetic'),('geodetic to geocentric',B+'include/geo_conversion.h:_geodetic2geocentric'),('rotation by an angle',B+'include/math_aux.h:rot2d')]),
P('C16','Decimal years and MJD2000 times convert consistently with the calendar',
 "For every time of the Gregorian calendar (since 1583) or of the Julian one (before 1582) `mjd2000_to_decimal_year` returns the calendar year plus the elapsed fraction of that year (365 or 366 days), `mjd2000_to_year_fraction` returns the same fraction and `decimal_year_to_mjd2000` is their inverse. Non-finite times are passed through.",
 ['inputs'],'all days of the years -4700 to 4500 except for 1582 (to 9000 in the thorough run) and all fractions of a day',
 'Century and leap year boundaries are single days among a million; the tests sample few of them.',
 [B+'include/time_conversion.h',B+'pytimeconv_mjd2000_to_decimal_year.h',B+'pytimeconv_decimal_year_to_mjd2000.h',B+'pytimeconv_mjd2000_to_year_fraction.h'],
 [('year of a day',B+'include/time_conversion.h:mjd2k_to_year'),('first day of a year',B+'include/time_conversion.h:mjd2k_year_start'),('length of a year',B+'include/time_conversion.h:is_leap_year')]),
P('C28','Sun positions follow the documented algorithm for every time and place',
 "`sunpos` returns for every time, location, radius and TT offset the declination, right ascension (0 to 360 degrees), hour angle (-180 to 180 degrees), azimuth (-180 to 180 degrees, from the north eastwards) and zenith angle of the algorithm 5 of Grena (2012) in degrees: the ephemeris is evaluated for the terrestrial time, the sidereal time for the universal time, the zenith angle includes the parallax of the given radius (none for zero). The azimuth and zenith angle returned by `sunpos_original` are those of its declination and hour angle including the refraction for positive pressures, none otherwise.",
 ['inputs'],'all times, latitudes, longitudes, radii, TT offsets, pressures and temperatures',
 'The tests compare the two implementations to each other and to a few references in a few decades with tolerances which hide small terms, quadrants and the effect of the optional arguments.',
 [B+'include/sun_ephemeris.h',B+'pysunpos.h',B+'pysunpos_original.h',B+'solar_position.py'],
 [('equatorial coordinates',B+'include/sun_ephemeris.h:sunpos5equat'),('horizontal coordinates',B+'include/sun_ephemeris.h:sunpos5eq2hor'),('original algorithm',B+'include/sun_ephemeris.h:sunpos5original'),('units',B+'pysunpos.h:_sunpos')]),
P('C29','Quasi-dipole coordinates and magnetic local times are accurate',
 "`eval_qdlatlon`, `eval_qdlatlon_with_base_vectors` and `eval_mlt` return the modified apex quasi-dipole latitude and longitude, the base vectors and the magnetic local time defined by Richmond (1995) within the accuracy of the published expansion for every time and place covered by the coefficient file.",
 ['inputs'],'all times and places covered by the coefficient file',
 'References exist for a few points only.',
 ['qdipole/apexsh.f90','qdipole/eval_qdlatlon.f90','qdipole/eval_mlt.f90'],
 [('apex expansion','qdipole/apexsh.f90'),('local time','qdipole/eval_mlt.f90')]),
P('C30','Rounding errors of the results stay negligible',
 "The floating-point results of the expansions, conversions and interpolations differ from the exact ones by relative errors of the order of the rounding unit times a small factor of the degree, for all degrees and positions including the vicinity of the poles.",
 ['inputs'],'all degrees, coefficients and positions',
 'Cancellation happens for particular magnitudes only.',
 [B+'include/spherical_harmonics.h',B+'include/geo_conversion.h'],
 [('recurrence of the Legendre functions',B+'include/spherical_harmonics.h:shc_legendre_high'),('geodetic latitude',B+'include/geo_conversion.h:_geocentric2geodetic')]),
P('C17','Coefficients are interpolated in time and NaN outside of their validity',
 "`validity` of each coefficient set or model is the closed interval of its time nodes (or the given start and end, decimal years converted by the calendar), `is_valid` is true exactly for times within it, and the model evaluated at a time out of it (or NaN) returns NaN vectors. Within it the model is that of the coefficients interpolated between the adjacent nodes (linearly, or extrapolated from the last ones for times beyond nodes; the preceding node for `spline_order` 1), whatever the order in which the nodes are given. Evaluation for an array of times equals evaluations for the single times.",
 ['inputs'],'all times including exact nodes and validity bounds, all node times and orders, all coefficient values, time scales MJD2000 and decimal year',
 'The result depends on the position of each time relative to nodes and bounds of every set; the tests sample the distributed models at few times.',
 [M+'coefficients.py',M+'model.py',M+'util.py'],
 [('interpolation of a single time',M+'coefficients.py:SparseSHCoefficientsTimeDependent'),('validity',M+'coefficients.py:SHCoefficients.is_valid'),('batch of times',M+'model.py:SphericalHarmomicGeomagneticModel')]),
P('C18','Degree limits and scales select and scale exactly the requested terms',
 "`eval` of every model with `min_degree`, `max_degree` and `scale` (scalar or vector) returns the scaled sum of just the terms of the degrees within the limits, for single times and arrays of times alike; limits out of the range of the model give zero vectors within the validity. `degree` and `min_degree` are the extreme degrees of the coefficients, and the matrices returned by the coefficient objects hold each coefficient at its degree and order and zero elsewhere.",
 ['inputs'],'all degree limits, scales and coefficient values, all kinds of coefficient sets and their sums',
 'Limits interact with the sets of each sum and sequence, the batch path and the single path; the tests use few limits with few models.',
 [M+'coefficients.py',M+'model.py'],
 [('full matrices',M+'coefficients.py'),('single and batch evaluation',M+'model.py:SphericalHarmomicGeomagneticModel')]),
P('C19','Models give the same vector in every coordinate system',
 "For each pair of input and output coordinate systems (geodetic, geocentric spherical, Cartesian) a model returns the field at the given point expressed in the local frame of the output system. The dipole models and functions use the frame of the given north pole: dipole coordinates, dipole-frame expansions, dipole longitudes and magnetic universal time are those of the rotated frame, and `vrot_*`/`vrotate` re-express the vectors accordingly.",
 ['inputs'],'all points, poles, vectors and pairs of coordinate systems',
 'The tests compare a few systems at sampled points; errors limited to one pair of systems or one kind of model stay unseen.',
 [M+'model.py',M+'model_mio.py',B+'dipole.py',B+'dipole_coords.py',B+'magnetic_time.py',B+'util.py'],
 [('dipole frame',B+'dipole_coords.py'),('vector rotation',B+'util.py:vrotate'),('dipole expansion',B+'dipole.py:sheval_dipole'),('magnetic time',B+'magnetic_time.py')]),
P('C20','Sequences and sums of coefficient sets evaluate as documented',
 "Combined coefficients are the sum of their members (valid where all members are), a composed sequence evaluates by the first member valid at the time and is valid where any member is. `decompose` splits sequences and sums to parts whose evaluation at any time equals that of the whole, and unsupported combinations are rejected.",
 ['inputs'],'all times, validity intervals (disjoint, touching, overlapping, nested, with gaps, in any order) and coefficient values',
 'Overlaps, shared bounds and gaps of several intervals form many arrangements; tests use few of them.',
 [M+'coefficients.py',M+'model.py'],
 [('sequence',M+'coefficients.py:ComposedSHCoefficients'),('sum',M+'coefficients.py:CombinedSHCoefficients'),('evaluation of the parts',M+'model.py:SphericalHarmomicGeomagneticModel')]),
P('C21','A composed model is the sum of its scaled components',
 "`ComposedGeomagneticModel.eval` returns the sum of the components, each multiplied by the scale and evaluated with the options it has been pushed with (taking precedence) and those of the call, in the requested coordinate systems (also for nested composed models). Its validity is the intersection of those of the components, its parameters are their union, and an empty composed model is zero.",
 ['inputs'],'all lists of components, scales, options, coordinate systems, shapes of times and locations',
 'Components use the intermediate coordinate systems differently depending on the pair of systems; few combinations are tested.',
 [M+'model_composed.py'],
 [('sum of the components',M+'model_composed.py:ComposedGeomagneticModel.eval')]),
P('C22','Ionospheric models follow their Fourier expansion, F10.7 and Sun dependence',
 "An MIO model returns the field of the external or internal potential in the dipole frame of its pole with coefficients given by the seasonal and diurnal Fourier series at the time and magnetic universal time, multiplied by `1 + wolf_ratio * F10.7`, using the given F10.7 and subsolar point (scalars or arrays) where passed. The primary model uses the below-ionosphere expansion up to the radius `earth_radius + height` and the above-ionosphere one beyond it, and the external coefficients are converted between the two by continuity of the radial field.",
 ['inputs'],'all times, points, F10.7 values, subsolar points, options and coefficients; limited ranges of wave numbers',
 'Scalars and arrays of each optional parameter, the split by radius and degree limits form a large product of cases.',
 [M+'model_mio.py',M+'coefficients_mio.py',M+'loader_mio.py'],
 [('F10.7 and Sun dependence',M+'model_mio.py'),('Fourier coefficients',M+'coefficients_mio.py:SparseSHCoefficientsMIO'),('split by radius',M+'model_mio.py:MIOPrimaryGeomagneticModel'),('conversion',M+'loader_mio.py:convert_external_mio_coeff')]),
P('C23','Loaders represent the files exactly as their formats define',
 "Each loader (SHC, IGRF, WMM, EMM, Swarm MIO and MMA) returns coefficients with every degree, order, sign convention, time node, validity, internal/external kind and unit as defined by the file format, regardless of comments, blank lines and order of records permitted by the format. Overrides of the validity, several files and the interpolation options act as documented, and malformed files are rejected.",
 ['inputs'],'files of the formats with any values, node times, degrees and optional records',
 'The tests load the distributed files only; other valid files take other branches of the parsers.',
 [M+'loader_shc.py',M+'parser_shc.py',M+'loader_igrf.py',M+'parser_igrf.py',M+'loader_wmm.py',M+'parser_wmm.py',M+'loader_emm.py',M+'parser_emm.py',M+'loader_mio.py',M+'parser_mio.py',M+'loader_mma.py',M+'parser_mma.py'],
 [('SHC parser',M+'parser_shc.py'),('SHC loader',M+'loader_shc.py'),('MIO parser',M+'parser_mio.py'),('MMA loader',M+'loader_mma.py'),('WMM and EMM',M+'parser_wmm.py, '+M+'parser_emm.py')]),
P('C24','Times, locations and indices are matched by their leading dimensions',
 "Times and locations of any shapes, one being a leading part of the other, give the result of the longer shape with each element evaluated for its own time and location, including empty arrays, nested lists and strided views; other shapes are rejected with `ValueError`. The optional indices (F10.7, subsolar point) of the ionospheric models are matched to the result in the same way, other shapes being rejected.",
 ['inputs'],'all shapes up to four dimensions and all values',
 'The product of the shapes of each argument and model is large; the tests use equal shapes and scalars.',
 [M+'model.py',M+'model_mio.py',M+'model_composed.py',M+'util.py'],
 [('reshape of the times and locations',M+'util.py:reshape_times_and_coordinates'),('models',M+'model.py:SphericalHarmomicGeomagneticModel.eval')]),
P('C25','Field lines are traced by the documented steps in both directions',
 "`trace_field_line` returns the points, ordered from one end to the other, and field vectors in the requested coordinate systems of the line starting at the given point: each next point is the previous one moved along the field by the step relative to the radius until the radius leaves the given limits or the maximum number of steps is reached. The time and model options are passed to the model unchanged, and the options and the starting point of the caller are not modified.",
 ['inputs'],'all fields, starting points, steps, radius limits and coordinate systems; up to a few steps',
 'Only a line or two is traced by the tests, with the default options.',
 [M+'field_lines.py'],
 [('tracing of a line',M+'field_lines.py:trace_field_line')]),
P('C26','Public functions forward their arguments to the compiled code unchanged',
 "All names exported by the package and its modules are defined and each data file constant names a distributed file. The quasi-dipole, magnetic local time and solar position functions return the quantities of the compiled functions for the same arguments, element by element, with the documented defaults and the requested coefficients file (`OSError` if missing), and the simplified time conversions and `datetime_to_decimal_year` follow their definitions.",
 ['inputs'],'all arguments, positional and by keyword',
 'Wrappers are exercised by the tests for few argument patterns only.',
 [B+'__init__.py',B+'data/__init__.py',B+'quasi_dipole_coordinates.py',B+'solar_position.py',B+'time_util.py'],
 [('quasi-dipole wrappers',B+'quasi_dipole_coordinates.py'),('Sun position wrappers',B+'solar_position.py'),('time conversions',B+'time_util.py'),('data files',B+'data/__init__.py')]),
P('C27','Malformed coefficient arrays are rejected when the coefficients are created',
 "Coefficient objects accept just arrays of matching shapes: indices (N,2), coefficients (N,) or (N,T), times (T,) and a supported `spline_order`; any other combination raises `ValueError` in the constructor instead of leading to wrong evaluations later.",
 ['inputs'],'all shapes of the three arrays',
 'Only a few of the mismatches are tested.',
 [M+'coefficients.py'],
 [('array checks',M+'coefficients.py:SparseSHCoefficients')]),
]


GVN = 'global value numbering (random interpretation in a finite field) of the terms from the abstract interpretation of the clang AST: '
CLAIMED = {
 'C01': ('abstract interpretation of the clang AST of the C entry points: bounds, nullness and lifetime of every access; abstract interpretation of the Fortran IR for the subscripts',
         'All 23 entry points over the classes of shapes, ranks, degrees, modes and lists listed in lib/cdrive.py, floating point values unconstrained; the Fortran subscripts for all values of the dummy arguments.'),
 'C02': ('abstract interpretation of the clang AST of the C entry points: typestate of the references and memory blocks, balance at each exit',
         'All exits of the 23 entry points including a failure branch at every library call which may fail.'),
 'C03': ('abstract interpretation of the clang AST of the C entry points: exception state against the returned value at each exit, one failure branch per library call',
         'Each failing step of every entry point is injected in representative cases (quick) or in all cases (thorough).'),
 'C04': ('abstract interpretation of the clang AST of the C entry points: symbolic strides, each element addressed by the strides of its own array',
         'The strides are symbolic: an address is accepted only as a combination index*stride of the dimensions of the same array.'),
 'C05': ('abstract interpretation of the clang AST of the C entry points: write sets (no store into memory owned by the caller); abstract interpretation of the Python syntax trees with the arguments of the caller read only',
         'All stores of the C code and of the Fortran routines; all calls of the Python scenarios of C17 to C27 with read-only arguments.'),
 'C06': ('abstract interpretation of the clang AST of the C entry points: dependence and comparison of the value-numbered terms of the single points',
         'The terms of each element of the results are rewritten relative to its own point and must be free of other points and equal for all points; the Python evaluations of C17 to C27 are repeated after one another with their earlier results overwritten.'),
 'C07': ('abstract interpretation of the clang AST of the C entry points: definite assignment of the elements of the results and comparison of their shapes',
         'Shapes compared to the broadcast rule of each function for all listed combinations of shapes.'),
 'C08': ('reachability of process termination (abstract interpretation of the Fortran IR, call-graph closure of the C and Python sources)',
         'All statements of the Fortran routines are interpreted with abstract inputs; all C functions reachable from the method tables and all Python modules are scanned. Sound up to the listed assumptions on the run-time libraries.'),
 'C10': (GVN + 'Legendre, longitude and radius series against their definitions',
         'Degrees 0..5 and 18 (quick), up to 22 (thorough), generic point and both poles; real arithmetic.'),
 'C11': (GVN + 'potential of sheval and spharpot against the spherical harmonic expansion',
         'All modes, 9 pairs of coordinate systems, internal/external, scales, degree limits; degrees 0..4 (18 thorough); point, coefficients and scales unconstrained; real arithmetic.'),
 'C12': (GVN + 'gradient of sheval and sphargrd against the derivatives of the expansion',
         'As C11, and at both poles.'),
 'C13': (GVN + 'interp, bisect and shevaltemp against the interpolation formulas',
         'Up to 5 (8 thorough) nodes, the time at each node, in each interval and outside; sets of different nodes and orders.'),
 'C14': (GVN + 'fourier2d and sheval2dfs against the 2D Fourier series',
         'Seven layouts of positive, negative and mixed degrees; times, scales and coefficients unconstrained.'),
 'C15': (GVN + 'convert and vrot functions against the geometry of one point in all systems',
         'Generic point; the quartic solution of the geodetic latitude is compared on its algebraic branches; real arithmetic, rounding not considered.'),
 'C28': (GVN + 'positions of the Sun against the published formulas',
         'All constants, terms and quadrants for generic arguments; real arithmetic, the date conversion of sunpos_original is not considered, nor is the accuracy of the algorithm itself.'),
 'C16': ('abstract interpretation (integer and affine domains) of the terms of the conversions over a complete case split of the days',
         'All days of the years -4700..4500 but 1582 (to 9000 in the thorough run), all fractions of a day; 32 bit overflow considered.'),
 'C09': ('comparison of resolved declarations, keyword tables and traced argument roles across the language boundaries',
         'Every crossing call is resolved; roles are traced by dataflow from the keyword to the Fortran dummy argument. Roles of quantities are identified by their names.'),
}
PYE = 'abstract interpretation of the Python syntax trees with global value numbering against independent specifications: '
CLAIMED.update({
 'C17': (PYE + 'validity and interpolation', 'Sparse sets in both time scales and both orders with 1..5 nodes, combined, composed and nested ones; times at, between, before and after all nodes and bounds (generic member of each class); real arithmetic.'),
 'C18': (PYE + 'degree limits, scales and matrices', 'All limits from below the minimum to above the maximum degree, scalar and vector scales; all kinds of coefficient sets.'),
 'C19': (PYE + 'frames of the models and dipole functions', 'All nine pairs of systems, generic points, poles and vectors; real arithmetic.'),
 'C20': (PYE + 'sequences, sums, decomposition', 'Arrangements of up to four intervals including shared bounds, gaps, overlaps; times at and between all bounds.'),
 'C21': (PYE + 'sums of components', 'Up to four components of all kinds with their own options, nesting of two levels, nine pairs of systems.'),
 'C22': (PYE + 'ionospheric models', 'Three ranges of wave numbers, degrees up to 3, optional parameters absent, scalar or array.'),
 'C23': (PYE + 'parsers and loaders', 'Generated files of each format with unconstrained values; comments, blank lines, gaps, several files, malformed files.'),
 'C24': (PYE + 'shapes', 'Pairs of shapes of up to four dimensions (quick: a part of them for most models), empty arrays, lists, views.'),
 'C25': (PYE + 'field lines', 'Arbitrary field (uninterpreted), nine pairs of systems, up to 8 steps in each direction; number of steps of the default options limited by the radius.'),
 'C26': (PYE + 'wrappers and exported names', 'All exported names and data constants; all arguments unconstrained.'),
 'C27': (PYE + 'rejected shapes', 'Sixteen mismatches of each constructor.'),
})
NA = {
 'C29': 'The values depend on the contents of the coefficient file, read at run time, and on the numerics of its interpolation; no static argument bounds them. The memory safety, termination, argument passing and independence of the points of these functions are decided by C01, C03, C06-C09.',
 'C30': 'A bound of the rounding errors needs the magnitudes of all intermediate quantities; a sound interval analysis of the recurrences and cancelling sums diverges with the degree. C10-C15 decide the same formulas over the real numbers.',
}
TODO = 'the check is being built; not claimed yet'
ps.sort(key=lambda p: p['id'])
checks, na = [], []
for p in ps:
    i = p['id']
    if i in CLAIMED:
        t, note = CLAIMED[i]
        checks.append({'property': i, 'quick_cmd': './check.py %s quick' % i,
                       'thorough_cmd': './check.py %s thorough' % i, 'technique': t,
                       'level': 'other', 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, TODO)})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
base = __import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))
open(base + '/properties.jsonl', 'w').write(''.join(json.dumps(p) + '\n' for p in ps))
open(base + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
