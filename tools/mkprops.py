#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=qtext), why_tests_cant=why,
        anchors=dict(files=files.split(),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))
IO='shipgrav/io.py'; GR='shipgrav/grav.py'; NV='shipgrav/nav.py'; UT='shipgrav/utils.py'

p('C01', 'Each nav fix gets the position and the UTC time its own line states',
 "read_nav turns every line that carries the ship's talker into one fix: latitude and longitude are degrees plus minutes/60, negative for S and W, and the time is the UTC instant of the vessel's format (logger date with the talker's clock for Atlantis, NBP, Thompson and Revelle; the line's own posix, ISO or day-of-year stamp for Ride, Sikuliaq and Langseth), to the microsecond (whole seconds for Thompson). Lines without the talker never contribute a fix or change one (for Revelle, except that the last line before a fix that begins with a date gives its date).",
 'inputs configurations', 'every supported vessel and talker, every hemisphere, date (leap years, any day of year), clock time with any number of fraction digits, field spacing variant and interleaving with other lines',
 'the tests read one short sample file per vessel and check one value; hemispheres, fractions, dates and interleavings are not sampled',
 IO+' shipgrav/database.toml', [('per-vessel date parsers and coordinate parser','shipgrav/io.py: _navcoords, _clock_time, _navdate_*')],
 observe=['return value of shipgrav.io.read_nav'])
p('C02', 'Nav series is time-sorted with one fix per time, first one winning',
 "The table read_nav returns is strictly increasing in time with exactly one row per distinct time in the input, whatever the order of lines and files; for a repeated time the first file that contributes it and, in that file, the first fix with that time give the position, and stamps, time_sec and position in a row belong to the same fix. With decimate=n each file contributes its fixes 0, n, 2n, ...; fixes with an empty latitude or longitude keep their time with the empty coordinates missing, and the sampling argument never invents times that are not in the input.",
 'inputs histories configurations', 'every sequence of files and of fixes in them (out of order, repeated, dropouts), every decimation',
 'the tests read single short ordered files only', IO,
 [('np.unique with first index, per-file interpolation and decimation','shipgrav/io.py: read_nav')],
 state=[('series','accumulated times and positions over the files read so far','read_nav: timetime, lonlon, latlat')],
 observe=['return value of shipgrav.io.read_nav'])
p('C03', 'Longitudes stay continuous across the 180 degree meridian',
 "For a track with complete coordinates that crosses +-180 degrees, does not reach the Greenwich meridian and has no other longitude step of a degree or more, read_nav returns longitudes that agree with the input modulo 360 degrees at every fix, lie on the side with more fixes (the western side when equal), and never jump by more than one degree between neighbours. A track without longitude steps of a degree or more is returned with its longitudes exactly as read, in [-180, 180].",
 'inputs histories', 'every track with steps below one degree, any number of crossings, any mix of sides, any file split, fixes exactly on the meridians',
 'no test crosses the date line at all', IO, [('shift to the majority side','shipgrav/io.py: _clean_180cross, read_nav')],
 observe=['return value of shipgrav.io.read_nav'])
p('C04', 'Readers use the right parser and talker, or return -999',
 "For every vessel, every reader uses the vessel's listed talker, BGM scale and file layout unless the caller supplies an own talker, scale or ship_function, and a supplied one always takes precedence. When there is no parser, talker, scale or matching line for the request (an unsupported vessel, a talker that is absent from a file, a vessel and talker pair without parser), the reader returns the number -999 and never a table with made-up contents.",
 'configurations inputs', 'all combinations of reader, vessel (known and unknown), talker, scale, ship_function and talker present or absent in each file',
 'tests call a few supported vessel and reader pairs; the product of options is not enumerated', IO+' shipgrav/database.toml',
 [('dispatch chains and sentinel returns','shipgrav/io.py: read_nav, read_bgm_rgs, read_bgm_raw, read_dgs_laptop, read_dgs_raw')],
 observe=['return values of the readers'])
p('C05', 'BGM readers return every record with its time, counts and scaled gravity',
 "read_bgm_raw returns one row per line, in order, with the integer counts as written, the UTC time of the line and rgrav equal to scale times counts, where scale is the caller's or the vessel's; read_bgm_rgs returns one row per line with the line's UTC time, gravity, latitude and longitude as written. No row is lost, repeated, reordered or truncated, whatever the width of the numbers; numbers come in numeric columns and times in a time column.",
 'inputs configurations', 'every BGM file of the Atlantis, Thompson, Revelle, Langseth and RGS layouts, any counts width, any date, one or several files',
 'tests check the first value of one sample file per vessel', IO, [('column selection, converters and scale','shipgrav/io.py: read_bgm_raw, _bgmserial_*, read_bgm_rgs')],
 observe=['return values of read_bgm_raw, read_bgm_rgs'])
p('C06', 'DGS laptop readers put every field in its named column',
 "read_dgs_laptop returns one row per data line, in order, each named column holding the number the vessel's layout puts there, and date_time the UTC time of the line's time fields; header lines are skipped where the layout has one (Sikuliaq). For Langseth the optional prefix is removed and exactly the lines without 26 fields (or with a broken prefix) are left out, the rest unaffected. The columns can be computed with: numbers come in numeric columns and date_time as a time column with zone UTC, also when one of several Langseth files has no usable line.",
 'inputs configurations fault_sequences', 'every laptop file of every supported vessel, any field values, any pattern of malformed lines for Langseth',
 'tests check one value of a sample file for each vessel', IO, [('column lists and line filter','shipgrav/io.py: read_dgs_laptop, _dgs_laptop_*')],
 observe=['return value of read_dgs_laptop'])
p('C07', 'DGS raw reader maps columns, scales monitors once and finds the times',
 "read_dgs_raw returns one row per record with the named columns holding the fields of the vessel's layout; the four cross-coupling monitors ve, vcc, al, ax (and only they) are multiplied by exactly 1e-5, once, when scale_ccp is true and are as written when it is false. date_time is the UTC time the record states: the yyyymmddHHMMSS field, or, when the clock of the meter is not synchronised, the logger's time stamp in front of the record, and is absent when there is neither; numbers come in numeric columns.",
 'inputs configurations', 'every raw file of the general, Thompson and Sikuliaq layouts, scale_ccp on and off, synchronised or not, with or without logger stamp',
 'tests check one value of a sample file for each layout', IO, [('column lists, regex extraction and scaling','shipgrav/io.py: read_dgs_raw, _dgs_raw_*')],
 observe=['return value of read_dgs_raw'])
p('C08', 'Feed extraction returns every line of the feed and only those',
 "read_other_stuff returns one row for each line of the data file that contains the tag, in file order and including the last line whether or not it ends in a newline, with the comma-separated fields after the tag under the names the yaml gives and the text in front of the tag in column mystery, numbers as numbers and other text unchanged. The tag may be given with or without $, the returned column information is that of the named fields, and a tag missing from the yaml or from the data file raises instead of returning data.",
 'inputs histories', 'every mix of feed lines and other lines, any position of feed lines, line ends \\n or \\r\\n, numeric and text fields',
 'one test reads one file with one tag', IO, [('line scan and split','shipgrav/io.py: read_other_stuff')],
 observe=['return value of read_other_stuff'])
p('C09', 'Reading several files equals reading each and concatenating in order',
 "For every gravity reader, reading a list of files gives exactly the rows of the files read one by one, concatenated in list order with a fresh 0..n-1 index; a single path given as a string equals a list of that one path, and the progress bar setting never changes the result.",
 'inputs histories', 'every reader and vessel, every list of files (repeated files and any order included)',
 'tests pass one path, except a few', IO, [('per-file loop and concatenation','shipgrav/io.py: read_bgm_rgs, read_bgm_raw, read_dgs_laptop, read_dgs_raw')],
 observe=['return values of the gravity readers'])
p('C10', 'Status bits decode exactly, most significant bit first',
 "decode_dgs_status_bits maps every integer from 0 to 65535 to the 16 documented flags, the first flag being the most significant bit, each '0' or '1', so that the integer is recovered from the flags; for a DataFrame it adds one column per flag in the documented order right after the first column, row by row equal to the integer decoding, and leaves every other column and the order of rows as they were, whatever the name of the status column.",
 'inputs', 'all 65536 status values; tables with any rows, index and key column', 'one test decodes one integer',
 UT, [('16-digit binary formatting and flag list','shipgrav/utils.py: decode_dgs_status_bits')], observe=['return value of decode_dgs_status_bits'])
p('C11', 'Gaussian filter is the documented causal weighted window',
 "gaussian_filter(x, fl) returns, for each sample i, the sum over the last n samples up to i of tap times sample, with zeros before the start, where the taps are fixed for a given fl, positive, symmetric, n = 2*floor(fl/2)+1 in number and sum to 1, with weights exp(-((h-j)*6/fl)^2/2) for j = h+1..1 (h = floor(fl/2)) running from the middle outwards. So it is linear, causal and time-invariant, keeps constants after n samples, and input not longer than fl is refused.",
 'inputs', 'every filter length and every series (impulses, constants, noise)', 'one test filters one series with one length',
 UT, [('ring buffer and tap construction','shipgrav/utils.py: gaussian_filter, _gaussian_coeffs')],
 state=[('ring_buffer','the last n samples','gaussian_filter')], observe=['return value of gaussian_filter'])
p('C12', 'Cleaned ini files are valid toml with the same sections, keys and values',
 "clean_ini_to_toml writes <name>.toml beside <name>.ini, leaves the ini file unchanged and returns the new path; reading the result as toml gives exactly the sections and keys of the ini file, with numbers as numbers, TRUE and FALSE as booleans, quoted text (without backslashes) as that text and any other value (which may contain = signs, $, quotes or backslashes) as its trimmed text. // comments outside quotes, tabs and $ talker prefixes of keys never end up in keys or values; section and key names are made of letters, digits, - and _.",
 'inputs', 'every ini file made of section lines, comment lines, blank lines and key=value lines in the DGS style',
 'no test runs this function', UT, [('line rewriting','shipgrav/utils.py: clean_ini_to_toml')], observe=['the toml file written, the path returned'])
p('C13', 'Line picking: selections follow the clicks exactly, last in first out',
 "For every sequence of mouse events, the picked segment is the stack left by the clicks so far: a left click pushes the lon, lat and row of the sample closest in time to the click, a right click pops the last one, other buttons and moves change nothing, and the three lists and the red markers always agree. Moving inside the first axis shows the cross-hair at the first sample at or after the pointer (the last one beyond the end) with the map dot at the sample of that time, and leaving hides it.",
 'histories', 'every sequence of move, leave, left, middle and right click events over any data set', 'the test replays one fixed short sequence',
 UT, [('event handlers','shipgrav/utils.py: _SnappingCursor')], state=[('x_seg,y_seg,i_seg','stack of picked points','_SnappingCursor'),('_last_index','sample under the cursor','_SnappingCursor')],
 observe=['x_seg, y_seg, i_seg, scatters, dot, horizontal_line, vertical_line of the cursor object'])
p('C14', 'East and north velocities are exact for smooth tracks, edges are NaN',
 "latlon_to_EN returns north and east velocities in m/s of the WGS84 ellipsoid: meridian radius times latitude rate and prime-vertical radius times cos(latitude) times longitude rate, the rates being the 10-point Taylor central difference (exact for polynomial tracks up to degree 10) times freq. Exactly the first and last five values are NaN, the output has the input's length, and mismatched lengths or fewer than 11 points are refused.",
 'inputs', 'every track and frequency: signs and order of hemispheres, steady, accelerating and turning', 'one test checks one synthetic track',
 NV, [('differentiator and radii','shipgrav/nav.py: latlon_to_EN')], observe=['return value of latlon_to_EN'])
p('C15', 'Course, speed and frame rotation are consistent in every quadrant',
 "ENvel_to_course_heading(ve, vn) gives vel >= 0 and heading in [-180, 180] degrees clockwise from north with ve = vel*sin(heading) and vn = vel*cos(heading). rotate_acceleration_EN_to_cl gives along = E*sin(heading)+N*cos(heading) and cross = E*cos(heading)-N*sin(heading): it preserves length, inverts exactly, and acceleration along the course is purely along.",
 'inputs', 'all directions (axes and all quadrants), magnitudes and headings of any turn count', 'one test for each function at a few points',
 NV, [('formulas','shipgrav/nav.py: ENvel_to_course_heading, rotate_acceleration_EN_to_cl')], observe=['return values'])
p('C16', "Tide prediction follows Longman's 1959 formulas for every place and instant",
 "longman_tide_prediction returns for each sample Longman's lunar plus solar vertical tide in mGal times the factor 1.1575 from the Love numbers, using the UTC instant of the time given (whatever its time zone), east-positive longitude, latitude and altitude; with return_components it returns total, lunar and solar with total equal to their sum. Each sample depends on its own place and time only.",
 'inputs', 'every place, altitude and instant (to the second) of 1900 to 2100, any time zone', 'one test checks one place and a short series',
 GR, [('series and geometry','shipgrav/grav.py: longman_tide_prediction, _convert_datetime_tidetime')], observe=['return value of longman_tide_prediction'])
p('C17', "Eotvos correction is Harlan's, from centred differences at the given rate",
 "eotvos_full returns an array of the input's length whose interior values are the vertical inertial acceleration of the moving platform minus the Earth's own centrifugal term, in mGal, by Harlan's ellipsoidal formula with centred differences scaled by the sampling rate; the first and last values repeat their neighbours. A platform at rest has zero correction, and center_diff(y, n, samp) is exact for quadratics for n = 1 and 2, any other order giving -999.",
 'inputs configurations', 'every track (position, height, speed, course), sampling rate and ellipsoid', 'one test checks one value of one track',
 GR, [('formula and differences','shipgrav/grav.py: eotvos_full, center_diff')], observe=['return values of eotvos_full, center_diff'])
p('C18', 'Normal gravity and free-air corrections follow their closed forms',
 "wgs_grav gives the WGS84 (Somigliana) normal gravity in mGal and free_air_second_order the second-order free-air correction for height and latitude, with the free-water gradient when free_water is set; both are even in latitude, accept scalars and arrays element by element, and the correction is zero at height zero and negative for small positive heights.",
 'inputs', 'all latitudes, heights of both signs, scalars and arrays, both settings of free_water', 'tests check one value for each, free_water never',
 GR, [('formulas','shipgrav/grav.py: wgs_grav, free_air_second_order')], observe=['return values'])
p('C19', 'Cross-coupling fit uses every long gap-free section and only within sections',
 "calc_cross_coupling_coefficients splits the data exactly at time steps longer than five sample intervals, skips sections of fewer than 1000 samples, and returns for each other section its twice-differentiated, low-passed and end-trimmed signals (section length minus 420 rows, no sample of another section involved), concatenated in order. The model is the least-squares fit with constant of minus the gravity signal on these monitors, so coefficients of data built from known couplings are recovered.",
 'inputs histories', 'every pattern of gaps (none, at the ends, several, short sections), any sample rate, any monitors', 'one test fits one gap-free series',
 GR, [('segment loop, derivative, filter and trims','shipgrav/grav.py: calc_cross_coupling_coefficients')], observe=['returned table and model parameters'])
p('C20', 'Platform up-vectors are unit vectors from the tilt filter recursion',
 "up_vecs returns a 3xN array of unit vectors: the cross and long accelerations divided by gravity, with NaNs and samples where on_off is positive set to zero, pass the two-pole platform tilt filter of the given period, damping and interval, and the filtered tilts are applied as two rotations whose order alternates from sample to sample. Zero acceleration gives exactly (0, 0, 1), and a sample never depends on later ones.",
 'inputs histories', 'every acceleration history, on_off and NaN pattern, period, damping and sampling interval', 'one test checks one value',
 GR, [('tilt filter and rotations','shipgrav/grav.py: up_vecs, _tilt_filter, _calc_up_vecs')], state=[('filter memory','last two inputs and outputs of each axis','lfilter in up_vecs')], observe=['return value of up_vecs'])
p('C21', "1-D topography gravity is Parker's series on the edge-padded profile",
 "grav1d_padded returns for each input point the gravity in mGal of the density contrast across the topography by Parker's series to fifth order, on the profile extended on both sides by twice its length with the end values, with Fourier wavenumbers 2*pi*|k| of that grid and upward continuation by zlev minus the mean level. This holds for even and odd numbers of points.",
 'inputs', 'every profile (length, spacing, relief), level and density', 'one test compares one profile with one value', GR, [('series','shipgrav/grav.py: grav1d_padded')], observe=['return value'])
p('C22', "2-D topography gravity is Parker's series, with and without folding",
 "grav2d_folding returns on the input grid the gravity in mGal by Parker's series of the chosen order for the surface relative to its mean, continued to the mean level plus dz, with correct 2-D Fourier wavenumbers; with ifold the grid is mirrored in both directions first. This holds for all combinations of even and odd and unequal grid sizes and spacings.",
 'inputs configurations', 'every grid shape, spacing, relief, density, offset, order, and both settings of ifold', 'one test checks one square folded grid', GR, [('folding, wavenumbers and series','shipgrav/grav.py: grav2d_folding')], observe=['return value'])
p('C23', 'Variable-density layer gravity is the exact Fourier layer response',
 "grav2d_layer_variable_density returns 2*pi*G times the density grid filtered by (exp(-k z1)-exp(-k z2))/k with the zero wavenumber removed, in mGal, so it is linear in density, adds up for stacked layers and gives zero for a uniform layer.",
 'inputs', 'every grid shape, spacing, density and depth range', 'one test checks one grid', GR, [('wavenumbers and transfer function','shipgrav/grav.py: grav2d_layer_variable_density, _kvalue')], observe=['return value'])
p('C24', 'Half-space cooling model and its isotherm are exact inverses',
 "therm_halfspace returns T = Tm*erf(z/(2*sqrt(k*t))) on the (depth, age) grid and the subsidence 2*rhom*a*Tm/(rhom-rhow)*sqrt(k*t/pi), with t from the age in Myr (time=True) or from distance of either sign over the spreading rate; therm_Z_halfspace returns the same subsidence and the depth at which that T equals the requested temperature.",
 'inputs configurations', 'all ages or distances, depths, rates, temperatures and material constants, both settings of time', 'tests check single values', GR, [('formulas','shipgrav/grav.py: therm_halfspace, therm_Z_halfspace')], observe=['return values'])
p('C25', 'Plate cooling model follows its series and its isotherm is the nearest node',
 "therm_plate returns Tm*(z/L + sum over n=1..10 of 2/(n*pi)*exp(-n^2*pi^2*k*t/L^2)*sin(n*pi*z/L)) on the (depth, age) grid, exactly Tm below the plate, and the subsidence rhom*a*Tm*L/(rhom-rhow)*(1/2 - sum over n=1,3,5 of 4/(n*pi)^2*exp(-n^2*pi^2*k*t/L^2)); therm_Z_plate returns for each isotherm and age the grid depth whose temperature in that model is closest (the shallowest such depth).",
 'inputs configurations', 'all ages or distances, depths, plate thicknesses, rates and constants, both settings of time', 'tests check single values', GR, [('series and grid search','shipgrav/grav.py: therm_plate, therm_Z_plate')], observe=['return values'])
p('C26', 'Crustal thickness is the tapered downward continuation of the residual',
 "crustal_thickness_2D returns (in km) minus the residual about its mean, continued downward by zdown and divided by 2*pi*G*rho, with a cosine taper from wavelength wlarge to wsmall and nothing beyond, in one or two dimensions and for even and odd sizes; with back=True it also returns the gravity the retained wavelengths reproduce, mean restored. Thickness is linear in the residual, has zero mean and does not change when a constant is added to the gravity.",
 'inputs configurations', 'every residual, grid size, spacing, depth, density and taper, with and without back', 'one test compares one line, and its value is tied to the code', GR, [('wavenumbers, taper and transforms','shipgrav/grav.py: crustal_thickness_2D')], observe=['return value'])
p('C27', "Calls never change the caller's data and never depend on earlier calls",
 "No function of io, nav, grav or utils changes the arrays, lists or files it is given (decode_dgs_status_bits on a table excepted, which adds its columns to it), and read-only arrays are accepted. The result of a call depends on its arguments and the files it names only: any sequence of other calls before it, and repeating it, give the identical result.",
 'histories inputs', 'every interleaving of calls of the public functions, every argument', 'each test makes one call on fresh data',
 ' '.join([IO,NV,GR,UT]), [('copies and absence of module state','all public functions')], observe=['arguments after the call; results of repeated calls'])
p('C28', 'A whole survey reduces, from its files, to the correct free-air anomaly',
 "For every vessel and meter, in whatever order and however split the files are given: reading the nav and meter files, putting the records in time order and reducing them with the package's functions as the examples do gives every dated record once, at the position on the line between its nearest fixes before and after. Its free-air anomaly in mGal is its gravity (calibrated with the values of the meter's ini file if it is raw counts, plus the bias of the tie) minus normal gravity and free-air correction, plus Eotvos correction and tide at that place and time, so the time scales, units, signs, orders of rows and missing values of readers and corrections fit together.",
 'inputs configurations histories', 'every vessel and meter, order and split of files, sample rate, place and time', 'no test takes a survey from its files to an anomaly',
 ' '.join([IO,GR,UT]), [('reading, joining and reducing','shipgrav/io.py: read_nav, read_bgm_rgs, read_bgm_raw, read_dgs_laptop, read_dgs_raw; shipgrav/utils.py: clean_ini_to_toml; shipgrav/grav.py: wgs_grav, free_air_second_order, eotvos_full, longman_tide_prediction; example-scripts/dgs_raw_comp.py, example-scripts/dgs_bgm_comp.py')], observe=['time, position, corrections, full field and free-air anomaly of every record'])
p('C29', 'A track gives the accelerations in the ship frame and the platform attitude',
 "Chaining the functions as documented (latlon_to_EN, the exported differentiator tay10 applied to the velocities, ENvel_to_course_heading, rotate_acceleration_EN_to_cl, normal gravity, up_vecs) gives for every track the velocity on the ellipsoid, course, the cross- and along-track acceleration in mGal and the up-vector of a platform that these accelerations drive. A straight track at constant speed leaves the platform level; a turn to starboard shows as cross, a change of speed as along acceleration; samples lost at the ends or at gaps are missing where they are needed and do not drive the platform.",
 'inputs histories', 'every track (steady, turning, in a swell, still, with gaps), sampling rate and platform', 'tests check each function alone on one series',
 ' '.join([NV,GR]), [('kinematics','shipgrav/nav.py: latlon_to_EN, ENvel_to_course_heading, rotate_acceleration_EN_to_cl, tay10; shipgrav/grav.py: tay10'),('platform','shipgrav/grav.py: wgs_grav, free_air_second_order, up_vecs; example-scripts/dgs_ccp_calc.py')], state=[('platform','tilt filter memory','lfilter in up_vecs')], observe=['velocities, course, speed, accelerations and up-vectors of every sample'])
p('C30', 'Stripping layers and cooling mantle from a profile gives its Bouguer anomaly',
 "Taking grav1d_padded of sea floor, basement and Moho off a free-air profile gives its mantle Bouguer anomaly, and taking off that of the isotherms of therm_Z_halfspace below the Moho too gives the residual: each interface counts once, with its own depth and density contrast in consistent units (m, kg/m^3, mGal, Myr or distance and rate). An interface that is flat attracts nothing, whatever its depth.",
 'inputs configurations', 'every profile of depth, sediment and age (or distance), crust, densities and set of isotherms', 'tests check the functions alone, each on one input',
 GR, [('layers and isotherms','shipgrav/grav.py: grav1d_padded, therm_Z_halfspace; example-scripts/RMBA_calc.py')], observe=['both anomalies along the profile'])
for q in P:
    assert len(q['title'])<=80, q['id']
    n=q['statement'].count('. ')+1
    assert n<=3,(q['id'],n)
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
