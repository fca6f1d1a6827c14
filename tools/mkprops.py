import json
def P(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=state or [],observe_at=obs or [],hook_needed=None))
I=['inputs']; IH=['inputs','histories']
L=[
P('C01','Julian date of a civil date and time','The Julian date computed for a calendar date and time of day (numeric fields or a UTC date-time) equals the astronomical Julian date of that instant for every Gregorian date from March 1900 to February 2100, with hours, minutes, seconds, milliseconds and, for a date-time, its full sub-second part all contributing. Consecutive civil days differ by exactly one.',I,'every date 1900-03-01..2100-02-28, every time of day','Tests evaluate a handful of dates; month/leap boundaries and the sub-second part are never hit.',['src/ext.rs'],[('jday','src/ext.rs'),('jday_datetime','src/ext.rs')]),
P('C02','Day-of-year to calendar conversion','Converting a year and a (fractional, 1-based) day of the year yields the month, day, hour, minute and second of that instant: month lengths follow the calendar with a leap day in every fourth year, and the fraction of the day is split into hours, minutes and seconds without losing any of it. For every year 1901-2099 and every valid day the result is the civil date.',I,'all years 1901-2099, all fractional days 1 <= d < 366/367','Tests check two dates; month ends, leap days and fractions near carry are a continuum.',['src/ext.rs'],[('days2mdhms','src/ext.rs')]),
P('C03','Greenwich sidereal time','The sidereal angle of an instant, given as a Julian date or as a UTC date-time, is the IAU-1982 GMST polynomial converted to radians and reduced to the interval [0, 2 pi).',I,'every Julian date / UTC date-time','Range reduction has sign cases (before/after J2000) a few sample dates do not separate; date-times exercise all calendar fields.',['src/propogation/gstime.rs','src/ext.rs'],[('gstime','src/propogation/gstime.rs'),('gstime_datetime','src/propogation/gstime.rs'),('jday_datetime','src/ext.rs')]),
P('C04','Angle units and range checks','Conversions between degrees and radians multiply by exactly 180/pi and pi/180 and are inverse to each other. The latitude/longitude variants accept every value in the closed ranges [-90, 90] / [-180, 180] degrees (and the radian equivalents), convert it, and reject everything outside by panicking.',I,'all finite angles, including range end points','No test exercises the rejection or the end points.',['src/transforms.rs'],[('degrees_lat, degrees_long, radians_lat, radians_long','src/transforms.rs')]),
P('C05','Geodetic position to earth-fixed coordinates','An earth-fixed position computed from longitude, latitude and height is the point at that height along the ellipsoid normal of the WGS-84 ellipsoid (a = 6378.137 km, b = 6356.7523142 km). At height zero the point satisfies the equation of the ellipsoid.',I,'all longitudes, latitudes and heights','Tests use one observer location.',['src/transforms.rs'],[('geodedic_to_ecf','src/transforms.rs')]),
P('C06','Inertial position to geodetic coordinates','For an inertial position off the polar axis and a sidereal angle, the geodetic result has a longitude in [-pi, pi] that differs from the right ascension minus the sidereal angle by whole turns, a latitude that is the 20-step fixed-point iterate of the WGS-84 latitude equation started from the geocentric latitude, and the height above the ellipsoid for that latitude. The conversion finishes for every finite input.',I,'all positions off the axis, all sidereal angles (any number of turns)','Tests look at single points; wrap-around for large angles, both hemispheres and negative heights are unexplored.',['src/transforms.rs'],[('eci_to_geodedic','src/transforms.rs')]),
P('C07','Rotation between inertial and earth-fixed frames','Converting from inertial to earth-fixed coordinates and back with the same sidereal angle is a rotation about the polar axis by that angle: it keeps the z component and the length of the vector, and the two directions are inverse to each other.',I,'all vectors and all sidereal angles','Tests cover three vectors at one or two angles.',['src/transforms.rs'],[('ecf_to_eci','src/transforms.rs'),('eci_to_ecf','src/transforms.rs')]),
P('C08','Look angles from an observer','Range, azimuth and elevation of a satellite seen from a geodetic observer are those of the satellite-minus-observer vector in the south-east-zenith frame at the observer: the range is the distance, the elevation is the angle above the horizontal plane, the azimuth is measured clockwise from north within [0, 2 pi]. The topocentric components are an orthonormal change of frame of that vector.',I,'all observers and satellite positions','Tests check one observer and a few satellites; azimuth quadrants are not covered.',['src/transforms.rs','src/lib.rs'],[('topocentric','src/transforms.rs'),('topocentric_to_look_angles','src/transforms.rs'),('ecf_to_look_angles','src/transforms.rs'),('Vec3::subtract','src/lib.rs')]),
P('C09','Doppler factor and vector algebra','The doppler factor is one plus the magnitude of the change of the observer-satellite distance over one second of motion divided by the speed of light in km/s, hence at least one. Vector sum, difference and distance are component-wise sum, difference and Euclidean distance.',I,'all locations, positions and velocities','Tests use a few hand-made vectors.',['src/doppler_factor.rs','src/lib.rs'],[('doppler_factor','src/doppler_factor.rs'),('Vec3','src/lib.rs')]),
P('C10','Decoding of the fields of a two-line element set','Each orbital element of a record parsed from two element lines is the number written in its fixed columns, converted to the documented unit (radians, radians per minute, the implied decimal points and exponents included), and the epoch is the Julian date of the two-digit year (57-99: 1957-1999, otherwise 2000-2056) and day. A field that is not a number is reported as an error that names the field.',I,'all pairs of text lines','Tests parse a dozen real element sets; signs, exponents, leading zeros, blanks and epoch years are combinatorial.',['src/io.rs','src/ext.rs'],[('parse_satrec','src/io.rs'),('days2mdhms','src/ext.rs')]),
P('C11','Parsing never panics','Every parsing entry point returns a record or an error value for every text whatsoever: short lines, blank lines, non-ASCII text, numbers out of range and empty input included; none of them panics or reads outside the text.',I,'all strings','Tests feed well-formed element sets and one or two malformed ones.',['src/io.rs','src/ext.rs','src/propogation/sgp4init.rs'],[('parse, parse_multiple, twoline2satrec, parse_satrec','src/io.rs')]),
P('C12','Parsing a single element set','Parsing one element set accepts exactly two non-blank lines starting with 1 and 2, or three whose second and third start with 1 and 2, takes the name from the title line (without a leading "0 "), and returns the record initialised from the two element lines, or the error of the part that failed. Any other number of lines, or other line numbers, is rejected with its own error.',I,'all strings','Tests parse one 2-line and one 3-line text.',['src/io.rs'],[('parse','src/io.rs'),('twoline2satrec','src/io.rs')]),
P('C13','Parsing a list of element sets','Parsing a text with many element sets returns, in order, one record or one error for each entry: an entry is a title line followed by two element lines, or two element lines without a title; an error carries the index of the first line of its entry, and a malformed entry does not affect the entries after it. Left-over lines are reported, and every non-blank line belongs to exactly one entry.',I,'all strings with any number of lines','Tests parse one catalogue file; mixes of titled, untitled and broken entries are unbounded.',['src/io.rs'],[('parse_multiple','src/io.rs')]),
P('C14','Recovery of the mean elements at epoch','Initialisation recovers the original (un-Kozai) mean motion and semi-major axis from the element set mean motion by the SGP4 formulas with WGS-84 constants, together with the eccentricity and inclination functions used later, and the sidereal angle at the epoch in [0, 2 pi).',I,'all eccentricities, inclinations, mean motions and epochs','Tests check a few satellites.',['src/propogation/initl.rs','src/propogation/gstime.rs'],[('initl','src/propogation/initl.rs')]),
P('C15','Initialisation of a satellite record','Initialising a record stores the elements unchanged, selects the near-earth or deep-space method by the 225 minute period, selects the atmospheric model by perigee height, computes the drag and secular coefficients of SGP4 (WGS-84), fills the lunar-solar and resonance coefficients for deep-space orbits, and ends with one propagation to the epoch whose failure is the failure of the initialisation.',I,'all orbital elements','Tests look at a handful of satellites and compare positions only.',['src/propogation/sgp4init.rs'],[('sgp4init','src/propogation/sgp4init.rs')]),
P('C16','Lunar-solar coefficients of deep-space orbits','For a deep-space orbit the solar and lunar perturbation coefficients are those of the deep-space theory for the position of the moon and the sun at the epoch and the orientation of the orbit: both bodies are treated by the same third-body formulas with their own constants.',I,'all epochs and orbital elements','Tests exercise it through one or two deep-space satellites.',['src/propogation/dscom.rs'],[('dscom','src/propogation/dscom.rs')]),
P('C17','Classification and set-up of resonances','Deep-space initialisation classifies an orbit as synchronous (24 h band), half-day (12 h band and eccentricity at least 0.5) or non-resonant, computes the lunar-solar secular rates, and for resonant orbits the tesseral coefficients, the resonance angle and its rate as in the deep-space theory.',I,'all orbits, including both sides of every band and eccentricity boundary','Tests reach at most one orbit of each class.',['src/propogation/dsinit.rs'],[('dsinit','src/propogation/dsinit.rs')]),
P('C18','Long-period lunar-solar periodics','The long-period periodic corrections of a deep-space orbit at a time are those of the theory: applied directly for inclinations of at least 0.2 rad and in Lyddane form below, with the node kept continuous, and not at all during initialisation.',I,'all times, inclinations on both sides of 0.2 rad, all node angles','Low-inclination orbits and node wrap-around are not in the tests.',['src/propogation/dpper.rs'],[('dpper','src/propogation/dpper.rs')]),
P('C19','Secular and resonance integration of deep-space orbits','Secular rates are applied in proportion to time, and for resonant orbits the mean motion and longitude are the Euler-Maclaurin integration in 720 minute steps from the epoch (or from the stored state when that lies between the epoch and the requested time), forwards or backwards, finished by one partial step; the integration ends for every finite time.',IH,'all times of either sign, all stored integrator states','Integration length depends on the requested time; tests use a few times and always start from the epoch.',['src/propogation/dspace.rs'],[('dspace','src/propogation/dspace.rs')]),
P('C20','Position and velocity by SGP4/SDP4','Propagating an initialised record by a number of minutes yields, when it succeeds, the position (km) and velocity (km/s) of the SGP4/SDP4 theory with WGS-84 constants: secular gravity and drag, deep-space secular, resonance and periodic effects for deep-space orbits, long-period terms, Kepler equation to 1e-12 or ten steps, short-period terms and orientation vectors.',I,'all initialised records and all times','Tests compare a few satellites at a few times; branches depend on orbit class, drag and eccentricity.',['src/propogation/sgp4.rs','src/propogation/dspace.rs','src/propogation/dpper.rs'],[('sgp4','src/propogation/sgp4.rs')]),
P('C21','Propagation failures are reported, with the right code','A propagation fails exactly when the mean motion is not positive (2), the mean eccentricity leaves [-0.001, 1) (1), the perturbed eccentricity of a deep-space orbit leaves [0, 1] (3), the semi-latus rectum is negative (4) or the satellite is below the surface (6), tested in that order; the returned error, its numeric code and the code stored in the record agree, and success stores 0.',I,'all records and times','The tests never see an error.',['src/propogation/sgp4.rs'],[('sgp4','src/propogation/sgp4.rs'),('SGP4Error::code','src/propogation/sgp4.rs')]),
P('C22','Propagation to a date','Propagating to a UTC date-time is propagating by the minutes between the epoch of the record and that instant, to the nanosecond of the date-time, and leaves the record unchanged.',I,'all date-times and records','Tests use one whole-second date.',['src/propogation/mod.rs','src/ext.rs'],[('propogate_datetime','src/propogation/mod.rs')]),
P('C23','Propagation does not depend on earlier calls','The result of a propagation depends only on the elements and coefficients fixed at initialisation and on the requested time: propagating the same record again, in any order of times and after failed propagations, gives the same result, and the only fields a propagation changes are the time, the error code and scratch coefficients of deep-space orbits that every propagation recomputes before use.',['histories','inputs'],'all sequences of propagations of one record','Tests propagate each record once.',['src/propogation/sgp4.rs'],[('sgp4','src/propogation/sgp4.rs')]),
P('C24','Geometry of a successful propagation','A successful propagation yields a position outside one earth radius from the centre, and a velocity in the osculating orbital plane: position and velocity are combinations of an orthonormal radial/transverse pair, so the length of the position is the computed radius and its radial speed is the computed radial rate.',I,'all successful propagations','Tests compare coordinates of a few cases only.',['src/propogation/sgp4.rs'],[('sgp4','src/propogation/sgp4.rs')]),
]
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in L))
