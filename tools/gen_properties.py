#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
SRC = "crates/tofas/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[SRC+f if "/" not in f else f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=observe, hook_needed=None)))

prop("C01","Only real Gregorian calendar dates can be constructed",
 "Constructing a calendar date from a year, month and day succeeds exactly when the year is at least -4799, the month is 1..12 and the day exists in that month under the proleptic Gregorian leap-year rule; the date then carries exactly the given numbers. Otherwise it fails, naming the first bad component in the order year, month, day. It never panics, whatever the three numbers are.",
 ["inputs"],"every triple of 32-bit signed integers",
 "The suite constructs three valid dates; no test constructs an invalid one, and the leap-year rule is a condition over all 2^32 years.",
 ["calendar.rs"],[("GregorianDate::new","calendar.rs: range checks and MTAB")],["GregorianDate::new result and fields"])
prop("C02","Calendar date to Julian date is the exact day count",
 "For every valid calendar date the Julian date conversion returns the pair (2400000.5, N) where N is exactly the number of days from 1858-11-17 to that date in the proleptic Gregorian calendar: 2000-01-01 gives 51544 and the next calendar day always gives N+1. This holds for every representable year from -4799 up, with no panic, overflow or wrap-around.",
 ["inputs"],"every valid date with year from -4799 to 2147483647",
 "Tests compare three fixed dates and a self-consistency loop over random days up to about the year 1958 in which errors of both directions can cancel; years beyond a few million are never tried.",
 ["calendar.rs"],[("GregorianDate::to_julian","calendar.rs: integer day-count formula")],["GregorianDate::to_julian"])
prop("C03","Julian date to calendar date recovers the instant",
 "For every pair of finite Julian date parts (each at most 1e9 in magnitude) whose sum is within [-32000, 1e9], in any split or order, the conversion succeeds with a date that exists in the calendar and a fraction f with 0 <= f < 1 such that the date's day number plus f equals the sum of the parts to within floating-point rounding of the parts. A sum outside the interval, or one that is not a number, is reported as a bad Julian date, and nothing panics.",
 ["inputs"],"every pair of doubles, any split of the same instant",
 "The random loop uses one split style (half-integer plus fraction in [0,1)) up to 1958; swapped or negative parts, tiny negative fractions, dates in the far future and the limits are never sampled.",
 ["calendar.rs"],[("GregorianDate::from_julian","calendar.rs: split, modulo and Fliegel-Van Flandern arithmetic")],["GregorianDate::from_julian"])
prop("C04","Date to Julian date and back is the identity",
 "Converting any valid calendar date with year from -4799 to 2700000 to its Julian date and back gives the same year, month and day and a fraction of exactly zero; adding a fraction of day f in [0,1) to the second part gives back the same date, with f to within 1e-6 day, unless f is within 1e-6 of the next midnight.",
 ["inputs"],"every valid date in the range and every fraction",
 "Sampled dates only; leap days, century rules and month ends are a vanishing share of random samples.",
 ["calendar.rs"],[("GregorianDate::to_julian / from_julian","calendar.rs")],["GregorianDate::to_julian","GregorianDate::from_julian"])
prop("C05","Time of day and fraction of day convert both ways",
 "Every fraction of day f with 0 <= f < 1 becomes hour 0..23, minute 0..59 and second in [0,60), and turning that time back into a fraction gives f to within 1e-15; f = 1 is accepted as the end of the day, and any other fraction, including one that is not a number, is refused. The fraction of any time of day is (3600*hour + 60*minute + second)/86400 to within rounding.",
 ["inputs"],"every double f; every hour, minute and second",
 "A thousand random fractions cannot reach the hour, minute and second boundaries, the end of the day or invalid values.",
 ["calendar.rs"],[("HMS::from_fraction_of_day / to_fraction_of_day","calendar.rs")],["HMS"])
prop("C06","Date-with-time and Julian date conversions keep the instant",
 "For every pair of Julian date parts the library accepts, the date-with-time conversion succeeds with a time of day strictly below 24:00:00 and equals the plain date conversion plus the time of its fraction. Converting a date-with-time to a Julian date gives the date's own two parts with the fraction of day added to the second part.",
 ["inputs"],"every accepted pair of doubles; every date-with-time",
 "No test uses the combined structure at all.",
 ["calendar.rs"],[("GregorianDateHMS::from_julian / to_julian","calendar.rs")],["GregorianDateHMS"])
prop("D01","TAI minus UTC follows the published table on every date",
 "For every valid date from 1960-01-01 on and every fraction of day in [0,1], TAI-UTC equals the value published by the IERS/SOFA for that day: the 1960-1971 offsets with their linear drift evaluated at the date plus fraction, then the leap-second count, each change taking effect on the first day of the month for which it is published. The last entry (37 s from 2017-01-01) applies to all later dates.",
 ["inputs"],"every valid date from 1960 to the year 2147483647 and every fraction in [0,1]",
 "One single date (2007-04-05) is tested; month boundaries, where the value changes, are never tried.",
 ["delta_at.rs"],[("delta_at","delta_at.rs: DAT_DATA table search and drift")],["DeltaAt::delta_at"])
prop("D02","TAI minus UTC reports what it cannot answer",
 "The TAI-UTC query reports a bad fraction exactly when the fraction of day is not within [0,1] (including when it is not a number), whatever the date; otherwise it answers that no value exists exactly for dates before 1960, and gives a value for every later date. It never panics for a valid date, whatever the year.",
 ["inputs"],"every double as fraction, every valid date",
 "Neither the error nor the pre-1960 answer is tested.",
 ["delta_at.rs"],[("delta_at","delta_at.rs: argument checks")],["DeltaAt::delta_at"])
prop("T01","Time-scale conversions shift the instant by exactly the stated offset",
 "Every time-scale conversion moves the instant, taken as the sum of the two parts, by the documented offset to within rounding: UTC to TAI by +dAT, TAI to TT by +32.184 s, TT to TDB by +dTR, UT1 to TT by +dT, TT to UT1 by -dT (seconds over 86400). UT1 to TT and back restores the instant, and the reported total of a two-part date is the sum of its parts.",
 ["inputs"],"all pairs of date parts up to 1e9 days and offsets up to 1e6 s",
 "Only the conversions TT to TDB and TT to UT1 are tested, both with offset zero, so sign, scale and constant are unconstrained.",
 ["time.rs"],[("TT/TAI/TDB/UT1 conversions","time.rs")],["TT","TAI","TDB","UT1","UTC"])
prop("T02","Two-part dates keep their precision through conversions",
 "A time-scale conversion leaves one of the two date parts bit-for-bit unchanged and adds the offset to the other; when the two parts differ, the changed part is the smaller one, so the resolution carried by the small part is never lost into the large one.",
 ["inputs"],"all pairs of date parts in either order, all offsets",
 "Tests use offset zero and always put the large part first.",
 ["time.rs"],[("comparison of the parts in each conversion","time.rs")],["TT","TAI","TDB","UT1"])
prop("A01","Angle normalisation lands in [0, 2*pi) on the same direction",
 "Normalising any finite angle yields a value w with 0 <= w < 2*pi (the double constant TWO_PI) that differs from the angle by a whole number of turns, to within rounding of one turn.",
 ["inputs"],"every finite double up to 1e6 turns in magnitude for congruence; every finite double for the range",
 "The function is tested only through the Earth rotation angle at positive arguments; negative and tiny negative angles are not reached.",
 ["common.rs"],[("anp","common.rs")],["common::anp"])
prop("A02","Earth rotation angle is the IAU 2000 linear law for every split",
 "For every UT1 date within 10000 years of J2000 given as any two parts of at most 4e6 days each, the Earth rotation angle lies in [0, 2*pi) and equals 2*pi*(0.7790572732640 + 1.00273781191135448*(UT1-2451545.0)) modulo 2*pi to within rounding (1e-7 rad when the parts are both large, and in proportion to their resolution). Exchanging the two parts gives the same angle.",
 ["inputs"],"all two-part UT1 dates in the range, both orders",
 "A thousand dates of 2000-2100 with the first part fixed at J2000; other splits, orders and earlier dates are not tested.",
 ["earth.rs","common.rs"],[("rotation_angle","earth.rs")],["earth::rotation_angle"])
prop("V01","Vector operations are the Euclidean ones",
 "Negation, scaling, addition, subtraction, dot product and norm of 3-vectors equal their mathematical definitions to within rounding of the operations, for all components of magnitude at most 1e152; normalising a vector of norm between 1e-152 and 1e152 gives a vector of norm 1 in the same direction.",
 ["inputs"],"all vectors with components up to 1e152",
 "No test checks any vector operation directly.",
 ["common.rs"],[("impl Vector for Vec3","common.rs")],["Vector trait"])
prop("V02","The angle between two vectors always exists and is in [0, pi]",
 "For any two finite vectors of norm between 1e-152 and 1e152 the angle between them is a number in [0, pi], never NaN, even when they are parallel or opposite; its cosine is the normalised dot product to within 1e-14, and exchanging the vectors gives the same angle to that accuracy.",
 ["inputs"],"all pairs of vectors in the range, including parallel and antiparallel ones",
 "The angle function is never tested, and rounding pushes the cosine above 1 only for particular vectors.",
 ["common.rs"],[("Vector::angle","common.rs")],["Vector::angle","Sun zenith angle"])
prop("M01","Matrix operations form one consistent algebra",
 "For all 3x3 matrices A, B and vectors x with entries of magnitude at most 1e152, to within rounding: composition is the matrix product A*B; application multiplies the row vector x by the matrix, so applying A.compose(B) equals applying A and then B; transposition exchanges rows and columns and is its own inverse; zero and identity act as such.",
 ["inputs"],"all matrices and vectors with bounded entries",
 "Only products of rotations about one axis and fixed products are tested; application and transposition are not tested at all.",
 ["common.rs"],[("impl Matrix for Mat3","common.rs")],["Matrix trait"])
prop("M02","Elementary rotations are right-handed rotations about the chosen axis",
 "For each axis 0, 1, 2 and every angle, the rotation matrix is orthogonal with determinant +1, leaves its axis fixed, and is the SOFA Rx/Ry/Rz matrix (cosines on the diagonal, +sin at (axis+1, axis+2), -sin at (axis+2, axis+1)); rotating by -theta is the transpose, and angle zero is the identity.",
 ["inputs"],"all three axes and all angles",
 "Tests use sums of random rotations about axis 0 that cancel, which any consistent sign convention satisfies.",
 ["common.rs"],[("Mat3::rotation","common.rs")],["Matrix::rotation"])
prop("F01","Every frame matrix is a proper rotation",
 "The frame-bias, precession, bias-precession, nutation, precession-nutation, celestial-to-intermediate, polar-motion and celestial-to-terrestrial matrices are orthogonal with determinant +1 to within 1e-12, for every date within 10000 years of J2000 in any split (parts of at most 4e6 days) and every angle argument up to 1e300.",
 ["inputs"],"all dates in the range and all angle arguments",
 "Tests compare with SOFA outputs for dates 2000-2100 only and never check the invariant elsewhere.",
 ["frames.rs","earth.rs","common.rs"],[("products of Mat3::rotation","frames.rs, earth.rs")],["bias_and_precession","nutation_matrix","precession_nutation","celestial_to_intermediate","celestial_to_terrestrial","polar_motion_matrix"])
prop("F02","The celestial-to-intermediate matrix carries the CIP and the CIO",
 "For all pole coordinates X, Y with X^2+Y^2 <= 0.99 and all |s| <= 100, to within 1e-12, the matrix built from (X,Y,s) is R3(-s) times the s=0 matrix of the IERS Conventions (rows (1-aX^2, -aXY, -X), (-aXY, 1-aY^2, -Y), (X, Y, Z) with Z = sqrt(1-X^2-Y^2) and a = 1/(1+Z)), so that its third row is (X,Y,Z), including at X=Y=0 where it is the pure rotation R3(-s). The matrix built from a bias-precession-nutation matrix uses exactly the first two elements of that matrix's third row as X and Y and the CIO locator s at that date (within 1000 years of J2000, any split) and pole.",
 ["inputs"],"all X, Y, s in the range; all dates and matrices",
 "Tests only see poles of 2000-2100, within 0.01 of the origin, and never the origin itself.",
 ["frames.rs","locator.rs"],[("celestial_to_intermediate_from_xys, _with_bpn, _with_bpn_and_xy, xy_from_bpn","frames.rs")],["frames::celestial_to_intermediate*"])
prop("F03","Nutation is the IAU 2000B series at every date",
 "For every TT date within 1000 years of J2000, in any split into two parts of at most 4e6 days, the nutation angles equal the 77-term IAU 2000B luni-solar series plus the fixed planetary offsets to within 1e-13 rad (1e-11 rad for every date within 10000 years). The result depends on the instant only, not on how it is split or ordered.",
 ["inputs"],"all two-part dates in the range",
 "A thousand dates of 2000-2100 in one split style.",
 ["frames.rs"],[("nutation","frames.rs: NALS, CLS series")],["frames::nutation"])
prop("F04","Precession quantities are the IAU 2000 polynomials at every date",
 "For every TT date within 1000 years of J2000 in any split into parts of at most 4e6 days, mean obliquity, the precession-rate corrections, the frame-bias constants, and the frame-bias, precession and bias-precession matrices equal the published IAU 1980/2000 expressions to within 1e-12 (1e-10 for every date within 10000 years).",
 ["inputs"],"all two-part dates in the range",
 "Bias and precession are tested within two days of J2000 only (where all time-dependent terms vanish), rates for 2000-2100, mean obliquity not directly.",
 ["frames.rs"],[("mean_obliquity, precession_rate, bias_and_precession, frame_bias","frames.rs")],["frames::mean_obliquity","frames::precession_rate","frames::bias_and_precession","frames::frame_bias"])
prop("F05","Precession-nutation is nutation applied after bias and precession",
 "The nutation matrix is Rx(-(eps+deps))*Rz(-dpsi)*Rx(eps) for all angles up to 100 rad in magnitude; for every TT date within 1000 years of J2000 in any split the precession-nutation matrix at a date is the nutation matrix at the corrected mean obliquity times the bias-precession matrix of that date, with the nutation angles given or, when not given, those of the IAU 2000B series, which are also what is reported as the nutation in longitude. All to within 1e-12.",
 ["inputs"],"all dates within 1000 years and all angles",
 "Tested numerically for 2000-2100 dates only; user-supplied nutation angles are never tested.",
 ["frames.rs"],[("PrecessionNutation, precession_nutation, nutation_matrix","frames.rs")],["frames::precession_nutation","frames::nutation_matrix"])
prop("F06","Celestial-to-terrestrial is polar motion x Earth rotation x intermediate",
 "For every TT and UT1 date within 1000 years of J2000 in any split and every pole position up to 100 rad, the celestial-to-terrestrial matrix is the polar-motion matrix times R3(Earth rotation angle at UT1) times the celestial-to-intermediate matrix at TT, where the polar-motion matrix is Rx(-yp)*Ry(-xp)*Rz(sp), with sp zero in the full transformation. The component form gives that same product for arbitrary matrices with entries up to 10 and angles up to 100 rad. All to within 1e-12.",
 ["inputs"],"all dates, pole coordinates, angles and matrices",
 "The full transformation is only tested with zero pole coordinates and UT1 equal to TT.",
 ["frames.rs","earth.rs"],[("celestial_to_terrestrial, celestial_to_terrestrial_from_cio_components, polar_motion_matrix","frames.rs, earth.rs")],["frames::celestial_to_terrestrial","earth::polar_motion_matrix"])
prop("L01","The CIO locator is the IAU 2000 series for s + XY/2",
 "For every TT date within 1000 years of J2000 in any split and all X, Y in [-1,1], the CIO locator s equals the published IAU 2000 series in its 66 terms and 6 polynomial coefficients minus X*Y/2, to within 1e-14 rad (1e-12 rad for every date within 10000 years); in particular s + XY/2 does not depend on X and Y.",
 ["inputs"],"all two-part dates in the range, all X and Y",
 "A thousand positive X, Y and dates of 2000-2100 in one split style.",
 ["locator.rs","fundargs.rs"],[("cio","locator.rs: SP, KS*, SS* tables")],["locator::cio"])
prop("G01","Fundamental arguments follow the IERS 2003 polynomials",
 "For every t within 10 centuries of J2000, each of the seven periodic fundamental arguments is congruent modulo one turn to its IERS 2003 polynomial to within 1e-10 rad and has magnitude below two turns; the general precession equals its polynomial to within rounding. Within 100 centuries the same holds to 1e-8 rad.",
 ["inputs"],"all t in [-10, 10] centuries",
 "Only seen through the CIO locator of 2000-2100, where an error in a small term is invisible.",
 ["fundargs.rs"],[("l03, lp03, f03, d03, om03, ve03, e03, pa03","fundargs.rs")],["fundargs::*"])
prop("E01","Earth ephemeris positions are the SOFA epv00 series",
 "For every TDB date within 100 years of J2000, in any split into two parts of at most 4e6 days, the heliocentric and barycentric positions of the Earth equal the epv00 series of the reference Fortran source (all terms of all powers of time, then the fixed rotation to the ICRF) to within 1e-11 au, and to within 1e-12 au when the first part is within 36525 days of J2000; within 1000 years, where they carry a warning, to within 1e-9 au.",
 ["inputs"],"all two-part dates in the range",
 "No test compares any ephemeris output with anything; the only test prints 24 values.",
 ["earth.rs","epv00_data.rs","fortran/epv00.for"],[("From<TDB> for EarthPosVel","earth.rs: series loops, AM matrix"),("E0..S2","epv00_data.rs")],["EarthPosVel.heliocentric.p","EarthPosVel.barycentric.p"])
prop("E02","Earth velocities are the time derivatives of the positions",
 "For every TDB date within 100 years of J2000 in any split, each returned velocity component, heliocentric and barycentric, equals the derivative with respect to time, per day, of the corresponding position component to within 1e-12 au/day (within 1000 years: 1e-10 au/day).",
 ["inputs"],"all two-part dates in the range, all twelve components",
 "Velocities are never looked at by any test.",
 ["earth.rs","epv00_data.rs"],[("xyzd accumulation","earth.rs")],["EarthPosVel.heliocentric.v","EarthPosVel.barycentric.v"])
prop("E03","The ephemeris warns exactly outside 1900-2100",
 "The Earth ephemeris carries a date-out-of-range warning exactly when the date is 100 Julian years or more from J2000 (to within rounding of the date), and it returns finite positions and velocities without panicking for every date within 10000 years.",
 ["inputs"],"all two-part dates in the range, both sides of both limits",
 "Only one day at J2000 is tested, for the absence of the warning.",
 ["earth.rs"],[("warning","earth.rs")],["EarthPosVel.warning"])
prop("K01","Only usable ellipsoids get a converter",
 "A converter is created exactly for ellipsoids with 0 <= f < 1 and positive radius (for f close enough to 1 that 1 minus the squared eccentricity rounds to zero, a bad-eccentricity error is given instead); a flattening outside the range, and then a radius that is not positive, are reported by their own errors, not-a-number values included, and the converter reports back the same ellipsoid and turns ordinary points of the equatorial plane into finite coordinates.",
 ["inputs"],"all doubles for radius and flattening, including not-a-number",
 "Only WGS84 is ever constructed.",
 ["ellipsoid.rs"],[("EllipsoidConverter::new","ellipsoid.rs")],["EllipsoidConverter::new"])
prop("K02","Geodetic to geocentric places the point on the ellipsoid normal",
 "For every WGS84-like ellipsoid (0 <= f <= 0.1, radius between 6e6 and 7e6 m), longitude, latitude in [-90,90] degrees and height up to 1e8 m in magnitude, the geocentric position is the point at that height along the unit zenith vector from the surface point whose outward normal the zenith vector is; at height zero it satisfies the ellipsoid equation. All within 1e-6 m, never an error.",
 ["inputs"],"all longitudes, latitudes, heights and ellipsoids in the range",
 "The forward conversion is only tested together with its inverse, for southern latitudes and heights below 10 km.",
 ["ellipsoid.rs"],[("geodetic_to_geocentric, Geodetic::zenith","ellipsoid.rs")],["EllipsoidConverter::geodetic_to_geocentric","Geodetic::zenith"])
prop("K03","Geocentric to geodetic respects the symmetries of the ellipsoid",
 "For WGS84 in metres or kilometres, a sphere of radius 6371 km and a Mars ellipsoid (radius 3396190 m, flattening 1/169.89), and every point between 100 km and 1e12 m from the centre (lengths in proportion to the radius on the other ellipsoids, not below 0.16 radii on the equator or four times the squared eccentricity times the radius): mirroring through the equator negates the latitude and keeps longitude and height exactly; the longitude is atan2(y,x) to rounding (0 on the axis); latitude and height depend on x and y only through their distance from the axis; the latitude is within a quarter turn and has the sign of z. Points on the axis get latitude +/-90 degrees and height |z| minus the polar radius (to 3e-14 of the distance); points on the equator get latitude 0 and, from 1000 km outwards, height distance minus the equatorial radius (to 1e-12 of the distance).",
 ["inputs"],"all points in the range, for WGS84",
 "Only southern points near the surface are tested; the equator, axis and northern hemisphere are not.",
 ["ellipsoid.rs"],[("geocentric_to_geodetic","ellipsoid.rs")],["EllipsoidConverter::geocentric_to_geodetic"])
prop("K04","Geocentric to geodetic inverts geodetic to geocentric",
 "For WGS84 in metres or kilometres, a sphere of radius 6371 km and a Mars ellipsoid (radius 3396190 m, flattening 1/169.89; latitudes there to ten times the figures below), geocentric_to_geodetic returns the true geodetic coordinates of every point whose height is between -10 km and 2000 km (latitude to 1e-11 rad, height to 1e-6 m) and of every point whose height is between -1000 km and 1e9 m (latitude to 1e-10 rad, height to 2e-4 m), lengths in proportion to the radius on the other ellipsoids; the longitude to 1e-15 rad for points off the axis. Together with geodetic_to_geocentric, accurate to 5e-8 m (5e-6 m up to 1e9 m), converting to geocentric and back restores the position.",
 ["inputs"],"all longitudes, latitudes and heights in the ranges",
 "A thousand random points in the southern hemisphere with heights up to 10 km.",
 ["ellipsoid.rs"],[("geocentric_to_geodetic","ellipsoid.rs: Fukushima's method")],["EllipsoidConverter"])
prop("K05","Degree and radian positions denote the same place",
 "Converting a position from degrees to radians multiplies longitude and latitude by pi/180 and keeps the height; converting from radians to degrees keeps the height, returns longitude in [-180,180] congruent modulo 360 and, for latitudes within [-90,90] degrees including both poles, the same latitude, all to within 1e-12 degree per 1000 degrees of input. The result is in range for every finite input and nothing panics.",
 ["inputs"],"all finite longitudes up to 1e6 degrees, all latitudes",
 "One single display of a northern position.",
 ["ellipsoid.rs"],[("From conversions between Geodetic and Geodetic360","ellipsoid.rs")],["Geodetic360","Geodetic"])
prop("S01","The Sun angle calculator is the documented pipeline",
 "For every valid date, time and position and every offset in seconds, the calculator's results are those of the library's own conversions chained as documented: UTC at date plus time plus offset/86400, TAI by the table value for the date, TT by 32.184 s, UT1 by the fixed UT1-UTC, Earth rotation angle at that UT1, heliocentric Earth at that TDB, and Sun position equal to minus the Earth position times one au rotated into the terrestrial frame of those dates.",
 ["inputs"],"all valid dates of the years -4799 to 7000, times, positions, offsets up to ten days",
 "tofas_extras has no tests at all.",
 ["crates/tofas_extras/src/sun_angle.rs"],[("SunAngleCalculator::new / compute","sun_angle.rs")],["SunAngleResult"])
prop("S02","The Sun zenith angle is the angle between local vertical and Sun",
 "For every valid date, time and position and every offset, the reported zenith angle is a number in [0, pi] and is the angle between the zenith vector at the position and the reported terrestrial Sun direction; the reported position is the geocentric WGS84 point of the given coordinates.",
 ["inputs"],"all valid dates of the years -4799 to 7000, times, positions, offsets up to ten days",
 "tofas_extras has no tests at all.",
 ["crates/tofas_extras/src/sun_angle.rs"],[("SunAngleCalculator","sun_angle.rs")],["SunAngleResult.sza","SunAngleResult.p"])
prop("X01","Results depend only on the arguments",
 "No call changes the result of a later call: for every public computation and any earlier call with other arguments (including of other functions), the result equals that of a first call in a fresh process with the same arguments.",
 ["histories","inputs"],"all pairs of successive calls with arbitrary arguments",
 "Each test calls functions in one fixed pattern and never compares against a fresh process.",
 ["common.rs","calendar.rs","delta_at.rs","earth.rs","frames.rs","locator.rs","ellipsoid.rs","time.rs"],[("absence of mutable global state","all modules")],["all public functions"])
prop("X02","Two-part Julian dates may be split and ordered freely",
 "Every dated computation of the Earth model and the frames (Earth rotation angle, nutation, precession, mean obliquity, CIO locator, frame matrices, Earth ephemeris) gives the same result for any two splits of the same instant, including with the parts exchanged: for instants within 100 Julian years of J2000 and parts of magnitude at most 4e6 days, angles and matrix elements agree to 2e-12, the Earth rotation angle (modulo whole turns) to 1e-8 rad, the Earth ephemeris to 2e-11 au and au/day.",
 ["inputs"],"all pairs of splits of an instant within 100 years of J2000",
 "Tests always put the large part first.",
 ["earth.rs","frames.rs","locator.rs","calendar.rs"],[("t = ((date1 - DJ00) + date2)/DJC and variants","all modules")],["all functions of two-part dates"])
prop("N01","Displayed dates, times, positions and reports read back as the same values",
 "A valid date is displayed as YYYY-MM-DD (a year has at least four characters, zero padded, with a minus sign when negative), a time of day as HH:MM:SS.SSSSSS, a date with time as the two separated by a space, and a position as signed latitude, longitude (degrees, 2 and 3 integer digits, 6 decimals) and height (metres, 2 decimals) separated by commas, a position in radians after its conversion to degrees. Every number read back equals the value to within half a unit of its last digit, and a time with seconds below 60 is never shown with 60 seconds (from 59.9999995 it shows 59.999999). The Sun angle report shows under each label its quantity (totals of the two-part dates, angles in degrees, elevation as 90 minus the zenith angle) to within half a unit of the documented decimals.",
 ["inputs"],"every valid date from -4799 to 2700000, every time of day, every position with |lat| <= 90 degrees, |lon| <= 360 degrees (100 rad), |height| <= 1e8 m; reports with date parts up to 4e6 days",
 "One position is displayed in the tests; the rounding of the last digit is never exercised.",
 ["calendar.rs","ellipsoid.rs","crates/tofas_extras/src/sun_angle.rs"],[("Display implementations","calendar.rs, ellipsoid.rs, sun_angle.rs")],["Display"])
prop("N02","The command-line tools report what the library computes",
 "The Julian date tool and the Sun angle tool print the values the library computes for the parsed arguments, apply the documented defaults, and refuse invalid dates and unknown arguments with an error instead of a result.",
 ["inputs"],"all argument lists","The tools are compiled but never run by the suite.",
 ["crates/tofas_extras/examples/julian_tool.rs","crates/tofas_extras/examples/sun_angle_tool.rs"],[("main","examples")],["stdout, exit status"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P), "properties")
