#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the prose stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="src/propogation/"
p("C01","Near-Earth predictions follow the published SGP4 model",
  "For every well-formed two-line element set of an orbit with a period below 225 minutes, and every time before or after epoch, the predicted position and velocity equal those of the published SGP4 model (Vallado et al. 2006, WGS-84 constants) up to floating-point rounding. This includes every perigee regime of the drag model (below 98 km, 98-156 km, 156-220 km and above), near-circular orbits, equatorial, polar and retrograde orbits, and zero or negative drag terms.",
  ["inputs"],"all near-Earth element sets x all times since epoch",
  "leo_tle checks one element set at two times to 0.1 km; the drag regimes, retrograde/equatorial special cases and the full-drag branch are never reached.",
  [S+"sgp4.rs",S+"sgp4init.rs",S+"initl.rs","src/io.rs","src/constants.rs"],
  [("secular gravity/drag update, Kepler solution, short-period terms",S+"sgp4.rs:sgp4"),("drag coefficients by perigee regime",S+"sgp4init.rs:sgp4init"),("un-Kozai of mean motion",S+"initl.rs:initl")],
  [("Satrec","initialised propagation record","src/io.rs")],["io::twoline2satrec","propogation::sgp4::sgp4"])
p("C02","Deep-space predictions include all lunar-solar effects",
  "For every well-formed element set with a period of 225 minutes or more that is not in 12-hour or 24-hour resonance, and every time, the predicted position and velocity equal those of the published SDP4 part of the SGP4 model, up to floating-point rounding. All secular and long-period lunar and solar corrections to eccentricity, inclination, node, perigee and anomaly take effect, for low (Lyddane-modified), moderate, polar and retrograde inclinations.",
  ["inputs"],"all non-resonant deep-space element sets x all times since epoch",
  "ds_tle accepts errors up to 50 km on one orbit at two times, which is wide enough to hide the loss of every deep-space correction.",
  [S+"sgp4.rs",S+"dscom.rs",S+"dpper.rs",S+"dsinit.rs",S+"dspace.rs",S+"sgp4init.rs"],
  [("lunar-solar coefficients",S+"dscom.rs:dscom"),("long-period periodics",S+"dpper.rs:dpper"),("secular rates",S+"dsinit.rs:dsinit"),("application of both to the mean elements",S+"sgp4.rs:sgp4")],
  None,["io::twoline2satrec","propogation::sgp4::sgp4"])
p("C03","12-hour and 24-hour resonant orbits are integrated as published",
  "For every well-formed element set whose mean motion lies in the synchronous band, or in the half-day band with eccentricity of at least 0.5, the predicted position and velocity at every time, forwards or backwards and across any number of 720-minute integration steps, equal those of the published SGP4 model with its resonance integration, up to floating-point rounding. Orbits just outside these bands get no resonance treatment.",
  ["inputs"],"all resonant element sets (both kinds, all eccentricity ranges of the coefficient tables) x all times",
  "No test propagates a resonant orbit: the dspace, dsinit tests use the non-resonant satellite 11801 at time 0.",
  [S+"dspace.rs",S+"dsinit.rs",S+"sgp4.rs"],
  [("Euler-Maclaurin resonance integrator",S+"dspace.rs:dspace"),("resonance classification and coefficients",S+"dsinit.rs:dsinit"),("use of the integrated mean motion and anomaly",S+"sgp4.rs:sgp4")],
  None,["io::twoline2satrec","propogation::sgp4::sgp4"])
p("C04","A prediction is a valid orbital state or the documented error",
  "For every initialised record and every time within a thousand years of its epoch, propagation either returns a position and velocity whose components are all finite and whose position is not below one Earth equatorial radius, or it returns an error; it never panics and never loops forever. The error returned is the one the model documents for that situation (1 mean eccentricity, 2 mean motion, 3 perturbed eccentricity, 4 semi-latus rectum, 6 decay), is returned exactly when that situation arises, and the record's error field holds the same code (0 on success).",
  ["inputs"],"all parseable element sets including extreme and decaying orbits x all finite times",
  "The tests only assert success on two healthy orbits; no error branch is executed by any test.",
  [S+"sgp4.rs",S+"sgp4init.rs"],
  [("range checks on mean motion, eccentricity, semi-latus rectum and radius",S+"sgp4.rs:sgp4"),("error code mapping",S+"sgp4.rs:SGP4Error::code")],
  [("error","last outcome code","src/io.rs:Satrec")],["propogation::sgp4::sgp4","io::twoline2satrec"])
p("C05","Predictions do not depend on what was computed before",
  "Propagating a record to a given time gives the same answer whatever sequence of propagations (to earlier, later or opposite-signed times, successful or failing) was run before on the same record, on a copy of it, or on other records, including records with the same catalogue number. Propagation never alters the record's identity, epoch or epoch orbital elements.",
  ["histories"],"all sequences of propagate / copy / re-initialise operations over several records",
  "Tests make at most two calls in increasing time on one record; they cannot reach order reversals, error recovery, or interleavings of several records.",
  [S+"sgp4.rs",S+"dspace.rs",S+"sgp4init.rs"],
  [("per-call recomputation of all time-dependent fields",S+"sgp4.rs:sgp4"),("integrator restart from epoch",S+"dspace.rs:dspace")],
  [("t, error, aycof, xlcof, con41, x1mth2, x7thm1","fields rewritten by a propagation","src/io.rs:Satrec")],["propogation::sgp4::sgp4","propogation::propogate_datetime"])
p("C06","Concurrent users of the library do not disturb each other",
  "Under every interleaving of calls made by several threads - propagating one shared record by date-time, propagating records of their own, and parsing element sets - each call returns exactly what it returns when run alone, and a shared record is left unchanged.",
  ["schedules"],"all interleavings of parse and propagate calls of two or three threads",
  "All tests are single-threaded and touch one record each.",
  [S+"mod.rs",S+"sgp4.rs","src/io.rs"],
  [("date-time propagation works on a private copy of the shared record",S+"mod.rs:propogate_datetime"),("no global mutable state","whole crate")],
  None,["propogation::propogate_datetime","io::parse","io::parse_multiple","propogation::sgp4::sgp4"])
p("C07","Propagation to a calendar date-time is exact to the millisecond",
  "Propagating a record to any UTC date-time from March 1900 to February 2100 gives the state that the record has after the exact elapsed time between its epoch and that instant, including fractions of a second and across month, year, leap-day and century boundaries, and does not modify the record. The Julian date of a date-time used for sidereal time has the same resolution.",
  ["inputs"],"all UTC instants of the calendar's validity range, with sub-second parts, x all records and epochs",
  "No test calls date-time propagation at all.",
  [S+"mod.rs","src/ext.rs",S+"gstime.rs"],
  [("date-time to Julian date",S+"mod.rs:propogate_datetime, src/ext.rs:jday_datetime"),("minutes since epoch",S+"mod.rs:propogate_datetime")],
  None,["propogation::propogate_datetime","ext::jday_datetime","propogation::gstime::gstime_datetime"])
p("C08","Every field of a well-formed element set is decoded to its exact value",
  "For every well-formed pair of element lines, the record holds exactly what the columns say: catalogue number, epoch (two-digit years 57-99 are 1957-1999 and 00-56 are 2000-2056; fractional day of year), first and second derivative of mean motion, drag term, inclination, node, eccentricity, perigee, anomaly and mean motion, with signs, leading zeros, blank-padded digits and exponents of the implied-decimal fields honoured. The derived epoch Julian date, semi-major axis and apogee/perigee altitudes follow from these values.",
  ["inputs"],"all well-formed element lines",
  "Tests decode three element sets, none with a negative or zero-led mantissa, leap day or year-boundary epoch.",
  ["src/io.rs","src/ext.rs"],
  [("fixed-column extraction","src/io.rs:parse_satrec"),("day-of-year to Julian date","src/ext.rs:days2mdhms, jday")],
  [("Satrec element fields","decoded elements","src/io.rs:Satrec")],["io::parse_satrec","io::twoline2satrec"])
p("C09","Malformed text is rejected with a located error and never panics",
  "Every text whatsoever - empty, truncated at any column, over-long, containing any characters including multi-byte ones - given to any parsing entry point yields a record or an error, never a panic or a hang. A numeric field that is not a number is never silently read as one: it yields an error that carries the offending field's text, and every number read from the text into an accepted record is finite.",
  ["inputs"],"all strings as one-line, two-line and multi-line input to every parsing entry point",
  "One test feeds the single string \"Test\"; truncated, mutated and non-ASCII lines are not tried.",
  ["src/io.rs"],
  [("column extraction and number parsing","src/io.rs:parse_float, parse_int, parse_satrec"),("title-line handling","src/io.rs:parse, parse_multiple")],
  None,["io::parse","io::parse_multiple","io::twoline2satrec","io::parse_satrec"])
p("C10","A catalogue yields every intact element set, in order, under its own name",
  "For every text made of any mix of two-line and three-line element sets, blank lines and damaged entries, parsing the catalogue returns one record for each intact set, in file order, identical to parsing that set alone and carrying the name on its own title line (or none). A damaged or incomplete entry produces an error positioned at that entry and costs no intact set before or after it; a catalogue without damage produces no errors.",
  ["inputs","histories"],"all sequences of intact, damaged and incomplete entries",
  "The only catalogue test parses the one-line text \"Test\"; the multi-set test is commented out.",
  ["src/io.rs"],
  [("grouping of lines into sets","src/io.rs:parse_multiple"),("per-entry error collection","src/io.rs:parse_multiple")],
  None,["io::parse_multiple"])
p("C11","A single element set parses the same through every entry point",
  "A text of exactly two or three non-blank lines forming an element set gives the same record through the single-set parser, the catalogue parser and the two-line parser, whatever the line endings, blank lines and trailing padding; the name is the title line without its \"0 \" prefix and surrounding white space, and absent for two-line input. A text with another number of lines, or whose element lines do not start with 1 and 2, is refused.",
  ["inputs"],"all title lines x line-ending and padding layouts x element sets x line counts/orders",
  "Two tests cover one title line and one layout.",
  ["src/io.rs"],
  [("line count and line number checks","src/io.rs:parse"),("title-line stripping","src/io.rs:parse, parse_multiple")],
  None,["io::parse","io::parse_multiple","io::twoline2satrec"])
p("C12","Calendar and Julian-date conversions agree with the civil calendar",
  "For every date from March 1900 to February 2100 and every time of day, the Julian date equals the astronomical Julian date of that instant. For every year from 1901 to 2099 and every fractional day of the year, the decomposition into month, day, hour, minute and second is the civil date and time, with every component in its documented range, and recombining it gives back the same instant.",
  ["inputs"],"all days 1900-2100 x times of day; all (year, day-of-year, fraction)",
  "No test calls these functions directly; TLE tests cover one autumn date in a leap year.",
  ["src/ext.rs"],
  [("day-of-year decomposition","src/ext.rs:days2mdhms"),("Julian date formula","src/ext.rs:jday, jday_datetime")],
  None,["ext::days2mdhms","ext::jday","ext::jday_datetime"])
p("C13","Sidereal time is the IAU-1982 angle, normalised to one turn",
  "For every Julian date, Greenwich mean sidereal time is the IAU-1982 polynomial value reduced to at least 0 and at most one full turn (2 pi), for dates before and after J2000, and it advances by the Earth's rotation between any two dates. The date-time form equals the Julian-date form at the same instant.",
  ["inputs"],"all Julian dates, all UTC instants",
  "One date is tested.",
  [S+"gstime.rs"],
  [("polynomial and quadrant reduction",S+"gstime.rs:gstime")],
  None,["propogation::gstime::gstime","propogation::gstime::gstime_datetime"])
p("C14","Inertial/Earth-fixed conversion is an exact rotation and its own inverse",
  "For every vector and every sidereal angle, converting between the inertial and the Earth-fixed frame rotates about the polar axis by that angle in the Earth's sense: it preserves length and the polar component, the two conversions undo each other, and a point fixed to the Earth moves eastward in the inertial frame as sidereal time grows.",
  ["inputs"],"all vectors x all angles",
  "The tests use angle 0 only, where the rotation is the identity.",
  ["src/transforms.rs"],
  [("rotation about z","src/transforms.rs:eci_to_ecf, ecf_to_eci")],
  None,["transforms::eci_to_ecf","transforms::ecf_to_eci"])
p("C15","Geodetic and Cartesian coordinates convert back and forth consistently",
  "For every latitude (poles included), longitude and height from below sea level to beyond geostationary altitude, geodetic to Earth-fixed conversion gives the WGS-84 point, and converting that point, seen at any sidereal angle, back to geodetic coordinates recovers latitude, longitude and height. Longitude is always reported between -pi and pi and latitude between -pi/2 and pi/2.",
  ["inputs"],"all geodetic positions x all sidereal angles",
  "Geodetic conversion from Cartesian is not tested at all; the forward conversion only indirectly at one place.",
  ["src/transforms.rs"],
  [("forward ellipsoid formula","src/transforms.rs:geodedic_to_ecf"),("latitude iteration, longitude wrap, height","src/transforms.rs:eci_to_geodedic")],
  None,["transforms::geodedic_to_ecf","transforms::eci_to_geodedic"])
p("C16","Look angles point from the observer to the satellite",
  "For every observer and every satellite position (other than the observer's own), the topocentric components are the satellite's offset from the observer along local south, east and up (ellipsoid normal), range is the straight-line distance, elevation (between -90 and 90 degrees) and azimuth (clockwise from north, 0 to 360 degrees) are the direction of that offset. Reconstructing the satellite from azimuth, elevation and range returns the original position.",
  ["inputs"],"all observers (both hemispheres, poles, date line) x all satellite directions and ranges",
  "One observer and one satellite position are tested.",
  ["src/transforms.rs"],
  [("SEZ rotation","src/transforms.rs:topocentric"),("angles from SEZ","src/transforms.rs:topocentric_to_look_angles")],
  None,["transforms::topocentric","transforms::topocentric_to_look_angles","transforms::ecf_to_look_angles"])
p("C17","The Doppler factor distinguishes approach from recession",
  "For every observer, satellite position and velocity, the Doppler factor is one minus the change of distance over the next second of straight-line motion divided by the speed of light: above one when the satellite approaches, below one when it recedes. Distances are Euclidean, symmetric, and vector sums and differences are component-wise.",
  ["inputs"],"all observer/position/velocity triples",
  "doppler_factor and the vector helpers have no test.",
  ["src/doppler_factor.rs","src/lib.rs"],
  [("range rate by one-second difference","src/doppler_factor.rs:doppler_factor"),("vector helpers","src/lib.rs:Vec3")],
  None,["doppler_factor::doppler_factor","Vec3::range","Vec3::add","Vec3::subtract"])
p("C18","Angle conversions are mutually inverse and enforce their documented ranges",
  "Degree/radian conversions are linear and mutually inverse for every angle. The latitude and longitude variants return the plain conversion for every value in their documented closed range (endpoints included) and refuse every value outside it instead of returning a number.",
  ["inputs"],"all angles inside, at and outside the documented ranges",
  "No test calls these functions.",
  ["src/transforms.rs","src/constants.rs"],
  [("range guards","src/transforms.rs:degrees_lat, degrees_long, radians_lat, radians_long")],
  None,["transforms::degrees_lat","transforms::degrees_long","transforms::radians_lat","transforms::radians_long","transforms::radians_to_degrees","transforms::degrees_to_radians"])
p("C19","Initialisation depends only on the supplied elements",
  "Initialising a record from explicit elements gives the same record and the same epoch state whether the record was blank, previously initialised for another orbit of either kind, already propagated, or left by a failed call, and equals what parsing the same elements as text gives. Its returned state is the prediction at epoch, the near-Earth/deep-space choice follows the 225-minute rule, and the compatibility (AFSPC) mode follows that mode's published formulas.",
  ["histories","configurations","inputs"],"all prior record states x element sets x operation modes",
  "Tests initialise only a blank record, in one mode.",
  [S+"sgp4init.rs",S+"initl.rs",S+"dpper.rs","src/io.rs"],
  [("reset of all derived fields",S+"sgp4init.rs:sgp4init"),("mode-dependent sidereal time and node handling",S+"initl.rs:initl, "+S+"dpper.rs:dpper")],
  [("Satrec","record being initialised","src/io.rs")],["propogation::sgp4init::sgp4init","io::twoline2satrec"])
p("C20","Predicted velocity is the rate of change of predicted position",
  "For every element set and every time, the predicted velocity matches the time derivative of the predicted position to within the model's own approximation, and trajectories have no jumps: not at epoch, not across resonance integration steps, not where angles wrap.",
  ["inputs"],"all element sets x all times, differenced at several step sizes",
  "Tests compare isolated states with 0.1 km / 50 km and 0.1 km/s tolerances and never relate neighbouring times.",
  [S+"sgp4.rs",S+"dspace.rs",S+"dpper.rs"],
  [("short-period velocity terms and orientation vectors",S+"sgp4.rs:sgp4")],
  None,["propogation::sgp4::sgp4"])
p("C21","Deep-space procedures can be resumed and vanish at epoch",
  "The resonance procedure gives the same corrections at a time whether it starts from epoch or resumes from the integrator state returned by any earlier sequence of calls, in either time direction and across epoch. The long-period procedure leaves the elements unchanged when called for initialisation, and the secular corrections are zero at epoch.",
  ["histories","inputs"],"all sequences of target times for the public deep-space procedures",
  "Each procedure is tested with a single call at time 0 for a non-resonant orbit.",
  [S+"dspace.rs",S+"dpper.rs",S+"dsinit.rs"],
  [("epoch-restart rule and step loop",S+"dspace.rs:dspace"),("initialisation guard",S+"dpper.rs:dpper")],
  [("atime, xli, xni","integrator state carried between calls",S+"dspace.rs")],["propogation::dspace::dspace","propogation::dpper::dpper"])
p("C22","From element text and date-time to azimuth, elevation, range and sub-point",
  "For every element set, date-time and observer, chaining the library's documented steps (parse, propagate to the date-time, sidereal time, Earth-fixed position, look angles, geodetic sub-point) gives the azimuth, elevation, range, latitude, longitude and height that the published model and standard geodesy give, within a few metres of position.",
  ["inputs"],"all element sets x date-times x observers",
  "The README pipeline is not executed by any test.",
  [S+"mod.rs",S+"gstime.rs","src/transforms.rs","src/io.rs"],
  [("documented usage chain","README.md"),("date-time propagation",S+"mod.rs:propogate_datetime"),("frame chain","src/transforms.rs")],
  None,["io::parse","propogation::propogate_datetime","propogation::gstime::gstime_datetime","transforms::*"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
