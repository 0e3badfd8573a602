"""Writes /verif/properties.jsonl (one place to edit the list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

D = "py/desimeter/"
T = D + "transform/"

prop("C01", "Sky to tangent plane and back returns the same sky position",
 "For every telescope pointing above the horizon limit, date, sidereal time, hexapod rotation and choice of correction options, converting any sky position in the field of view to tangent-plane coordinates and back returns the same sky position to within the documented first-order approximations (a few milli-arcseconds away from the pole), and likewise starting from tangent-plane coordinates. Right ascensions that differ by a full turn, and sidereal times that differ by a full turn, describe the same sky and give the same result.",
 ["inputs", "configurations"], "every (ra, dec) within 1.7 deg of every pointing with altitude > 20 deg, every date 1990-2060, every LST, every hexapod rotation, all option combinations",
 "The repository test uses one pointing and a few dozen points; wrap-around, low altitude, negative declination, each option and near-pole pointings are never combined.",
 [T + "radec2tan.py"],
 [("forward and inverse chains", T + "radec2tan.py:radec2tan, tan2radec"), ("undo_* inverses", T + "radec2tan.py:undo_refraction, undo_aberration, undo_precession_from_icrs, xy2hadec")],
 ["returned RA, Dec, x_tan, y_tan"])

prop("C02", "Apparent-place steps agree with an independent astronomical model",
 "Each step from catalogue coordinates to the tangent plane (precession, aberration, hour-angle/declination to altitude/azimuth, refraction, polar misalignment, projection, hexapod rotation, sidereal time) agrees with an independent model of the documented physics and sign conventions for every input: larger hour angle is +x, larger declination is +y, the pointing maps to the origin, and the hexapod rotation rotates the whole field counter-clockwise. Alternative implementations offered by an option (an astronomy library instead of the built-in formulae, a tabulated instead of a computed misalignment rotation) agree to sub-arcsecond accuracy over the field.",
 ["inputs", "configurations"], "every sky position, date, pointing, hexapod rotation and option",
 "Tests compare the library's own forward and backward paths and a single astropy comparison; a sign or convention error that is self-consistent is invisible to them.",
 [T + "radec2tan.py", D + "trig.py", D + "time.py"],
 [("elementary steps", T + "radec2tan.py"), ("angle helpers", D + "trig.py"), ("mjd2lst", D + "time.py")],
 ["returned coordinates of every step"])

prop("C03", "Tangent plane to focal plane is invertible and follows the ADC geometry",
 "For every pair of atmospheric-dispersion-corrector angles, converting tangent-plane to focal-plane coordinates and back (in either direction and with either optical model) returns the starting point to within a few microns or the equivalent angle over the field of view. The result depends only on the angles as directions: adding full turns to either angle, or exchanging nothing but the description of the same directions, changes nothing, and rotating both correctors together by an angle rotates the distortion pattern by that angle. Fitting a model to a ray trace gives one that reproduces it at every traced setting.",
 ["inputs", "configurations"], "every field position and every ADC1, ADC2 in [-720,720]",
 "Tests use two or three ADC settings and do not cross the wrap-around or sweep the tabulated angle differences.",
 [T + "tan2fp/raytracefit.py", T + "tan2fp/echo22.py", T + "tan2fp/__init__.py", D + "trig.py"],
 [("interpolation in ADC difference", T + "tan2fp/raytracefit.py"), ("mean ADC direction", D + "trig.py:average_angles_deg")],
 ["returned coordinates"])

prop("C04", "Camera to focal plane transform and its inverse undo each other",
 "For every camera-to-focal-plane transform (shipped, fitted, or assembled from any realistic offset, rotation, scale and distortion coefficients), mapping pixels to millimetres and back returns the same pixel, and the reverse, to well below a micron-level tolerance over the camera. The forward map is the documented composition: reduced pixel coordinates, distortion polynomial, then scale, rotation and offset.",
 ["inputs", "configurations"], "every pixel in the 6000x6000 frame, every transform with coefficients in the realistic range, both reduced-coordinate conventions",
 "Tests exercise one generated transform; the distortion inverse is a fixed-point iteration whose convergence depends on coefficients.",
 [T + "fvc2fp.py", T + "zhaoburge.py"],
 [("fvc2fp/fp2fvc", T + "fvc2fp.py"), ("distortion terms", T + "zhaoburge.py")], ["returned coordinates"])

prop("C05", "Fitting the camera or platemaker transform recovers the transform",
 "Fitting a camera-to-focal-plane (or desimeter-to-platemaker) transform to spots or points generated by a transform of the same family recovers that transform: every matched fiducial is predicted to within numerical precision and unmatched positions in between are predicted too. The fit does not depend on the order of the rows or on the presence of spots that are not fiducials, and fixed components are left exactly as they were.",
 ["inputs", "configurations"], "every realistic transform, random subset and permutation of fiducials, with and without fixed scale/rotation, extra non-fiducial rows",
 "The repository fits one synthetic case and checks a residual; permutation, subset, unmatched rows and fixed components are untested.",
 [T + "fvc2fp.py", T + "dm2pm.py", T + "zhaoburge.py"],
 [("fits", T + "fvc2fp.py:FVC2FP.fit"), ("fit", T + "dm2pm.py:DM2PM.fit"), ("fitZhaoBurge, fit_scale_rotation_offset", T + "zhaoburge.py")],
 ["fitted transform's predictions", "columns added to the spot table"])

prop("C06", "Saved transforms and field models read back as the same mapping",
 "Every object that can be written to text (camera transform, platemaker transform, optical model, simple correction, tangent-plane correction, field model) and read back maps every point exactly as the original did, and a second round trip produces the same text. Files of older supported versions are accepted and inconsistent files are refused.",
 ["inputs", "configurations", "histories"], "every object state reachable by construction, fit or parameter assignment, followed by any number of save/load rounds",
 "Tests save and reload one camera transform only; several classes are never reloaded at all.",
 [T + "fvc2fp.py", T + "dm2pm.py", T + "tan2fp/raytracefit.py", D + "simplecorr.py", D + "fieldmodel.py"],
 [("tojson/fromjson, read/write", T + "fvc2fp.py, " + T + "dm2pm.py, " + D + "simplecorr.py, " + D + "fieldmodel.py, " + T + "tan2fp/raytracefit.py")],
 ["JSON text", "results of the reloaded object"])

prop("C07", "Similarity and tangent-plane corrections recover, apply and invert exactly",
 "Fitting an offset, scale and rotation correction to noiseless point pairs related by any such transform (including no rotation, quarter turns, half turns and refitting an already used object) recovers it, so that applying the correction reproduces the reference points. Applying the inverse after the correction, or the correction after the inverse, returns the original points for every parameter value.",
 ["inputs", "histories"], "every realistic offset, scale, rotation in the full circle, shear; every point set that determines the transform; repeated fits on one object",
 "Tests fit a single small-rotation case; singular rotations and refits are not reached.",
 [D + "simplecorr.py", D + "fieldmodel.py"],
 [("SimpleCorr.fit/apply/apply_inverse", D + "simplecorr.py"), ("TanCorr", D + "fieldmodel.py")], ["corrected coordinates"])

prop("C08", "Guider camera and petal frames are rigid, orientation-preserving and invertible",
 "For every guider camera and every point, pixel to focal plane and back is the identity, and the map is a similarity with the camera's documented pixel scale that places the surveyed fiducials of that camera where the metrology says. For every petal, petal to focal plane and back is the identity, distances are preserved, the result for a petal does not depend on the other petals, and the mapping agrees with the petal alignment table.",
 ["inputs", "configurations"], "every petal location and every point on the petal/sensor",
 "Tests round-trip a few points on a few cameras; the petal transform has no dedicated test.",
 [T + "gfa2fp.py", T + "ptl2fp.py", D + "io.py"],
 [("gfa2fp/fp2gfa", T + "gfa2fp.py"), ("ptl2fp/fp2ptl", T + "ptl2fp.py")], ["returned coordinates"])

prop("C09", "Focal-surface curvilinear coordinates are monotone and invertible",
 "On the focal surface, the radius, path length, sag and nutation lookups and the polynomial radius/path-length conversions are mutually inverse over the whole instrumented range, strictly monotone, agree with the tabulated surface, and report not-a-number outside it rather than a plausible number. Cartesian to curvilinear to Cartesian conversions return the same point for every position, keeping the azimuth in a consistent range.",
 ["inputs"], "every radius in the instrumented range and outside it; every position angle",
 "Tests evaluate few radii; no test inverts the sag and nutation tables or checks out-of-range.",
 [T + "rszn_lookups.py", T + "xy2qs.py"],
 [("lookup tables", T + "rszn_lookups.py"), ("polynomials", T + "xy2qs.py")], ["returned values"])

prop("C10", "Positioner coordinate chain round-trips for every arm geometry",
 "Converting positioner angles to local, flat and petal coordinates and back returns the same angles, for every arm length, angle offset and centre offset and every reachable angle pair; each intermediate pair of conversions is also its own inverse, and the forward map is the documented two-link arm. The result is the same for scalars, lists and arrays, and parameters may be given once or per point.",
 ["inputs", "configurations"], "every arm length pair, offsets, centre and every (theta, phi) in the primary range",
 "A recorded table of test values covers only what was recorded; container shapes and non-nominal geometry are barely covered.",
 [T + "pos2ptl.py", T + "xy2tp.py"],
 [("conversions", T + "pos2ptl.py"), ("two-link kinematics", T + "xy2tp.py:tp2xy, xy2tp")], ["returned angles/positions"])

prop("C11", "Target solving returns in-range angles and flags exactly the unreachable",
 "For every target point and arm geometry, the angles returned lie within the permitted ranges. With ranges that cover a full turn of theta and [0,180] of phi, a reachable point is not flagged and the returned angles put the fibre on it, and an unreachable point is flagged and the returned angles bring the fibre as near as the arms allow; with narrower ranges an unflagged answer is on the target and a flagged one means that the primary arm configuration (phi in [0,180]) does not fit the ranges. A guess for theta, when given and within its tolerance of a possible solution, selects the equivalent solution nearest to it and never worsens the position. The vectorised solver gives point by point the same answer as the scalar one.",
 ["inputs", "configurations"], "every point inside, on, and outside the patrol annulus; every arm geometry; every permitted range; with and without a guess",
 "The tests use recorded reachable points; boundaries, restricted ranges, zero vectors, and guesses are not sampled.",
 [T + "xy2tp.py", T + "pos2ptl.py"],
 [("xy2tp", T + "xy2tp.py"), ("loc2int", T + "pos2ptl.py")], ["returned angles and reachability flag"])

prop("C12", "Angular moves obey the requested direction and end on the target angle",
 "The angular difference between a start and a final angle always ends on the final angle modulo a full turn; with no direction constraint it is the plain difference, with a positive (negative) direction it is never negative (positive) and never wraps further than needed. Start, final and direction may each independently be a single value or a list, with the same result element by element.",
 ["inputs"], "every pair of angles including multiples of full turns; every direction; every scalar/list mixture",
 "The tests check a handful of scalar pairs.",
 [T + "pos2ptl.py"], [("delta_angle", T + "pos2ptl.py")], ["returned delta"])

prop("C13", "Transforms act point by point and leave their inputs alone",
 "Every coordinate transform gives for each point the result it gives for that point alone: it does not depend on the other points, their order, or how many there are, and scalar and array inputs agree where scalars are supported. No transform, fit, match, detection or averaging modifies the arrays, lists or tables it is given to read.",
 ["inputs", "programs"], "every public coordinate transform, every array content, order and length, including length one",
 "Tests call transforms with one container and never compare inputs before and after.",
 [T + "radec2tan.py", T + "tan2fp/raytracefit.py", T + "tan2fp/echo22.py", T + "fvc2fp.py", T + "gfa2fp.py", T + "ptl2fp.py", T + "pos2ptl.py", T + "xy2qs.py", T + "rszn_lookups.py", T + "dm2pm.py", T + "zhaoburge.py", D + "fiberassign.py"],
 [("vectorised implementations", T)], ["results for subsets, permutations, scalars", "inputs after the call"])

prop("C14", "Catalogue matching finds true counterparts, once each",
 "Matching two catalogues in the same coordinate system returns for every object the index of the nearest object of the other catalogue and its distance, with each object used at most once, by its closest partner, when duplicates are to be removed. Matching catalogues related by an unknown translation and dilatation and a small rotation finds the true pairs, whatever the order of the objects, as long as shape and orientation tell the triangles of objects apart; extra objects of the second list change nothing and extra objects of the first list can at most leave an object unmatched.",
 ["inputs"], "every pair of catalogues within the documented ranges of shift, rotation and scale, permuted, with missing and spurious objects",
 "Tests use one small catalogue each.",
 [D + "match.py"], [("match_same_system", D + "match.py"), ("match_arbitrary_translation_dilatation", D + "match.py")], ["returned indices and distances"])

prop("C15", "Spots are assigned to positioners one to one, within reach, as many as can be",
 "Assigning measured spots to positioners gives each positioner at most one spot and each spot to at most one positioner, ignores fiducials and faint spots, scores a pair 1 exactly when the spot is within reach of the arm (calibrated length, or the median length when unknown, plus the allowance) and makes as many within-reach assignments as is possible at all; pairs that every best solution contains are always made, whatever the order of spots, positioners or calibrations. Alternatives are equally good, and every pair that could be replaced in a best solution is missing from at least one of them. No spot in reach is a valid input.",
 ["inputs"], "every configuration of spots and overlapping patrol disks, including clusters, unreachable spots, unknown arm lengths and no usable spot",
 "No test covers the assignment at all beyond one simple match.",
 [D + "match_positioners.py"], [("assignment", D + "match_positioners.py:match_positioners, solve_assignment"), ("groups", D + "match_positioners.py:print_groupings, possible_assignments_dict")], ["returned assignment, scores, alternatives, printed groups"])

prop("C16", "Fiducials are identified correctly whatever was processed before",
 "Given the camera spots of fiducial pinholes seen through a transform close to the starting one, together with positioner spots, missing pinholes and noise spots, every pinhole of a complete fiducial receives the location and pinhole number of the hole that produced it (as long as noise and rotation leave the pinholes distinguishable), no pinhole receives another location or number, and spots that are not fiducials receive none. The identification of one exposure does not depend on which exposures or transforms were processed earlier in the same program. The wrapper of the external matching program describes the same scene to it and labels its answer with the surveyed devices.",
 ["inputs", "histories"], "every small transform error, missing pinholes, spurious spots, row order and sequence of earlier calls",
 "The test identifies one recorded image in a fresh process.",
 [D + "findfiducials.py", D + "spotmatch.py"],
 [("findfiducials", D + "findfiducials.py"), ("external matcher wrapper", D + "spotmatch.py")], ["LOCATION and PINHOLE_ID columns"],
 [("metrology cache", "module-level table reused between calls", D + "findfiducials.py")])

prop("C17", "Spot detection finds each spot once at its true centre",
 "In an image with well separated spots brighter than the threshold on a smooth background, each spot is reported exactly once, at its true centre to a small fraction of a pixel, and nothing else is reported; shifting the image by whole pixels shifts the reported centres equally and adding a constant background changes nothing. Spots below a threshold are not reported. Spots close to the image border never abort the processing or harm others, and are reported where they are if reported at all.",
 ["inputs"], "every arrangement of spots with realistic width, brightness, background level, noise and image size",
 "The test runs one recorded or simulated image and checks the count.",
 [D + "detectspots.py"], [("detectspots, fitcentroid", D + "detectspots.py")], ["spot table"])

prop("C18", "Camera image processing yields a consistent focal-plane table",
 "Processing a camera exposure end to end writes, for every detected or supplied spot, its focal-plane position under the fitted transform and the identity and expected position of the fiducial or positioner it belongs to, so that positions recomputed from the written transform match the written table. The result for a file does not depend on other files processed in the same command, on the input table format, or on the order of its rows, and every requested output goes where it was asked to go.",
 ["inputs", "configurations", "histories"], "every spot list produced by a transform near nominal, file sets, option combinations",
 "The pipeline driver has no test.",
 [D + "processfvc.py", D + "findfiducials.py", T + "fvc2fp.py", D + "spotmatch.py"],
 [("process_fvc, fvc_proc, preproc", D + "processfvc.py")], ["output csv, json"])

prop("C19", "Field models map guide-camera pixels consistently between sky and focal plane",
 "For a field model with any pointing, corrector setting, hexapod rotation and small pointing correction, sky to focal plane and back is the identity over the field, and fitting the model on guide stars generated from any small pointing offset, rotation and scale recovers it so the stars' catalogue and measured positions agree to second order in the deformation, whatever the order of the stars. Reading a guide star catalogue keeps exactly the stars within the matching distance of their (proper-motion corrected) catalogue position, in every supported file format and on both sides of RA zero. The reported field rotation equals the rotation of the focal plane relative to the sky.",
 ["inputs", "configurations"], "every pointing, date, ADC setting, hexapod rotation and small correction",
 "The test fits one recorded guide-star file.",
 [D + "fieldmodel.py", T + "gfa2fp.py"], [("FieldModel, TanCorr", D + "fieldmodel.py")], ["coordinates, fitted parameters, field rotation"])

prop("C20", "Predicted field rotation and its rate follow the pointing",
 "The predicted field rotation at a pointing equals the rotation between the local north direction and the focal-plane axes computed from the sky-to-tangent transform, and an extra hexapod rotation adds to it up to second order in the angles. The predicted rate of field rotation is bounded, periodic in hour angle, continuous in hour angle and declination except across the hour angle opposite to the meridian, agrees at usual declinations with the physical rate of a misaligned polar axis to within the accuracy of the empirical model (0.45 arcsec per minute), and impossible declinations are refused.",
 ["inputs"], "every pointing, date, LST and hexapod rotation",
 "Tests compare a few tabulated values.",
 [D + "fieldmodel.py"], [("fieldrot, dfieldrotdt", D + "fieldmodel.py")], ["returned angles and rates"])

prop("C21", "Fibre-assignment coordinates centre the tile, honour rotation and invert",
 "For every tile centre, date, hour angle and requested field rotation, the tile centre maps to the image of the field centre in the chosen (desimeter or platemaker) system, the requested rotation is realised on the sky, and focal-plane to sky returns the original targets. Targets without coordinates do not affect the others. Curved and flat focal-plane variants describe the same points, and incomplete corrector settings are refused.",
 ["inputs", "configurations"], "every tile, date, hour angle, field rotation, ADC setting, wavelength of optical model choice",
 "Tests cover a single tile with default options.",
 [D + "fiberassign.py"], [("fiberassign_*", D + "fiberassign.py")], ["returned coordinates"])

prop("C22", "Turbulence correction removes smooth distortions and nothing of the signal",
 "The correction of a measured position is the prediction, at that position, of the displacements of the other points: by a Gaussian process whose covariance describes the data at least as well as its starting guess and leaves as little of the turbulence as the best predictor does, or by a local polynomial fit, which removes a common offset and any smooth curl-free displacement of low order exactly where it has enough neighbours. Corrections do not depend on the order of the points, on the orientation or the naming of the axes, and with the nominal covariance the residual of a point does not enter its own correction. With stationary positioners, those that have no coordinates, are far off the rest, or keep a residual larger than the requested limit are left out and the correction is the one obtained without them. Tables of expected and measured positions are matched by location.",
 ["inputs", "configurations"], "every layout of points, every smooth displacement field, outliers, each correction method",
 "No test covers the turbulence module.",
 [D + "turbulence.py"], [("correct, correct_with_pol, correct_using_stationary", D + "turbulence.py")], ["corrected positions"])

prop("C23", "Positioner calibration recovers arm geometry and keeps no state between fits",
 "Fitting calibration parameters to noiseless moves of a positioner (arcs or a grid of both axes, the starting angle within a quarter turn or so of the solution) recovers its arm lengths, offsets and centre, the drift of the tracked angles in every later exposure and, in the dynamic stage, its motor scales (steps being small enough for a single solution). It keeps fixed parameters exactly at their given values, stays within the given bounds, and with outlier rejection gives the answer of the good moves alone when a few moves are gross outliers. The result of a fit does not depend on the fits done before in the same program; the default tables, the caller's tables of starting values and bounds and the input file are left unchanged. Fitting the table of moves of a positioner writes those parameters for every analysis window and exposure, whatever the order of its rows and leaving out disabled, repeated or unselected moves; data that cannot be fitted (stuck axis, no rehomed move, too few or missing columns) are reported by a failure flag, or refused, instead of numbers.",
 ["inputs", "histories"], "every admissible geometry and move set, every sequence of fits in one program, static and dynamic modes, with rehome sequences and outliers",
 "There is no test of the calibration package.",
 [D + "posparams/fitter.py", D + "posparams/movemask.py", D + "posparams/flags.py", D + "posparams/fithandler.py", D + "circles.py"],
 [("fit_params", D + "posparams/fitter.py"), ("eval_move_flags", D + "posparams/flags.py")], ["returned parameters, covariance, flags"],
 [("default tables", "module-level starting values and bounds", D + "posparams/fitter.py")])

prop("C24", "Circle fits recover centre, radius and angles",
 "Fitting a circle to four or more points lying on any arc of at least 90 degrees of a circle of admissible radius (1 to 5 mm) returns its centre and radius, independent of point order and of a translation or rotation of all points. With noisy points an answer that is given minimises the scatter of the points about the circle. The robust variant gives the same answer when a minority of the points (up to about one in seven) are gross outliers. Radii outside the admissible range are refused.",
 ["inputs"], "every centre, radius, arc (at least 90 deg), number of points, order, outlier set",
 "Tests fit a few fixed circles.",
 [D + "circles.py"], [("fit_circle, robust_fit_circle", D + "circles.py")], ["returned parameters"])

prop("C25", "Named bit masks encode and decode every combination faithfully",
 "For every bit definition, names, numbers and mask values convert into each other consistently: the mask of a set of names decodes to exactly that set (bits without a definition decode as UNKNOWN<number>), unknown names and malformed or clashing extra definitions are refused, and the definitions survive being written as text and read back. Evaluating move flags sets the theta-stuck flag exactly when there is a group of moves able to tell (four or more positions at one phi of at most 160 deg whose requested theta spans 20 deg or more) and in none of these groups the measured positions spread by more than 0.1 mm rms; no other flag is raised by it.",
 ["inputs", "programs"], "every set of definitions and every mask value within the word size; every move history",
 "There is no test of masks or flags.",
 [D + "bitmask.py", D + "posparams/posflags_mask.py", D + "posparams/movemask.py", D + "posparams/flags.py"],
 [("BitMask", D + "bitmask.py"), ("eval_move_flags", D + "posparams/flags.py")], ["masks, names, flags"])

prop("C26", "Text selections and header values are parsed exactly or refused",
 "Every well-formed fibre list (numbers and half-open ranges in any of the supported notations, with spaces around the numbers) expands to exactly the numbers it denotes, and any other text is refused. Hexapod rotation is read from every header form that encodes it with the documented sign and unit, and a move-log selection keeps exactly the rows whose note satisfies all required terms.",
 ["inputs"], "every string of the grammar and near misses; every header; every table of notes and selection expression",
 "There is no test of these parsers.",
 [D + "util.py", D + "io.py", D + "posparams/posmoveselection.py"],
 [("parse_fibers", D + "util.py"), ("read_hexrot_deg", D + "io.py"), ("posmove_selection", D + "posparams/posmoveselection.py")], ["returned values"])

prop("C27", "Averaging repeated exposures matches spots and averages their positions",
 "Averaging several spot lists of the same scene, at least three non-collinear spots being common to all, returns the rows of the first list. The position of a spot found (within 5 pixels) in every list becomes the mean, over the lists, of that spot and no other, each list being first aligned to the first by an affine fit; the other spots and columns stay as they are in the first list. This holds whatever the row order of each list, for the library function and the command; averaging copies of one list returns that list, and the given tables or files are not modified.",
 ["inputs"], "every set of lists, permutations, small jitters, missing and extra spots",
 "There is no test of averaging.",
 [D + "averagecoord.py", D + "match.py"], [("average_coordinates", D + "averagecoord.py")], ["averaged table"])

prop("C28", "Results do not depend on earlier calls in the same program",
 "Every public conversion returns the same result for the same arguments whatever other conversions, fits, loads or failed calls were made earlier in the same program, even though instrument tables and default transforms are loaded once and shared. Modifying a table, transform or result that a load, fit or conversion returned to one caller does not change what later callers receive (the accessors of the petal alignment lookup and of the default optical model exist to share one instance and are outside this). A log file asked for receives every later message of its logger once, also when a logger of that level exists already.",
 ["histories", "inputs"], "every sequence of calls mixing petals, cameras, optical models, option values, table loads and in-place edits of results",
 "Every test runs a short fixed sequence; no test repeats a call after different ones.",
 [T + "gfa2fp.py", T + "ptl2fp.py", T + "tan2fp/raytracefit.py", D + "findfiducials.py", D + "io.py", D + "fiberassign.py", T + "rszn_lookups.py"],
 [("lazy module-level caches", D)], ["results repeated after other calls"],
 [("cached tables", "module globals filled on first use", D)])

prop("C29", "Instrument parameter preparation keeps exactly the rows passing every limit",
 "Preparing fitted parameters for the instrument keeps exactly the rows that pass every limit: no missing required value, no flag set, at most 2 outliers, fit error at most 0.03 mm, every parameter inside the fitter bounds tightened by 0.1%, offsets within 0.5 mm of the nominal centre and arms within 0.5 mm of nominal (or within the limits the user adjusted), one row per positioner as the user chose among repeats. Kept values are unchanged and stay with their positioner. With set-enabling every row is kept and exactly the failing ones are marked nonfunctional with a reason. The commit flags are set exactly as agreed, never for scales and physical ranges, and for a nonfunctional positioner only for the disabling key.",
 ["inputs", "configurations"], "every table of fitted parameters (flaws in any subset of rows and columns, missing values, repeated positioners, old or new column sets), every option and every answer to the tool's questions",
 "No test runs the tool: it asks its questions interactively.",
 ["bin/prepare_posparams_for_instr", D + "posparams/fitter.py", D + "posparams/movemask.py", D + "io.py"],
 [("row selection and commit flags", "bin/prepare_posparams_for_instr"), ("bounds", D + "posparams/fitter.py")], ["the table written"])

prop("C30", "Database retrieval returns exactly the selected moves and calibrations",
 "For every content of the positioner database (any number of petals and positioners, moves with or without measured positions, calibrations recorded at any times, in any row order) and every selection by petals, positioners, exposures, iterations, dates or number of latest entries, the retrieval tools write for each positioner exactly the selected moves, each with its own angles, counters, notes and petal location and joined with the calibration in force when that move was recorded, whatever else the database holds and whatever petals were handled before. Moves without measurement are left out unless table updates are requested; the update rows up to one past the selected moves are then included. The enabled history keeps the first row and each row that differs from the one before. Measured positions from camera images are those of the image of the same exposure and iteration, or of the first image after the move if it comes soon enough. Expected positions follow from the angles and the calibration in force; the latest calibration is the one recorded last; a move is reported as moving when the measured position changed by more than 0.05 mm.",
 ["inputs", "configurations", "histories"], "every generated database of 1-3 petals with 1-4 positioners, 1-5 exposures of 1-3 iterations, 1-6 calibrations per positioner, and every combination of the tools' options",
 "No test runs any retrieval tool: they need a database. A generated database played by a stand-in reaches every selection.",
 ["bin/get_posmoves", "bin/get_posparams", "bin/get_poscoords", "bin/check_moving", "bin/get_posmoves_with_fvc_data", "bin/get_posmoves_with_fvc_data_using_dates", D + "dbutil.py"],
 [("SQL selection and join by time", "bin/get_posmoves; bin/get_poscoords; bin/get_posmoves_with_fvc_data_using_dates"), ("queries and petal list", D + "dbutil.py")], ["the CSV tables written", "exit status"])

prop("C31", "Command-line tools compute from files what they are documented to compute",
 "The command-line tools compute from any valid input files what they document. Positioners listed as free to move are exactly those not wedged between two close neighbours, and groups of positioners that may move together contain no two neighbours. The predicted field rotation is that of the pointing, time and hexapod angle given by options or by either header. Circle centres, medians of pinholes and merged tables of fits hold every usable measurement or row under its own device, with locations taken from or verified against metrology. Camera transforms refitted from measured centres put these centres on the metrology, guide star models put the stars back on the sky, positioners that moved between two sets of images are reported where they are, distances are those from the centre, every move table is fitted once with the options given, and petal alignments are written as stored.",
 ["inputs", "configurations"], "every content of the input tables, headers and images' spot lists (missing rows, failed fits, repeated and unmatched spots, outliers, any row order), every combination of the tools' options",
 "No test runs these commands.",
 ["bin/ok2move", "bin/select_groups_of_positioners", "bin/desi_predict_fieldrot", "bin/desi_fit_circles", "bin/merge_posparams", "bin/desi_fit_fvc2fp_using_theta_centers", "bin/desi_fit_fvc2fp_using_posparams", "bin/detect_and_match_moving_positioners", "bin/compute_distance_from_center", "bin/fit_posparams", "bin/desi_fit_guide_star_coordinates", "bin/load_petal_alignments_from_db"],
 [("selection by neighbours", "bin/ok2move"), ("matching of moved spots", "bin/detect_and_match_moving_positioners"), ("location check", "bin/merge_posparams")], ["files written", "standard output", "exit status"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
