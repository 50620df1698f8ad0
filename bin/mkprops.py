"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SP, TM, SM, TB, VM = ("taupy/SeismicPhase.py", "taupy/TauModel.py",
                      "taupy/SlownessModel.py", "taupy/TauBranch.py",
                      "taupy/VelocityModel.py")
TT, PI, PA, AR, TP, CR, LO, UT = (
    "taupy/TauP_Time.py", "taupy/TauP_Pierce.py", "taupy/TauP_Path.py",
    "taupy/Arrival.py", "taupy/tau.py", "taupy/TauP_Create.py",
    "taupy/TauModelLoader.py", "taupy/utils.py")
SL, SS, VL = ("taupy/SlownessLayer.py", "taupy/SphericalSModel.py",
              "taupy/VelocityLayer.py")

EARTH = ("Earth-like models: crust, solid mantle, fluid outer core, solid "
         "inner core, radius of about 0.7 to 1.4 times that of the Earth")

P = []


def add(id, title, statement, over, text, why, files, mech, observe=None,
        technique=None, note=None):
    P.append(dict(
        prop={"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": dict(
                  {"files": files,
                   "mechanism": [{"name": n, "where": w} for n, w in mech]},
                  **({"observe_at": observe} if observe else {}))},
        technique=technique, note=note))


add("C01", "Every reported arrival is a real seismic ray",
    "For any Earth-like model, source depth, distance and phase name, each "
    "arrival returned is a ray of exactly that phase that ray theory permits "
    "in that velocity model: a ray with (within interpolation accuracy) the "
    "reported ray parameter travels the reported distance in the reported "
    "time. No arrival is invented, reported twice, or attributed to a phase "
    "whose legs that ray cannot follow.",
    ["inputs", "configurations"],
    "all " + EARTH + "; source depths from the surface to the core-mantle "
    "boundary; all distances; the documented phase keywords and any body wave "
    "phase name of mantle, core, reflected and converted legs",
    "The tests look at the times of the first P arrivals and of one table "
    "line at one depth and one distance, to two decimals.",
    [SP, TB, TM, SM, SS],
    [("ray parameter range and branch sequence of a phase",
      SP + " parseName, addToBranch, phaseConversion"),
     ("distance and time of the ray parameter samples", SP + " sumBranches"),
     ("interpolation between the samples", SP + " calcTime, "
      "linearInterpArrival"),
     ("time and distance through a layer", SM + " TimeDist; " + SS)],
    [TP + " get_travel_times"],
    "reference-model monitor: independent ray tracer (closed-form layer "
    "integrals on the velocity table) over recorded arrivals",
    "every arrival returned for generated models, depths, distances and "
    "phase names is matched one-to-one with a ray of an independent exact "
    "ray tracer (0.35 s, 6 s/rad)")

add("C02", "No arrival of a requested phase is missing",
    "For any Earth-like model, source depth and distance, every ray of a "
    "requested phase that reaches the distance is reported, including all "
    "branches of a triplication and rays that reach it the long way round or "
    "after one or more turns around the planet. Only rays within a sampling "
    "interval of the end of a travel time branch may be lost.",
    ["inputs", "configurations"],
    "all " + EARTH + "; source depths from the surface to the core-mantle "
    "boundary; all distances; body wave phase names as for C01",
    "The tests check that a handful of known arrivals are there at one "
    "distance; a branch missing elsewhere goes unnoticed.",
    [SP, TB, TM, SM],
    [("limits of the ray parameter", SP + " parseName, addToBranch, "
      "phaseConversion"),
     ("search over all laps and branches", SP + " calcTime"),
     ("sampling of the slowness", SM + " createSample")],
    [TP + " get_travel_times"],
    "reference-model monitor: forward shooting by an independent ray tracer, "
    "completeness of the recorded arrivals",
    "every ray the independent tracer finds at generated distances must have "
    "been returned (0.35 s, 6 s/rad), rays within 1 degree of a branch end "
    "excepted")

add("C03", "Head, diffracted and surface waves arrive when and where they can",
    "Waves that travel along the Moho or the core-mantle boundary arrive "
    "exactly at the distances from the critical distance up to the documented "
    "limit of the travelled segment (20 and 60 degrees), at the time of the "
    "critical ray plus its ray parameter times the remaining distance. "
    "Surface wave phases named by a velocity arrive at every distance at the "
    "time the arc takes at that velocity, both ways round.",
    ["inputs", "configurations"],
    "all " + EARTH + " with a mantle whose slowness decreases down to the "
    "boundary; all source depths above the boundary; all distances; all "
    "positive velocities",
    "The tests contain these phases only in one printed table that they do "
    "not compare.",
    [SP],
    [("critical ray and refracted segment", SP + " sumBranches"),
     ("existence", SP + " parseName"), ("surface waves", SP +
                                        " sumBranches, calcTime")],
    [TP + " get_travel_times"],
    "reference-model monitor: exact critical ray plus linear moveout",
    "arrivals of head, diffracted and surface waves compared with the exact "
    "critical ray of an independent tracer, inside and outside their range")

add("C04", "Takeoff and incident angles are those of the ray",
    "The takeoff angle of an arrival is the angle between the vertical and "
    "its ray at the source, counted positive for rays that leave downward "
    "and negative for rays that leave upward (p, s and the depth phases); "
    "the incident angle is the angle between the vertical and its ray at the "
    "surface. Both follow from the ray parameter, the radius and the wave "
    "speed of the first (last) leg there, which next to a discontinuity is "
    "that on the ray's side of it; consistently for all phases, depths and "
    "models.",
    ["inputs", "configurations"],
    "all " + EARTH + ", depths, distances and phases as for C01",
    "Angles are compared in one printed table only.",
    [SP],
    [("angles from the ray parameter", SP + " calcTakeoffAngle, "
      "calcIncidentAngle, linearInterpArrival")],
    [TP + " get_travel_times (takeoffAngle, incidentAngle)"],
    "reference-model monitor: Snell's law at both ends of the recorded ray",
    "angles of all observed arrivals against Snell's law with the velocities "
    "of the table just above or below the source and at the surface")

add("C05", "Arrivals depend on the distance only modulo the sphere",
    "The arrivals for a distance are the same, ray by ray, as those for its "
    "negative, for 360 degrees minus it and for it plus any number of full "
    "turns; the distance of each arrival is congruent to the one requested, "
    "and no ray is reported twice, not even at 0 and 180 degrees.",
    ["inputs"],
    "all distances including 0, 180, 360 and their neighbourhood, huge and "
    "negative ones; all phases, depths and models as for C01",
    "No test uses a distance other than 0 to 180 degrees.",
    [SP, AR],
    [("folding of the distance", SP + " calcTime"),
     ("modulo distance", AR + " getModuloDistDeg")],
    [TP + " get_travel_times"],
    "metamorphic monitor over recorded arrivals of folded distances",
    "exact comparison of the arrivals of congruent distances, congruence and "
    "uniqueness of every arrival")

add("C06", "A query's answer does not depend on anything done before",
    "The same request gives bit by bit the same answer in a fresh process, "
    "after any sequence of other requests (other depths, phases, pierce "
    "points, paths, failing requests, other models loaded), and while other "
    "threads use the same model. Computing pierce points or paths never "
    "changes the travel times.",
    ["histories", "schedules", "inputs"],
    "all sequences of requests on any number of loaded models, from one or "
    "several threads",
    "Every test starts from a freshly loaded model and makes one request.",
    [TP, TT, PI, PA, TM, SM, SP, TB],
    [("depth correction works on copies", TM + " depthCorrect, splitBranch; "
      + SM + " splitLayer; " + TB + " insert, difference"),
     ("per request state", TT + " run, recalcPhases")],
    [TP + " TauPyModel methods"],
    "history monitor: bit-exact comparison of request histories with fresh "
    "processes, model digest invariant, threads with a tiny switch interval",
    "random request histories, one and several threads, against answers of "
    "fresh models; digest of the shared model before and after")

add("C07", "Phase lists mean the union of their phases",
    "The result of a request for a list of phases is the time-ordered union "
    "of the results for each single phase: keywords stand for their "
    "documented sets, duplicates and the order of the list change nothing, an "
    "empty list means all phases, and a phase that is unknown or impossible "
    "contributes nothing and leaves the others alone.",
    ["inputs"],
    "all lists of phase names and keywords (any case), with duplicates, "
    "unknown names and in any order; all depths, distances and models",
    "The tests use ttall, P and S in one order.",
    [TT, TP],
    [("expansion of keywords", TT + " getPhaseNames, parsePhaseList"),
     ("recalculation and skipping", TT + " recalcPhases"),
     ("order by time", TT + " sortArrivals")],
    [TP + " get_travel_times"],
    "algebraic monitor over recorded requests (union, permutation, "
    "idempotence)",
    "requests for generated lists against the merged single-phase answers")

add("C08", "Coordinates give the great circle distance",
    "A request by source and receiver coordinates is answered as the request "
    "for the great circle distance between the two points on the sphere, to "
    "rounding accuracy except for nearly coinciding or antipodal points "
    "(where one part in 1e6 of a degree is enough); it is symmetric in source "
    "and receiver and independent of how longitudes are wrapped.",
    ["inputs"],
    "all pairs of points, including poles, coinciding and antipodal points "
    "and longitudes outside of -180 to 180",
    "One test calls it with one pair of points.",
    [TT, TP],
    [("distance", TT + " great_circle_dist, run")],
    [TP + " get_travel_times (coordinate_list)"],
    "reference-model monitor: vector formula for the distance",
    "returned arrivals against those of the distance computed with a "
    "vector formula, for generated pairs of points")

add("C09", "Pierce points lie on the ray, in order, from source to receiver",
    "The pierce points of an arrival start at the source, end at the surface "
    "at the distance and time of the arrival, never go back in time or "
    "distance, and are, in the order of the legs, exactly the crossings of "
    "the ray with the discontinuities, its reflections, conversions and "
    "turning points, and the crossings of the source depth and of any depths "
    "asked for in addition. Each has the time and distance the "
    "ray has there.",
    ["inputs", "configurations"],
    "all arrivals of all phases (including head, diffracted and surface "
    "waves), depths, distances and models as for C01",
    "The one test of pierce points does not pass and compares with a file "
    "for one depth and distance.",
    [SP, PI, AR],
    [("pierce points", SP + " calcPierceFromArrival, linearInterpPierce"),
     ("additional depths", PI + " depthCorrect")],
    [TP + " get_pierce_points; Arrival.getPierce"],
    "reference-model monitor: the exact ray of the independent tracer passes "
    "every point, and every required crossing is a point",
    "every pierce point of generated arrivals against the traced ray, with "
    "endpoints, order and completeness of the crossings")

add("C10", "Ray paths are the ray",
    "The path of an arrival starts at the source, ends at the surface, "
    "never goes back in time or distance, visits the legs of the phase in "
    "order, and each of its points lies on the ray, with the time of the ray "
    "there. It samples the ray densely enough that no layer that the ray "
    "crosses is skipped, and it agrees with the pierce points of the same "
    "arrival.",
    ["inputs", "configurations"],
    "all arrivals of all phases (including head, diffracted and surface "
    "waves), depths, distances and models as for C01",
    "The one test of paths does not pass and compares with a file for one "
    "depth and distance.",
    [SP, PA, TB, AR],
    [("path of a branch", TB + " path"), ("path of the arrival", SP +
                                          " calcPathFromArrival")],
    [TP + " get_ray_paths; Arrival.getPath"],
    "reference-model monitor: every path point on the exact ray of the "
    "independent tracer; order and density monitors",
    "every path point of generated arrivals against the traced ray")

add("C11", "Velocity models are read as written",
    "Reading a velocity model file yields a model with the name of the file "
    "(without .tvel) and exactly its velocities and "
    "densities, linear between the rows, its radius, and its first order "
    "discontinuities; the Moho, the core-mantle and the inner core boundary "
    "are the discontinuities closest to their reference depths. Comments, "
    "blank lines and the way numbers are laid out in the file change nothing.",
    ["inputs"],
    "all well-formed velocity model files, all depths in the model",
    "The tests read iasp91 only.",
    [VM, VL],
    [("reading", VM + " readTVelFile"), ("evaluation", VL + " evaluateAt; "
                                         + VM + " evaluateAbove, "
                                         "evaluateBelow"),
     ("boundaries", VM + " fixDisconDepths, getDisconDepths")],
    [VM + " readVelocityFile, evaluateAbove, evaluateBelow"],
    "reference-model monitor: independent reader, values just above and "
    "below every depth",
    "generated files (layout variations, random layerings) read and compared "
    "with an independent reader at row depths, between and next to them")

add("C12", "Invalid velocity models are never turned into tables",
    "A velocity model that is malformed or physically impossible (missing or "
    "surplus or non-numeric columns, P velocity zero, negative or smaller "
    "than S velocity, velocity going to zero inside a layer, a fluid surface, "
    "depths that do not begin at the surface or are out of order, no rows, "
    "not a known file type, no file) is rejected with an error, and no model "
    "file is left behind that could be loaded. The validation of a velocity "
    "model reports zero and negative velocities, S velocities that go to zero "
    "inside a layer, gaps and empty layers, in every layer, and major depths "
    "in the wrong order. Valid models are built.",
    ["inputs", "configurations"],
    "all such single defects placed anywhere in an otherwise valid file, and "
    "maximum depth steps that are not positive",
    "No test feeds an invalid model.",
    [VM, SM, CR],
    [("checks while reading", VM + " readVelocityFile, readTVelFile"),
     ("validation", VM + " validate; " + SM + " validate, createSample")],
    [CR + " loadVMod, run"],
    "fault injection into model files with an outcome monitor (error raised, "
    "no loadable output)",
    "single defects at random places of valid files; the builder must raise "
    "and leave no loadable model")

add("C13", "The slowness sampling keeps its promises",
    "The layering a model is built on covers the planet from surface to "
    "centre without gap or overlap for both wave types, reproduces the "
    "velocity model at every layer boundary, has every depth at which "
    "slowness changes its behaviour as a boundary, and respects the requested "
    "limits on slowness steps, depth steps, distance steps and interpolation "
    "error. Finer limits give more accurate travel times.",
    ["inputs", "configurations"],
    "all Earth-like velocity models and all sensible settings of the five "
    "sampling limits",
    "The tests compare a few sample counts for iasp91 with one setting.",
    [SM, SL, SS],
    [("critical points", SM + " findCriticalPoints, coarseSample"),
     ("limits", SM + " rayParamIncCheck, depthIncCheck, distanceCheck, "
      "fixCriticalPoints"),
     ("layers", SL + "; " + SM + " validate")],
    [CR + " createTauModel; " + SM + " layers"],
    "invariant monitor on the built model, quality measured against the "
    "independent tracer",
    "structure and limits of the layering of generated models and settings, "
    "and the travel time error as a function of the settings")

add("C14", "Depth correction conserves the travel time branches",
    "Correcting a model for a source depth, or splitting it at any depth, "
    "leaves the sum over the branches of delay time, time and distance of "
    "every common ray unchanged, keeps the branches contiguous from surface "
    "to centre with the given depth as a branch boundary, and keeps delay "
    "time = time - ray parameter times distance for every ray of every "
    "branch. Each branch's time and distance are those of ray theory between "
    "its depths.",
    ["inputs", "configurations"],
    "all depths (inside layers, on boundaries, close to boundaries, 0, inside "
    "low velocity zones, in the mantle), also several splits after each "
    "other; all " + EARTH,
    "No test looks at a branch.",
    [TM, TB, SM],
    [("splitting", TM + " depthCorrect, splitBranch; " + TB + " insert, "
      "difference, shiftBranch"), ("layers", SM + " splitLayer")],
    [TM + " depthCorrect, splitBranch; tauBranches"],
    "conservation monitor on the branches, reference-model monitor for their "
    "times and distances",
    "branch sums before and after the correction, and every branch against "
    "the independent tracer")

add("C15", "A built model file is the model, in every process",
    "Writing a model and loading it again, by internal name, by file name or "
    "by path, from any directory, gives the answers of the model it was "
    "written from; building the same velocity model again, in another "
    "process or with another hash seed, gives the same model bit by bit. A "
    "file that is cut off, because its writer was killed or the disk was "
    "full, is never loaded as a model.",
    ["configurations", "crash_points", "inputs"],
    "all models, file names and directories, hash seeds, orders of building "
    "several models in a process, truncation points of the file, points at "
    "which writing fails or the writer dies",
    "The tests load the internal models from one place only.",
    [CR, LO, UT, TM, TP],
    [("writing", TM + " writeModel; " + CR + " run"),
     ("loading", LO + " load; " + UT + " _get_model_filename")],
    [CR + " run; " + TP + " TauPyModel, create_taup_model"],
    "history monitor over build, save and load in separate processes; "
    "truncation, failing writes and killed writers at generated points",
    "models built twice with different hash seeds, loaded by name and path "
    "from several directories; truncated files")

add("C16", "Printed tables say what the arrivals say",
    "The printed travel time, pierce point and path tables contain exactly "
    "the arrivals (points) that the same request returns as objects, in the "
    "same order, with the same values to the printed precision, whatever the "
    "phase names, angles and distances are. Asking for the printed table "
    "does not change what later requests return.",
    ["inputs"],
    "all requests that can be made without printing",
    "Some tests compare the printed table with stored ones of another "
    "program for one depth and distance.",
    [TT, PI, PA, AR],
    [("tables", TT + " printResult; " + PI + " printResult, "
      "getCommentLine; " + PA + " printResult")],
    [TP + " print_output=True"],
    "output monitor: the parsed tables against the returned objects",
    "tables of generated requests parsed and compared line by line")

add("C17", "Scaling the planet scales the answers",
    "If all velocities of a model are multiplied by a factor, all times and "
    "ray parameters are divided by it; if radius, depths and velocities are "
    "multiplied by the same factor, the times stay the same. Angles, "
    "distances and the arrivals that exist stay the same in both cases.",
    ["configurations", "inputs"],
    "all " + EARTH + " and factors within that range; all phases, depths, "
    "distances",
    "The tests use two models with the same radius.",
    [VM, SM, SP, TM, SS],
    [("radius", VM + " radiusOfEarth; " + SM + "; " + TM),
     ("ray parameter", SS + "; " + SP)],
    [TP + " get_travel_times on models built from scaled tables"],
    "metamorphic monitor over models built from scaled tables",
    "arrivals, pierce points and paths in pairs of scaled models")

add("C18", "Travel times are continuous in source depth",
    "Moving the source by a tiny amount, also onto, across or away from a "
    "layer boundary or discontinuity, changes the travel time of an arrival "
    "by no more than slowness times the amount moved (plus interpolation "
    "accuracy), and arrivals do not disappear except at the ends of their "
    "branches. Upgoing and direct phases merge when the source reaches the "
    "surface.",
    ["inputs"],
    "all depths from the surface to the core-mantle boundary and steps from "
    "1e-9 km up; all phases, distances, models as for C01",
    "The tests use a single source depth.",
    [SM, TM, TB, SP],
    [("splitting layers", SM + " splitLayer"),
     ("splitting branches", TM + " depthCorrect, splitBranch")],
    [TP + " get_travel_times at pairs of close depths"],
    "metamorphic monitor over recorded arrivals of neighbouring depths",
    "arrivals at pairs of close depths matched ray by ray")

add("C19", "Source and receiver can be exchanged",
    "For a source at the surface, the reversed phase has the same travel "
    "times, ray parameters and distances, with takeoff and incident angle "
    "exchanged. For a source at depth, the upgoing and downgoing phases and "
    "the depth phases join consistently: a depth phase leaves the surface "
    "like the phase from a surface source, later by the time of its "
    "upgoing leg.",
    ["inputs"],
    "all phases whose legs can be reversed, all distances, depths and models "
    "as for C01",
    "No test compares two phases.",
    [SP, TB],
    [("conversions", SP + " phaseConversion, addToBranch"),
     ("angles", SP + " calcTakeoffAngle, calcIncidentAngle")],
    [TP + " get_travel_times"],
    "metamorphic monitor over recorded arrivals of reversed phases",
    "arrivals of a phase and of its reversal, and of depth phases against "
    "surface phases at the bounce point")

add("C20", "Bad requests fail cleanly and leave the model usable",
    "A request that cannot be answered (depth below the centre or above the "
    "surface, infinite distance, no distance and incomplete coordinates, a "
    "model name that does not exist) is refused with an error or answered "
    "with no arrivals, within bounded work and never with made-up numbers "
    "(not a number, infinite, negative times). A malformed phase name does "
    "not keep the other phases of its list from being answered. Afterwards "
    "the same model answers valid requests as before.",
    ["inputs", "histories"],
    "all such requests, before and after valid ones; also arbitrary strings "
    "as phase names",
    "No test makes a request that must fail.",
    [TP, TT, TM, SP, LO],
    [("checks", TT + " run, recalcPhases; " + TM + " depthCorrect; " + SP +
      " parseName")],
    [TP + " TauPyModel methods"],
    "robustness monitor: outcome classes of hostile requests, follow-up "
    "requests compared with a fresh model",
    "hostile requests (generated phase names, depths, distances) with "
    "bounded CPU time, followed by checked valid requests")

add("C21", "Reflections and conversions at named depths are honoured",
    "A phase name with a depth (or the Moho) reflects or converts at the "
    "first order discontinuity closest to that depth, whatever number is "
    "written, and its full (purist) name names that discontinuity's true "
    "depth. Its arrivals are all the rays that do exactly that, from "
    "above or below as the name says, and none if the source is on the wrong "
    "side.",
    ["inputs", "configurations"],
    "all names with topside and underside reflections and conversions at any "
    "number, from sources above and below the discontinuity; all "
    + EARTH,
    "No test uses such a phase.",
    [SP],
    [("closest discontinuity", SP + " closestBranchToDepth"),
     ("parsing", SP + " getLegs, legPuller, parseName"),
     ("purist name", SP + " createPuristName")],
    [TP + " get_travel_times"],
    "reference-model monitor: exact rays of the independent tracer for "
    "generated converted phase names",
    "arrivals of names with generated depths against the tracer, both ways, "
    "purist names against the table")

add("C22", "Low velocity zones cast their shadows",
    "In models with low velocity zones no ray turns inside a zone that "
    "traps it: phases have gaps where, and only where, the velocity model "
    "casts a shadow, for P and S independently, for sources above, inside "
    "and below the zones. Times, pierce points and paths of rays "
    "that cross the zones are those of ray theory.",
    ["inputs", "configurations"],
    "all models with low velocity zones in the mantle (gradual or stepwise, "
    "one or several, for P only, S only or both), down to the core-mantle "
    "boundary; phases, depths, distances as for C01",
    "The models used by the tests have no low velocity zone in the mantle.",
    [SM, SP, TM],
    [("high slowness zones", SM + " findCriticalPoints, depthInHighSlowness"),
     ("shadow zones", SP + " sumBranches, calcTime")],
    [TP + " all requests on models with low velocity zones"],
    "reference-model monitor on models with low velocity zones",
    "both-way comparison with the independent tracer on generated low "
    "velocity zone models")


def manifest(claimed):
    checks = []
    for p in P:
        i = p["prop"]["id"]
        if i not in claimed:
            continue
        checks.append({
            "property": i,
            "quick_cmd": "bin/check %s --tier quick" % i,
            "thorough_cmd": "bin/check %s --tier thorough" % i,
            "technique": p["technique"], "level": "exploration",
            "level_note": p["note"]})
    return {
        "version": 1, "setup_cmd": "bin/setup", "checks": checks,
        "not_applicable": [
            {"property": p["prop"]["id"],
             "reason": "check still being built"}
            for p in P if p["prop"]["id"] not in claimed],
        "notes": "No hooks in /repo: the monitors observe the public "
                 "interface and the built model. See DESIGN.md."}


if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["prop"]) + "\n")
    have = [p["prop"]["id"] for p in P if os.path.exists(os.path.join(
        HERE, "vt", "checks", p["prop"]["id"].lower() + ".py"))]
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest(have), f, indent=1)
        f.write("\n")
