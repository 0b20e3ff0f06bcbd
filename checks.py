"""What each check is built from, and what it claims."""
DATA = dict(harness="data.cpp", sources=["data_manager/data_"], cxxflags=["-O1"],
            assumptions=["every pushed message is a new object (the loader takes ownership and shifts its stamp in place)",
                         "time stamps are finite"])
WINDOW = dict(harness="window.cpp", sources=[""], cxxflags=["-O2"],
              assumptions=["camera indices refer to configured cameras"])
PROP = dict(harness="propagate.cpp", sources=["propagate/sequence", "propagate/imu_state"], cxxflags=["-O2"],
            assumptions=["time stamps do not decrease"])
ATT = dict(harness="attitude.cpp", sources=["propagate/attitude", "propagate/imu_state"], cxxflags=["-O2"],
           assumptions=["inputs are finite"])
GEO = dict(harness="geometry.cpp", sources=["geometry/"], cxxflags=["-O2"],
           assumptions=["rotations are given as unit quaternions"])
MATH = dict(harness="math.cpp", sources=[], cxxflags=["-O2"],
            assumptions=["rotations are given as unit quaternions or rotation matrices up to rounding"])
ASAN = ["-O2", "-g1", "-fsanitize=address,bounds,shift,signed-integer-overflow,integer-divide-by-zero,float-cast-overflow,return,unreachable,enum,bool", "-fno-sanitize-recover=all", "-DMC_ASAN"]
CONFIG = dict(harness="config.cpp", sources=[""], cxxflags=ASAN,
              assumptions=["numbers in the files are finite and fit their parameter"])
VISION = dict(harness="vision.cpp", sources=[""], cxxflags=["-O2"],
              assumptions=["camera indices refer to configured cameras"])
BACKEND = dict(harness="backend.cpp", sources=[""], cxxflags=["-O2"],
               assumptions=["camera indices refer to configured cameras", "every pushed message is a new object"])
BACKEND_ASAN = dict(BACKEND, cxxflags=ASAN, assumptions=["every pushed message is a new object", "contents are finite and of physical magnitude"])
CHECKS = {
    "C01": dict(DATA), "C02": dict(DATA), "C03": dict(DATA),
    "C04": dict(WINDOW), "C05": dict(WINDOW),
    "C06": dict(PROP), "C07": dict(PROP),
    "C08": dict(VISION), "C09": dict(VISION), "C10": dict(VISION), "C24": dict(VISION),
    "C11": dict(GEO), "C12": dict(GEO), "C13": dict(GEO),
    "C14": dict(ATT), "C15": dict(ATT),
    "C19": dict(CONFIG),
    "C16": dict(BACKEND), "C17": dict(BACKEND), "C18": dict(BACKEND), "C20": dict(BACKEND_ASAN), "C21": dict(BACKEND, source_flags=["-fsanitize-coverage=trace-pc"]), "C22": dict(BACKEND), "C23": dict(BACKEND),
    "C25": dict(MATH), "C26": dict(BACKEND, env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}),
}
TECHNIQUE = {
    "C01": "exhaustive enumeration of event sequences on the real DataLoader against a reference queue",
    "C02": "exhaustive enumeration of push/deliver interleavings on the real DataLoader against a reference merge",
    "C03": "exhaustive enumeration of push/packed-deliver interleavings on the real DataLoader against a reference",
    "C04": "exhaustive enumeration of frame arrival / removal histories on the real window managers against a reference window",
    "C05": "exhaustive enumeration of key frame boundaries and of motion / visibility histories on the real Backend against a reference decision",
    "C06": "exhaustive enumeration of IMU sample sequences on the real PropagateQueue, each step compared with a double precision reference step",
    "C07": "exhaustive enumeration of anchor / correct / replay histories on the real PropagateQueue against fresh propagation of the raw samples",
    "C08": "exhaustive enumeration of window, observation and perturbation patterns; the real vision update compared with a double precision error-state Kalman reference with numerical Jacobians",
    "C09": "exhaustive enumeration of update / drop histories of the real vision update with label-coded covariances against a reference bookkeeping",
    "C10": "exhaustive enumeration of system histories; every reached joint covariance is checked",
    "C11": "exhaustive enumeration of view configurations and a point lattice on the real triangulator",
    "C12": "exhaustive enumeration of pose, point set, start and outlier lattices on the real pose solver",
    "C13": "exhaustive enumeration of all random draws of the real RANSAC loop (rand() is a choice point)",
    "C14": "exhaustive enumeration of IMU sample sequences and direction lattices on the real attitude estimator against a double precision reference",
    "C15": "exhaustive enumeration of history / query / cleaning sequences on the real attitude estimator against a reference history",
    "C16": "exhaustive enumeration of message histories before and during initialization of the real Backend against a reference predicate",
    "C17": "exhaustive enumeration of failure and reset points in message histories of the real Backend, compared with a fresh system",
    "C18": "exhaustive enumeration of arrival schedules of the real Backend; every publication checked",
    "C19": "exhaustive enumeration of configuration file faults and reading orders on the real configurator under AddressSanitizer",
    "C20": "exhaustive enumeration of odd message sequences on the real Backend under Address- and UndefinedBehaviorSanitizer",
    "C21": "exhaustive enumeration of interleavings of several systems in one process, and of preemptions at every basic block of a call, compared with the same system alone in a fresh process",
    "C22": "exhaustive enumeration of motion programs on the real Backend against the true trajectory",
    "C23": "exhaustive enumeration of camera delay schedules on the real Backend against in-order processing",
    "C24": "exhaustive enumeration of the random draws of the real vision update (rand() is a choice point) and of landmark sets",
    "C26": "exhaustive enumeration of repeated frame patterns on the real Backend, heap in use early and late in the run compared",
    "C25": "exhaustive enumeration of value lattices on the real helpers against their defining identities",
}
_EX = "Every execution within the stated bounds is run on the real code and compared with an independent reference; "
NOTES = {
    "C01": _EX + "values outside the time alphabet and longer histories are not covered.",
    "C02": _EX + "longer histories only in regular patterns.",
    "C03": _EX + "one-by-one and packed delivery are not mixed.",
    "C04": _EX + "at most three landmarks and two cameras, longer histories only in sliding windows.",
    "C05": _EX + "decisions within 2 percent of a limit are left open.",
    "C06": _EX + "values come from a lattice; single-precision rounding is tolerated.",
    "C07": _EX + "values come from a lattice; single-precision rounding is tolerated.",
    "C08": _EX + "states, landmarks and perturbations come from a lattice, small enough for first-order comparison.",
    "C09": _EX + "windows of up to six frames.",
    "C10": _EX + "histories of bounded length; rounding in single precision is tolerated.",
    "C11": _EX + "poses and points come from lattices.",
    "C12": _EX + "poses, points and starts come from lattices.",
    "C13": _EX + "few points and few iterations, so that all draws can be enumerated.",
    "C14": _EX + "directions and rates come from lattices.",
    "C15": _EX + "histories of up to six samples.",
    "C16": _EX + "bounded numbers of frames and samples before initialization.",
    "C17": _EX + "one or two failures per history.",
    "C18": _EX + "schedules that deviate from the timely order at a bounded number of points.",
    "C19": _EX + "faults come from a menu of file contents.",
    "C20": _EX + "event menu of odd messages up to a bounded length.",
    "C21": _EX + "two or three systems, bounded number of switches, one preemption inside a call.",
    "C22": _EX + "motion programs are sequences of segments from a menu.",
    "C23": _EX + "bounded number of delayed frames.",
    "C24": _EX + "few landmarks, so that the draws can be enumerated.",
    "C26": _EX + "patterns of up to three frames, repeated to a length of 120 frames.",
    "C25": _EX + "values come from lattices.",
}
NOT_APPLICABLE = {}
