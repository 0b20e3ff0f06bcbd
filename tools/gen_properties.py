#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one readable source for the property list)."""
import json, os
B = "eskf_vio_backend/src/"
I = "eskf_vio_backend/include/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

SCN = "The three scene tests replay three fixed recordings, in one order, with every landmark seen by both cameras in every frame; "

prop("C01", "Only in-order measurements enter, and every loader keeps its own clock",
 "On each stream (IMU, camera) a message enters the queue if and only if its time stamp is strictly later than that of every message this loader has already accepted on that stream since it was created or last cleared; a camera message whose id list and observation list differ in length never enters. A rejected message has no effect on what is accepted or delivered later, and neither does anything done to another loader. All accepted messages of both streams are re-stamped by one common constant offset.",
 ["inputs", "histories"], "every sequence of pushes (both streams, in-order, equal, late, malformed), pops and clears on two loaders",
 "The scene tests push two strictly increasing streams once into a single loader; they never reject a message, clear a loader or create a second one.",
 [B+"data_manager/data_loader.cpp", I+"data_manager/data_loader.hpp"],
 [("time-stamp comparison before queueing", B+"data_manager/data_loader.cpp: PushFeaturesMessage, PushIMUMessage"), ("reset of the loader", B+"data_manager/data_loader.cpp: Clear")],
 [("last accepted time stamp per stream", "newest accepted message", B+"data_manager/data_loader.cpp"), ("time offset", "common shift of all stamps", I+"data_manager/data_loader.hpp")],
 ["messages returned by PopOneMessage"])

prop("C02", "One-by-one delivery is a lossless, time-ordered merge of the two streams",
 "Every accepted message is delivered exactly once, unaltered, in the order of its stream; when both streams have something queued the older message is delivered first and a camera message wins a tie, and when only one stream has something queued its oldest message is delivered. A delivery carries a camera message and an IMU message together exactly when both are at the head of their queues and the IMU message is not earlier than, and less than one IMU period later than, the camera message. A delivery reports failure exactly when nothing is queued, and what an output object held before never shows up in a later delivery.",
 ["inputs", "histories"], "every interleaving of pushes with time differences below, at and above one IMU period and of deliveries",
 "The scene tests queue everything first and then drain; deliveries between pushes, ties and the exact pairing boundary do not occur.",
 [B+"data_manager/data_loader.cpp", B+"data_manager/data_typedef.cpp"],
 [("head comparison and pairing", B+"data_manager/data_loader.cpp: PopOneMessage")],
 [("imu and feature queues", "accepted, undelivered messages", I+"data_manager/data_loader.hpp")], ["PopOneMessage output"])

prop("C03", "Packed delivery tiles the IMU stream exactly at the camera time stamps",
 "A packed delivery succeeds exactly when the oldest queued camera frame has a queued IMU sample strictly before it and another strictly after it; it contains that frame and all queued IMU samples up to the frame time in order, closed by a sample at the frame time that is the linear interpolation of its two neighbours unless the last of them already lies within a microsecond of it. The closing sample is also the first sample of the next pack, so consecutive packs cover the IMU stream without loss, overlap or gap. When the IMU stream has not yet passed the frame nothing is consumed, and a frame with no earlier IMU sample is dropped without consuming IMU data.",
 ["inputs", "histories"], "every interleaving of IMU and camera arrivals at equal, adjacent and straddling times with packed deliveries",
 "No test calls the packed delivery at all.",
 [B+"data_manager/data_loader.cpp"],
 [("enclosure tests, collection loop and interpolation", B+"data_manager/data_loader.cpp: PopPackedMessage")],
 [], ["PopPackedMessage output"])

prop("C04", "Every stored observation stays attached to the frame it was made in",
 "After any sequence of arriving frames, tracked by any subset of cameras with tracks starting, ending and resuming at any frame, and of removals of the oldest, second-newest or newest frame, looking up a landmark in a frame and camera of the window returns exactly the observation reported for that frame and camera, and fails for every combination that was not observed. Frame numbers in the window stay consecutive and in time order, per-landmark observation counts equal the observations still held, and a landmark disappears exactly when its last observation leaves the window. Each frame refers to exactly the landmarks observed in it. Removing a frame that is not in the window, or handing over lists of different length, is refused and changes nothing.",
 ["histories", "inputs"], "every sequence of frame arrivals, visibility patterns and removal operations",
 SCN + "so no track ever starts late, ends or resumes, and the newest-frame removal is never taken.",
 [B+"data_manager/vision_data/feature_manager.cpp", B+"data_manager/vision_data/frame_manager.cpp", B+"backend/backend.cpp"],
 [("append of observations", B+"data_manager/vision_data/feature_manager.cpp: AddNewFeatures, AddNewObserve"), ("removal with and without renumbering", B+"data_manager/vision_data/feature_manager.cpp: RemoveByFrameID"), ("frame removal and renumbering", B+"data_manager/vision_data/frame_manager.cpp: AddNewFrame, RemoveFrame"), ("three marginalization policies", B+"backend/backend.cpp: UpdateFeatureFrameManager, MarginalizeFeatureFrameManager")],
 [("first frame id + observation list", "run of observations per landmark", I+"data_manager/vision_data/feature_manager.hpp"), ("frame deque", "window of frames with consecutive ids", I+"data_manager/vision_data/frame_manager.hpp")],
 ["landmark/frame lookups"])

prop("C05", "The window is bounded and drops the right frame",
 "After every successful vision update the window holds at most the configured number of frames, always including the newest; while it is not over-full no frame is dropped, and when it is over-full exactly one is. The dropped frame is the oldest if the second-newest frame is a key frame and the second-newest otherwise. A frame is a key frame when it is the oldest, when it shares fewer than the configured number of landmarks with its predecessor in the first camera, or when it moved farther than the configured distance from it; a frame that shares enough landmarks, hardly moved and shows no parallax is not.",
 ["histories", "inputs", "configurations"], "every history of frames with enough/too few shared landmarks and small/large motion, for several window sizes and thresholds including their boundaries",
 SCN + "so the shared-landmark criterion never fires and its boundaries are never reached.",
 [B+"data_manager/vision_data/frame_manager.cpp", B+"update/multi_view_vision_update.cpp", B+"backend/backend.cpp"],
 [("key-frame test", B+"data_manager/vision_data/frame_manager.cpp: IsKeyFrame, NeedMarginalize"), ("policy decision", B+"update/multi_view_vision_update.cpp: DecideMargPolicy"), ("application of the policy", B+"backend/backend.cpp: MarginalizeFeatureFrameManager")],
 [], ["frames in the window after RunOnce", "policy reported by the vision update"])

prop("C06", "IMU propagation follows the strap-down kinematics and linearised uncertainty",
 "Feeding IMU samples advances orientation by the averaged bias-corrected angular rate, velocity by the averaged bias-corrected specific force rotated to the world minus gravity, and position by the averaged velocity, over the actual time difference of each pair of samples; the first sample only fixes the start at the configured initial motion state with zero uncertainty. The 15-state covariance advances with the matching first-order error-state transition and the configured process noise, the correlation with cameras and calibration advances with the same transition, and the camera covariance is untouched. Orientations stay unit length and every sample is kept with its time stamp and raw measurement.",
 ["inputs", "histories"], "every short sequence of IMU samples over a small alphabet of accelerations, rates and time steps, from zero and non-zero states, biases and covariances",
 "The scenes check position only, to 3 m, on noisy data; a wrong block of the transition, noise or correlation terms stays below that.",
 [B+"propagate/sequence_propagator.cpp", I+"propagate/sequence_propagator.hpp", B+"propagate/imu_state.cpp"],
 [("mid-point integration", B+"propagate/sequence_propagator.cpp: PropagateMotionNominalState"), ("error-state transition", B+"propagate/sequence_propagator.cpp: PropagateFullErrorStateCovariance"), ("start of a sequence", B+"propagate/sequence_propagator.cpp: Propagate")],
 [("propagation sequence", "states, covariances and samples since the anchor", I+"propagate/sequence_propagator.hpp")], ["states and covariances of the sequence"])

prop("C07", "Anchoring and replay: newest state = corrected state plus all later IMU data",
 "Anchoring the sequence at a time drops exactly the leading samples older than that time by more than the given tolerance, and fails exactly when nothing is left. After the anchored state, covariance or biases have been corrected, replaying makes every later state and covariance equal to a fresh propagation of the same raw samples from the corrected anchor with the corrected biases. Replaying twice changes nothing and no IMU sample is lost or used twice.",
 ["histories", "inputs"], "every sequence of samples, anchorings (before, at, between, after the samples), corrections and replays",
 "The scenes only anchor on time-aligned data and never compare the replayed states with anything.",
 [B+"propagate/sequence_propagator.cpp", B+"update/multi_view_vision_update.cpp"],
 [("anchoring", B+"propagate/sequence_propagator.cpp: ResetOrigin"), ("replay", B+"propagate/sequence_propagator.cpp: Repropagate")],
 [], ["states and covariances of the sequence"])

prop("C08", "A vision update is the error-state Kalman update of the reprojection errors",
 "A vision update changes the pose, velocity and biases at the frame time, all window poses and the camera calibrations by exactly the error-state Kalman correction for the normalized-plane reprojection errors of the used landmarks, with the landmark positions projected out, isotropic measurement noise of the configured deviation, and the correlations held before the update. The state covariance after the update is the corresponding Kalman posterior. Observations that agree with the current state change no state, and an update without usable landmarks leaves state and uncertainty as propagated.",
 ["histories", "inputs", "configurations"], "every short history of frames over visibility, motion, observation error, camera-count and window-policy alphabets",
 "The scenes accept any trajectory within 3 m; a wrong Jacobian block, sign or projection merely degrades the accuracy.",
 [B+"update/multi_view_vision_update.cpp", I+"update/multi_view_vision_update.hpp", I+"utility/math_lib.hpp"],
 [("measurement Jacobians and left-null-space projection", B+"update/multi_view_vision_update.cpp: ConstructMeasurementFunction"), ("gain, state and covariance update", B+"update/multi_view_vision_update.cpp: UpdateState"), ("matrix inverse", I+"utility/math_lib.hpp: Inverse")],
 [("joint covariance", "IMU, calibration and window blocks", B+"update/multi_view_vision_update.cpp")], ["states, calibrations and covariances after the update"])

prop("C09", "Joining and leaving the window keeps every covariance block with its own frame",
 "When a frame joins the window its uncertainty and its correlations with everything else are those of the IMU pose at that moment; when a frame leaves, exactly its rows and columns disappear and all other entries keep their values. After every update the covariance has one 6-dimensional block per calibrated camera and per remaining frame, in window order, and the blocks of a frame always belong to that frame.",
 ["histories"], "every history of frame arrivals with all removal policies, for one to three cameras and window sizes two to four",
 "A permuted or stale block only weakens the correlations; the coarse scene tolerance does not see it.",
 [B+"update/multi_view_vision_update.cpp", B+"backend/backend.cpp"],
 [("state augmentation", B+"update/multi_view_vision_update.cpp: ExpandCameraCovariance"), ("block removal", B+"update/multi_view_vision_update.cpp: ReduceCameraCovariance"), ("hand-over to the propagator", B+"update/multi_view_vision_update.cpp: ConstructCovariance, UpdateCovariance")],
 [], ["covariances after the update"])

prop("C10", "The uncertainty stays a valid covariance and measurements never increase it",
 "In every reachable state the joint covariance of IMU, calibrations and window poses is finite, symmetric and positive semi-definite up to single-precision rounding. A vision update never increases the variance of any state component, and pure propagation never changes the variance of window poses or calibrations. The joint covariance always has the size implied by the number of cameras and frames in the window.",
 ["histories", "inputs"], "every reachable filter state within the explored histories (visibility, motion, noise, policy, IMU gaps)",
 "The tests never look at a covariance.",
 [B+"update/multi_view_vision_update.cpp", B+"propagate/sequence_propagator.cpp"],
 [("symmetrised posterior", B+"update/multi_view_vision_update.cpp: UpdateState"), ("covariance propagation", B+"propagate/sequence_propagator.cpp: PropagateFullErrorStateCovariance")],
 [], ["covariances after every step"])

prop("C11", "Triangulation returns the point all views agree on, or says it cannot",
 "For exact observations of a point in front of all cameras from at least two views with sufficient parallax, the direct triangulation succeeds and returns that point, and the iterative one converges to it from a nearby start. The direct triangulation reports failure with fewer than two views or when the solution lies behind any of the cameras, so a successful result is always in front of every view. The iterative triangulation never returns a point with a larger total reprojection error than its start.",
 ["inputs"], "every combination of view sets from a pose lattice (rotations included), points from a lattice in front of and behind the cameras, and start offsets",
 "One camera arc and one point are tested; cameras behind, few views, rotated views and bad starts are not.",
 [B+"geometry/trianglation.cpp"],
 [("linear solution and depth test", B+"geometry/trianglation.cpp: TrianglateAnalytic"), ("damped Gauss-Newton", B+"geometry/trianglation.cpp: TrianglateIterative")], [], ["returned flag and point"])

prop("C12", "Camera pose estimation recovers the pose behind the correspondences",
 "Given exact 2D-3D correspondences of at least four well-spread points and a start near the truth, plain and robust pose estimation return the true camera pose with a unit quaternion. When at most one correspondence in twenty is a gross outlier, the robust estimate is disturbed less than the plain one, and only by a bounded amount however wrong the outlier is. Mismatched or empty inputs are reported as failure and leave the pose as it was.",
 ["inputs"], "every combination of camera poses, point sets, start offsets and outlier positions from a lattice",
 "One pose (pure translation) and one start are tested; rotation errors and minimal point sets never occur.",
 [B+"geometry/perspective_n_point.cpp", I+"geometry/perspective_n_point.hpp"],
 [("Gauss-Newton on the pose", B+"geometry/perspective_n_point.cpp: EstimatePose, EstimatePoseKernel"), ("robust weight", I+"geometry/perspective_n_point.hpp: Cauchy")], [], ["returned flag and pose"])

prop("C13", "RANSAC pose estimation returns the best hypothesis it tried, for every draw",
 "For every sequence of random draws that does not repeat the same few values forever the RANSAC pose estimation terminates, and allowing more iterations on the same draws never lowers the number of inliers of the returned pose. The returned pose has at least as many inliers as the start and as every pose that was fitted to a drawn triple, and the iterations end early only when the share of inliers of the returned pose exceeds the stop rate. The returned inlier flags have one entry per correspondence and are exactly the correspondences whose squared reprojection error under the returned pose is below the threshold, whatever the flag list held before. Fewer than three correspondences, or lists of different length, are reported as failure.",
 ["inputs", "schedules"], "every sequence of random draws of the first iterations, for several point and outlier sets and iteration budgets",
 "One seed, one data set: the last draw happened to be a good one.",
 [B+"geometry/perspective_n_point.cpp"],
 [("draw, score and best-model bookkeeping", B+"geometry/perspective_n_point.cpp: EstimatePoseRANSAC")], [("best model and score", "best hypothesis so far", B+"geometry/perspective_n_point.cpp")], ["returned pose and inlier flags"],
 "rand() is replaced at link time, no change of the sources")

prop("C14", "The attitude estimator finds and tracks the direction of gravity",
 "The first IMU sample whose bias-corrected specific force has the magnitude of gravity (within 0.04 m/s2) starts the attitude estimate with an orientation that maps the measured direction to the world vertical, for every direction including exactly level and upside down; samples before that leave it unstarted. Afterwards the estimate follows the bias-corrected angular rate, so that for a rotating body without linear acceleration roll and pitch stay at the truth and the relative orientation matches the integrated rotation. The estimate is a finite unit quaternion for every input of up to a million in magnitude, including zero specific force.",
 ["inputs", "histories"], "all start directions of a lattice, all short programs of rotations about the body axes, biases, and single odd samples",
 "The scenes use the attitude once, a few milliseconds after its start at small tilt, where a wrong rotation hardly shows.",
 [B+"propagate/attitude_estimate.cpp", I+"propagate/attitude_estimate.hpp"],
 [("start from the accelerometer", B+"propagate/attitude_estimate.cpp: Propagate"), ("gyro integration with feedback", B+"propagate/attitude_estimate.cpp: Propagate")], [("attitude history", "attitude and raw sample per time stamp", I+"propagate/attitude_estimate.hpp")], ["attitude history, GetAttitude"])

prop("C15", "The attitude history answers with the nearest sample and forgets only old ones",
 "Asking for the attitude at a time returns the attitude of the stored sample nearest to that time if it is closer than the given tolerance, and fails otherwise, without ever changing the history. Cleaning removes exactly the leading samples older than the given time by more than the tolerance, also when that is all of them. A sample earlier than the newest stored one is refused and changes nothing.",
 ["histories", "inputs"], "every sequence of samples, queries (before, at, between, after the samples) and cleanings",
 "The scenes ask once, for a time inside a dense history, and never clean past the newest sample.",
 [B+"propagate/attitude_estimate.cpp"],
 [("lookup", B+"propagate/attitude_estimate.cpp: GetAttitude"), ("cleaning", B+"propagate/attitude_estimate.cpp: CleanOldItems")], [], ["GetAttitude, CleanOldItems"])

prop("C16", "Initialization succeeds exactly when it can and starts at the true motion",
 "An uninitialized system becomes initialized when and only when two consecutive camera frames are available, the attitude is known at the first, and at least ten landmarks triangulated by several cameras in the first frame are seen by the first camera in the second; a failed attempt leaves only the newest frame in the window. On success the world origin is the body position at the first frame with vertical along gravity, and the initial velocity is the displacement between the two frames divided by their time difference. All IMU samples since the first frame are then accounted for, so that the published state is already that of the newest sample.",
 ["inputs", "histories"], "every short sequence of frames with enough/too few/mono/no landmarks, with and without known attitude, at rest and in motion, for several start tilts",
 SCN + "initialization is attempted once and its result is only judged by the later position.",
 [B+"backend/backend_initialize.cpp", B+"backend/backend.cpp"],
 [("initialization procedure", B+"backend/backend_initialize.cpp: Initialize, TrianglizeMultiView, EstimateFramePose, InitializePropagator"), ("retry with a single frame", B+"backend/backend.cpp: RunOnce")], [("status", "need-init or initialized", I+"backend/backend.hpp")], ["status, published states, frames in the window"])

prop("C17", "After a failed update or a reset the system recovers as if freshly started",
 "Whenever an update fails, or the caller resets the system, it returns to the uninitialized status, keeps accepting data and initializes again with the next suitable frames. From then on it estimates the motion as well as a newly created system that is given the same data and the same bias estimate, with nothing left over from before except the estimated biases and calibrations and the attitude estimate, which keeps running with the biases estimated so far and keeps the vertical. Apart from that attitude no IMU sample from before the new start influences the new state estimate, and each sample's bias is compensated exactly once.",
 ["histories", "fault_sequences"], "every placement of one or two disruptions (reset, IMU stall, frame ahead of the IMU data) in a run, followed by good data, with zero and non-zero biases",
 "No test resets the system or makes an update fail.",
 [B+"backend/backend.cpp", B+"backend/backend_initialize.cpp", B+"propagate/sequence_propagator.cpp"],
 [("failure handling", B+"backend/backend.cpp: RunOnce, Reset"), ("restart of the propagation", B+"backend/backend_initialize.cpp: InitializePropagator")], [], ["status, published states"])

prop("C18", "States are published at IMU rate, in time order, for the right instant",
 "Before the first initialization nothing is published and the caller's variables stay untouched; while it is initialized, after every processed IMU sample the latest published state carries exactly that sample's time stamp, and its time never goes backwards. The published update state belongs to the instant of the last successful vision update (within one IMU period) and the latest state is that state propagated through all later IMU samples with the published biases. Published orientations are unit quaternions.",
 ["histories", "schedules"], "every schedule of IMU and camera arrivals and processing steps within the deviation bound",
 "The scenes load all data first and process it in one fixed order.",
 [B+"backend/backend.cpp"],
 [("publication", B+"backend/backend.cpp: PublishPropagateState, PublishUpdateState"), ("processing step", B+"backend/backend.cpp: RunOnce")], [], ["PublishPropagateState, PublishUpdateState"])

prop("C19", "Configuration files reach exactly their parameters, and bad files do no harm",
 "Each configuration file sets exactly its own parameters to the values it contains, in the estimator as well as in the configuration object; a missing file leaves the parameters it would set unchanged, and the number of cameras is the number of consecutively numbered calibration files present. A file with too few or unreadable numbers is treated like a missing one, and surplus rows or columns are ignored. Reading never touches memory outside its parameters, and a complete set of files always gives the same configuration, whatever was read before.",
 ["configurations", "inputs"], "every combination of up to two missing, truncated, oversized or unreadable files, and every number and gap of camera files",
 "One complete and well-formed configuration directory is used by all tests.",
 [B+"config/config.cpp", B+"backend/backend_config.cpp"],
 [("matrix reader", B+"config/config.cpp: LoadMatrix"), ("distribution to the modules", B+"backend/backend_config.cpp: ConfigParams")], [], ["parameters after ConfigParams"])

prop("C20", "No sequence of well-typed messages crashes the system or publishes garbage",
 "For every sequence of IMU and camera messages with finite content of physical magnitude - samples missing, late, repeated, with zero force, frames empty, sparse, single-camera, from a camera without calibration, ahead of or behind the IMU data, with tracks that vanish and resume or ids listed twice - and of resets, every call returns without memory error or endless loop. Every published state is finite with a unit quaternion, and the window never exceeds its configured size after a processing step.",
 ["histories", "fault_sequences"], "every sequence of normal and odd events up to the depth bound, from the start and from a running system",
 SCN + "no odd event occurs.",
 [B+"backend/backend.cpp", B+"backend/backend_initialize.cpp", B+"update/multi_view_vision_update.cpp", B+"propagate/attitude_estimate.cpp", B+"data_manager/vision_data/feature_manager.cpp"],
 [("event handling", B+"backend/backend.cpp: RunOnce")], [], ["return of every call, published states, frames in the window"])

prop("C21", "Instances are independent and runs are reproducible",
 "The outputs of a system depend only on its own configuration and the messages given to it: any number of systems in one process, configured alike or differently, created at any time and called in any interleaving, also when a call to one is interrupted by calls to another because they run in different threads, each behave exactly as if alone in a fresh process. Running the same messages through a new system again gives the same outputs, whatever memory contents it starts from.",
 ["schedules", "histories"], "every interleaving (within the switch bound) of the calls to two systems with different data, including systems created after others have finished, and one preemption at every basic block of a call",
 "Every test program creates one system and runs it once.",
 [B+"data_manager/data_loader.cpp", B+"backend/backend_initialize.cpp", B+"update/multi_view_vision_update.cpp", B+"config/config.cpp"],
 [("scratch buffers are local to a call", B+"backend/backend_initialize.cpp, "+B+"update/multi_view_vision_update.cpp"), ("per-instance state", I+"backend/backend.hpp")], [], ["published states of both systems"],
 "rand() is replaced at link time, no change of the sources")

prop("C22", "With ideal sensors the estimated trajectory is the true one",
 "Given noise-free IMU samples and exact observations of enough landmarks, starting at rest, the published position, velocity and orientation relative to the starting pose follow the true motion within a small bound for every sequence of accelerations, rotations and rests, and constant sensor biases given in the configuration are compensated. This holds whether the frames coincide with IMU samples or fall between them, while landmarks come and go, with any window size and message rate, and for runs of any length as long as the landmarks are observed by several cameras (for runs of some seconds also by one).",
 ["inputs", "configurations"], "every motion program up to the depth bound over a segment alphabet, with visibility and frame-timing variants",
 "The scenes check position to 3 m on noisy data for three trajectories; velocity, orientation and biases are only checked for being finite.",
 [B+"backend/backend.cpp", B+"backend/backend_initialize.cpp", B+"update/multi_view_vision_update.cpp", B+"propagate/sequence_propagator.cpp"],
 [("the whole estimator", B+"backend/backend.cpp: RunOnce")], [], ["PublishPropagateState"])

prop("C23", "Late camera data gives the same estimate as timely camera data",
 "If camera frames reach the system late, after IMU samples newer than them have already been processed, but before the following frame and still in order, the estimates after all data has been processed are the same as if every message had been processed in time order, up to rounding. This holds before, during and after initialization.",
 ["schedules"], "every assignment of arrival delays (0 .. bound IMU samples) to the frames of a run",
 "The scenes process everything in time order.",
 [B+"backend/backend.cpp", B+"propagate/sequence_propagator.cpp", B+"propagate/attitude_estimate.cpp", B+"data_manager/data_loader.cpp"],
 [("anchoring in the past and replay", B+"propagate/sequence_propagator.cpp: ResetOrigin, Repropagate"), ("attitude history", B+"propagate/attitude_estimate.cpp: GetAttitude")], [], ["PublishPropagateState, PublishUpdateState"])

prop("C24", "An update uses as many good landmarks as allowed, for every random draw",
 "A vision update uses only landmarks that are observed in the newest frame and triangulate in front of all their views, and uses exactly the smaller of their number and the configured maximum. When their number does not exceed the maximum the result of the update does not depend on the random draws.",
 ["inputs", "schedules"], "every combination of random draws (including equal and extreme ones), landmark sets and maxima",
 "The scenes see one random sequence; whether a landmark was silently left out has no visible effect.",
 [B+"update/multi_view_vision_update.cpp"],
 [("selection by random score", B+"update/multi_view_vision_update.cpp: SelectGoodFeatures")], [], ["state and covariance after the update, compared with every admissible subset of landmarks"],
 "rand() is replaced at link time, no change of the sources")

prop("C25", "The rotation and matrix helpers satisfy their defining identities",
 "For every quaternion and vector: the skew matrix times a vector is the cross product; left and right product matrices times a quaternion are the quaternion products; the small-angle quaternion agrees with the exact rotation to first order; the homogeneous transform applies rotation then translation; the Euler conversion rebuilds the rotation away from gimbal lock and stays finite at it; the rotation magnitude is the true angle and never undefined. The symmetric inverse of a well-conditioned positive matrix is its inverse, and of a singular one its pseudo-inverse.",
 ["inputs"], "every pair of elements of a lattice of quaternions, vectors and small symmetric matrices, fixed-size and templated variants",
 "No test calls the helpers directly; several are not used by the tested paths at all.",
 [I+"utility/math_lib.hpp"],
 [("helper functions", I+"utility/math_lib.hpp")], [], ["return values"])

prop("C26", "The storage a running system holds does not grow with its history",
 "However long a system runs, and whatever pattern of frames it is given - landmarks that stay, change, pause or are missing, updates that succeed or fail, frames from which it cannot initialize, missing samples, late frames, repeated ids, resets - the memory it holds after a processed frame stays below a bound that depends only on the window size, the number of landmarks per frame and the samples since the frame before. Frames, landmarks, observations and samples that neither the window nor the next start needs are released, and no message is kept once it is processed.",
 ["histories"], "every pattern of up to three frames over an alphabet of regular and odd frames, repeated for many frames",
 "The scenes end after a fixed number of frames and nothing measures what is still held.",
 [B+"backend/backend.cpp", B+"propagate/attitude_estimate.cpp", B+"propagate/sequence_propagator.cpp", B+"data_manager/vision_data/feature_manager.cpp", B+"data_manager/vision_data/frame_manager.cpp", B+"data_manager/data_loader.cpp"],
 [("cleaning of the attitude history", B+"backend/backend.cpp: RunOnce"), ("origin of the propagation sequence", B+"propagate/sequence_propagator.cpp: ResetOrigin"), ("removal of landmarks", B+"data_manager/vision_data/feature_manager.cpp: RemoveByFrameID")], [], ["heap in use after each frame"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
