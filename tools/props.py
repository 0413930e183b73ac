P("C01", "Feature extraction is complete, schedule-independent and never hangs",
  "For every set of images, number of reading and processing workers, memory budget and thread "
  "interleaving, feature extraction terminates, and when it reports success every selected image "
  "has exactly the features and words that processing it alone would give, and every image that was processed a report with their number. An image that cannot be read or "
  "a worker that fails or stalls ends the run with an error; it never leaves it hanging and never "
  "makes it end quietly with images missing.",
  ["schedules", "fault_sequences", "inputs", "configurations"],
  "all thread schedules, worker counts and queue capacities, stalls of any length, read and write "
  "faults at any file operation, unreadable images, partially done datasets",
  "the tests never run the reader/queue/processor pipeline at all (it needs the native modules), "
  "and one green run settles one interleaving only",
  F("features_processing.py", "actions/detect_features.py", "features.py", "context.py", "dataset.py"),
  [("bounded hand-over queue with an end marker counted down by the readers", "features_processing.py: run_features_processing, read_images, process"),
   ("planned memory/queue size", "features_processing.py: average_image_size, expected queue size")],
  "seeded thread schedules (random walk, PCT, stalls) over the real pipeline with disk faults",
  "Seeded search over schedules, queue sizes, worker counts, stalls and disk faults; oracle is a sequential per-image extraction in a separate simulated process. Trusts that C calls are atomic.")

P("C02", "A parallel map equals the sequential map under every schedule",
  "Mapping a function over a list with any number of workers and any batch size returns, for every "
  "thread interleaving, the results of each item exactly once and in the order of the list, or "
  "raises an error of an item that failed; it always returns. Whether it succeeds or fails, OpenCV's "
  "own threading is afterwards what it was before, and is off while the items of a successful call run.",
  ["schedules", "inputs", "fault_sequences"],
  "all schedules, worker counts, batch sizes, sleeping, failing and nested items",
  "tests use it with one worker or with results that do not depend on the schedule",
  F("context.py"),
  [("joblib threading backend with explicit batches", "context.py: parallel_map"),
   ("saving and restoring the OpenCV thread count", "context.py: parallel_map")],
  "seeded thread schedules over programs of nested, failing and stalling parallel calls",
  "Seeded search over programs and schedules against the sequential semantics.")

P("C04", "An interrupted pipeline, run again, ends as if never interrupted",
  "If any pipeline command is killed at any moment and the pipeline is then run again, it finishes "
  "without error and leaves the same data as a run that was never interrupted. Nothing half-written "
  "before the crash is taken for a finished result, and work already finished is not corrupted.",
  ["crash_points", "histories", "schedules", "configurations"],
  "a kill at any file operation of any of the eight pipeline stages, also tearing the write under "
  "way, one to three kills in a row, then a re-run of that stage or of the whole pipeline",
  "no test kills or restarts a command; the skip-if-present logic and the torn files only meet after a crash",
  F("dataset.py", "io.py", "features_processing.py", "matching.py", "undistort.py", "dense.py",
    "actions/extract_metadata.py", "actions/detect_features.py", "actions/match_features.py",
    "actions/create_tracks.py", "actions/reconstruct.py", "actions/mesh.py", "actions/undistort.py",
    "actions/compute_depthmaps.py"),
  [("skip what is already on disk", "features_processing.py, actions/extract_metadata.py, dense.py: *_exists checks"),
   ("replace a file only when complete", "io.py: open_wt, open_wb, imwrite")],
  "kill points seeded over every file operation of every stage of the real command-line pipeline, then a restart compared with an uninterrupted golden run",
  "Seeded search over crash points, seeds and schedules on small synthetic scenes; process death, not power loss.")

P("C05", "Saving a file of a dataset replaces it whole or leaves it alone",
  "At every moment, also while a save runs, after it failed at any file operation and after the "
  "process died in it, every file of a dataset is either absent, the complete old version or the "
  "complete new version, and all other files are untouched. A save that returns without error has "
  "stored the new version, and a save can always be repeated. Concurrent savers of different files "
  "and concurrent readers do not disturb each other.",
  ["crash_points", "fault_sequences", "schedules", "histories"],
  "31 kinds of saved file, any old and new contents, kills, torn writes, short writes, disk full "
  "and I/O errors at any write-side operation, parallel savers, a concurrent reader",
  "the tests save to a healthy disk, one file at a time, and never die while saving",
  F("io.py", "dataset.py", "features.py", "large/metadataset.py") + ["annotation_gui_gcp/lib/gcp_manager.py"],
  [("write aside, then rename", "io.py: open_wt, open_wb, imwrite"),
   ("one save method per kind of file", "dataset.py: save_*")],
  "kills, torn writes and disk errors seeded over every write-side operation of every save, with parallel savers and readers",
  "Seeded search; process death, not power loss.")

P("C06", "A command that could not write a result never reports success",
  "If a write, rename, directory creation or close fails while a command runs, the command either "
  "still produces exactly the results of an undisturbed run or ends with an error; it never reports "
  "success with results missing, truncated or different, and never hangs. Once the disk works again, "
  "the same command run again produces the undisturbed results.",
  ["fault_sequences", "inputs", "configurations", "schedules"],
  "one or two failures (disk full, quota, I/O error, permission, short write), once or for good, at any "
  "write-side operation of each pipeline stage and export command",
  "no test makes a write fail; most commands have no end-to-end test at all",
  F("dataset.py", "io.py", "dense.py", "undistort.py", "features_processing.py", "rig.py", "actions/bundle.py",
    "actions/export_ply.py", "actions/export_openmvs.py", "actions/export_visualsfm.py", "actions/export_pmvs.py",
    "actions/export_bundler.py", "actions/export_colmap.py", "actions/export_geocoords.py",
    "actions/extend_reconstruction.py", "actions/reconstruct_from_prior.py", "actions/create_submodels.py",
    "actions/create_rig.py") + ["opensfm/src/dense/openmvs_exporter.h"],
  [("errors of writers reach the caller", "io.py: open_wt, open_wb; actions/export_*.py"),
   ("errors of parallel items reach the caller", "dense.py: run_for_all_shots; context.py: parallel_map")],
  "write-side faults seeded over every file operation of every command, compared with its undisturbed run, then a re-run",
  "Seeded search; reports/ and profile.log are treated as by-products.")

P("C07", "Data that cannot be read is never taken for missing or empty data",
  "If opening or reading any file fails while a command runs, the command either still produces "
  "exactly the results of an undisturbed run or ends with an error; it never reports success with "
  "results computed as if that file were missing, empty or shorter, and never hangs. Once the disk "
  "works again, the same command run again produces the undisturbed results.",
  ["fault_sequences", "inputs", "configurations", "schedules"],
  "one or two read failures (I/O error, permission, out of memory) at any read-side operation of each "
  "pipeline stage and export command",
  "no test makes a read fail, and several optional inputs are probed with exception handlers",
  F("dataset.py", "io.py", "tracking.py", "dense.py", "undistort.py", "features_processing.py", "rig.py",
    "actions/export_pmvs.py", "actions/export_colmap.py", "actions/extract_metadata.py"),
  [("optional inputs are probed for existence, not by catching errors", "dataset.py: *_exists; tracking.py: load_matches"),
   ("errors of parallel items reach the caller", "dense.py: run_for_all_shots; context.py: parallel_map")],
  "read-side faults seeded over every file operation of every command, compared with its undisturbed run, then a re-run",
  "Seeded search; probing whether a file exists (stat) is assumed not to fail.")

P("C17", "What a dataset saves, any later process loads back",
  "Loading any kind of record of a dataset returns the value saved last to it, whatever was saved "
  "before or after to other records, by which process, thread or order of saving, and after any "
  "number of restarts. A load that fails with a read error, or a save that fails, changes nothing "
  "that later loads return. Records never saved are reported as absent.",
  ["histories", "inputs", "fault_sequences", "schedules"],
  "histories of saves and loads of 31 kinds of record over several process lifetimes, with read and "
  "write faults, against a dictionary as the model",
  "unit tests round-trip a few records once, in one process, without interleaving or faults",
  F("dataset.py", "io.py", "features.py", "large/metadataset.py", "types.py"),
  [("one encoder and decoder per kind of record", "dataset.py: save_*/load_*; io.py: *_to_json, *_from_json"),
   ("one file per record and image", "dataset.py: _*_file")],
  "seeded save/load/restart/fault histories over all record kinds against a dictionary model",
  "Seeded search over generated values, histories and faults.")

P("C08", "Splitting and aligning submodels is exact from any earlier state",
  "Splitting a dataset puts every image with a position in exactly the submodel of its cluster or group and in "
  "every submodel whose images come closer than the overlap, with the settings and the linked data of the dataset; "
  "whatever earlier splits did or were killed doing, a later split ends the same as a first one and leaves the "
  "dataset itself untouched. Aligning reconstructed submodels moves each as a whole so that shared images "
  "coincide, changes no other file, and can be repeated after a kill or failure with the same result.",
  ["histories", "crash_points", "fault_sequences", "inputs"],
  "histories of one to three splits with changing settings, kills, torn and failing writes and reads over generated "
  "image positions and groups; alignment with kills and failures",
  "the tests cover a few helper functions on fixed positions; nothing runs a split, repeats one or interrupts one",
  F("actions/create_submodels.py", "actions/align_submodels.py", "large/metadataset.py", "large/tools.py", "dataset.py"),
  [("remove old submodels, cluster, add neighbours, link files", "actions/create_submodels.py; large/metadataset.py: remove_submodels, create_submodels"),
   ("links into the shared dataset", "large/metadataset.py: _create_symlink; dataset.py: subset"),
   ("one similarity per submodel", "large/tools.py: align_reconstructions; actions/align_submodels.py")],
  "seeded histories of splits and alignments with kills and disk faults, judged against a geometric model and a first undisturbed split",
  "Seeded search; distances within 2% of the overlap are not judged.")

P("C19", "Pair selection picks exactly the pairs its settings ask for",
  "For every set of reference and candidate images and every mix of selectors (distance, neighbours, time, order, "
  "triangulation, BoW, VLAD), selection returns each pair once, starting with a reference image, with every pair a "
  "selector asks for and none that no selector allows. The result does not depend on the order of the images, hash "
  "seeds, thread schedules or the stream of random numbers, and degenerate positions do not make it fail.",
  ["inputs", "configurations", "schedules"],
  "generated images (repeated positions, lines, missing GPS, missing features), reference and candidate sets, "
  "selector mixes, hash seeds, orders, schedules",
  "the tests use one fixed dataset, and check counts or symmetric properties of a few selectors",
  F("pairs_selection.py", "vlad.py", "bow.py", "feature_loading.py", "geo.py") + ["opensfm/src/features/src/matching.cc"],
  [("selectors by kd-tree, triangulation and similarity", "pairs_selection.py: match_candidates_by_*, match_candidates_with_*"),
   ("each unordered pair once, reference first", "pairs_selection.py: ordered_pairs")],
  "seeded image sets, orders, hash seeds, schedules and random streams against an independent model of the selectors",
  "Seeded search; ties within 1% are not judged; triangulation is judged by the edges it must contain.")

P("C20", "A command changes nothing but its own outputs, however it ends",
  "Whether a command succeeds, fails or is killed at any moment, and whatever disk faults it meets, every file of the "
  "dataset that is not one of its outputs, and every file outside the dataset, is afterwards what it was before. "
  "In particular images, masks, configuration and the results of earlier commands are never modified.",
  ["crash_points", "fault_sequences", "configurations", "schedules"],
  "every command on datasets with masks, segmentations, rigs and control points, undisturbed or with one or two kills, "
  "torn, failing or short file operations",
  "no test looks at files a command should not have written",
  F("dataset.py", "io.py", "undistort.py", "dense.py", "commands/command_runner.py", "actions/bundle.py", "actions/mesh.py",
    "actions/create_submodels.py", "actions/create_rig.py", "actions/export_pmvs.py", "actions/export_openmvs.py",
    "actions/export_colmap.py", "actions/export_geocoords.py", "actions/undistort.py"),
  [("separate directories per product", "dataset.py: UndistortedDataSet, DataSet paths"),
   ("links rather than copies, removed as links", "dataset.py: subset; large/metadataset.py: remove_submodels")],
  "seeded kills and disk faults over every command, comparing every file it does not own before and after",
  "Seeded search; reports/, profile.log and temporary files are exempt.")

P("C03", "Each selected pair is matched once, as if it were matched alone",
  "Matching reports and saves, for every selected pair of images and for no other pair, exactly the matches that "
  "matching this pair alone gives, once and under the right image, whatever the number of workers, the memory limit, "
  "the order of the pairs, the schedule, the other pairs, and what the process matched before. If features change, "
  "matching again uses the new ones. Brute force matches pair unmasked features nearest to each other that one camera "
  "motion explains, and keep most of those; with matching_use_filters none is at the same place in both images (unless nearly all are), nor on the printed band of VTrans or BlackVue images. Images without enough features match nothing and do not make it fail.",
  ["schedules", "inputs", "configurations", "histories"],
  "matchers, selectors, reference and candidate sets, worker counts, memory limits, schedules, images with few or no "
  "features, masks added after detection in every EXIF orientation, matching again after features changed",
  "the tests match two synthetic sets of features directly; nothing runs the parallel matching of a dataset",
  F("matching.py", "feature_loading.py", "feature_loader.py", "masking.py", "features.py", "actions/match_features.py",
    "pairs_selection.py", "context.py") + ["opensfm/src/features/src/matching.cc"],
  [("matching in parallel over pairs, regrouped by image", "matching.py: match_images_with_pairs, save_matches"),
   ("shared caches of loaded features", "feature_loading.py: FeatureLoader; feature_loader.py")],
  "seeded schedules, worker counts and histories of matching runs, compared with each pair matched alone and with "
  "brute force matches computed from the features and the geometry of the scene",
  "Seeded search; the approximate FLANN matcher is judged only by what must hold for any random search.")

P("C09", "Reconstructed images and points fit their tracks, positions and each other",
  "Reconstruction (incremental, by triangulation from metadata, from a prior reconstruction, or extending one) puts every image in at most one "
  "reconstruction, with its own camera, its own metadata and the whole of its rig instance, the poses of whose images follow from it; reconstructions are ordered by "
  "size and the report lists as not reconstructed exactly the images with tracks that are in none. Every point is a track, fits at least two of its observations "
  "within the thresholds, and has the colour of one of its observations. Images that see the same points end up in one reconstruction, "
  "images that share nothing in different ones; where consistent observations and positions determine them, poses and points are where they "
  "really are and no track that all its images agree on is without a point, also when a third of the observations of a track is wrong (robust triangulation). A prior's "
  "poses stay, its whole set of images too; extending a reconstruction keeps its images and reference and adds the images that see the same points; bundling keeps images and points and makes them fit the observations. This holds for any schedule, number of workers, hash seed, "
  "directory order and random numbers, and after killed or failed runs.",
  ["inputs", "schedules", "histories", "crash_points"],
  "generated scenes of known geometry: camera models, rigs, clusters, unlinked images, noise, wrong observations, missing and noisy positions, control "
  "points, configurations; worker schedules, random streams, kills and disk errors",
  "the tests reconstruct one synthetic cube by one command at most, and look at averages; none runs after a failed run or with rigs and partial positions",
  F("reconstruction.py", "reconstruction_helpers.py", "align.py", "rig.py", "actions/reconstruct.py", "actions/reconstruct_from_prior.py", "actions/extend_reconstruction.py", "actions/bundle.py", "tracking.py") +
  ["opensfm/src/sfm/src/ba_helpers.cc", "opensfm/src/sfm/src/retriangulation.cc", "opensfm/src/bundle/src/bundle_adjuster.cc", "opensfm/src/geometry/src/triangulation.cc",
   "opensfm/src/geometry/src/absolute_pose.cc", "opensfm/src/robust"],
  [("pairs by reconstructability, growing by resection, retriangulation and bundles", "reconstruction.py: incremental_reconstruction, grow_reconstruction"),
   ("alignment to positions and control points", "align.py: align_reconstruction"),
   ("poses from metadata or a prior", "reconstruction_helpers.py: reconstruction_from_metadata; reconstruction.py: reconstruct_from_prior")],
  "seeded scenes, schedules, random streams and interrupted runs, judged against the geometry the scene was made from",
  "Seeded search; places are judged to 0.3 to 0.5 m in scenes of 10 m with noise-free positions of at least four images; incremental reconstruction with rigs is judged for structure only. The least-squares solver below bundle adjustment is a stand-in for Ceres.",
  observe=["reconstruction.json", "reports/reconstruction.json"])

P("C10", "All views of a reconstruction agree, whatever was edited, copied or saved",
  "After any history of creating, changing and removing shots, rig instances, rig cameras, points and observations, of "
  "copying, transferring, saving, loading and being killed, every view of a reconstruction agrees: a shot's pose is "
  "its rig camera's composed with its rig instance's, observations read from the shot, the point and the feature are "
  "the same, and everything added and not removed is there with its colours, metadata (angles and attributes included), meshes, biases, covariances and reference. Changing a copy "
  "does not change the source. Refused edits change nothing, and the saved file is the old or the new one.",
  ["histories", "crash_points", "inputs"],
  "histories of up to 25 edits over one to three process lifetimes with kills in saves, on maps with several cameras, "
  "rigs, points and reconstructions, against a dictionary model",
  "the tests make one small map in one way and check one accessor at a time",
  ["opensfm/src/map/src/map.cc", "opensfm/src/map/map.h", "opensfm/src/map/src/shot.cc", "opensfm/src/map/shot.h",
   "opensfm/src/map/landmark.h", "opensfm/src/map/rig.h", "opensfm/src/map/src/rig.cc"] + F("types.py", "io.py", "dataset.py"),
  [("shots, rig instances and points own cross references", "src/map/src/map.cc: Map"),
   ("a reconstruction as text", "io.py: reconstruction_to_json, reconstruction_from_json")],
  "seeded edit histories with kills over process lifetimes against a dictionary model of the map",
  "Seeded search; mesh, unused rig cameras in copies and pano shots in copies are judged leniently.",
  observe=["types.Reconstruction accessors", "reconstruction.json"])

P("C11", "The tracks of a dataset answer as the plain set of their observations",
  "After any history of adding, replacing and removing observations, taking subsets, merging, saving and loading over "
  "process lifetimes and kills, every query on a tracks manager (by image, by track, of one observation, common tracks "
  "of pairs, pair counts and graphs) answers as the plain set of its observations does. Text written by older versions "
  "loads, malformed lines are refused, and an interrupted save leaves the old tracks or the new ones. Saved numbers "
  "keep six digits.",
  ["histories", "crash_points", "inputs"],
  "histories of up to 25 operations over one to three lifetimes with kills in saves, on up to six images and twenty "
  "tracks, with extreme values and image names",
  "the tests add a few observations and read them back from one file",
  ["opensfm/src/map/src/tracks_manager.cc", "opensfm/src/map/tracks_manager.h", "opensfm/src/map/observation.h",
   "opensfm/src/foundation/union_find.h"] + F("tracking.py", "dataset.py", "io.py"),
  [("two maps of the same observations", "src/map/src/tracks_manager.cc: TracksManager"),
   ("versions of the text", "src/map/src/tracks_manager.cc: instanciateFromStreamV0, V1, V2")],
  "seeded operation histories with kills over process lifetimes against a dictionary of observations",
  "Seeded search; depth priors are not part of the text; ids chosen by a merge are not judged.",
  observe=["TracksManager queries", "tracks.csv"])

P("C12", "The annotation tool keeps exactly the control points the user made",
  "After any history of adding, selecting and deleting control points, placing and clearing observations in images and "
  "models, saving, loading, restarts, kills and disk errors, the annotation tool's points, what each of its views was "
  "last sent and the saved file are exactly what the accepted requests make of them, also for requests handled at the "
  "same time: some order of them explains the outcome. A failed or interrupted save leaves the old or the new file, a "
  "failed load keeps the points, and a reconstruction reads from the file the points, positions and observations saved.",
  ["histories", "schedules", "crash_points", "fault_sequences"],
  "histories of up to 20 requests, a quarter of them in concurrent groups of two or three, over one to three server "
  "lifetimes with kills and failing file operations, from files as documented, missing or written by a reconstruction",
  "no test touches the annotation tool, and races and interrupted saves need control of threads and disk",
  ["annotation_gui_gcp/lib/gcp_manager.py", "annotation_gui_gcp/lib/GUI.py", "annotation_gui_gcp/lib/views/web_view.py",
   "annotation_gui_gcp/lib/views/image_view.py", "annotation_gui_gcp/lib/views/tools_view.py",
   "annotation_gui_gcp/lib/views/cad_view.py", "annotation_gui_gcp/lib/views/cp_finder_view.py"] + F("io.py", "dataset.py"),
  [("points in memory, written aside and renamed", "gcp_manager.py: GroundControlPointManager"),
   ("one request at a time, then every view is sent the state", "web_view.py: postdata; GUI.py: lock"),
   ("the file as a reconstruction reads it", "io.py: read_ground_control_points")],
  "seeded request histories, thread schedules, kills and disk errors against a model of the points, with "
  "linearizability of concurrent requests",
  "Seeded search; the analysis program and the JavaScript are not run; with a model open, annotating an image may forget "
  "the point's position.",
  observe=["GroundControlPointManager.points", "server-sent events", "ground_control_points.json"])

P("C13", "Tracks are exactly the conflict-free groups of features linked by matches",
  "Linking matches makes one track of every group of features connected by matches, directly or through others, that "
  "has at least the minimum length and at most one feature per image, and no other track, with exactly those features' "
  "observations: position, scale, colour, segmentation and depth. The result does not depend on the order of images, "
  "matches or files, on which image of a pair stores them, on hash seeds, or on files left by earlier or killed runs.",
  ["inputs", "histories", "crash_points"],
  "generated features and matches (chains, conflicts, isolated, empty, one-sided, stored either side), minimum lengths, "
  "segmentations and instances, depths, hash seeds, orders, stale and truncated files of killed runs",
  "the tests link one fixed synthetic set of matches and count tracks",
  F("tracking.py", "unionfind.py", "actions/create_tracks.py", "dataset.py", "features.py", "masking.py")
  + ["opensfm/src/map/src/tracks_manager.cc"],
  [("groups by union-find, filtered by length and conflicts", "tracking.py: create_tracks_manager, _good_track"),
   ("observations from the features of the images", "tracking.py: load_features, load_matches")],
  "seeded match graphs, orders, hash seeds and killed runs against connected components computed independently",
  "Seeded search; track ids are not judged.",
  observe=["tracks.csv", "TracksManager"])

P("C14", "Depthmaps and the dense cloud hold only supported depths, under any schedule",
  "compute_depthmaps writes raw, clean and pruned depthmaps of exactly the images that have a neighbour. Neighbours are the images "
  "sharing at least 50 tracks, more than 20 of them with points seen under 3 to 30 degrees, best first, up to the configured number. "
  "A raw depth is positive and below the maximum depth, scores above the minimum, lies on its plane, has the score that its plane has "
  "in its neighbour, and is absent where the image is masked or without texture. Clean depthmaps hold exactly the raw depths that "
  "enough neighbours confirm; pruned ones the points no neighbour sees better, with their colour, normal and label; merged.ply is "
  "the union of those of the images of the reconstruction. This holds for every method, number of workers, schedule and random number, and after killed or failed runs.",
  ["inputs", "schedules", "histories", "crash_points"],
  "scenes of known geometry with random settings, masks, segmentations, images without neighbours, worker schedules, "
  "random numbers, kills and disk errors before",
  "the tests check the angle between points and the PLY text, and no depthmap",
  F("dense.py", "actions/compute_depthmaps.py", "dataset.py", "masking.py", "tracking.py", "context.py", "io.py")
  + ["opensfm/src/dense/src/depthmap.cc", "opensfm/src/dense/depthmap_bind.h"],
  [("neighbour selection, depth range, per-step parallel passes with kept results", "dense.py"),
   ("plane sweep and patch match, consistency cleaning, pruning", "src/dense/src/depthmap.cc")],
  "seeded scenes, schedules, random numbers and interrupted runs, judged against a numpy model and the true geometry",
  "Seeded search; thresholds missed by less than rounding are not judged.",
  observe=["undistorted/depthmaps"])

P("C15", "The undistorted dataset shows what pinhole cameras in the same place would see",
  "undistort writes, for the chosen reconstruction, exactly its shots whose image is in the dataset and whose camera can be "
  "undistorted: with pinhole cameras of the same (mean) focal, the same pose, metadata, points and reference, and six views "
  "covering the sphere at the place of each panorama. Every pixel of its images, masks and segmentations is the one the original "
  "camera model puts there, and black outside, at most the configured size, in the configured format. Tracks keep their observations, "
  "those of panoramas projected into the views that see them. This holds for any number of workers and schedule, and after killed or failed runs; "
  "a run that reports success has written all of it.",
  ["inputs", "schedules", "histories", "crash_points"],
  "generated reconstructions: camera models, parameters, sizes, image types, formats, masks, segmentations, rigs, absent images, several "
  "reconstructions, command options; worker schedules, kills and disk errors",
  "the tests undistort one synthetic image per camera model and look at one pixel line, or only at the number of shots",
  F("undistort.py", "actions/undistort.py", "dataset.py", "io.py", "types.py", "context.py") + ["opensfm/src/geometry/src/camera.cc",
   "opensfm/src/geometry/camera_projections_functions.h", "opensfm/src/geometry/camera_distortions_functions.h"],
  [("undistorted cameras, shots and tracks; remapping in parallel", "undistort.py"),
   ("pixel map from the pinhole to the original camera", "src/geometry/src/camera.cc: ComputeCameraMapping")],
  "seeded datasets, schedules and interrupted runs, judged pixel by pixel against the documented camera models",
  "Seeded search; pixels may be off by 1.5 (more where an image is shrunk), borders of 2 pixels are not judged.",
  observe=["undistorted/"])


P("C16", "A command gives the same result whenever, wherever and however it is run",
  "extract_metadata, detect_features, match_features (brute force, pairs by distance, time, order or all), create_tracks, mesh, undistort, compute_depthmaps "
  "(brute force), create_submodels and every export write files that say the same on the same data: under every order in which workers run, number of workers, "
  "order in which the file system lists files, hash seed, state of the random generators, clock and place of the dataset, and when run again over their own result.",
  ["schedules", "configurations", "inputs", "histories"],
  "thread schedules, worker counts, directory orders, hash seeds, random seeds, clock jumps, dataset paths (other folders, relative, trailing slash), repeated runs",
  "a test runs once, in one process with one hash seed and directory order; differences appear only between runs",
  F("dataset.py", "matching.py", "pairs_selection.py", "tracking.py", "features_processing.py", "undistort.py", "dense.py", "mesh.py", "context.py",
    "large/tools.py", "actions/create_submodels.py", "actions/export_colmap.py", "actions/export_pmvs.py"),
  [("images in sorted order", "dataset.py: _set_image_path"), ("direction and order of pairs", "pairs_selection.py: ordered_pairs"),
   ("results of parallel maps in input order", "context.py: parallel_map")],
  "the canonical result of each command, from a process of its own, compared with its result under seeded schedules, hash seeds, directory orders, random seeds, clocks and places",
  "Seeded search; reconstruction, bundle adjustment and randomised methods are left out; files are compared by what they say.")

P("C24", "Metadata and cameras are what each image's tags and the overrides say",
  "When extract_metadata reports success, each image has one metadata file that says what its tags say: size (tags if use_exif_size, else pixels), make and model "
  "(lens if given), focal ratio (35 mm focal, focal-plane resolution or sensor database), orientation, GPS position with hemisphere and below-sea signs, DOP, "
  "capture time in UTC (GPS, original, digitized or modified date, with subseconds and zone), panorama type, DJI positions, attitude (omega, phi, kappa in the local frame, from yaw, pitch and roll). Missing tags give the defaults; incomplete "
  "ones never stop it nor change others. exif_overrides replace what was read; images that have a metadata file keep it. camera_models.json has one camera per camera "
  "id, with the known calibration, focal or default prior, or the override. This holds after earlier, killed or failed runs.",
  ["inputs", "configurations", "histories", "crash_points"],
  "generated images with byte-made EXIF and XMP (good, missing, empty, dividing by zero; both byte orders), overrides, configurations; kills, disk errors and edits between runs",
  "the tests parse one recorded image; no test reads offsets, hemispheres, incomplete positions, overrides or known calibrations from a file",
  F("exif.py", "sensors.py", "actions/extract_metadata.py", "dataset.py", "io.py"),
  [("reading of tags", "exif.py: EXIF"), ("cameras from metadata", "exif.py: camera_from_exif_metadata"), ("overrides, metadata kept, camera models", "actions/extract_metadata.py: run_dataset")],
  "seeded datasets with byte-made tags, extracted in interrupted simulated processes and judged against an own reading of what was written",
  "Seeded search; numbers in XMP positions are well formed.",
  observe=["exif/", "camera_models.json"])

P("C25", "The viewer serves the files of its dataset, whole, and no others",
  "GET /items lists, sorted, exactly the reconstruction files under the dataset directory, at any depth. /data/PATH and /image/NAME answer the bytes of the file at that "
  "path of the dataset or of its images folder, and 404 if there is none. No request, whatever its path, answers a file outside the dataset (but for links in it) or the "
  "viewer's own pages; without a dataset none is served. While files are replaced, added and removed an answer is the old or the new file; partial, HEAD and "
  "conditional requests speak of the present file, and what cannot be read is never answered as success. This holds for concurrent requests.",
  ["inputs", "schedules", "fault_sequences", "histories"],
  "request histories of one to three clients with hostile paths while a writer changes the dataset, under schedules and read errors",
  "no test starts the viewer", ["viewer/server.py"],
  [("routes", "viewer/server.py: get_recs, get_data, get_image"), ("listing of reconstructions", "viewer/server.py: json_files")],
  "seeded request histories against the real Flask application with a concurrent writer, judged against the versions each file had meanwhile",
  "Seeded search; the JavaScript front end is not executed; the HTTP transport is not real.",
  observe=["HTTP answers of viewer/server.py"])

P("C26", "Statistics and report say what is in the reconstruction",
  "Whenever compute_statistics reports success, every figure of stats.json is that of the files it read: components, images, points, observations, track lengths and their "
  "histogram, errors of reprojection (those of up to 4 pixels; normalized, pixel and angular; mean and histogram), features found and reconstructed, area, step times, date, "
  "initial and optimized cameras and rigs, biases, and errors of GPS and ground control points; the match graph, the top view, the residual histogram, and of each camera with "
  "observations the heatmap and residual grid are written. export_report then writes a PDF with the same figures and images. Both succeed on every reconstruction, also empty "
  "or of several components; an interrupted run leaves stats.json old or new, and does not disturb later ones.",
  ["inputs", "configurations", "crash_points"],
  "generated reconstructions (components, camera models, rigs, panoramas, biases, control points, single images, lines, nothing); kills and disk errors in earlier runs",
  "no test computes statistics or a report", F("stats.py", "report.py", "actions/compute_statistics.py", "actions/export_report.py"),
  [("statistics", "opensfm/stats.py: compute_all_statistics and its parts"), ("figures", "opensfm/stats.py: save_heatmap, save_residual_grids, save_topview, save_matchgraph"),
   ("report", "opensfm/report.py: Report")],
  "seeded generation of reconstructions of known errors with kills and disk errors; every figure recomputed from the inputs, the PDF read back",
  "Seeded search; figures are judged by their presence and place in the report, not by their pixels (their rendering is a stub).",
  observe=["stats/ folder of a dataset", "opensfm compute_statistics, export_report"])

P("C27", "create_rig finds the rig's instances and its cameras' relative poses",
  "With the pattern method, images whose names become equal when what the first matching pattern matches is removed are one rig instance, each with the rig camera of its pattern; "
  "other images are of none. Calibration reconstructs subsets of up to rig_calibration_subset_size consecutive whole instances of each group of cameras, at most "
  "rig_calibration_max_rounds (+1) times, until one has all rig cameras and enough whole instances. Then rig_cameras.json has exactly the rig cameras, whose poses relative to each "
  "other are those they have in the reconstructed instances, however the rig is turned or incomplete its instances are; rig_assignments.json and rig_instances.json have every "
  "instance with all its images. Otherwise, or when interrupted, each rig file is the old or the new one, and a later run ends as if there had been none.",
  ["inputs", "configurations", "crash_points", "histories"],
  "generated rigs (two to four cameras, any relative and absolute rotation, incomplete instances), reconstructions with losses and failures; kills and disk errors",
  "tests group a few names and average one rig turned once", F("rig.py", "actions/create_rig.py"),
  [("instances", "opensfm/rig.py: create_instances_with_patterns"), ("calibration rounds", "opensfm/rig.py: create_rigs_with_pattern"),
   ("relative poses", "opensfm/rig.py: create_rig_cameras_from_reconstruction"), ("debug output", "opensfm/actions/create_rig.py")],
  "seeded generation of rigs and of reconstructions of their calibration subsets, with kills and disk errors; saved rigs compared with the true ones",
  "Seeded search; structure from motion of the subset is a stand-in (true poses, noise, losses) (C09 and C16 run the real one).",
  observe=["rig_cameras.json, rig_assignments.json, rig_instances.json", "opensfm create_rig"])

P("C28", "Control points are what their files say, and georeference the reconstruction",
  "The control points every command works with are exactly those of gcp_list.txt and then of ground_control_points.json: in the list one point per position (WGS84, UTM, proj4 or EPSG "
  "coordinates) with all its observations in images of the dataset, pixels turned into normalized coordinates, in the order of the lines, whatever comments, blank lines, extra columns and "
  "unknown images there are; altitudes given as NaN or left out are unknown, positions may be missing. The reference is the dop-weighted mean of the images' positions or, if there are none, "
  "the mean of the control points, at altitude 0. Reconstructing (incrementally or by triangulation) and bundling put images and points where exact, widely spread control points say, when the images have no "
  "positions, right ones, switched-off ones (bundle_use_gps), or ones off by a shift, turn and scale (bundle_compensate_gps_bias, whose saved biases take those positions to the images); points of "
  "unknown altitude, seen once or without position do not disturb that, and with bundle_use_gcp off control points have no influence. This holds after killed or failed runs.",
  ["inputs", "configurations", "crash_points", "schedules", "histories"],
  "generated scenes with control points in either or both files and four kinds of image positions; kills and disk errors; any schedule of the workers",
  "tests read three small files and align one synthetic scene", F("io.py", "align.py", "dataset.py", "reconstruction.py", "src/sfm/src/ba_helpers.cc"),
  [("reading", "opensfm/io.py: read_gcp_list, read_ground_control_points"), ("reference", "opensfm/dataset.py: invent_reference_from_gps_and_gcp"),
   ("alignment", "opensfm/align.py"), ("bundle terms", "opensfm/src/sfm/src/ba_helpers.cc: AddGCPToBundle")],
  "seeded generation of scenes and control point files, with kills and disk errors; loaded points, reference, poses, points and biases compared with the truth",
  "Seeded search; scenes without rigs wherever control points alone give the frame.",
  observe=["DataSet.load_ground_control_points", "reference_lla.json, reconstruction.json", "opensfm reconstruct, bundle"])

P("C29", "The mesh of an image joins its border and the points it sees, without holes",
  "mesh writes reconstruction.meshed.json: the reconstruction unchanged, and with each image that observes a track a triangle mesh whose vertices are the border of the image and exactly the "
  "reconstructed points of the tracks it observes (for cameras other than fisheye and panorama only those that are seen inside the image), each used by a triangle. For those cameras the border is "
  "the four corners, each as deep as the mean of the points that its triangles join it to (50 if none), and the triangles cover the image exactly once; for fisheye cameras it is a circle and the "
  "middle at distance 30, no edge inside it is open; for panoramas it is a cube around the camera and the triangles close around it. Edges join at most two triangles. A result from an "
  "earlier, killed or failed run is replaced.",
  ["inputs", "crash_points", "histories"],
  "generated reconstructions of seven camera models, rigs and components with wrong observations and sparse points; kills and disk errors, earlier meshes",
  "one test meshes one synthetic image and looks at the number of faces", F("mesh.py", "actions/mesh.py", "io.py", "dataset.py"),
  [("triangulation", "opensfm/mesh.py"), ("saving", "opensfm/actions/mesh.py: run_dataset")],
  "seeded generation of reconstructions, with kills and disk errors; the saved surface is measured from the camera: area, solid angle, edges, vertices",
  "Seeded search; points are in front of the image and not in its border.",
  observe=["reconstruction.meshed.json", "opensfm mesh"])

P("C30", "A reconstruction stands upright, turned images too, and where positions say",
  "reconstruct leaves the scene upright where all images are at one height and stand as align_orientation_prior says (horizontal or no_roll: looking level, or up and down without rolling; vertical: "
  "looking straight down), the cameras themselves turned by 0, 90, 180 or 270 degrees as the orientation tags of the images say. With the horizontal and vertical priors the vertical of the "
  "reconstruction is then that of the scene within a degree (3 if all positions are equal; coarsely with no_roll) when no image has a position, one has, all have the same, or all have theirs on a line or spread out, for any "
  "camera model, bundle_interval, local_bundle_radius and align_method auto or orientation_prior. When the positions of all images are known, on a line too, images and points are where they say; a single image with a "
  "position is at it, and images with equal positions lie around it. Also after killed or failed runs.",
  ["inputs", "histories", "crash_points"],
  "generated scenes whose positions leave the orientation open, turned cameras with tags, priors, camera models, bundling settings; kills and disk errors before",
  "no test aligns images without positions, with turned cameras, or by a prior end to end", F("align.py", "reconstruction.py", "reconstruction_helpers.py", "multiview.py", "actions/reconstruct.py") +
  ["opensfm/src/bundle/src/bundle_adjuster.cc"],
  [("alignment by orientation prior", "opensfm/align.py: align_reconstruction_orientation_prior_similarity, get_horizontal_and_vertical_directions"), ("up vectors in the bundle", "opensfm/reconstruction.py: bundle")],
  "seeded scenes reconstructed by the real command, with kills and disk errors; poses compared with the true ones in the geodetic frame",
  "Seeded search; scenes of exact observations; with no_roll the bundle leaves tilt free and only coarse errors are judged.",
  observe=["reconstruction.json"])

P("C31", "Aligned submodels agree with each other and with positions",
  "align_submodels writes to every submodel that has a reconstruction the reconstruction.aligned.json with each of its reconstructions moved as a whole (one similarity for images, rigs and points; cameras, reference "
  "and the rest as they are), and nothing else, whatever result was there. Given reconstructions of one scene that differ by a similarity and image positions as accurate as the images say, images that two aligned reconstructions share are then "
  "at the same place with the same orientation (0.3 m, 1 degree), also a single shared image; with exact positions all images of a reconstruction of at least three are there (0.1 m, 1 degree), with noisy ones "
  "they lie around them; and where reconstructions that differ in scale by less than 1.25 share at least 35 sound points seen from a shared image, those coincide too, though some points are wrong. "
  "This also holds after killed or failed runs.",
  ["inputs", "histories", "crash_points"],
  "generated submodels: overlaps from none to four images, several reconstructions in a submodel, rigs, moves, turns, scales, noisy positions, wrong points, missing reconstructions; kills and disk errors",
  "the tests align two hand-made reconstructions in C++ and never run the command", F("actions/align_submodels.py", "large/tools.py", "large/metadataset.py", "align.py", "multiview.py", "reconstruction.py") +
  ["opensfm/src/bundle/reconstruction_alignment.h"],
  [("constraints", "opensfm/large/tools.py: add_camera_constraints_soft, add_point_constraints"), ("transformation", "opensfm/large/tools.py: align_reconstructions, apply_transformations")],
  "seeded generation of submodels, with kills and disk errors; aligned poses and points compared with each other and with the scene",
  "Seeded search; turns of up to 4 degrees, as reconstructions that were aligned with positions have.",
  observe=["submodels/submodel_0000/reconstruction.aligned.json", "opensfm align_submodels"])

P("C18", "Every exported file says what the reconstruction says, in its own format",
  "When export_ply, export_visualsfm, export_openmvs, export_pmvs, export_bundler, export_colmap (text and binary) or export_geocoords reports success, its files "
  "parse in their format and hold exactly the requested images (those of the image list), with their cameras, poses, points, colours, observations at their pixels "
  "and feature indices, masks and image pixels; references between the files agree; each reconstruction is exported; geographic coordinates are those of the "
  "projection. This holds for every orientation, camera model the format has, image size, name, rig and set of options, and after killed or failed exports.",
  ["inputs", "configurations", "histories", "crash_points"],
  "generated reconstructions (camera models, rigs, several reconstructions, portrait and landscape images, unrotated shots, non-ASCII names, images without tracks), "
  "options and image lists; kills and disk errors in earlier and current runs",
  "no test reads an exported file: the only export test writes a PLY and a COLMAP conversion helper",
  F("actions/export_ply.py", "actions/export_visualsfm.py", "actions/export_openmvs.py", "actions/export_pmvs.py", "actions/export_bundler.py",
    "actions/export_colmap.py", "actions/export_geocoords.py", "io.py", "dense.py") + ["opensfm/src/dense/openmvs_exporter.h"],
  [("writers of each format", "actions/export_*.py"), ("PLY writer", "io.py: reconstruction_to_ply, point_cloud_to_ply")],
  "seeded reconstructions exported in interrupted and failing simulated processes and read back with independent parsers of each format",
  "Seeded search; the formats are judged by parsers written from their documentation; positions in pixels within one pixel.")

NA = "a pure function of its arguments: no thread, clock, file, random number or message takes part, so a simulator has nothing to schedule or fail; "
P("C21", "Camera models project and back-project consistently, with right derivatives",
  "For every camera model and valid parameters, the bearing of a projected point is its direction, pixel and normalised coordinates convert exactly, and the "
  "derivatives used in bundle adjustment are those of the projection.",
  ["inputs"], "every camera model, parameters and points in the field of view", "tests sample one camera per model and a few points",
  ["opensfm/src/geometry/camera_projections_functions.h", "opensfm/src/geometry/camera_distortions_functions.h", "opensfm/src/geometry/src/camera.cc"],
  [("projection, distortion and affine functors", "src/geometry/camera_*_functions.h")], na=NA + "belongs to proof or input generation")
P("C22", "Geodetic, projective and pose conversions are inverse to each other",
  "Latitude, longitude and altitude convert to topocentric or ECEF coordinates and back, and rotations, poses and similarity transforms compose and invert, for all values.",
  ["inputs"], "all coordinates, rotations and transforms", "tests check one place and a handful of rotations",
  F("geo.py", "transformations.py", "geometry.py", "multiview.py"), [("TopocentricConverter", "geo.py"), ("Pose, Similarity", "src/geometry/")],
  na=NA + "their use in the pipeline is judged end to end in C09 and C18")
P("C23", "Robust estimators and minimal solvers find the model of their inliers",
  "Essential, relative and absolute pose, triangulation and line estimation return a model that fits the inliers they report, whenever there is one.",
  ["inputs"], "all correspondences with inliers and outliers", "tests use one synthetic scene per solver",
  ["opensfm/src/robust/robust_estimator.h", "opensfm/src/geometry/essential.h", "opensfm/src/geometry/triangulation.h", "opensfm/src/geometry/absolute_pose.h"],
  [("RANSAC loop", "src/robust/robust_estimator.h")], na=NA + "their random sampling has a fixed seed of its own; its effect is judged in C09 and C16")
