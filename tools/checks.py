"""One entry per check: what is compiled from /repo, the harness, the bounds."""

DET = ["-O1", "-DMAKE_DETERMINISTIC"]

# files that nearly everything needs (a file that moved or was split is found by the fall back of run.py)
CORE = ["src/outputs/logger.cpp", "src/parameters.cpp", "src/utils/camera_transformation.cpp", "src/utils/pose.cpp",
        "src/utils/angle_utils.cpp", "src/utils/distance_utils.cpp", "src/utils/covariances.cpp",
        "src/coordinates/point_coordinates.cpp", "src/coordinates/plane_coordinates.cpp",
        "src/coordinates/basis_changes.cpp", "src/coordinates/inverse_depth_coordinates.cpp", "src/utils/line.cpp"]
POLY = ["src/utils/polygon.cpp", "src/coordinates/polygon_coordinates.cpp"]

PRIM = ["third_party/concave_fitting.cpp", "src/features/primitives"]

MAPTPL = CORE + ["src/outputs/map_writer.cpp", "src/features/keypoints/keypoint_handler.cpp"]
MAPALL = MAPTPL + POLY + ["third_party/concave_fitting.cpp", "src/tracking", "src/map_management/map_features",
        "src/features/primitives/shape_primitives.cpp", "src/features/primitives/plane_segment.cpp", "src/features/primitives/cylinder_segment.cpp"]
ALL = MAPALL + PRIM + ["src", "src/features/lines", "src/features/keypoints", "src/pose_optimization"]
CHECKS = {
    "C02": dict(
        harness=["c02.cpp"], dirs=MAPTPL, flags=DET, level="model_checking", bounds="",
    ),
    "C03": dict(
        harness=["c03.cpp"], dirs=MAPTPL, flags=DET, level="model_checking", bounds="",
    ),
    "C10": dict(harness=["c10.cpp"], dirs=CORE, flags=DET, level="model_checking", bounds=""),
    "C11": dict(harness=["c11.cpp"], dirs=CORE + POLY + ["third_party/concave_fitting.cpp"], flags=DET, level="model_checking", bounds=""),
    "C15": dict(harness=["c15.cpp"], dirs=CORE, flags=DET, level="model_checking", bounds=""),
    "C12": dict(harness=["c12.cpp"], dirs=CORE, flags=DET, level="model_checking", bounds=""),
    "C14": dict(harness=["c14.cpp"], dirs=CORE + POLY + ["third_party/concave_fitting.cpp"], flags=DET, level="model_checking", bounds=""),
    "C13": dict(harness=["c13.cpp"], dirs=CORE, flags=DET, level="model_checking", bounds=""),
    "C07": dict(harness=["c07.cpp"], dirs=CORE, flags=DET, level="model_checking", bounds=""),
    "C09": dict(harness=["c09.cpp"], dirs=CORE + ["src/tracking/motion_model.cpp"], flags=DET, level="model_checking", bounds=""),
    "C08": dict(harness=["c08.cpp"], dirs=CORE + POLY + ["third_party/concave_fitting.cpp", "src/tracking", "src/features/primitives/shape_primitives.cpp", "src/features/primitives/plane_segment.cpp", "src/features/primitives/cylinder_segment.cpp"], flags=DET, level="model_checking", bounds=""),
    "C21": dict(harness=["c21.cpp"], dirs=CORE + ["src/features/keypoints/keypoint_handler.cpp"], flags=DET, level="model_checking", bounds=""),
    "C05": dict(harness=["c05.cpp", "sched.cpp"], dirs=CORE + POLY + ["third_party/concave_fitting.cpp"] + ["src/pose_optimization/pose_optimization.cpp", "src/pose_optimization/levenberg_marquardt_functors.cpp"],
                flags=["-O1"], instrument=True, stubs=["stubs_sched"], level="model_checking", bounds="1 delay in the search, 1-3 in the covariance; 2-3 workers"),
    "C25": dict(harness=["c25.cpp"], dirs=MAPALL, flags=DET, level="model_checking", bounds=""),
    "C06": dict(harness=["c06.cpp"], dirs=MAPALL + ["src/pose_optimization/pose_optimization.cpp", "src/pose_optimization/levenberg_marquardt_functors.cpp"], flags=DET, level="model_checking", bounds=""),
    "C01": dict(harness=["c01.cpp"], dirs=MAPALL, flags=DET, level="model_checking", bounds=""),
    "C16": dict(harness=["c16.cpp"], dirs=CORE + POLY + PRIM, flags=DET, level="model_checking", bounds=""),
    "C26": dict(harness=["c26.cpp"], dirs=CORE + POLY + PRIM, flags=DET, level="model_checking", bounds=""),
    "C27": dict(harness=["c27.cpp"], dirs=CORE + ["src/features/primitives/plane_segment.cpp", "src/features/primitives/depth_map_transformation.cpp"], flags=DET, level="model_checking", bounds=""),
    "C17": dict(harness=["c17.cpp"], dirs=CORE + ["src/features/primitives/depth_map_transformation.cpp"], flags=DET, level="model_checking", bounds=""),
    "C04": dict(harness=["c04.cpp"], dirs=ALL, flags=["-O2", "-DMAKE_DETERMINISTIC"], level="model_checking", bounds=""),
    "C22": dict(harness=["c22.cpp", "sched.cpp"], dirs=ALL + ["third_party/line_segment_detector.cpp", "third_party/geodesic_operations.cpp", "third_party/p3p.cpp"], flags=["-O1"], instrument=True, stubs=["stubs_sched"], level="model_checking", bounds="1-2 delays (thorough: 2-3), 2-9 workers"),
    "C18": dict(harness=["c18.cpp"], dirs=CORE + ["src/features/keypoints/keypoint_handler.cpp", "src/features/keypoints/keypoint_detection.cpp"], flags=DET, level="model_checking", bounds="sequences of up to 4 frames (thorough: 5)"),
    "C19": dict(harness=["c19.cpp"], dirs=CORE, flags=DET, level="model_checking", bounds="pairs of fields, sequences of up to 3 loads (thorough: 4)"),
    "C24": dict(harness=["c24.cpp"], dirs=CORE, flags=DET, level="model_checking", bounds="sets of up to 4 elements, 12 values for each draw"),
}
