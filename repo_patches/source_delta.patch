From 1138b2e4b9cdee5dd152546dcd04063ed2ee24f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:07 +0000
Subject: [PATCH 01/50] fix: do not loop forever when a staged feature cannot
 be promoted to the local map

---
 src/map_management/feature_map.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/map_management/feature_map.hpp b/src/map_management/feature_map.hpp
index a11bb15..fedfdf4 100644
--- a/src/map_management/feature_map.hpp
+++ b/src/map_management/feature_map.hpp
@@ -816,6 +816,8 @@ class Feature_Map
                     outputs::log_error(get_display_name() +
                                        ": Caught exeption while creating a map feature from a staged feature: " +
                                        std::string(ex.what()));
+                    // keep the candidate for now, and go on with the next one
+                    ++stagedFeatureIterator;
                 }
             }
             else if (stagedFeature.should_remove_from_staged())
-- 
2.43.0


From 1dcc1a1e86df5836f3cdcaa5892dd10c49bf15f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:06 +0000
Subject: [PATCH 02/50] fix: OBJ point elements refer to the vertex that was
 just written, not to the next one

---
 src/outputs/map_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/outputs/map_writer.cpp b/src/outputs/map_writer.cpp
index 23d98ae..cae4465 100644
--- a/src/outputs/map_writer.cpp
+++ b/src/outputs/map_writer.cpp
@@ -103,8 +103,8 @@ void OBJ_Map_Writer::add_point(const vector3& point) noexcept
 
     // points are not really visible
     _file << "v " << point.x() << " " << point.y() << " " << point.z() << "\n";
-    _vertexIndex++;
     _file << "p " << _vertexIndex << "\n";
+    _vertexIndex++;
 }
 
 void OBJ_Map_Writer::add_line(const std::vector<vector3>& coordinates) noexcept
-- 
2.43.0


From 37296ccfc9ea40d7af3b8fc1e5f8f9b9efe044ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:14 +0000
Subject: [PATCH 03/50] fix: bounds of the inverse depth estimate are floored,
 not capped, at the minimal inverse depth

---
 src/coordinates/inverse_depth_coordinates.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinates/inverse_depth_coordinates.cpp b/src/coordinates/inverse_depth_coordinates.cpp
index d957b3c..46f771f 100644
--- a/src/coordinates/inverse_depth_coordinates.cpp
+++ b/src/coordinates/inverse_depth_coordinates.cpp
@@ -143,14 +143,14 @@ WorldCoordinate InverseDepthWorldPoint::get_furthest_estimation(const double inv
 {
     // 3 standard deviations (>99% of certainty in this interval)
     const double depthVariation = inverseDepthStandardDev * 3;
-    return WorldCoordinate(_firstObservation + _bearingVector / std::min(_inverseDepth_mm - depthVariation, 1e-9));
+    return WorldCoordinate(_firstObservation + _bearingVector / std::max(_inverseDepth_mm - depthVariation, 1e-9));
 }
 
 WorldCoordinate InverseDepthWorldPoint::get_closest_estimation(const double inverseDepthStandardDev) const
 {
     // 3 standard deviations (>99% of certainty in this interval)
     const double depthVariation = inverseDepthStandardDev * 3;
-    return WorldCoordinate(_firstObservation + _bearingVector / std::min(_inverseDepth_mm + depthVariation, 1e-9));
+    return WorldCoordinate(_firstObservation + _bearingVector / std::max(_inverseDepth_mm + depthVariation, 1e-9));
 }
 
 bool InverseDepthWorldPoint::to_screen_coordinates(const WorldToCameraMatrix& w2c,
-- 
2.43.0


From 03abee46893b5fd984cccb4e18db7c4c2c24b37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:36 +0000
Subject: [PATCH 04/50] fix: a point in the plane of the camera centre has no
 valid screen position

---
 src/coordinates/point_coordinates.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinates/point_coordinates.cpp b/src/coordinates/point_coordinates.cpp
index 9cbbae9..2ddd45c 100644
--- a/src/coordinates/point_coordinates.cpp
+++ b/src/coordinates/point_coordinates.cpp
@@ -185,7 +185,7 @@ bool ScreenCoordinate::is_in_screen_boundaries() const noexcept
 bool CameraCoordinate2D::to_screen_coordinates(ScreenCoordinate2D& screenPoint) const noexcept
 {
     const vector2 screenCoordinates = transform_camera_to_screen(this->homogeneous());
-    if (not screenCoordinates.hasNaN())
+    if (screenCoordinates.allFinite())
     {
         screenPoint = ScreenCoordinate2D(screenCoordinates.x(), screenCoordinates.y());
         return true;
@@ -201,7 +201,7 @@ WorldCoordinate CameraCoordinate::to_world_coordinates(const CameraToWorldMatrix
 bool CameraCoordinate::to_screen_coordinates(ScreenCoordinate& screenPoint) const noexcept
 {
     const vector2 screenCoordinates = 1.0 / z() * transform_camera_to_screen(this->base());
-    if (not screenCoordinates.hasNaN())
+    if (screenCoordinates.allFinite())
     {
         screenPoint = ScreenCoordinate(screenCoordinates.x(), screenCoordinates.y(), z());
         return true;
-- 
2.43.0


From db0e7cda5ca4af376f7f8b8dcef174c6c049a8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:23 +0000
Subject: [PATCH 05/50] fix: accept unit vectors whose norm is off by a few
 epsilons instead of throwing (or terminating)

---
 src/coordinates/point_coordinates.cpp         |  8 ++---
 src/coordinates/polygon_coordinates.cpp       |  8 ++---
 src/features/primitives/plane_segment.cpp     |  2 +-
 src/features/primitives/shape_primitives.cpp  |  4 +--
 .../map_features/map_primitive.cpp            |  4 +--
 src/tracking/plane_with_tracking.cpp          |  2 +-
 src/utils/covariances.cpp                     |  4 +--
 src/utils/distance_utils.hpp                  |  6 ++++
 src/utils/polygon.cpp                         | 34 +++++++++----------
 9 files changed, 39 insertions(+), 33 deletions(-)

diff --git a/src/coordinates/point_coordinates.cpp b/src/coordinates/point_coordinates.cpp
index 2ddd45c..276942a 100644
--- a/src/coordinates/point_coordinates.cpp
+++ b/src/coordinates/point_coordinates.cpp
@@ -29,11 +29,11 @@ matrix44 get_transformation_matrix(const vector3& xFrom,
                                    const vector3& centerTo)
 {
     // sanity checks
-    if (not utils::double_equal(xFrom.norm(), 1.0))
+    if (not utils::double_equal(xFrom.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("get_transformation_matrix: xFrom as a norm different than 1");
     }
-    if (not utils::double_equal(yFrom.norm(), 1.0))
+    if (not utils::double_equal(yFrom.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("get_transformation_matrix: yFrom as a norm different than 1");
     }
@@ -42,11 +42,11 @@ matrix44 get_transformation_matrix(const vector3& xFrom,
         throw std::invalid_argument("get_transformation_matrix: yFrom and xFrom should be orthogonals");
     }
 
-    if (not utils::double_equal(xTo.norm(), 1.0))
+    if (not utils::double_equal(xTo.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("get_transformation_matrix: xTo as a norm different than 1");
     }
-    if (not utils::double_equal(yTo.norm(), 1.0))
+    if (not utils::double_equal(yTo.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("get_transformation_matrix: yTo as a norm different than 1");
     }
diff --git a/src/coordinates/polygon_coordinates.cpp b/src/coordinates/polygon_coordinates.cpp
index 1b6871f..0827f28 100644
--- a/src/coordinates/polygon_coordinates.cpp
+++ b/src/coordinates/polygon_coordinates.cpp
@@ -54,11 +54,11 @@ WorldPolygon CameraPolygon::to_world_space(const CameraToWorldMatrix& cameraToWo
     const vector3 newXAxis = (rotationMatrix * _xAxis).normalized();
     const vector3 newYAxis = (rotationMatrix * _yAxis).normalized();
 
-    if (not utils::double_equal(newXAxis.norm(), 1.0))
+    if (not utils::double_equal(newXAxis.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::to_world_space: newXAxis norm should be 1");
     }
-    if (not utils::double_equal(newYAxis.norm(), 1.0))
+    if (not utils::double_equal(newYAxis.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::to_world_space: newYAxis norm should be 1");
     }
@@ -141,11 +141,11 @@ CameraPolygon WorldPolygon::to_camera_space(const WorldToCameraMatrix& worldToCa
     const vector3 newXAxis = (rotationMatrix * _xAxis).normalized();
     const vector3 newYAxis = (rotationMatrix * _yAxis).normalized();
 
-    if (not utils::double_equal(newXAxis.norm(), 1.0))
+    if (not utils::double_equal(newXAxis.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::to_camera_space: newXAxis norm should be 1");
     }
-    if (not utils::double_equal(newYAxis.norm(), 1.0))
+    if (not utils::double_equal(newYAxis.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::to_camera_space: newYAxis norm should be 1");
     }
diff --git a/src/features/primitives/plane_segment.cpp b/src/features/primitives/plane_segment.cpp
index 1aa95d3..b043f58 100644
--- a/src/features/primitives/plane_segment.cpp
+++ b/src/features/primitives/plane_segment.cpp
@@ -271,7 +271,7 @@ void Plane_Segment::fit_plane() noexcept
         _parametrization = PlaneCoordinates(-normal, -d);
     else
         _parametrization = PlaneCoordinates(normal, d);
-    assert(utils::double_equal(normal.norm(), 1.0));
+    assert(utils::double_equal(normal.norm(), 1.0, utils::unitNormTolerance));
 
     // variance of points in our plane divided by number of points in the plane
     _MSE = eigenValues(0) * oneOverCount;
diff --git a/src/features/primitives/shape_primitives.cpp b/src/features/primitives/shape_primitives.cpp
index 6a0a7b7..be70f35 100644
--- a/src/features/primitives/shape_primitives.cpp
+++ b/src/features/primitives/shape_primitives.cpp
@@ -50,7 +50,7 @@ Plane::Plane(const Plane_Segment& planeSeg, const CameraPolygon& boundaryPolygon
     _pointCloudCovariance(planeSeg.get_point_cloud_covariance()),
     _boundaryPolygon(boundaryPolygon)
 {
-    assert(utils::double_equal(get_normal().norm(), 1.0));
+    assert(utils::double_equal(get_normal().norm(), 1.0, utils::unitNormTolerance));
     assert(utils::is_covariance_valid(_pointCloudCovariance));
     assert(_boundaryPolygon.boundary_length() >= 3);
 }
@@ -60,7 +60,7 @@ Plane::Plane(const Plane& plane) :
     _pointCloudCovariance(plane._pointCloudCovariance),
     _boundaryPolygon(plane._boundaryPolygon)
 {
-    assert(utils::double_equal(get_normal().norm(), 1.0));
+    assert(utils::double_equal(get_normal().norm(), 1.0, utils::unitNormTolerance));
     assert(utils::is_covariance_valid(_pointCloudCovariance));
     assert(_boundaryPolygon.boundary_length() >= 3);
 }
diff --git a/src/map_management/map_features/map_primitive.cpp b/src/map_management/map_features/map_primitive.cpp
index 2021478..832d067 100644
--- a/src/map_management/map_features/map_primitive.cpp
+++ b/src/map_management/map_features/map_primitive.cpp
@@ -277,7 +277,7 @@ StagedMapPlane::StagedMapPlane(const matrix33& poseCovariance,
             detectedFeatureParams, cameraToWorld, planeCameraToWorld, planeParameterCovariance, poseCovariance);
     _boundaryPolygon = detectedFeature.get_boundary_polygon().to_world_space(cameraToWorld);
 
-    if (not utils::double_equal(_parametrization.get_normal().norm(), 1.0))
+    if (not utils::double_equal(_parametrization.get_normal().norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("parametrization of detected feature as an invalid normal vector");
     }
@@ -307,7 +307,7 @@ LocalMapPlane::LocalMapPlane(const StagedMapPlane& stagedPlane) : MapPlane(stage
     {
         throw std::invalid_argument("covariance of stagedPlane is an invalid covariance matrix");
     }
-    if (not utils::double_equal(_parametrization.get_normal().norm(), 1.0))
+    if (not utils::double_equal(_parametrization.get_normal().norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("parametrization of stagedPlane as an invalid normal vector");
     }
diff --git a/src/tracking/plane_with_tracking.cpp b/src/tracking/plane_with_tracking.cpp
index 122997f..dff2414 100644
--- a/src/tracking/plane_with_tracking.cpp
+++ b/src/tracking/plane_with_tracking.cpp
@@ -51,7 +51,7 @@ double Plane::track(const CameraToWorldMatrix& cameraToWorld,
     }
 
     // static sanity checks
-    assert(utils::double_equal(_parametrization.get_normal().norm(), 1.0));
+    assert(utils::double_equal(_parametrization.get_normal().norm(), 1.0, utils::unitNormTolerance));
     assert(not _covariance.hasNaN());
     assert(utils::is_covariance_valid(_covariance));
     assert(not _parametrization.hasNaN());
diff --git a/src/utils/covariances.cpp b/src/utils/covariances.cpp
index 0f179b6..245493f 100644
--- a/src/utils/covariances.cpp
+++ b/src/utils/covariances.cpp
@@ -107,7 +107,7 @@ matrix44 compute_plane_covariance(const PlaneCoordinates& planeParameters, const
     {
         throw std::invalid_argument("compute_plane_covariance: The d of planeParameters should not be 0");
     }
-    if (not utils::double_equal(normal.norm(), 1.0))
+    if (not utils::double_equal(normal.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("compute_plane_covariance: The normal of planeParameters should have a norm of 1");
     }
@@ -166,7 +166,7 @@ matrix33 compute_reduced_plane_point_cloud_covariance(const PlaneCoordinates& pl
                 "compute_reduced_plane_point_cloud_covariance: compute_plane_covariance: The d of planeParameters "
                 "should not be 0");
     }
-    if (not utils::double_equal(normal.norm(), 1.0))
+    if (not utils::double_equal(normal.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument(
                 "compute_reduced_plane_point_cloud_covariance: compute_plane_covariance: The normal of planeParameters "
diff --git a/src/utils/distance_utils.hpp b/src/utils/distance_utils.hpp
index 30de17e..4027233 100644
--- a/src/utils/distance_utils.hpp
+++ b/src/utils/distance_utils.hpp
@@ -14,6 +14,12 @@ namespace rgbd_slam::utils {
  */
 [[nodiscard]] double angle_distance(const double angleA, const double angleB) noexcept;
 
+/**
+ * \brief Tolerance on the norm of a vector that was normalized: the rounding error of the normalization and of the norm
+ * adds up to a few epsilons
+ */
+constexpr double unitNormTolerance = 1e-9;
+
 /**
  * \brief Check an equality between two doubles, with an epsilon: TODO move this to a more sensible location
  * \param[in] a
diff --git a/src/utils/polygon.cpp b/src/utils/polygon.cpp
index 499bb68..92c12c1 100644
--- a/src/utils/polygon.cpp
+++ b/src/utils/polygon.cpp
@@ -73,14 +73,14 @@ vector3 select_correct_transform(const vector3& normal) noexcept
  */
 std::pair<vector3, vector3> get_plane_coordinate_system(const vector3& normal)
 {
-    if (not double_equal(normal.norm(), 1.0))
+    if (not double_equal(normal.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("get_plane_coordinate_system: The normal should have a norm of 1");
     }
 
     // define a vector orthogonal to the normal (r.dot normal should be close to 0)
     const vector3& r = select_correct_transform(normal);
-    if (not double_equal(r.norm(), 1.0))
+    if (not double_equal(r.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::logic_error("get_plane_coordinate_system: The selected vector r should have a norm of 1");
     }
@@ -90,11 +90,11 @@ std::pair<vector3, vector3> get_plane_coordinate_system(const vector3& normal)
     const vector3 yAxis = normal.cross(xAxis).normalized();
 
     // check that angles between vectors is close to 0
-    if (not double_equal(xAxis.norm(), 1.0))
+    if (not double_equal(xAxis.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::logic_error("get_plane_coordinate_system: The x axis as an invalid norm");
     }
-    if (not double_equal(yAxis.norm(), 1.0))
+    if (not double_equal(yAxis.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::logic_error("get_plane_coordinate_system: The y axis as an invalid norm");
     }
@@ -127,11 +127,11 @@ vector2 get_projected_plan_coordinates(const vector3& pointToProject,
                                        const vector3& xAxis,
                                        const vector3& yAxis)
 {
-    if (not double_equal(xAxis.norm(), 1.0))
+    if (not double_equal(xAxis.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("get_projected_plan_coordinates: xAxis norm should be 1");
     }
-    if (not double_equal(yAxis.norm(), 1.0))
+    if (not double_equal(yAxis.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("get_projected_plan_coordinates: yAxis norm should be 1");
     }
@@ -149,11 +149,11 @@ vector3 get_point_from_plane_coordinates(const vector2& pointToProject,
                                          const vector3& xAxis,
                                          const vector3& yAxis)
 {
-    if (not double_equal(xAxis.norm(), 1.0))
+    if (not double_equal(xAxis.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("get_point_from_plane_coordinates: xAxis norm should be 1");
     }
-    if (not double_equal(yAxis.norm(), 1.0))
+    if (not double_equal(yAxis.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("get_point_from_plane_coordinates: yAxis norm should be 1");
     }
@@ -167,7 +167,7 @@ vector3 get_point_from_plane_coordinates(const vector2& pointToProject,
 
 Polygon::Polygon(const std::vector<vector3>& points, const vector3& normal, const vector3& center) : _center(center)
 {
-    if (not double_equal(normal.norm(), 1.0))
+    if (not double_equal(normal.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("Polygon: normal norm should be 1");
     }
@@ -241,11 +241,11 @@ Polygon::Polygon(const std::vector<point_2d>& boundaryPoints,
     _xAxis(xAxis),
     _yAxis(yAxis)
 {
-    if (not double_equal(_xAxis.norm(), 1.0))
+    if (not double_equal(_xAxis.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("Polygon: _xAxis norm should be 1");
     }
-    if (not double_equal(_yAxis.norm(), 1.0))
+    if (not double_equal(_yAxis.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("Polygon: _yAxis norm should be 1");
     }
@@ -337,7 +337,7 @@ void Polygon::merge_union(const Polygon& other)
 
 Polygon Polygon::project(const vector3& nextNormal, const vector3& nextCenter) const
 {
-    if (not double_equal(nextNormal.norm(), 1.0))
+    if (not double_equal(nextNormal.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::project: nextNormal norm should be 1");
     }
@@ -348,11 +348,11 @@ Polygon Polygon::project(const vector3& nextNormal, const vector3& nextCenter) c
 
 Polygon Polygon::project(const vector3& nextXAxis, const vector3& nextYAxis, const vector3& nextCenter) const
 {
-    if (not double_equal(nextXAxis.norm(), 1.0))
+    if (not double_equal(nextXAxis.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::project: nextXAxis norm should be 1");
     }
-    if (not double_equal(nextXAxis.norm(), 1.0))
+    if (not double_equal(nextXAxis.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::project: nextYAxis norm should be 1");
     }
@@ -383,7 +383,7 @@ Polygon Polygon::project(const vector3& nextXAxis, const vector3& nextYAxis, con
 
 Polygon Polygon::transform(const vector3& nextNormal, const vector3& nextCenter) const
 {
-    if (not double_equal(nextNormal.norm(), 1.0))
+    if (not double_equal(nextNormal.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::transform: nextNormal norm should be 1");
     }
@@ -401,11 +401,11 @@ Polygon Polygon::transform(const vector3& nextNormal, const vector3& nextCenter)
 
 Polygon Polygon::transform(const vector3& nextXAxis, const vector3& nextYAxis, const vector3& nextCenter) const
 {
-    if (not double_equal(nextXAxis.norm(), 1.0))
+    if (not double_equal(nextXAxis.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::transform: nextXAxis norm should be 1");
     }
-    if (not double_equal(nextXAxis.norm(), 1.0))
+    if (not double_equal(nextXAxis.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::transform: nextYAxis norm should be 1");
     }
-- 
2.43.0


From cace3f9986c11d86408598806dd179505da8253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:57 +0000
Subject: [PATCH 06/50] fix: clamp_to_screen keeps the end of the line that is
 inside the screen

With one intersection with the screen border, both ends of the clamped line were
that intersection: the visible part of the line was lost.
---
 src/utils/line.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/utils/line.cpp b/src/utils/line.cpp
index e1801c1..e28bf57 100644
--- a/src/utils/line.cpp
+++ b/src/utils/line.cpp
@@ -41,17 +41,12 @@ namespace rgbd_slam::utils {
                 }
             case 1:
                 {
-                    // find the point in the screen boundary
-                    const ScreenCoordinate2D startPoint(output[0].x(), output[0].y());
-                    const ScreenCoordinate2D endPoint(output[0].x(), output[0].y());
-                    if (startPoint.is_in_screen_boundaries())
-                    {
-                        out.set_points(startPoint, vector2(output[0].x(), output[0].y()));
-                    }
-                    else
-                    {
-                        out.set_points(vector2(output[0].x(), output[0].y()), endPoint);
-                    }
+                    // keep the ends that are in the screen boundary, replace the others by the intersection
+                    const ScreenCoordinate2D startPoint(line.get_start_point());
+                    const ScreenCoordinate2D endPoint(line.get_end_point());
+                    const vector2 intersection(output[0].x(), output[0].y());
+                    out.set_points(startPoint.is_in_screen_boundaries() ? startPoint : intersection,
+                                   endPoint.is_in_screen_boundaries() ? endPoint : intersection);
                     break;
                 }
             case 2:
-- 
2.43.0


From b46519e5033d4bd8341d1103d51dff4481fe346c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:13 +0000
Subject: [PATCH 07/50] fix: segments that do not cross do not intersect

boost::geometry::intersection returns true when it could compute the (maybe empty) intersection.
The first element of the empty output was read.
---
 src/utils/line.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/line.cpp b/src/utils/line.cpp
index e28bf57..dd046f4 100644
--- a/src/utils/line.cpp
+++ b/src/utils/line.cpp
@@ -97,7 +97,7 @@ bool intersects(const Segment<2>& firstLine, const Segment<2>& secondLine, Eigen
                  point_t(secondLine.get_end_point().x(), secondLine.get_end_point().y())});
 
     std::vector<point_t> output;
-    if (boost::geometry::intersection(seg1, seg2, output))
+    if (boost::geometry::intersection(seg1, seg2, output) and not output.empty())
     {
         point.x() = output[0].x();
         point.y() = output[0].y();
@@ -121,7 +121,7 @@ bool intersects(const Segment<3>& firstLine, const Segment<3>& secondLine, Eigen
              point_t(secondLine.get_end_point().x(), secondLine.get_end_point().y(), secondLine.get_end_point().z())});
 
     std::vector<point_t> output;
-    if (boost::geometry::intersection(seg1, seg2, output))
+    if (boost::geometry::intersection(seg1, seg2, output) and not output.empty())
     {
         point.x() = output[0].x();
         point.y() = output[0].y();
-- 
2.43.0


From 0c5d32f081cedc61cc9bb009d88250130671373d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:16 +0000
Subject: [PATCH 08/50] fix: lines that are parallel up to rounding have a
 finite distance

isApproxToConstant is a relative comparison: it is true for an exact zero only. The distance of a line
to itself was NaN as soon as a rounding error made the cross product of the directions non zero.
---
 src/utils/distance_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/distance_utils.hpp b/src/utils/distance_utils.hpp
index 4027233..8a5889d 100644
--- a/src/utils/distance_utils.hpp
+++ b/src/utils/distance_utils.hpp
@@ -51,7 +51,7 @@ template<int Dim> [[nodiscard]] bool compute_closest_points(const Eigen::Vector<
 
     const Eigen::Vector<double, Dim> n = line1normal.cross(line2normal);
     // normals are parallels, distance is the distance between points
-    if (n.isApproxToConstant(0.0))
+    if (n.isZero())
     {
         // parallel line distance
         return false;
-- 
2.43.0


From 363b819e5a47ef14a31a389ff546b37a4beba834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:32 +0000
Subject: [PATCH 09/50] fix: the motion model predicts the rotation in the
 frame in which it measured it

The angular velocity is current * last^-1: the next orientation is velocity * current, not current * velocity.
A constant rotation was predicted around the wrong axis as soon as the camera was not aligned with it.
---
 src/tracking/motion_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracking/motion_model.cpp b/src/tracking/motion_model.cpp
index 02df3f6..6ab0965 100644
--- a/src/tracking/motion_model.cpp
+++ b/src/tracking/motion_model.cpp
@@ -65,7 +65,7 @@ utils::Pose Motion_Model::predict_next_pose(const utils::Pose& currentPose, cons
 
     // Integrate to compute predictions
     const vector3 integralPos = _lastPosition + _linearVelocity;
-    const quaternion& integralQ = (currentRotation * newAngularVelocity).normalized();
+    const quaternion& integralQ = (newAngularVelocity * currentRotation).normalized();
 
     return utils::Pose(integralPos, integralQ, currentPose.get_pose_variance() + poseError);
 }
-- 
2.43.0


From dd2420fdcc6857f344a613536eec0a7619e4e7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:45 +0000
Subject: [PATCH 10/50] fix: a polygon behind the camera is not visible

---
 src/coordinates/polygon_coordinates.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/coordinates/polygon_coordinates.cpp b/src/coordinates/polygon_coordinates.cpp
index 0827f28..c4002bb 100644
--- a/src/coordinates/polygon_coordinates.cpp
+++ b/src/coordinates/polygon_coordinates.cpp
@@ -119,9 +119,15 @@ utils::Polygon::polygon CameraPolygon::to_screen_space() const
 
 bool CameraPolygon::is_visible_in_screen_space() const
 {
+    // the projection of a polygon that is behind the camera can be in the screen limits too
+    const std::vector<ScreenCoordinate>& screenPoints = get_screen_points();
+    if (std::ranges::none_of(screenPoints, [](const ScreenCoordinate& s) {
+            return s.z() > 0;
+        }))
+        return false;
+
     // intersecton of this polygon in screen space, and the screen limits; if it exists, the polygon is visible
     multi_polygon res;
-    // TODO: can this be a problem  when the polygon is behind the camera ?
     boost::geometry::intersection(to_screen_space(), utils::get_static_screen_boundary_polygon(), res);
     return not res.empty(); // intersection exists, polygon is visible
 }
-- 
2.43.0


From 072e740588b330d0717393912ca9aee71feb1c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:20 +0000
Subject: [PATCH 11/50] fix: a landmark observed further along the negative
 axes is also moving

---
 src/tracking/inverse_depth_with_tracking.cpp | 3 ++-
 src/tracking/point_with_tracking.cpp         | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tracking/inverse_depth_with_tracking.cpp b/src/tracking/inverse_depth_with_tracking.cpp
index 73981c5..a6e16fd 100644
--- a/src/tracking/inverse_depth_with_tracking.cpp
+++ b/src/tracking/inverse_depth_with_tracking.cpp
@@ -140,7 +140,8 @@ bool PointInverseDepth::update_with_cartesian(const WorldCoordinate& point,
             throw std::invalid_argument("Inverse depth point covariance is invalid at the kalman output");
 
         // moved above the uncertainty of this point
-        _isMoving = ((_coordinates.to_world_coordinates() - point).array() > covariance.diagonal().cwiseSqrt().array())
+        _isMoving = ((_coordinates.to_world_coordinates() - point).cwiseAbs().array() >
+                     covariance.diagonal().cwiseSqrt().array())
                             .any();
 
         // put back in inverse depth coordinates
diff --git a/src/tracking/point_with_tracking.cpp b/src/tracking/point_with_tracking.cpp
index a49b53c..8fa238f 100644
--- a/src/tracking/point_with_tracking.cpp
+++ b/src/tracking/point_with_tracking.cpp
@@ -49,7 +49,7 @@ double Point::track(const WorldCoordinate& newDetectionCoordinates, const matrix
                 _coordinates, _covariance, newDetectionCoordinates, newDetectionCovariance);
 
         // moved above the uncertainty of this point
-        _isMoving = ((_coordinates - newDetectionCoordinates).array() >
+        _isMoving = ((_coordinates - newDetectionCoordinates).cwiseAbs().array() >
                      newDetectionCovariance.diagonal().cwiseSqrt().array())
                             .any();
 
-- 
2.43.0


From 7ecffbd54dc82472db6f080cc2c2e3cfe9d07004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:20 +0000
Subject: [PATCH 12/50] fix: copying an inverse depth point keeps its moving
 state

---
 src/tracking/inverse_depth_with_tracking.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tracking/inverse_depth_with_tracking.cpp b/src/tracking/inverse_depth_with_tracking.cpp
index a6e16fd..4efadaf 100644
--- a/src/tracking/inverse_depth_with_tracking.cpp
+++ b/src/tracking/inverse_depth_with_tracking.cpp
@@ -52,7 +52,8 @@ PointInverseDepth::PointInverseDepth(const ScreenCoordinate2D& observation,
 PointInverseDepth::PointInverseDepth(const PointInverseDepth& other) :
     _coordinates(other._coordinates),
     _covariance(other._covariance),
-    _descriptor(other._descriptor)
+    _descriptor(other._descriptor),
+    _isMoving(other._isMoving)
 {
     if (not utils::is_covariance_valid(_covariance))
         throw std::invalid_argument("PointInverseDepth constructor: the given covariance is invalid");
-- 
2.43.0


From 10039a7410fa6517d00c307b0a7d98e46b14fa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:50 +0000
Subject: [PATCH 13/50] fix: index the keypoint search space by rows of cells

---
 src/features/keypoints/keypoint_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features/keypoints/keypoint_handler.cpp b/src/features/keypoints/keypoint_handler.cpp
index 9bfd98c..78fab9d 100644
--- a/src/features/keypoints/keypoint_handler.cpp
+++ b/src/features/keypoints/keypoint_handler.cpp
@@ -125,7 +125,7 @@ uint Keypoint_Handler::get_search_space_index(const uint_pair& searchSpaceIndex)
 {
     return get_search_space_index(searchSpaceIndex.second, searchSpaceIndex.first);
 }
-uint Keypoint_Handler::get_search_space_index(const uint x, const uint y) const noexcept { return y * _cellCountY + x; }
+uint Keypoint_Handler::get_search_space_index(const uint x, const uint y) const noexcept { return y * _cellCountX + x; }
 
 Keypoint_Handler::uint_pair Keypoint_Handler::get_search_space_coordinates(
         const ScreenCoordinate2D& pointToPlace) const noexcept
-- 
2.43.0


From 01003f9493a5104df92d96e82f43ab66abadef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:50 +0000
Subject: [PATCH 14/50] fix: search keypoint matches near the top and left
 borders of the image

---
 src/features/keypoints/keypoint_handler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/features/keypoints/keypoint_handler.cpp b/src/features/keypoints/keypoint_handler.cpp
index 78fab9d..e8e0a63 100644
--- a/src/features/keypoints/keypoint_handler.cpp
+++ b/src/features/keypoints/keypoint_handler.cpp
@@ -142,8 +142,8 @@ cv::Mat_<uchar> Keypoint_Handler::compute_key_point_mask(const ScreenCoordinate2
 {
     const auto [searchSpaceCoordinatesY, searchSpaceCoordinatesX] = get_search_space_coordinates(pointToSearch);
     // compute a search zone for the potential matches of this point
-    const uint startY = std::max(0U, searchSpaceCoordinatesY - searchSpaceCellRadius);
-    const uint startX = std::max(0U, searchSpaceCoordinatesX - searchSpaceCellRadius);
+    const uint startY = searchSpaceCoordinatesY - std::min(searchSpaceCoordinatesY, searchSpaceCellRadius);
+    const uint startX = searchSpaceCoordinatesX - std::min(searchSpaceCoordinatesX, searchSpaceCellRadius);
 
     const uint endY = std::min(_cellCountY, searchSpaceCoordinatesY + searchSpaceCellRadius + 1);
     const uint endX = std::min(_cellCountX, searchSpaceCoordinatesX + searchSpaceCellRadius + 1);
-- 
2.43.0


From 5980001ba61f0e2de106cbda1863b4405083e2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:03 +0000
Subject: [PATCH 15/50] fix: the keypoint search uses the radius that it is
 given

---
 src/features/keypoints/keypoint_handler.cpp | 20 +++++++++++---------
 src/features/keypoints/keypoint_handler.hpp |  6 ++++--
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/features/keypoints/keypoint_handler.cpp b/src/features/keypoints/keypoint_handler.cpp
index e8e0a63..eda07c8 100644
--- a/src/features/keypoints/keypoint_handler.cpp
+++ b/src/features/keypoints/keypoint_handler.cpp
@@ -138,8 +138,13 @@ Keypoint_Handler::uint_pair Keypoint_Handler::get_search_space_coordinates(
 
 cv::Mat_<uchar> Keypoint_Handler::compute_key_point_mask(const ScreenCoordinate2D& pointToSearch,
                                                          const vectorb& isKeyPointMatchedContainer,
-                                                         const uint searchSpaceCellRadius) const noexcept
+                                                         const double searchSpaceRadius) const noexcept
 {
+    constexpr double cellSize = parameters::matching::matchSearchRadius_px + 1.0;
+    static_assert(cellSize > 0);
+    const uint searchSpaceCellRadius = static_cast<uint>(std::ceil(searchSpaceRadius / cellSize));
+    assert(searchSpaceCellRadius > 0);
+
     const auto [searchSpaceCoordinatesY, searchSpaceCoordinatesX] = get_search_space_coordinates(pointToSearch);
     // compute a search zone for the potential matches of this point
     const uint startY = searchSpaceCoordinatesY - std::min(searchSpaceCoordinatesY, searchSpaceCellRadius);
@@ -159,7 +164,8 @@ cv::Mat_<uchar> Keypoint_Handler::compute_key_point_mask(const ScreenCoordinate2
 
             // get all keypoints in this area
             const index_container& keypointIndexContainer = _searchSpaceIndexContainer[searchSpaceIndex];
-            fill_keypoint_mask(pointToSearch, keypointIndexContainer, isKeyPointMatchedContainer, keyPointMask);
+            fill_keypoint_mask(
+                    pointToSearch, keypointIndexContainer, isKeyPointMatchedContainer, searchSpaceRadius, keyPointMask);
         }
     }
 
@@ -169,10 +175,11 @@ cv::Mat_<uchar> Keypoint_Handler::compute_key_point_mask(const ScreenCoordinate2
 void Keypoint_Handler::fill_keypoint_mask(const ScreenCoordinate2D& pointToSearch,
                                           const index_container& keypointIndexContainer,
                                           const vectorb& isKeyPointMatchedContainer,
+                                          const double searchSpaceRadius,
                                           cv::Mat_<uchar>& keyPointMask) const noexcept
 {
     // Squared search diameter, to compare distance without sqrt
-    constexpr float squaredSearchDiameter = static_cast<float>(SQR(parameters::matching::matchSearchRadius_px));
+    const double squaredSearchDiameter = SQR(searchSpaceRadius);
     for (const uint keypointIndex: keypointIndexContainer)
     {
         // ignore this point if it is already matched (prevent multiple matches of one point)
@@ -245,17 +252,12 @@ Keypoint_Handler::matchIndexSet Keypoint_Handler::get_match_indexes(const Screen
     if (_keypoints.empty() or _descriptors.empty())
         return matchSet;
 
-    constexpr double cellSize = parameters::matching::matchSearchRadius_px + 1.0;
-    static_assert(cellSize > 0);
-    const uint searchSpaceCellRadius = static_cast<uint>(std::ceil(searchSpaceRadius / cellSize));
-    assert(searchSpaceCellRadius > 0);
-
     // check descriptor dimensions
     assert(!mapPointDescriptor.empty());
     assert(mapPointDescriptor.cols == _descriptors.cols);
 
     const cv::Mat_<uchar>& keyPointMask =
-            compute_key_point_mask(projectedMapPoint, isKeyPointMatchedContainer, searchSpaceCellRadius);
+            compute_key_point_mask(projectedMapPoint, isKeyPointMatchedContainer, searchSpaceRadius);
 
     std::vector<std::vector<cv::DMatch>> knnMatches;
     _featuresMatcher->knnMatch(mapPointDescriptor, _descriptors, knnMatches, 2, keyPointMask);
diff --git a/src/features/keypoints/keypoint_handler.hpp b/src/features/keypoints/keypoint_handler.hpp
index 6c313f1..0e55113 100644
--- a/src/features/keypoints/keypoint_handler.hpp
+++ b/src/features/keypoints/keypoint_handler.hpp
@@ -184,13 +184,13 @@ class Keypoint_Handler
      *
      * \param[in] pointToSearch The 2D screen coordinates of the point to match
      * \param[in] isKeyPointMatchedContainer A vector of size _keypoints, use to flag is a keypoint is already matched
-     * \param[in] searchSpaceCellRadius Radius of the match search
+     * \param[in] searchSpaceRadius Radius of the match search, in pixels
      *
      * \return A Mat the same size as our keypoint array, with 0 where the index is not a candidate, and 1 where it is
      */
     [[nodiscard]] cv::Mat_<uchar> compute_key_point_mask(const ScreenCoordinate2D& pointToSearch,
                                                          const vectorb& isKeyPointMatchedContainer,
-                                                         const uint searchSpaceCellRadius) const noexcept;
+                                                         const double searchSpaceRadius) const noexcept;
 
     using index_container = std::vector<uint>;
     /**
@@ -198,11 +198,13 @@ class Keypoint_Handler
      * \param[in] pointToSearch The cooridnates of the point we want to match
      * \param[in] keypointIndexContainer A container with all the keypoints to draw an area around
      * \param[in] isKeyPointMatchedContainer If a keypoint is already matched, it's index will be true
+     * \param[in] searchSpaceRadius Radius of the match search, in pixels
      * \param[in, out] keyPointMask The match mask for each keypoints
      */
     void fill_keypoint_mask(const ScreenCoordinate2D& pointToSearch,
                             const index_container& keypointIndexContainer,
                             const vectorb& isKeyPointMatchedContainer,
+                            const double searchSpaceRadius,
                             cv::Mat_<uchar>& keyPointMask) const noexcept;
 
     using uint_pair = std::pair<uint, uint>;
-- 
2.43.0


From 693f0a0ed6c0d213a2cc38623cb4e00d4bfe668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:16 +0000
Subject: [PATCH 16/50] fix: the angles of a pose vector are continuous around
 the identity

---
 src/utils/pose.cpp | 9 +++++++++
 src/utils/pose.hpp | 9 ++-------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/utils/pose.cpp b/src/utils/pose.cpp
index 493d76f..9e370aa 100644
--- a/src/utils/pose.cpp
+++ b/src/utils/pose.cpp
@@ -27,6 +27,15 @@ void PoseBase::update(const vector3& position, const quaternion& orientation) no
     _position += position;
 }
 
+vector6 PoseBase::get_vector() const noexcept
+{
+    // the pitch is the angle with the reduced range, so these angles are continuous around the identity
+    const EulerAngles angles = get_euler_angles_from_quaternion(_orientation);
+    vector6 t;
+    t << _position, angles.roll, angles.pitch, angles.yaw;
+    return t;
+}
+
 void PoseBase::display(std::ostream& os) const noexcept
 {
     const EulerAngles displayAngles = get_euler_angles_from_quaternion(_orientation);
diff --git a/src/utils/pose.hpp b/src/utils/pose.hpp
index 4d94459..4baee1f 100644
--- a/src/utils/pose.hpp
+++ b/src/utils/pose.hpp
@@ -26,14 +26,9 @@ class PoseBase
     [[nodiscard]] matrix33 get_orientation_matrix() const noexcept { return _orientation.toRotationMatrix(); }
     [[nodiscard]] quaternion get_orientation_quaternion() const noexcept { return _orientation; }
     /**
-     * \return a 6 element vector of the position followed by the rotation in radians
+     * \return a 6 element vector of the position followed by the rotation in radians (roll, pitch, yaw)
      */
-    [[nodiscard]] vector6 get_vector() const noexcept
-    {
-        vector6 t;
-        t << _position, _orientation.toRotationMatrix().eulerAngles(0, 1, 2);
-        return t;
-    }
+    [[nodiscard]] vector6 get_vector() const noexcept;
 
     /**
      * \brief compute a position error (Units are the same as the position units)
-- 
2.43.0


From 70877a14920707f15c0fd7dede2baef295e7f6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:16 +0000
Subject: [PATCH 17/50] fix: the variance of a pose does not depend on the turn
 in which its angles are expressed

---
 src/pose_optimization/pose_optimization.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pose_optimization/pose_optimization.cpp b/src/pose_optimization/pose_optimization.cpp
index 431aa41..f660eb1 100644
--- a/src/pose_optimization/pose_optimization.cpp
+++ b/src/pose_optimization/pose_optimization.cpp
@@ -372,6 +372,7 @@ bool Pose_Optimization::compute_pose_variance(const utils::PoseBase& optimizedPo
     }
     poseCovariance.setZero();
     vector6 medium = vector6::Zero();
+    const vector6 reference = optimizedPose.get_vector();
 
     std::vector<vector6> poses;
     poses.reserve(iterations);
@@ -389,7 +390,11 @@ bool Pose_Optimization::compute_pose_variance(const utils::PoseBase& optimizedPo
                           utils::PoseBase newPose;
                           if (compute_random_variation_of_pose(optimizedPose, matchedFeatures, newPose))
                           {
-                              const vector6& pose6dof = newPose.get_vector();
+                              vector6 pose6dof = newPose.get_vector();
+                              // angles are equal modulo a turn: use the ones that are closest to the reference
+                              pose6dof.tail<3>() -=
+                                      (2.0 * M_PI) *
+                                      ((pose6dof - reference).tail<3>() / (2.0 * M_PI)).array().round().matrix();
 #ifndef MAKE_DETERMINISTIC
                               std::scoped_lock<std::mutex> lock(mut);
 #endif
-- 
2.43.0


From 1c415e77a3dcff0e495484ba9ce7d4864497c927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:13 +0000
Subject: [PATCH 18/50] fix: the pose optimisation also moves the parameters
 that are close to zero

---
 .../levenberg_marquardt_functors.cpp          | 21 +++++++++++++++++++
 .../levenberg_marquardt_functors.hpp          |  4 ++++
 2 files changed, 25 insertions(+)

diff --git a/src/pose_optimization/levenberg_marquardt_functors.cpp b/src/pose_optimization/levenberg_marquardt_functors.cpp
index 7c4b732..2076890 100644
--- a/src/pose_optimization/levenberg_marquardt_functors.cpp
+++ b/src/pose_optimization/levenberg_marquardt_functors.cpp
@@ -6,7 +6,9 @@
 #include "utils/camera_transformation.hpp"
 #include <Eigen/src/Core/Matrix.h>
 #include <Eigen/src/Core/util/Meta.h>
+#include <algorithm>
 #include <cmath>
+#include <limits>
 #include <stdexcept>
 
 namespace rgbd_slam::pose_optimization {
@@ -168,6 +170,25 @@ int Global_Pose_Estimator::operator()(const Eigen::Vector<double, 6>& optimizedP
     return 0;
 }
 
+int Global_Pose_Functor::df(const InputType& parameters, JacobianType& jacobian) const
+{
+    const double epsilon = std::sqrt(std::numeric_limits<double>::epsilon());
+
+    ValueType reference = ValueType::Zero(values());
+    InputType x = parameters;
+    operator()(x, reference);
+    for (Eigen::Index i = 0; i < parameters.size(); ++i)
+    {
+        const double step = epsilon * std::max(1.0, std::abs(parameters(i)));
+        x(i) += step;
+        ValueType moved = reference;
+        operator()(x, moved);
+        x(i) = parameters(i);
+        jacobian.col(i) = (moved - reference) / step;
+    }
+    return static_cast<int>(parameters.size()) + 1;
+}
+
 /**
  * \brief Return a string corresponding to the end status of the optimization
  */
diff --git a/src/pose_optimization/levenberg_marquardt_functors.hpp b/src/pose_optimization/levenberg_marquardt_functors.hpp
index a034fcb..f1c948b 100644
--- a/src/pose_optimization/levenberg_marquardt_functors.hpp
+++ b/src/pose_optimization/levenberg_marquardt_functors.hpp
@@ -89,6 +89,10 @@ struct Global_Pose_Estimator : Levenberg_Marquardt_Functor<double>
 
 struct Global_Pose_Functor : Eigen::NumericalDiff<Global_Pose_Estimator>
 {
+    /**
+     * \brief Forward differences, with a step that does not vanish when a parameter is close to zero
+     */
+    int df(const InputType& parameters, JacobianType& jacobian) const;
 };
 
 /**
-- 
2.43.0


From 567f023593290f7322e1a005beb2d9bd4a2c87ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:08 +0000
Subject: [PATCH 19/50] fix: the best pose candidate is compared and replaced
 under the same lock

---
 src/pose_optimization/pose_optimization.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pose_optimization/pose_optimization.cpp b/src/pose_optimization/pose_optimization.cpp
index f660eb1..a551fe5 100644
--- a/src/pose_optimization/pose_optimization.cpp
+++ b/src/pose_optimization/pose_optimization.cpp
@@ -201,13 +201,15 @@ bool Pose_Optimization::compute_pose_with_ransac(const utils::PoseBase& currentP
 #endif
                 }
 
+                // compare and replace the best candidate in one step
+                std::scoped_lock<std::mutex> lock(mut);
+
                 // Better score, or same score but more inliers
                 const bool canOverload = (featureInlierScore > maxScore) or
                                          (utils::double_equal(featureInlierScore, maxScore, 0.1) and
                                           finalFeatureSets._inliers.size() < potentialInliersOutliers._inliers.size());
                 if (canOverload)
                 {
-                    std::scoped_lock<std::mutex> lock(mut);
                     maxScore = featureInlierScore;
                     bestPose = candidatePose;
                     // save features inliers and outliers
-- 
2.43.0


From d6680652bd24a0c70d260c4596624045a0fa6f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:08 +0000
Subject: [PATCH 20/50] fix: the durations measured in the RANSAC threads are
 atomic

---
 src/pose_optimization/pose_optimization.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pose_optimization/pose_optimization.hpp b/src/pose_optimization/pose_optimization.hpp
index 217873c..a6b507d 100644
--- a/src/pose_optimization/pose_optimization.hpp
+++ b/src/pose_optimization/pose_optimization.hpp
@@ -4,6 +4,8 @@
 #include "matches_containers.hpp"
 #include "utils/pose.hpp"
 
+#include <atomic>
+
 namespace rgbd_slam::pose_optimization {
 
 /**
@@ -97,9 +99,10 @@ class Pose_Optimization
     inline static double _meanPoseRANSACDuration = 0.0;
     inline static double _meanComputePoseVarianceDuration = 0.0;
 
-    inline static double _meanGetRandomSubsetDuration = 0.0;
-    inline static double _meanRANSACPoseOptimizationDuration = 0.0;
-    inline static double _meanRANSACGetInliersDuration = 0.0;
+    // updated by the threads of the RANSAC loop
+    inline static std::atomic<double> _meanGetRandomSubsetDuration = 0.0;
+    inline static std::atomic<double> _meanRANSACPoseOptimizationDuration = 0.0;
+    inline static std::atomic<double> _meanRANSACGetInliersDuration = 0.0;
 };
 
 } // namespace rgbd_slam::pose_optimization
-- 
2.43.0


From 359687bf1fe21c294aa4ba4da85a0dafa02a83af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:50 +0000
Subject: [PATCH 21/50] fix: a 2D point far on the negative side of its line is
 not an inlier

---
 src/map_management/map_features/map_point2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map_management/map_features/map_point2d.cpp b/src/map_management/map_features/map_point2d.cpp
index cd6e467..7c8c911 100644
--- a/src/map_management/map_features/map_point2d.cpp
+++ b/src/map_management/map_features/map_point2d.cpp
@@ -32,7 +32,7 @@ double Point2dOptimizationFeature::get_score() const noexcept
 
 bool Point2dOptimizationFeature::is_inlier(const WorldToCameraMatrix& worldToCamera) const noexcept
 {
-    return (get_distance(worldToCamera).array() <=
+    return (get_distance(worldToCamera).array().abs() <=
             parameters::optimization::ransac::maximumRetroprojectionErrorForPoint2DInliers_px)
             .all();
 }
-- 
2.43.0


From f37e18e5356ac8d60663e59cafcbc5ce8c65ac59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:54 +0000
Subject: [PATCH 22/50] fix: a point behind the camera is not an inlier of a
 pose

---
 src/map_management/map_features/map_point.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/map_management/map_features/map_point.cpp b/src/map_management/map_features/map_point.cpp
index 2972c3e..a8d1104 100644
--- a/src/map_management/map_features/map_point.cpp
+++ b/src/map_management/map_features/map_point.cpp
@@ -33,6 +33,10 @@ double PointOptimizationFeature::get_score() const noexcept
 
 bool PointOptimizationFeature::is_inlier(const WorldToCameraMatrix& worldToCamera) const noexcept
 {
+    // a point behind the camera cannot be seen, even if its mirrored projection is close
+    if (_mapPoint.to_camera_coordinates(worldToCamera).z() <= 0)
+        return false;
+
     const double distance = _mapPoint.get_distance_px(_matchedPoint, worldToCamera);
     return distance <= parameters::optimization::ransac::maximumRetroprojectionErrorForPointInliers_px;
 }
-- 
2.43.0


From 1cf47632ee7ab2e8642bf492195c94a3e77e93cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:23 +0000
Subject: [PATCH 23/50] fix: rotations close to a half turn keep their value in
 the optimisation coefficients

---
 src/pose_optimization/levenberg_marquardt_functors.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pose_optimization/levenberg_marquardt_functors.cpp b/src/pose_optimization/levenberg_marquardt_functors.cpp
index 2076890..7770138 100644
--- a/src/pose_optimization/levenberg_marquardt_functors.cpp
+++ b/src/pose_optimization/levenberg_marquardt_functors.cpp
@@ -21,9 +21,10 @@ vector3 get_optimization_coefficients_from_quaternion(const quaternion& quat)
     /// by: G. Terzakis, P. Culverhouse, G. Bugmann, S. Sharma and R. Sutton
     ///
 
-    // The max is an addition on my part to resolve the occasional case where we have a pure rotation that gives quat.z
-    // at -1
-    const double divider = 1.0 / std::max(1.0 + quat.z(), 0.001);
+    // a quaternion and its opposite are the same rotation: use the one that is the furthest from the singularity of the
+    // parametrization (quat.z at -1)
+    const double sign = (quat.z() < 0) ? -1.0 : 1.0;
+    const double divider = sign / (1.0 + sign * quat.z());
 
     return vector3(quat.w() * divider, quat.x() * divider, quat.y() * divider);
 }
-- 
2.43.0


From a02672be0b876069d7cc4236b00db3e55e4dcae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:23 +0000
Subject: [PATCH 24/50] fix: sign of the diagonal of the quaternion jacobian

---
 src/pose_optimization/levenberg_marquardt_functors.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pose_optimization/levenberg_marquardt_functors.cpp b/src/pose_optimization/levenberg_marquardt_functors.cpp
index 7770138..8bc4432 100644
--- a/src/pose_optimization/levenberg_marquardt_functors.cpp
+++ b/src/pose_optimization/levenberg_marquardt_functors.cpp
@@ -52,7 +52,7 @@ Eigen::Matrix<double, 4, 3> get_quaternion_from_optimization_coefficients_jacobi
     const double theta3 = -(4.0 * optCoeff.x() * optCoeff.z()) / SQR(theta5);
     const double theta4 = -(4.0 * optCoeff.x() * optCoeff.y()) / SQR(theta5);
 
-    const double multiplierDiag = -4.0 / SQR(theta5);
+    const double multiplierDiag = 4.0 / SQR(theta5);
 
     jacobian(0, 0) = 2.0 / theta5 - SQR(optCoeff.x()) * multiplierDiag;
     jacobian(0, 1) = theta4;
-- 
2.43.0


From 72fab548c15b2e5c8b3d438cd3efca0c284632b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:38 +0000
Subject: [PATCH 25/50] fix: the first detected plane of a frame can be matched

---
 src/map_management/map_features/map_primitive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map_management/map_features/map_primitive.cpp b/src/map_management/map_features/map_primitive.cpp
index 832d067..e6b4509 100644
--- a/src/map_management/map_features/map_primitive.cpp
+++ b/src/map_management/map_features/map_primitive.cpp
@@ -143,7 +143,7 @@ matchIndexSet MapPlane::find_matches(const DetectedPlaneObject& detectedFeatures
         }
     }
 
-    if (selectedIndex <= 0)
+    if (selectedIndex < 0)
         return matchIndexes;
 
     if (shouldAddToMatches)
-- 
2.43.0


From f79cb7f48e6cf87d8627f5b14b80dda721c5bf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:38 +0000
Subject: [PATCH 26/50] fix: the matches of 2D points are given to the pose
 optimisation

---
 .../map_features/map_point2d.cpp              | 20 +++++--------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/map_management/map_features/map_point2d.cpp b/src/map_management/map_features/map_point2d.cpp
index 7c8c911..b6dfa6c 100644
--- a/src/map_management/map_features/map_point2d.cpp
+++ b/src/map_management/map_features/map_point2d.cpp
@@ -100,7 +100,11 @@ matchIndexSet MapPoint2D::find_matches(const DetectedKeypointsObject& detectedFe
 
     // try to match with tracking
     int matchIndex = detectedFeatures.get_tracking_match_index(_id, isDetectedFeatureMatched);
-    if (matchIndex == features::keypoints::INVALID_MATCH_INDEX)
+    if (matchIndex != features::keypoints::INVALID_MATCH_INDEX)
+    {
+        matchIndexRes.emplace(matchIndex);
+    }
+    else
     {
         // No match: try to find match in a window around the point
         ScreenCoordinate2D screenCoordinates;
@@ -112,20 +116,6 @@ matchIndexSet MapPoint2D::find_matches(const DetectedKeypointsObject& detectedFe
         }
     }
 
-    if (matchIndex == features::keypoints::INVALID_MATCH_INDEX)
-    {
-        // unmatched point
-        return matchIndexRes;
-    }
-
-    assert(matchIndex >= 0);
-    assert(static_cast<Eigen::Index>(matchIndex) < isDetectedFeatureMatched.size());
-    if (isDetectedFeatureMatched[matchIndex])
-    {
-        // point was already matched
-        outputs::log_error("The requested point unique index is already matched");
-    }
-
     if (shouldAddToMatches)
     {
         for (const auto i: matchIndexRes)
-- 
2.43.0


From 58f1470b9d23c8189183dc486afc6d38fd63b504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:38 +0000
Subject: [PATCH 27/50] fix: a tracked keypoint that is already matched is not
 matched twice

---
 src/map_management/map_features/map_point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map_management/map_features/map_point.cpp b/src/map_management/map_features/map_point.cpp
index a8d1104..336368f 100644
--- a/src/map_management/map_features/map_point.cpp
+++ b/src/map_management/map_features/map_point.cpp
@@ -85,7 +85,7 @@ matchIndexSet MapPoint::find_matches(const DetectedKeypointsObject& detectedFeat
 
     // try to match with tracking
     matchIndexSet matchIndexRes;
-    int matchIndex = detectedFeatures.get_tracking_match_index(_id);
+    int matchIndex = detectedFeatures.get_tracking_match_index(_id, isDetectedFeatureMatched);
     if (matchIndex != features::keypoints::INVALID_MATCH_INDEX)
     {
         matchIndexRes.emplace(matchIndex);
-- 
2.43.0


From 66b2a5e6025e44245a22845360a10ff4cbbf9f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:38 +0000
Subject: [PATCH 28/50] fix: landmarks behind the camera are neither matched
 nor tracked

---
 src/map_management/map_features/map_point.cpp   | 12 +++++++-----
 src/map_management/map_features/map_point2d.cpp |  8 +++++---
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/map_management/map_features/map_point.cpp b/src/map_management/map_features/map_point.cpp
index 336368f..da1ad66 100644
--- a/src/map_management/map_features/map_point.cpp
+++ b/src/map_management/map_features/map_point.cpp
@@ -93,13 +93,14 @@ matchIndexSet MapPoint::find_matches(const DetectedKeypointsObject& detectedFeat
     else
     {
         // No match: try to find match in a window around the point
-        ScreenCoordinate2D projectedMapPoint;
+        ScreenCoordinate projectedMapPoint;
         const bool isScreenCoordinatesValid = _coordinates.to_screen_coordinates(worldToCamera, projectedMapPoint);
-        if (isScreenCoordinatesValid)
+        // a point behind the camera has no match
+        if (isScreenCoordinatesValid and projectedMapPoint.z() > 0)
         {
             // TODO: add multiple match support
             matchIndexRes = detectedFeatures.get_match_indexes(
-                    projectedMapPoint, _descriptor, isDetectedFeatureMatched, searchRadius);
+                    projectedMapPoint.get_2D(), _descriptor, isDetectedFeatureMatched, searchRadius);
         }
     }
 
@@ -126,8 +127,9 @@ bool MapPoint::add_to_tracked(const WorldToCameraMatrix& worldToCamera,
     assert(not _coordinates.hasNaN());
     if (shouldNotDropPoint)
     {
-        ScreenCoordinate2D screenCoordinates;
-        if (_coordinates.to_screen_coordinates(worldToCamera, screenCoordinates))
+        ScreenCoordinate screenCoordinates;
+        // a point behind the camera cannot be tracked
+        if (_coordinates.to_screen_coordinates(worldToCamera, screenCoordinates) and screenCoordinates.z() > 0)
         {
             // use previously known screen coordinates
             trackedFeatures.add(_id, screenCoordinates.x(), screenCoordinates.y());
diff --git a/src/map_management/map_features/map_point2d.cpp b/src/map_management/map_features/map_point2d.cpp
index b6dfa6c..b562912 100644
--- a/src/map_management/map_features/map_point2d.cpp
+++ b/src/map_management/map_features/map_point2d.cpp
@@ -107,12 +107,14 @@ matchIndexSet MapPoint2D::find_matches(const DetectedKeypointsObject& detectedFe
     else
     {
         // No match: try to find match in a window around the point
-        ScreenCoordinate2D screenCoordinates;
-        if (_coordinates.to_world_coordinates().to_screen_coordinates(worldToCamera, screenCoordinates))
+        ScreenCoordinate screenCoordinates;
+        // a point behind the camera has no match
+        if (_coordinates.to_world_coordinates().to_screen_coordinates(worldToCamera, screenCoordinates) and
+            screenCoordinates.z() > 0)
         {
             // TODO use a real match to 2D function, this one will fail for 2D points
             matchIndexRes = detectedFeatures.get_match_indexes(
-                    screenCoordinates, _descriptor, isDetectedFeatureMatched, searchRadius);
+                    screenCoordinates.get_2D(), _descriptor, isDetectedFeatureMatched, searchRadius);
         }
     }
 
-- 
2.43.0


From fa0475c040b52a967b2876fb7f3983291bf50031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:15 +0000
Subject: [PATCH 29/50] fix: count the seed cell of a plane only once

---
 src/features/primitives/primitive_detection.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/features/primitives/primitive_detection.cpp b/src/features/primitives/primitive_detection.cpp
index 9433111..42fda14 100644
--- a/src/features/primitives/primitive_detection.cpp
+++ b/src/features/primitives/primitive_detection.cpp
@@ -321,8 +321,8 @@ void Primitive_Detection::grow_plane_segment_at_seed(const uint seedId,
         return;
     }
 
-    // copy plane segment in new object, to try to grow it in a non destructive way
-    Plane_Segment newPlaneSegment(planeToGrow);
+    // grow in a new object, in a non destructive way: it will contain all activated cells (the seed is one of them)
+    Plane_Segment newPlaneSegment;
 
     // Seed cell growing
     const uint y = seedId / _horizontalCellsCount;
@@ -332,7 +332,7 @@ void Primitive_Detection::grow_plane_segment_at_seed(const uint seedId,
     vectorb isActivatedMap = vectorb::Constant(_totalCellCount, false);
     const size_t activationMapSize = isActivatedMap.size();
     // grow plane region, fill isActivatedMap
-    region_growing(x, y, newPlaneSegment, isActivatedMap);
+    region_growing(x, y, planeToGrow, isActivatedMap);
 
     assert(activationMapSize == static_cast<size_t>(_isUnassignedMask.size()));
     assert(activationMapSize == _planeGrid.size());
-- 
2.43.0


From d3507ce21169588b6ed689925bd7537c54a5edd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:44 +0000
Subject: [PATCH 30/50] fix: a point removed from the histogram of directions
 is in no bin

---
 src/features/primitives/histogram.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/features/primitives/histogram.hpp b/src/features/primitives/histogram.hpp
index 225a3e9..b414a92 100644
--- a/src/features/primitives/histogram.hpp
+++ b/src/features/primitives/histogram.hpp
@@ -107,9 +107,12 @@ template<size_t Size> class Histogram
             outputs::log_error(std::format("Histogram: remove_point called on invalid ID {}", pointId));
             exit(-1);
         }
-        if (_histogram[_bins[pointId]] != 0)
-            _histogram[_bins[pointId]] -= 1;
-        _bins[pointId] = 1;
+        const int bin = _bins[pointId];
+        if (bin < 0)
+            return; // not in the histogram, or already removed
+        if (_histogram[bin] != 0)
+            _histogram[bin] -= 1;
+        _bins[pointId] = -1;
     }
 
     /**
-- 
2.43.0


From 2138df2fa5e41a0508c742f93e90c6244f320679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:15 +0000
Subject: [PATCH 31/50] fix: accumulate the points of a plane segment in double
 precision

---
 src/features/primitives/plane_segment.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/features/primitives/plane_segment.cpp b/src/features/primitives/plane_segment.cpp
index b043f58..6921c1f 100644
--- a/src/features/primitives/plane_segment.cpp
+++ b/src/features/primitives/plane_segment.cpp
@@ -130,13 +130,14 @@ void Plane_Segment::init_plane_segment(const matrixf& depthCloudArray, const uin
     const uint zSize = zMatrix.size();
     for (uint i = 0; i < zSize; ++i)
     {
-        const float z = zMatrix(i);
+        // accumulate in double: the products of floats are less precise than the noise of the points
+        const double z = zMatrix(i);
         if (z > 0)
         {
             ++_pointCount;
 
-            const float x = xMatrix(i);
-            const float y = yMatrix(i);
+            const double x = xMatrix(i);
+            const double y = yMatrix(i);
 
             // set PCA components
             _Sx += x;
-- 
2.43.0


From 67555fa979ad564977636cf22f22cd7fa1877553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:16 +0000
Subject: [PATCH 32/50] fix: merge a plane segment only once

---
 src/features/primitives/primitive_detection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/features/primitives/primitive_detection.cpp b/src/features/primitives/primitive_detection.cpp
index 42fda14..17f32c6 100644
--- a/src/features/primitives/primitive_detection.cpp
+++ b/src/features/primitives/primitive_detection.cpp
@@ -529,6 +529,9 @@ Primitive_Detection::uint_vector Primitive_Detection::merge_planes() noexcept
         {
             if (not isPlanesConnectedMatrix(row, col))
                 continue;
+            // this plane was already merged in another one
+            if (planeMergeLabels[col] != col)
+                continue;
 
             const Plane_Segment& mergePlane = _planeSegments[col];
             if (not mergePlane.is_planar())
-- 
2.43.0


From 75aee2476316423c488369a0f67f4a2b42abbc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:16 +0000
Subject: [PATCH 33/50] fix: planes are also connected through the last row and
 column

---
 src/features/primitives/primitive_detection.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/features/primitives/primitive_detection.cpp b/src/features/primitives/primitive_detection.cpp
index 17f32c6..b4c6c82 100644
--- a/src/features/primitives/primitive_detection.cpp
+++ b/src/features/primitives/primitive_detection.cpp
@@ -747,21 +747,20 @@ Matrixb Primitive_Detection::get_connected_components_matrix(const cv::Mat_<int>
     if (numberOfPlanes == 0)
         return isPlanesConnectedMatrix;
 
-    const int rows2scanCount = segmentMap.rows - 1;
-    const int cols2scanCount = segmentMap.cols - 1;
-    for (int row = 0; row < rows2scanCount; ++row)
+    const int lastRow = segmentMap.rows - 1;
+    const int lastCol = segmentMap.cols - 1;
+    for (int row = 0; row <= lastRow; ++row)
     {
         const int* rowPtr = segmentMap.ptr<int>(row);
-        const int* rowBelowPtr = segmentMap.ptr<int>(row + 1);
-        for (int col = 0; col < cols2scanCount; ++col)
+        for (int col = 0; col <= lastCol; ++col)
         {
             // value of the pixel at this coordinates. Represents a plane segment
             const int planeId = rowPtr[col];
             if (planeId <= 0)
                 continue;
 
-            const int nextPlaneId = rowPtr[col + 1];
-            const int belowPlaneId = rowBelowPtr[col];
+            const int nextPlaneId = (col < lastCol) ? rowPtr[col + 1] : 0;
+            const int belowPlaneId = (row < lastRow) ? segmentMap(row + 1, col) : 0;
             if (nextPlaneId > 0 and planeId != nextPlaneId)
             {
                 isPlanesConnectedMatrix(planeId - 1, nextPlaneId - 1) = true;
-- 
2.43.0


From 48394a0028979634d6902f01272812d1d47727ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:52 +0000
Subject: [PATCH 34/50] fix: the copy of a cylinder segment keeps its segments

---
 src/features/primitives/cylinder_segment.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/features/primitives/cylinder_segment.cpp b/src/features/primitives/cylinder_segment.cpp
index fcc202e..a2c1ed1 100644
--- a/src/features/primitives/cylinder_segment.cpp
+++ b/src/features/primitives/cylinder_segment.cpp
@@ -23,13 +23,16 @@ Cylinder_Segment::Cylinder_Segment(const Cylinder_Segment& seg, const uint subRe
 Cylinder_Segment::Cylinder_Segment(const Cylinder_Segment& seg) :
     _axis(seg._axis),
     _centers(seg._centers),
+    _pointsAxis1(seg._pointsAxis1),
+    _pointsAxis2(seg._pointsAxis2),
+    _normalsAxis1Axis2(seg._normalsAxis1Axis2),
+    _inliers(seg._inliers),
+    _MSE(seg._MSE),
     _radius(seg._radius),
-    _cellActivatedCount(0),
-    _segmentCount(0)
+    _cellActivatedCount(seg._cellActivatedCount),
+    _segmentCount(seg._segmentCount),
+    _local2globalMap(seg._local2globalMap)
 {
-    //_pointsAxis1 = seg.pointsAxis1;
-    //_pointsAxis2 = seg.pointsAxis2;
-    //_normalsAxis1Axis2 = seg._normalsAxis1Axis2;
 }
 
 Cylinder_Segment::Cylinder_Segment(const std::vector<Plane_Segment>& planeGrid,
-- 
2.43.0


From e3898d582213dc76c9cece00cecefc76133a621e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:56 +0000
Subject: [PATCH 35/50] fix: the depth image is unprojected with the depth
 camera to be aligned

---
 src/features/primitives/depth_map_transformation.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/features/primitives/depth_map_transformation.cpp b/src/features/primitives/depth_map_transformation.cpp
index fb3e035..26d2e91 100644
--- a/src/features/primitives/depth_map_transformation.cpp
+++ b/src/features/primitives/depth_map_transformation.cpp
@@ -148,6 +148,9 @@ void Depth_Map_Transformation::init_matrices() noexcept
 {
     const uint horizontalCellsCount = _width / _cellSize;
 
+    const vector2& camera2Center = Parameters::get_camera_2_center();
+    const vector2& camera2Focal = Parameters::get_camera_2_focal();
+
     // Pre-computations for backprojection
     for (uint row = 0; row < _height; ++row)
     {
@@ -156,11 +159,12 @@ void Depth_Map_Transformation::init_matrices() noexcept
 
         for (uint colum = 0; colum < _width; ++colum)
         {
-            const CameraCoordinate2D& cameraProjection = ScreenCoordinate2D(colum, row).to_camera_coordinates();
-
+            // the depth image is seen by the camera 2
             // Not efficient but at this stage doesn t matter
-            _Xpre.at<float>(static_cast<int>(row), static_cast<int>(colum)) = static_cast<float>(cameraProjection.x());
-            _Ypre.at<float>(static_cast<int>(row), static_cast<int>(colum)) = static_cast<float>(cameraProjection.y());
+            _Xpre.at<float>(static_cast<int>(row), static_cast<int>(colum)) =
+                    static_cast<float>((colum - camera2Center.x()) / camera2Focal.x());
+            _Ypre.at<float>(static_cast<int>(row), static_cast<int>(colum)) =
+                    static_cast<float>((row - camera2Center.y()) / camera2Focal.y());
 
             // Pre-computations for maping an image point cloud to a cache-friendly array where cell's local point
             // clouds are contiguous
-- 
2.43.0


From 06d1969b69c0347e36342781e0cf5e40108b1124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:56 +0000
Subject: [PATCH 36/50] fix: a depth pixel is aligned with its closest pixel,
 borders included

---
 .../primitives/depth_map_transformation.cpp         | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/features/primitives/depth_map_transformation.cpp b/src/features/primitives/depth_map_transformation.cpp
index 26d2e91..66b10ed 100644
--- a/src/features/primitives/depth_map_transformation.cpp
+++ b/src/features/primitives/depth_map_transformation.cpp
@@ -55,15 +55,22 @@ bool Depth_Map_Transformation::rectify_depth(const cv::Mat_<float>& depthImage,
                     const vector3 projected =
                             (Parameters::get_camera_2_to_camera_1_transformation() * original.homogeneous()).head<3>();
 
+                    // this point is behind the camera 1: it cannot be seen in its image
+                    if (projected.z() <= 0)
+                    {
+                        continue;
+                    }
+
                     // distord to align with camera1 image
                     ScreenCoordinate2D screenCoordinates;
                     if (CameraCoordinate(projected).to_screen_coordinates(screenCoordinates))
                     {
-                        const uint projCoordColumn = static_cast<uint>(floor(screenCoordinates.x()));
-                        const uint projCoordRow = static_cast<uint>(floor(screenCoordinates.y()));
+                        // closest pixel
+                        const double projCoordColumn = floor(screenCoordinates.x() + 0.5);
+                        const double projCoordRow = floor(screenCoordinates.y() + 0.5);
 
                         // keep projected coordinates that are in rgb image boundaries
-                        if (projCoordColumn > 0 and projCoordRow > 0 and projCoordColumn < _width and
+                        if (projCoordColumn >= 0 and projCoordRow >= 0 and projCoordColumn < _width and
                             projCoordRow < _height)
                         {
                             // set transformed depth image
-- 
2.43.0


From 5d66683c23f2583620c4b27f40aa4a1e66040d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:56 +0000
Subject: [PATCH 37/50] fix: the closest depth is kept when several are aligned
 with a pixel

---
 .../primitives/depth_map_transformation.cpp       | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/features/primitives/depth_map_transformation.cpp b/src/features/primitives/depth_map_transformation.cpp
index 66b10ed..2770acc 100644
--- a/src/features/primitives/depth_map_transformation.cpp
+++ b/src/features/primitives/depth_map_transformation.cpp
@@ -1,6 +1,7 @@
 #include "depth_map_transformation.hpp"
 #include "../../parameters.hpp"
 #include "coordinates/point_coordinates.hpp"
+#include <atomic>
 #include <opencv2/core/eigen.hpp>
 #include <tbb/parallel_for.h>
 
@@ -73,10 +74,16 @@ bool Depth_Map_Transformation::rectify_depth(const cv::Mat_<float>& depthImage,
                         if (projCoordColumn >= 0 and projCoordRow >= 0 and projCoordColumn < _width and
                             projCoordRow < _height)
                         {
-                            // set transformed depth image
-                            rectifiedDepth.at<float>(static_cast<int>(projCoordRow),
-                                                     static_cast<int>(projCoordColumn)) =
-                                    static_cast<float>(projected.z());
+                            // set transformed depth image: the closest point hides the others (the rows are treated in
+                            // parallel, they can be projected to the same pixel)
+                            const float projectedZ = static_cast<float>(projected.z());
+                            std::atomic_ref<float> pixel(rectifiedDepth.at<float>(static_cast<int>(projCoordRow),
+                                                                                  static_cast<int>(projCoordColumn)));
+                            float currentZ = pixel.load();
+                            while ((currentZ <= 0 or projectedZ < currentZ) and
+                                   not pixel.compare_exchange_weak(currentZ, projectedZ))
+                            {
+                            }
                         }
                     }
                     else
-- 
2.43.0


From 1b82dd82c6c358d5e76b0630c4b52f089881ee27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:56 +0000
Subject: [PATCH 38/50] fix: pixels outside of the complete cells are not in
 the organized cloud

---
 .../primitives/depth_map_transformation.cpp     | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/features/primitives/depth_map_transformation.cpp b/src/features/primitives/depth_map_transformation.cpp
index 2770acc..d2f4cad 100644
--- a/src/features/primitives/depth_map_transformation.cpp
+++ b/src/features/primitives/depth_map_transformation.cpp
@@ -121,7 +121,9 @@ bool Depth_Map_Transformation::get_organized_cloud_array(const cv::Mat_<float>&
             {
                 // set convertion matrix
                 const int id = _cellMap.at<int>(static_cast<int>(row), static_cast<int>(column));
-                assert(id >= 0 and id < organizedCloudArray.rows());
+                if (id < 0)
+                    continue; // not in a complete cell
+                assert(id < organizedCloudArray.rows());
 
                 const CameraCoordinate& cameraCoordinates = ScreenCoordinate(column, row, z).to_camera_coordinates();
 
@@ -139,7 +141,9 @@ bool Depth_Map_Transformation::get_organized_cloud_array(const cv::Mat_<float>&
         {
             // set convertion matrix
             const int id = _cellMap(position[0], position[1]);
-            assert(id >= 0 and id < organizedCloudArray.rows());
+            if (id < 0)
+                return; // not in a complete cell
+            assert(id < organizedCloudArray.rows());
 
             const CameraCoordinate& cameraCoordinates =
                     ScreenCoordinate(position[1], position[0], z).to_camera_coordinates();
@@ -161,6 +165,7 @@ bool Depth_Map_Transformation::get_organized_cloud_array(const cv::Mat_<float>&
 void Depth_Map_Transformation::init_matrices() noexcept
 {
     const uint horizontalCellsCount = _width / _cellSize;
+    const uint verticalCellsCount = _height / _cellSize;
 
     const vector2& camera2Center = Parameters::get_camera_2_center();
     const vector2& camera2Focal = Parameters::get_camera_2_focal();
@@ -184,8 +189,12 @@ void Depth_Map_Transformation::init_matrices() noexcept
             // clouds are contiguous
             const uint cellC = static_cast<uint>(floor(colum / _cellSize));
             const uint localC = static_cast<uint>(floor(colum % _cellSize));
-            _cellMap.at<int>(static_cast<int>(row), static_cast<int>(colum)) = static_cast<int>(
-                    floor((cellR * horizontalCellsCount + cellC) * SQR(_cellSize) + localR * _cellSize + localC));
+            // The pixels of the borders that do not fill a complete cell have no place in this array
+            const bool isInCell = cellC < horizontalCellsCount and cellR < verticalCellsCount;
+            _cellMap.at<int>(static_cast<int>(row), static_cast<int>(colum)) =
+                    not isInCell ? -1 :
+                                   static_cast<int>(floor((cellR * horizontalCellsCount + cellC) * SQR(_cellSize) +
+                                                          localR * _cellSize + localC));
         }
     }
 }
-- 
2.43.0


From 6b214e0559e90627251fc6dd4b2a5fac2d564adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:56 +0000
Subject: [PATCH 39/50] fix: the order of the matches does not depend on their
 addresses

---
 src/map_management/feature_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map_management/feature_map.hpp b/src/map_management/feature_map.hpp
index fedfdf4..1c22df7 100644
--- a/src/map_management/feature_map.hpp
+++ b/src/map_management/feature_map.hpp
@@ -322,7 +322,7 @@ class Feature_Map
         }
 
         // merge the two
-        matches.merge(testMatches);
+        matches.splice(matches.end(), testMatches);
     }
 
     /**
-- 
2.43.0


From 1319f12c75bc17467982cc0790f1f24a29325070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:10 +0000
Subject: [PATCH 40/50] fix: the distance of a pixel to a 2D point is
 continuous around its first observation

---
 src/coordinates/inverse_depth_coordinates.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/coordinates/inverse_depth_coordinates.cpp b/src/coordinates/inverse_depth_coordinates.cpp
index 46f771f..a19eb2c 100644
--- a/src/coordinates/inverse_depth_coordinates.cpp
+++ b/src/coordinates/inverse_depth_coordinates.cpp
@@ -5,6 +5,7 @@
 
 #include "distance_utils.hpp"
 #include "parameters.hpp"
+#include <algorithm>
 
 namespace rgbd_slam {
 
@@ -62,7 +63,14 @@ vector2 InverseDepthWorldPoint::compute_signed_screen_distance(const ScreenCoord
     utils::Segment<2> screenLine;
     if (to_screen_coordinates(w2c, inverseDepthCovariance, screenLine))
     {
-        return screenLine.distance(other);
+        // closest point of the segment, and not of its line: the line has no direction if the segment is a point
+        const vector2 segment = screenLine.get_end_point() - screenLine.get_start_point();
+        const double squaredLength = segment.squaredNorm();
+        if (squaredLength <= 0)
+            return other - screenLine.get_start_point();
+        const double position =
+                std::clamp((other - screenLine.get_start_point()).dot(segment) / squaredLength, 0.0, 1.0);
+        return other - (screenLine.get_start_point() + position * segment);
     }
     return vector2::Constant(std::numeric_limits<double>::max());
 }
-- 
2.43.0


From f34c8c5d380599e3f1d6c8b63e7019f633c4ef8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:48 +0000
Subject: [PATCH 41/50] fix: the covariance of a plane in world space does not
 depend on its distance to the origin

---
 src/utils/covariances.cpp | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/utils/covariances.cpp b/src/utils/covariances.cpp
index 245493f..357c06f 100644
--- a/src/utils/covariances.cpp
+++ b/src/utils/covariances.cpp
@@ -193,7 +193,7 @@ matrix33 compute_reduced_plane_point_cloud_covariance(const PlaneCoordinates& pl
 }
 
 matrix44 get_world_plane_covariance(const PlaneCameraCoordinates& planeCoordinates,
-                                    const CameraToWorldMatrix& cameraToWorldMatrix,
+                                    [[maybe_unused]] const CameraToWorldMatrix& cameraToWorldMatrix,
                                     const PlaneCameraToWorldMatrix& planeCameraToWorldMatrix,
                                     const matrix44& planeCovariance,
                                     const matrix33& worldPoseCovariance)
@@ -203,25 +203,21 @@ matrix44 get_world_plane_covariance(const PlaneCameraCoordinates& planeCoordinat
         throw std::invalid_argument("get_world_plane_covariance: planeCovariance is an invalid covariance matrix");
     }
 
-    // transform to point form
-    const matrix33& pointCloudCovariance =
-            compute_reduced_plane_point_cloud_covariance(planeCoordinates, planeCovariance);
-
-    // covert covariance to world
-    const matrix33& rotation = cameraToWorldMatrix.rotation();
-    const matrix33& pointCloudWorlCovariance =
-            propagate_covariance(pointCloudCovariance, rotation) + worldPoseCovariance;
+    // the transformation of the parameters of a plane is linear
+    const matrix44& jacobian = planeCameraToWorldMatrix;
+    matrix44 worldCovariance = propagate_covariance(planeCovariance, jacobian);
+    // the position of the camera only changes the distance of the plane to the origin, along its normal
+    const vector3& worldNormal = planeCoordinates.to_world_coordinates(planeCameraToWorldMatrix).get_normal();
+    worldCovariance(3, 3) += worldNormal.dot(worldPoseCovariance * worldNormal);
 
     std::string failureReason;
-    if (not is_covariance_valid(pointCloudWorlCovariance, failureReason))
+    if (not is_covariance_valid(worldCovariance, failureReason))
     {
         throw std::logic_error(
-                "get_world_plane_covariance: pointCloudWorlCovariance is an invalid covariance matrix after process: " +
+                "get_world_plane_covariance: worldCovariance is an invalid covariance matrix after process: " +
                 failureReason);
     }
-    // convert back to plane hessian form
-    return compute_plane_covariance(planeCoordinates.to_world_coordinates(planeCameraToWorldMatrix),
-                                    pointCloudWorlCovariance);
+    return worldCovariance;
 }
 
 } // namespace rgbd_slam::utils
\ No newline at end of file
-- 
2.43.0


From 027e701763e615055ac9b98a3f1223fee337e1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:18 +0000
Subject: [PATCH 42/50] fix: the interval of depths of a 2D match is computed
 from its standard deviation

---
 src/map_management/map_features/map_point2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map_management/map_features/map_point2d.cpp b/src/map_management/map_features/map_point2d.cpp
index b562912..4410d2f 100644
--- a/src/map_management/map_features/map_point2d.cpp
+++ b/src/map_management/map_features/map_point2d.cpp
@@ -40,7 +40,7 @@ bool Point2dOptimizationFeature::is_inlier(const WorldToCameraMatrix& worldToCam
 vectorxd Point2dOptimizationFeature::get_distance(const WorldToCameraMatrix& worldToCamera) const noexcept
 {
     const vector2& distance = _mapPoint.compute_signed_screen_distance(
-            _matchedPoint, _mapPointStandardDev(InverseDepthWorldPoint::inverseDepthIndex), worldToCamera);
+            _matchedPoint, SQR(_mapPointStandardDev(InverseDepthWorldPoint::inverseDepthIndex)), worldToCamera);
     return distance;
 }
 
-- 
2.43.0


From f9b0220106b43bee1062cfcbc6fb62d58e9a7aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:53 +0000
Subject: [PATCH 43/50] fix: the default parameters are valid parameters

---
 src/parameters.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parameters.cpp b/src/parameters.cpp
index e8c1c7d..0458609 100644
--- a/src/parameters.cpp
+++ b/src/parameters.cpp
@@ -14,7 +14,6 @@ bool Parameters::parse_file(const std::string& fileName) noexcept
     {
         outputs::log_error("Cannot load parameter files, starting with default configuration");
         load_defaut();
-        check_parameters_validity();
         return false;
     }
 
@@ -71,6 +70,8 @@ void Parameters::load_defaut() noexcept
 
     // Camera 2 position & rotation
     _camera2toCamera1transformation = utils::get_transformation_matrix(quaternion::Identity(), vector3::Zero());
+
+    check_parameters_validity();
 }
 
 void Parameters::check_parameters_validity() noexcept
-- 
2.43.0


From bdb8f793f5f5b67744ee1dedcd4935d3612212f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:53 +0000
Subject: [PATCH 44/50] fix: refuse a configuration with a negative image size

---
 src/parameters.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parameters.cpp b/src/parameters.cpp
index 0458609..3aec32f 100644
--- a/src/parameters.cpp
+++ b/src/parameters.cpp
@@ -3,6 +3,7 @@
 #include "camera_transformation.hpp"
 #include "outputs/logger.hpp"
 #include "types.hpp"
+#include <algorithm>
 #include <opencv2/core/core.hpp>
 
 namespace rgbd_slam {
@@ -18,16 +19,16 @@ bool Parameters::parse_file(const std::string& fileName) noexcept
     }
 
     // Load camera 1 parameters
-    _camera1ImageSize.x() = int(configFile["camera_1_size_x"]);
-    _camera1ImageSize.y() = int(configFile["camera_1_size_y"]);
+    _camera1ImageSize.x() = std::max(0, int(configFile["camera_1_size_x"]));
+    _camera1ImageSize.y() = std::max(0, int(configFile["camera_1_size_y"]));
     _camera1Focal.x() = configFile["camera_1_focal_x"];
     _camera1Focal.y() = configFile["camera_1_focal_y"];
     _camera1Center.x() = configFile["camera_1_center_x"];
     _camera1Center.y() = configFile["camera_1_center_y"];
 
     // Load camera 2 parameters
-    _camera2ImageSize.x() = int(configFile["camera_2_size_x"]);
-    _camera2ImageSize.y() = int(configFile["camera_2_size_y"]);
+    _camera2ImageSize.x() = std::max(0, int(configFile["camera_2_size_x"]));
+    _camera2ImageSize.y() = std::max(0, int(configFile["camera_2_size_y"]));
     _camera2Focal.x() = configFile["camera_2_focal_x"];
     _camera2Focal.y() = configFile["camera_2_focal_y"];
     _camera2Center.x() = configFile["camera_2_center_x"];
-- 
2.43.0


From fb5b3f7a665115a63947844bd1a0770fb359033a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:53 +0000
Subject: [PATCH 45/50] fix: refuse a configuration without focal lengths

---
 src/parameters.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/parameters.cpp b/src/parameters.cpp
index 3aec32f..9f6aadc 100644
--- a/src/parameters.cpp
+++ b/src/parameters.cpp
@@ -88,6 +88,16 @@ void Parameters::check_parameters_validity() noexcept
         outputs::log_error("Camera 1 size Y must be > 0");
         _isValid = false;
     }
+    if (not(_camera1Focal.x() > 0))
+    {
+        outputs::log_error("Camera 1 focal X must be > 0");
+        _isValid = false;
+    }
+    if (not(_camera1Focal.y() > 0))
+    {
+        outputs::log_error("Camera 1 focal Y must be > 0");
+        _isValid = false;
+    }
     if (_camera1Center.x() < 0)
     {
         outputs::log_error("Camera 1 center X distance must be >= 0");
@@ -109,6 +119,16 @@ void Parameters::check_parameters_validity() noexcept
         outputs::log_error("Camera 2 size Y must be > 0");
         _isValid = false;
     }
+    if (not(_camera2Focal.x() > 0))
+    {
+        outputs::log_error("Camera 2 focal X must be > 0");
+        _isValid = false;
+    }
+    if (not(_camera2Focal.y() > 0))
+    {
+        outputs::log_error("Camera 2 focal Y must be > 0");
+        _isValid = false;
+    }
     if (_camera2Center.x() < 0)
     {
         outputs::log_error("Camera 2 center X distance must be >= 0");
-- 
2.43.0


From 729ac3c62c49c7319c0e1fc335e36f2b8d25819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:53 +0000
Subject: [PATCH 46/50] fix: the camera matrices are those of the current
 parameters

---
 src/parameters.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parameters.hpp b/src/parameters.hpp
index a7df092..d2bc4f4 100644
--- a/src/parameters.hpp
+++ b/src/parameters.hpp
@@ -143,7 +143,7 @@ class Parameters
      */
     [[nodiscard]] static matrix33 get_camera_1_intrinsics()
     {
-        const static matrix33 cameraMatrix(
+        const matrix33 cameraMatrix(
                 {{_camera1Focal.x(), 0, _camera1Center.x()}, {0, _camera1Focal.y(), _camera1Center.y()}, {0, 0, 1}});
         return cameraMatrix;
     };
@@ -158,7 +158,7 @@ class Parameters
      */
     [[nodiscard]] static matrix33 get_camera_2_intrinsics()
     {
-        const static matrix33 cameraMatrix(
+        const matrix33 cameraMatrix(
                 {{_camera2Focal.x(), 0, _camera2Center.x()}, {0, _camera2Focal.y(), _camera2Center.y()}, {0, 0, 1}});
         return cameraMatrix;
     };
-- 
2.43.0


From 3fb5a8e0e657311169de18bd1ba9ef9080e31956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:09 +0000
Subject: [PATCH 47/50] fix: a malformed configuration file gives the default
 parameters

---
 src/parameters.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parameters.cpp b/src/parameters.cpp
index 9f6aadc..d717d44 100644
--- a/src/parameters.cpp
+++ b/src/parameters.cpp
@@ -10,7 +10,16 @@ namespace rgbd_slam {
 
 bool Parameters::parse_file(const std::string& fileName) noexcept
 {
-    cv::FileStorage configFile(fileName, cv::FileStorage::READ);
+    cv::FileStorage configFile;
+    try
+    {
+        configFile.open(fileName, cv::FileStorage::READ);
+    }
+    catch (const cv::Exception& ex)
+    {
+        outputs::log_error("Cannot parse parameter file: " + std::string(ex.what()));
+        configFile.release();
+    }
     if (not configFile.isOpened())
     {
         outputs::log_error("Cannot load parameter files, starting with default configuration");
-- 
2.43.0


From 5f046bd89727874bcd8e7a483f0f4682f8068c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:16 +0000
Subject: [PATCH 48/50] fix: the rotation offsets of the camera turn it around
 the axis of their name

---
 src/parameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameters.cpp b/src/parameters.cpp
index d717d44..40ffa2c 100644
--- a/src/parameters.cpp
+++ b/src/parameters.cpp
@@ -53,7 +53,7 @@ bool Parameters::parse_file(const std::string& fileName) noexcept
     const float camera2RotationY = configFile["camera_2_rotation_offset_y"];
     const float camera2RotationZ = configFile["camera_2_rotation_offset_z"];
     const quaternion& cam2tocam1Rotation =
-            utils::get_quaternion_from_euler_angles(EulerAngles(camera2RotationX, camera2RotationY, camera2RotationZ));
+            utils::get_quaternion_from_euler_angles(EulerAngles(camera2RotationZ, camera2RotationY, camera2RotationX));
 
     _camera2toCamera1transformation = utils::get_transformation_matrix(cam2tocam1Rotation, cam2tocam1Translation);
 
-- 
2.43.0


From 784e540a4cfe1adafcee969adb6a8ab3cbb9c612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:43 +0000
Subject: [PATCH 49/50] fix: the intersection of two segments in space is their
 common point

---
 src/utils/line.cpp | 50 ++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/utils/line.cpp b/src/utils/line.cpp
index dd046f4..688d785 100644
--- a/src/utils/line.cpp
+++ b/src/utils/line.cpp
@@ -5,9 +5,9 @@
 
 #include <boost/geometry/geometries/infinite_line.hpp>
 #include <boost/geometry/geometries/linestring.hpp>
-#include <boost/geometry/geometries/point_xyz.hpp>
 #include <boost/geometry/geometries/segment.hpp>
 #include <boost/geometry/algorithms/intersection.hpp>
+#include <algorithm>
 #include <format>
 
 namespace rgbd_slam::utils {
@@ -108,27 +108,33 @@ bool intersects(const Segment<2>& firstLine, const Segment<2>& secondLine, Eigen
 
 bool intersects(const Segment<3>& firstLine, const Segment<3>& secondLine, Eigen::Vector<double, 3>& point) noexcept
 {
-    typedef boost::geometry::model::d3::point_xyz<double> point_t;
-    typedef boost::geometry::model::linestring<point_t> line_t;
-
-    line_t seg1(
-            {point_t(firstLine.get_start_point().x(), firstLine.get_start_point().y(), firstLine.get_start_point().z()),
-             point_t(firstLine.get_end_point().x(), firstLine.get_end_point().y(), firstLine.get_end_point().z())});
-    line_t seg2(
-            {point_t(secondLine.get_start_point().x(),
-                     secondLine.get_start_point().y(),
-                     secondLine.get_start_point().z()),
-             point_t(secondLine.get_end_point().x(), secondLine.get_end_point().y(), secondLine.get_end_point().z())});
-
-    std::vector<point_t> output;
-    if (boost::geometry::intersection(seg1, seg2, output) and not output.empty())
-    {
-        point.x() = output[0].x();
-        point.y() = output[0].y();
-        point.z() = output[0].z();
-        return true;
-    }
-    return false;
+    // boost geometry only intersects the first two dimensions, so use the closest points of both segments
+    const vector3 first = firstLine.get_end_point() - firstLine.get_start_point();
+    const vector3 second = secondLine.get_end_point() - secondLine.get_start_point();
+    const vector3 offset = firstLine.get_start_point() - secondLine.get_start_point();
+    const double firstSquaredLength = first.squaredNorm();
+    const double secondSquaredLength = second.squaredNorm();
+    const double dot = first.dot(second);
+    const double divider = first.cross(second).squaredNorm();
+
+    // position on the first segment of the point that is the closest to the second line (any if they are parallel)
+    double firstPosition = 0.0;
+    if (divider > 1e-12 * firstSquaredLength * secondSquaredLength)
+        firstPosition = std::clamp(
+                (dot * second.dot(offset) - secondSquaredLength * first.dot(offset)) / divider, 0.0, 1.0);
+    double secondPosition = 0.0;
+    if (secondSquaredLength > 0)
+        secondPosition = std::clamp((second.dot(offset) + firstPosition * dot) / secondSquaredLength, 0.0, 1.0);
+    if (firstSquaredLength > 0)
+        firstPosition = std::clamp((secondPosition * dot - first.dot(offset)) / firstSquaredLength, 0.0, 1.0);
+
+    const vector3 firstPoint = firstLine.get_start_point() + firstPosition * first;
+    const vector3 secondPoint = secondLine.get_start_point() + secondPosition * second;
+    if ((firstPoint - secondPoint).norm() > 1e-9 * std::max(1.0, firstPoint.norm()))
+        return false;
+
+    point = firstPoint;
+    return true;
 }
 
 // instanciation to check compile failures
-- 
2.43.0


From cfe349e75c3cad5747f48a31e5509e5f930a6f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:34 +0000
Subject: [PATCH 50/50] fix: moving features are not written in the map when
 the tracking is lost or at the end

They were only left out when they were lost while the tracking worked.
---
 src/map_management/feature_map.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/map_management/feature_map.hpp b/src/map_management/feature_map.hpp
index 1c22df7..b810b64 100644
--- a/src/map_management/feature_map.hpp
+++ b/src/map_management/feature_map.hpp
@@ -293,7 +293,9 @@ class Feature_Map
         // write map features to file
         for (const auto& mapFeatureIterator: _localMap)
         {
-            mapFeatureIterator.second.write_to_file(mapWriter);
+            // moving features are not part of the map
+            if (not mapFeatureIterator.second.is_moving())
+                mapFeatureIterator.second.write_to_file(mapWriter);
         }
     }
 
@@ -847,8 +849,11 @@ class Feature_Map
             mapFeature.update_unmatched();
             if (mapFeature.is_lost())
             {
-                // write to file
-                mapFeature.write_to_file(mapWriter);
+                if (not mapFeature.is_moving())
+                {
+                    // write to file
+                    mapFeature.write_to_file(mapWriter);
+                }
 
                 // Remove useless feature
                 featureMapIterator = _localMap.erase(featureMapIterator);
-- 
2.43.0

