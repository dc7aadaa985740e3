From 0e936b7b90f994cb80cfae6b3e75e32e60f84b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:57 +0000
Subject: [PATCH 01/54] fix: mark functions defined in headers inline so
 several translation units can link

---
 cmmcore/kdtree.h          |  2 +-
 cmmcore/memoryview.h      |  2 +-
 cmmcore/point_inversion.h |  6 +++---
 cmmcore/polyline.h        |  8 ++++----
 cmmcore/serialization.h   | 34 +++++++++++++++++-----------------
 cmmcore/vec.h             |  8 ++++----
 6 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/cmmcore/kdtree.h b/cmmcore/kdtree.h
index 7c43e17..acfc795 100644
--- a/cmmcore/kdtree.h
+++ b/cmmcore/kdtree.h
@@ -210,7 +210,7 @@ public:
 };
 
 // Utility function to print a PT
-void printPoint(const vec3& p) {
+inline void printPoint(const vec3& p) {
     std::cout << "(" << p.x << ", " << p.y << ", " << p.z << ")";
 }
     typedef KDTree<vec3,PointComparator3D> KDTree3D;
diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 54dd5ed..9b0a6e9 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -54,7 +54,7 @@ namespace cmmcore
     };
 
     // Helper function to compute the total number of elements from shape
-    size_t compute_total_size(const std::vector<size_t>& shape)
+    inline size_t compute_total_size(const std::vector<size_t>& shape)
     {
         if (shape.empty()) return 0;
         return std::accumulate(shape.begin(), shape.end(), static_cast<size_t>(1), std::multiplies<size_t>());
diff --git a/cmmcore/point_inversion.h b/cmmcore/point_inversion.h
index f3b60fc..87e624d 100644
--- a/cmmcore/point_inversion.h
+++ b/cmmcore/point_inversion.h
@@ -15,7 +15,7 @@ namespace cmmcore {
  * @param result solution vector
  * @return true if system was solved successfully
  */
-bool solve2x2(const std::array<std::array<double, 2>, 2>& matrix, 
+inline bool solve2x2(const std::array<std::array<double, 2>, 2>& matrix, 
              const std::array<double, 2>& y,
              std::array<double, 2>& result) noexcept {
     double det = matrix[0][0] * matrix[1][1] - matrix[0][1] * matrix[1][0];
@@ -39,7 +39,7 @@ bool solve2x2(const std::array<std::array<double, 2>, 2>& matrix,
  * @param max_iter Maximum number of Newton iterations
  * @return Parameter value that gives closest point on curve
  */
-double point_inversion_curve(const NURBSCurve& curve, const vec3& P, 
+inline double point_inversion_curve(const NURBSCurve& curve, const vec3& P, 
                            double u0, double tol1, double tol2, 
                            int max_iter = 100) {
     // Temporary storage for evaluated points/derivatives 
@@ -108,7 +108,7 @@ double point_inversion_curve(const NURBSCurve& curve, const vec3& P,
  * @param max_iter Maximum number of Newton iterations
  * @return Pair of (u,v) parameters that give closest point on surface
  */
-std::array<double,2> point_inversion_surface(const NURBSSurface& surface, const vec3& P,
+inline std::array<double,2> point_inversion_surface(const NURBSSurface& surface, const vec3& P,
                                            double u0, double v0, 
                                            double tol1, double tol2,
                                            int max_iter = 100) {
diff --git a/cmmcore/polyline.h b/cmmcore/polyline.h
index 6c82be3..50cd025 100644
--- a/cmmcore/polyline.h
+++ b/cmmcore/polyline.h
@@ -85,13 +85,13 @@ struct Endpoint {
 using SpatialIndex = std::unordered_map<PointKey, std::vector<Endpoint*>, PointKeyHash>;
 
 // Function to add an endpoint to the spatial index
-void add_to_index(SpatialIndex& index, Endpoint* endpoint) {
+inline void add_to_index(SpatialIndex& index, Endpoint* endpoint) {
     PointKey key(endpoint->point);
     index[key].push_back(endpoint);
 }
 
 // Function to remove an endpoint from the spatial index
-void remove_from_index(SpatialIndex& index, Endpoint* endpoint) {
+inline void remove_from_index(SpatialIndex& index, Endpoint* endpoint) {
     PointKey key={endpoint->point.x, endpoint->point.y, endpoint->point.z};
     auto& vec = index[key];
     vec.erase(std::remove(vec.begin(), vec.end(), endpoint), vec.end());
@@ -101,7 +101,7 @@ void remove_from_index(SpatialIndex& index, Endpoint* endpoint) {
 }
 
 // Function to find endpoints near a given point
-std::vector<Endpoint*> find_nearby_endpoints(const SpatialIndex& index, const vec3& point) {
+inline std::vector<Endpoint*> find_nearby_endpoints(const SpatialIndex& index, const vec3& point) {
     std::vector<Endpoint*> result;
     PointKey key(point);
     // Check neighboring keys (27 cells in total)
@@ -120,7 +120,7 @@ std::vector<Endpoint*> find_nearby_endpoints(const SpatialIndex& index, const ve
 }
 
 // Main function to assemble polylines from segments
- std::vector<std::list<vec3>>& assemble_polylines(std::vector<Segment>& segments,std::vector<std::list<vec3>>& branches) {
+ inline std::vector<std::list<vec3>>& assemble_polylines(std::vector<Segment>& segments,std::vector<std::list<vec3>>& branches) {
     // Create spatial index and endpoint list
     SpatialIndex index;
     std::vector<Endpoint> endpoints;
diff --git a/cmmcore/serialization.h b/cmmcore/serialization.h
index 32c087e..7fb746e 100644
--- a/cmmcore/serialization.h
+++ b/cmmcore/serialization.h
@@ -22,13 +22,13 @@
 
 namespace cmmcore {
     // Serialize an integer
-    void serializeInt(std::vector<uint8_t> &buffer, int value) {
+    inline void serializeInt(std::vector<uint8_t> &buffer, int value) {
         uint8_t *data = reinterpret_cast<uint8_t *>(&value);
         buffer.insert(buffer.end(), data, data + sizeof(int));
     }
 
     // Deserialize an integer
-    int deserializeInt(const uint8_t *&data) {
+    inline int deserializeInt(const uint8_t *&data) {
         int value;
         std::memcpy(&value, data, sizeof(int));
         data += sizeof(int);
@@ -36,13 +36,13 @@ namespace cmmcore {
     }
 
     // Serialize a double
-    void serializeDouble(std::vector<uint8_t> &buffer, double value) {
+    inline void serializeDouble(std::vector<uint8_t> &buffer, double value) {
         uint8_t *data = reinterpret_cast<uint8_t *>(&value);
         buffer.insert(buffer.end(), data, data + sizeof(double));
     }
 
     // Deserialize a double
-    double deserializeDouble(const uint8_t *&data) {
+    inline double deserializeDouble(const uint8_t *&data) {
         double value;
         std::memcpy(&value, data, sizeof(double));
         data += sizeof(double);
@@ -50,19 +50,19 @@ namespace cmmcore {
     }
 
     // Serialize a bool
-    void serializeBool(std::vector<uint8_t> &buffer, bool value) {
+    inline void serializeBool(std::vector<uint8_t> &buffer, bool value) {
         buffer.push_back(static_cast<uint8_t>(value));
     }
 
     // Deserialize a bool
-    bool deserializeBool(const uint8_t *&data) {
+    inline bool deserializeBool(const uint8_t *&data) {
         bool value = static_cast<bool>(*data);
         data += sizeof(uint8_t);
         return value;
     }
 
     // Serialize a vector of doubles
-    void serializeVectorDouble(std::vector<uint8_t> &buffer, const std::vector<double> &vec) {
+    inline void serializeVectorDouble(std::vector<uint8_t> &buffer, const std::vector<double> &vec) {
         serializeInt(buffer, vec.size());
         for (double d: vec) {
             serializeDouble(buffer, d);
@@ -70,7 +70,7 @@ namespace cmmcore {
     }
 
     // Deserialize a vector of doubles
-    std::vector<double> deserializeVectorDouble(const uint8_t *&data) {
+    inline std::vector<double> deserializeVectorDouble(const uint8_t *&data) {
         int size = deserializeInt(data);
         std::vector<double> vec(size);
         for (int i = 0; i < size; ++i) {
@@ -80,14 +80,14 @@ namespace cmmcore {
     }
 
     // Serialize a vec4
-    void serializeVec4(std::vector<uint8_t> &buffer, const vec4 &v) {
+    inline void serializeVec4(std::vector<uint8_t> &buffer, const vec4 &v) {
         for (int i = 0; i < 4; ++i) {
             serializeDouble(buffer, v[i]);
         }
     }
 
     // Deserialize a vec4
-    vec4 deserializeVec4(const uint8_t *&data) {
+    inline vec4 deserializeVec4(const uint8_t *&data) {
         vec4 v;
         for (int i = 0; i < 4; ++i) {
             v[i] = deserializeDouble(data);
@@ -96,7 +96,7 @@ namespace cmmcore {
     }
 
     // Serialize a vector of vec4
-    void serializeVectorVec4(std::vector<uint8_t> &buffer, const std::vector<vec4> &vec) {
+    inline void serializeVectorVec4(std::vector<uint8_t> &buffer, const std::vector<vec4> &vec) {
         serializeInt(buffer, vec.size());
         for (const vec4 &v: vec) {
             serializeVec4(buffer, v);
@@ -104,7 +104,7 @@ namespace cmmcore {
     }
 
     // Deserialize a vector of vec4
-    std::vector<vec4> deserializeVectorVec4(const uint8_t *&data) {
+    inline std::vector<vec4> deserializeVectorVec4(const uint8_t *&data) {
         int size = deserializeInt(data);
         std::vector<vec4> vec(size);
         for (int i = 0; i < size; ++i) {
@@ -114,7 +114,7 @@ namespace cmmcore {
     }
 
     // Serialize a NURBSCurve object
-    std::vector<uint8_t> serializeNURBSCurve(NURBSCurve &curve) {
+    inline std::vector<uint8_t> serializeNURBSCurve(NURBSCurve &curve) {
         std::vector<uint8_t> buffer;
         serializeInt(buffer, curve.get_degree());
         serializeBool(buffer, curve.is_periodic());
@@ -124,7 +124,7 @@ namespace cmmcore {
     }
 
     // Deserialize a NURBSCurve object
-    NURBSCurve deserializeNURBSCurve(const uint8_t *&data) {
+    inline NURBSCurve deserializeNURBSCurve(const uint8_t *&data) {
         int degree = deserializeInt(data);
         bool periodic = deserializeBool(data);
         std::vector<vec4> control_points = deserializeVectorVec4(data);
@@ -133,7 +133,7 @@ namespace cmmcore {
     }
 
     // Serialize a vector of NURBSCurve objects
-    std::vector<uint8_t> serializeNURBSCurves(std::vector<NURBSCurve> &curves) {
+    inline std::vector<uint8_t> serializeNURBSCurves(std::vector<NURBSCurve> &curves) {
         std::vector<uint8_t> buffer;
         serializeInt(buffer, curves.size());
         for (NURBSCurve &curve: curves) {
@@ -144,7 +144,7 @@ namespace cmmcore {
     }
 
     // Deserialize a vector of NURBSCurve objects
-    std::vector<NURBSCurve> deserializeNURBSCurves(const std::vector<uint8_t> &data) {
+    inline std::vector<NURBSCurve> deserializeNURBSCurves(const std::vector<uint8_t> &data) {
         const uint8_t *data_ptr = data.data();
         int size = deserializeInt(data_ptr);
         std::vector<NURBSCurve> curves(size);
@@ -155,7 +155,7 @@ namespace cmmcore {
     }
 
     // Write a vector of NURBSCurve objects to a file
-    bool writeNURBSCurvesToFile(const std::string &filename, std::vector<NURBSCurve> &curves) {
+    inline bool writeNURBSCurvesToFile(const std::string &filename, std::vector<NURBSCurve> &curves) {
         std::vector<uint8_t> data = serializeNURBSCurves(curves);
         std::ofstream file(filename, std::ios::binary);
         if (!file) {
diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index f00c74c..c2ee716 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -605,7 +605,7 @@ inline void dot_product(const vec3& v, const Vectors3& vecs, double* result) {
 }
 #endif
 #define sqr(x) ((x)*(x))
-double mag2(const vec3 &a)
+inline double mag2(const vec3 &a)
 {
   double l=std::sqrt(a[0]);
   for(unsigned int i=1; i<3; ++i) l+=sqr(a[i]);
@@ -988,17 +988,17 @@ struct vec4 {
 
 
 
-  std::ostream& operator<<(std::ostream& os, const vec2& obj) {
+  inline std::ostream& operator<<(std::ostream& os, const vec2& obj) {
     os << "[" << obj.x << "," << obj.y << "]";
     return os;
   }
-  std::ostream& operator<<(std::ostream& os, const vec3& obj) {
+  inline std::ostream& operator<<(std::ostream& os, const vec3& obj) {
     os << "[" << obj.x << "," << obj.y  << obj.z <<"]";
     return os;
   }
 
 
-  std::ostream& operator<<(std::ostream& os, const vec4& obj) {
+  inline std::ostream& operator<<(std::ostream& os, const vec4& obj) {
     os << "[" << obj.x << "," << obj.y  << obj.z << obj.w << "]";
     return os;
   }
-- 
2.43.0


From 4f1e6cdaafcbab2aaff67b2f11346810f7ede783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:22 +0000
Subject: [PATCH 02/54] fix: mark the recursive BVH traversal inline so several
 translation units can link

---
 cmmcore/bvh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/bvh.hpp b/cmmcore/bvh.hpp
index 6380fe4..8d773ed 100644
--- a/cmmcore/bvh.hpp
+++ b/cmmcore/bvh.hpp
@@ -482,7 +482,7 @@ void inline intersect_bvh(
  * @param results A vector to store the resulting objects that intersect with
  * the target bounding box.
  */
-void traverse_bvh(const BVHNode *node, const AABB &target_bbox,
+inline void traverse_bvh(const BVHNode *node, const AABB &target_bbox,
                   std::vector<const Object3D *> &results) {
   if (!node || !node->bounding_box.intersects(target_bbox)) {
     return;
-- 
2.43.0


From db842de4676483bf9c9810e1676b9302fe1fcb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:28 +0000
Subject: [PATCH 03/54] fix: count visited surface pairs per thread instead of
 in a shared non-atomic static

---
 cmmcore/ssx.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/ssx.h b/cmmcore/ssx.h
index f92bcfc..469f9e6 100644
--- a/cmmcore/ssx.h
+++ b/cmmcore/ssx.h
@@ -82,7 +82,7 @@ namespace cmmcore
         uv_new.set(point_inversion_surface(surf, xyz_new, uv_old.x, uv_old.y, tol, tol, max_iter));
     }
 
-    static int counter = 0;
+    inline thread_local int counter = 0; // number of surface pairs visited, per thread
     using UnorderedSetPairDouble = std::unordered_set<
         std::pair<double, double>, _hashimpl::PairDoubleHash, _hashimpl::PairDoubleEqual>;
 
-- 
2.43.0


From 9c6f0a8864acb321fa0b51dfb9bc7635a24b56a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 04/54] fix: keep the periodic flag when a curve is
 move-constructed

---
 cmmcore/nurbs.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 341a108..c88644d 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -141,6 +141,7 @@ namespace cmmcore {
                 _degree = other._degree;
                 knots = other.knots;
                 _aabb = other._aabb;
+                _periodic = other._periodic;
                 _interval = other._interval;
                 _hull = other._hull;
             }
-- 
2.43.0


From b373ca85da5a124fc7344ecb3e648e1ed1a5a0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 05/54] fix: copy the basis matrices when a monomial surface is
 assigned

---
 cmmcore/monomial.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmmcore/monomial.h b/cmmcore/monomial.h
index 8f2fe7c..6c35113 100644
--- a/cmmcore/monomial.h
+++ b/cmmcore/monomial.h
@@ -252,6 +252,8 @@ namespace cmmcore
             if (this == &other) return *this; // Handle self-assignment
             n = other.n, m = other.m;
             coefficients = other.coefficients;
+            Mu = other.Mu, Mv = other.Mv;
+            Mu_inv = other.Mu_inv, Mv_inv = other.Mv_inv;
             return *this;
         }
     };
-- 
2.43.0


From c7fa1e69e899378fb32f66b1ed105a20da141d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 06/54] fix: copied BVH nodes refer to the same objects as
 their source

---
 cmmcore/bvh.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/bvh.hpp b/cmmcore/bvh.hpp
index 8d773ed..f46cecf 100644
--- a/cmmcore/bvh.hpp
+++ b/cmmcore/bvh.hpp
@@ -124,7 +124,7 @@ public:
   BVHNode() : left(nullptr), right(nullptr), object(nullptr) {
 
   }
-  BVHNode(const BVHNode& other) : bounding_box(other.bounding_box), object(nullptr) {
+  BVHNode(const BVHNode& other) : bounding_box(other.bounding_box), object(other.object) {
     if (other.left) {
       left = std::make_unique<BVHNode>(*other.left);  // Recursively copy left subtree
     }
@@ -143,7 +143,7 @@ public:
 
     bounding_box = other.bounding_box;
 
-    object=other.object? object : nullptr;
+    object = other.object;
 
     if (other.left) {
       left = std::make_unique<BVHNode>(*other.left);  // Recursively copy left subtree
-- 
2.43.0


From c93b350d9aa5accaf6624a3bc8e3662f1f695665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 07/54] fix: setting the right child of a BVH node no longer
 replaces the left one

---
 cmmcore/bvh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/bvh.hpp b/cmmcore/bvh.hpp
index f46cecf..54da4ed 100644
--- a/cmmcore/bvh.hpp
+++ b/cmmcore/bvh.hpp
@@ -136,7 +136,7 @@ public:
   explicit BVHNode(const AABB &bb, Object3D *obj = nullptr)
       : bounding_box(bb), object(obj) {}
   void setLeft(std::unique_ptr<BVHNode> &node) { left.swap(node); }
-  void setRight(std::unique_ptr<BVHNode> &node) { left.swap(node); }
+  void setRight(std::unique_ptr<BVHNode> &node) { right.swap(node); }
   // Custom copy assignment operator for deep copy
   BVHNode& operator=(const BVHNode& other) {
     if (this == &other) return *this; // Handle self-assignment
-- 
2.43.0


From 76bd2c45d07109fcbb4e54d59a5581647762874e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:54 +0000
Subject: [PATCH 08/54] fix: keep a curve's bounding box in step with its
 control points

---
 cmmcore/boundary_intersection.h | 2 ++
 cmmcore/nurbs.h                 | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/cmmcore/boundary_intersection.h b/cmmcore/boundary_intersection.h
index c2ae11a..0e2596f 100644
--- a/cmmcore/boundary_intersection.h
+++ b/cmmcore/boundary_intersection.h
@@ -63,6 +63,7 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
             crv.control_points[i].set(point);
         }
         crv.update_interval();
+        crv.rebuildAABB();
 
         return crv;
     }
@@ -95,6 +96,7 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
             }
             crv.control_points[i] = point;
         }
+        crv.rebuildAABB();
 
         return crv;
     }
diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index c88644d..8e8dca0 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -227,6 +227,7 @@ namespace cmmcore {
             control_points = std::move(new_control_points);
             generate_knots_periodic();
             _periodic = true;
+            rebuildAABB();
         }
 
         // Generate knot vector for a periodic NURBS curve
@@ -263,6 +264,7 @@ namespace cmmcore {
             // Update curve
             knots = std::move(k_v);
             update_interval();
+            rebuildAABB();
         }
 
         // Split the curve at a given parameter value
@@ -447,6 +449,7 @@ namespace cmmcore {
                                  derivative.control_points);
 
             derivative.update_interval();
+            derivative.rebuildAABB();
         }
 
         NURBSCurve get_derivative() const {
@@ -454,6 +457,7 @@ namespace cmmcore {
             get_nurbs_derivative(_degree, knots, control_points, derivative._degree, derivative.knots,
                                  derivative.control_points);
             derivative.update_interval();
+            derivative.rebuildAABB();
             return derivative;
         }
 
@@ -489,6 +493,7 @@ namespace cmmcore {
                     generate_knots();
                 }
             }
+            rebuildAABB();
         }
 
         int get_degree() const {
@@ -1219,6 +1224,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                     crv.control_points[i] = point;
                 }
                 crv.update_interval();
+                crv.rebuildAABB();
 
                 return crv;
             } else {
@@ -1252,6 +1258,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                     }
                     crv.control_points[i] = point;
                 }
+                crv.rebuildAABB();
 
                 return crv;
             }
-- 
2.43.0


From fdd2be8311e7e90e3e7b4d1a95696f7a952cfd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:54 +0000
Subject: [PATCH 09/54] fix: isocurves along u take the surface's u knots

---
 cmmcore/boundary_intersection.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmmcore/boundary_intersection.h b/cmmcore/boundary_intersection.h
index 0e2596f..ae9a1cf 100644
--- a/cmmcore/boundary_intersection.h
+++ b/cmmcore/boundary_intersection.h
@@ -87,6 +87,10 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
         // The curve will have as many control points as the surface has in u direction
         int m = surface._size[0];
         NURBSCurve crv(m, surface._degree[0]);
+        for (size_t i=0;i<surface._knots_u.size();i++) {
+            crv.knots[i]=surface._knots_u[i];
+        }
+        crv.update_interval();
 
         // Compute control points for the extracted curve
         for (int i = 0; i < m; ++i) {
-- 
2.43.0


From 18e250730a42466a338f26388ffabfd3aaab9428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 10/54] fix: derivative, product and knot-refined surfaces
 report their own size and domain

---
 cmmcore/nurbs.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 8e8dca0..c8a4e2b 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -871,6 +871,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 _size[0] += count;
 
                 _knots_u = kv;
+                update_interval();
             } else {
                 insert_knot_v(t, count);
             }
@@ -1166,6 +1167,8 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             result._degree = new_degrees;
             result._knots_u = direction == 0 ? new_knots : _knots_u;
             result._knots_v = direction == 1 ? new_knots : _knots_v;
+            result._size = {direction == 0 ? _size[0] - 1 : _size[0], direction == 1 ? _size[1] - 1 : _size[1]};
+            result.update_interval();
         }
 
         NURBSSurface get_derivative(int direction) const {
@@ -1602,6 +1605,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
         );
         result._knots_u = a._knots_u;
         result._knots_v = b._knots_v;
+        result._size = a._size;
         result._degree = {a._degree[0], b._degree[1]};
         for (int k = 0; k < a._size[0]; ++k) {
             for (int j = 0; j < a._size[1]; ++j) {
-- 
2.43.0


From 8416e8df2c19f92fd5cea54e637eef2f88c4a511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:11 +0000
Subject: [PATCH 11/54] fix: surfaces keep the bounding box they report in step
 with their control points

---
 cmmcore/monomial.h |  1 +
 cmmcore/nurbs.h    | 16 ++++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/cmmcore/monomial.h b/cmmcore/monomial.h
index 6c35113..1729e6f 100644
--- a/cmmcore/monomial.h
+++ b/cmmcore/monomial.h
@@ -227,6 +227,7 @@ namespace cmmcore
             surf.generate_knots_u();
             surf.generate_knots_v();
             surf.update_interval();
+            surf.rebuildAABB();
 
 
         }
diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index c8a4e2b..f058613 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -737,6 +737,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 _knots_v = knots_v;
             }
             update_interval();
+            rebuildAABB();
         }
 
         NURBSSurface(const std::vector<std::vector<vec3> > &control_points, const std::array<int, 2> &degree,
@@ -763,6 +764,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 _knots_v = knots_v;
             }
             update_interval();
+            rebuildAABB();
         }
 
         std::array<size_t, 2> &shape() {
@@ -872,6 +874,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
 
                 _knots_u = kv;
                 update_interval();
+                rebuildAABB();
             } else {
                 insert_knot_v(t, count);
             }
@@ -899,6 +902,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             _knots_v = std::move(k_v);
             _size[1] = new_count_v;
             update_interval();
+            rebuildAABB();
         }
 
         std::pair<NURBSSurface, NURBSSurface> split_surface_u(double param, double tol = 1e-7) const {
@@ -1082,6 +1086,16 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             return _aabb;
         }
 
+        void rebuildAABB() {
+            _aabb.min.set(_control_points[0][0].to_vec3());
+            _aabb.max.set(_control_points[0][0].to_vec3());
+            for (const auto &row: _control_points) {
+                for (const auto &pt: row) {
+                    _aabb.expand(pt.to_vec3());
+                }
+            }
+        }
+
         AABB &bbox() {
             _bbox.min.set(_control_points[0][0].to_vec3());
             _bbox.max.set(_control_points[0][0].to_vec3());
@@ -1169,6 +1183,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             result._knots_v = direction == 1 ? new_knots : _knots_v;
             result._size = {direction == 0 ? _size[0] - 1 : _size[0], direction == 1 ? _size[1] - 1 : _size[1]};
             result.update_interval();
+            result.rebuildAABB();
         }
 
         NURBSSurface get_derivative(int direction) const {
@@ -1613,6 +1628,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             }
         }
         result.update_interval();
+        result.rebuildAABB();
     }
 
     inline void cross(const NURBSSurface &a, const NURBSSurface &b, NURBSSurface &result) {
-- 
2.43.0


From 2b36809ede2b147c566b21910e87db630c873d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 12/54] fix: setters copy the knots or coefficients they are
 given instead of emptying the caller's

---
 cmmcore/monomial.h | 4 ++--
 cmmcore/nurbs.h    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmmcore/monomial.h b/cmmcore/monomial.h
index 1729e6f..b40b440 100644
--- a/cmmcore/monomial.h
+++ b/cmmcore/monomial.h
@@ -188,11 +188,11 @@ namespace cmmcore
             }
         }
 
-        void set(Tensor2D<vec3>& coeffs)
+        void set(const Tensor2D<vec3>& coeffs)
         {
             n = coeffs.size();
             m = coeffs[0].size();
-            coefficients = std::move(coeffs);
+            coefficients = coeffs;
             Mu = bpmat(n - 1);
             Mv = bpmat(m - 1);
             Mu_inv = Mu.inverse();
diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index f058613..f080dd1 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -509,8 +509,8 @@ namespace cmmcore {
             return knots;
         }
 
-        void set_knots(std::vector<double> &knts) {
-            knots = std::move(knts);
+        void set_knots(const std::vector<double> &knts) {
+            knots = knts;
             update_interval();
         }
 
-- 
2.43.0


From f358c1cf554dc2f410f884d8e9ce6c6d23b5d453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:29 +0000
Subject: [PATCH 13/54] fix: vector lengths keep double precision and short
 vectors are normalised too

---
 cmmcore/vec.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index c2ee716..70990a0 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -415,11 +415,11 @@ struct vec3 {
     #else
     double sq=x*x+y*y+z*z;
     #endif
-    return sqrtf(sq);
+    return std::sqrt(sq);
   }
   void unitize() {
     if (const double l = length(); l <= std::numeric_limits<double>::epsilon() ||
-        l - 1 <= std::numeric_limits<double>::epsilon()) {
+        std::abs(l - 1) <= std::numeric_limits<double>::epsilon()) {
     } else {
       x/=l;
       y/=l;
@@ -948,13 +948,13 @@ struct vec4 {
     return res;
     #else
     double sq=x*x+y*y+z*z+w*w;
-    return sqrtf(sq);
+    return std::sqrt(sq);
     #endif
 
   }
   void unitize() {
     if (const double l = length(); l <= std::numeric_limits<double>::epsilon() ||
-        l - 1 <= std::numeric_limits<double>::epsilon()) {
+        std::abs(l - 1) <= std::numeric_limits<double>::epsilon()) {
     } else
     {
       x/=(w*l);
-- 
2.43.0


From 9605a0e17e04366d5eb68d2a7e1adaa8a6b1f118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:44 +0000
Subject: [PATCH 14/54] fix: homogeneous points compare, add, multiply and
 cross all their components

---
 cmmcore/vec.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 70990a0..fd40178 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -762,7 +762,8 @@ struct vec4 {
 
     return std::abs(x - other.x) < std::numeric_limits<double>::epsilon() &&
            std::abs(y - other.y) < std::numeric_limits<double>::epsilon()&&
-           std::abs(z - other.z) < std::numeric_limits<double>::epsilon();
+           std::abs(z - other.z) < std::numeric_limits<double>::epsilon()&&
+           std::abs(w - other.w) < std::numeric_limits<double>::epsilon();
   }
   /**
  * @brief Access vector components by index.
@@ -842,7 +843,7 @@ struct vec4 {
 
 #else
 
-    return x * b.x + y * b.y + z * b.z;
+    return x * b.x + y * b.y + z * b.z + w * b.w;
 #endif
   }
 
@@ -857,9 +858,9 @@ struct vec4 {
   void cross( const vec4& b, vec4& result ) const {
     auto v1=to_vec3();
     auto v2=b.to_vec3();
-    result.x = v1.y * v2.z -  v2.z *  v2.y;
-    result.y=  v1.z * v2.x  - v2.x * v2.z;
-    result.z=  v1.x * v2.y  - v2.y * v2.x;
+    result.x = v1.y * v2.z -  v1.z *  v2.y;
+    result.y=  v1.z * v2.x  - v1.x * v2.z;
+    result.z=  v1.x * v2.y  - v1.y * v2.x;
     result.w=1.;
   }
   void cross( const vec3& b, vec3& result ) const {
@@ -929,6 +930,7 @@ struct vec4 {
     result.x=x + b.x;
     result.y=y + b.y;
     result.z=z + b.z;
+    result.w=w + b.w;
 #endif
 
   }
-- 
2.43.0


From b3b4062b29160924598f56d4a6154c7097c81ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:58 +0000
Subject: [PATCH 15/54] fix: point distance, squared magnitude and batched dot
 product

---
 cmmcore/vec.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index fd40178..59a9537 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -599,7 +599,7 @@ inline void dot_product(const Vec3& v, const Vectors3& vecs, double* result) {
 
 #else
 inline void dot_product(const vec3& v, const Vectors3& vecs, double* result) {
-  for (int i=0; i  <= vecs.size; i ++) {
+  for (size_t i=0; i  < vecs.size; i ++) {
     result[i]=v.dot(vecs.x[i],vecs.y[i],vecs.z[i]);
   }
 }
@@ -607,7 +607,7 @@ inline void dot_product(const vec3& v, const Vectors3& vecs, double* result) {
 #define sqr(x) ((x)*(x))
 inline double mag2(const vec3 &a)
 {
-  double l=std::sqrt(a[0]);
+  double l=sqr(a[0]);
   for(unsigned int i=1; i<3; ++i) l+=sqr(a[i]);
   return l;
 }
@@ -617,7 +617,7 @@ inline double dot(const vec3& a, const vec3& b) {
 }
 inline double dist(const vec3& a, const vec3& b) {
 
-  return  std::sqrt((a.x-b.x)+(a.y-b.y)+(a.z-b.z));;
+  return (a-b).length();
 }
 inline double dist2(const vec3& a, const vec3& b) {
 
-- 
2.43.0


From b995a09867d2808971b26e3f795a7aed73c61147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:25 +0000
Subject: [PATCH 16/54] fix: separate the components of printed vectors

---
 cmmcore/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 59a9537..70869e9 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -995,13 +995,13 @@ struct vec4 {
     return os;
   }
   inline std::ostream& operator<<(std::ostream& os, const vec3& obj) {
-    os << "[" << obj.x << "," << obj.y  << obj.z <<"]";
+    os << "[" << obj.x << "," << obj.y << "," << obj.z <<"]";
     return os;
   }
 
 
   inline std::ostream& operator<<(std::ostream& os, const vec4& obj) {
-    os << "[" << obj.x << "," << obj.y  << obj.z << obj.w << "]";
+    os << "[" << obj.x << "," << obj.y << "," << obj.z << "," << obj.w << "]";
     return os;
   }
 
-- 
2.43.0


From 382e30401c50cb8c09f9b352dc9c2f33335c14af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:03 +0000
Subject: [PATCH 17/54] fix: local frames built from points measure distances
 and axes in their own plane

---
 cmmcore/plane.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index 10684a5..24b4920 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -320,12 +320,12 @@ namespace cmmcore
 
         cplane(const std::tuple<vec3, vec3, vec3>& _pts): plane(_pts)
         {
-            xaxis = std::get<0>(_pts) - origin;
+            xaxis = std::get<1>(_pts) - std::get<0>(_pts);
             xaxis.unitize();
             yaxis = normal.cross(xaxis);
             yaxis.unitize();
         };
-        double signedDistance(const vec3& pt) const { return plane::signedDistance(pt - origin); };
+        double signedDistance(const vec3& pt) const { return plane::signedDistance(pt); };
 
         void evaluate(double u, double v, vec3& result) const
         {
-- 
2.43.0


From b9f84645c944234fb968276ae7b2bad0c20cf1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:03 +0000
Subject: [PATCH 18/54] fix: coplanarity test looks at the fourth point too

---
 cmmcore/plane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index 24b4920..ac162d9 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -295,7 +295,7 @@ namespace cmmcore
         plane p = {{pts[0], pts[1], pts[2]}};
 
 
-        for (size_t i = 4; i < pts.size(); i++)
+        for (size_t i = 3; i < pts.size(); i++)
         {
             if (std::abs(p.signedDistance(pts[i])) >= eps)
             {
-- 
2.43.0


From c2e276354185c6df0e41bc73c0a0264da11e92a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:03 +0000
Subject: [PATCH 19/54] fix: plane-plane intersection eliminates the dominant
 axis of the line

---
 cmmcore/plane.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index ac162d9..6f6c7da 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -172,14 +172,14 @@ namespace cmmcore
 
             // Choose the variable to eliminate
             int maxIndex = 0;
-            double maxAbs = std::abs(a1);
+            double maxAbs = std::abs(dir.x);
 
-            if (std::abs(b1) > maxAbs)
+            if (std::abs(dir.y) > maxAbs)
             {
                 maxIndex = 1;
-                maxAbs = std::abs(b1);
+                maxAbs = std::abs(dir.y);
             }
-            if (std::abs(c1) > maxAbs)
+            if (std::abs(dir.z) > maxAbs)
             {
                 maxIndex = 2;
             }
-- 
2.43.0


From 80bb567cde6f7f4e573b99fb1aa2035778a3c99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:03 +0000
Subject: [PATCH 20/54] fix: plane through three points keeps double precision

---
 cmmcore/plane.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index 6f6c7da..fd816bc 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -11,9 +11,9 @@ namespace cmmcore
 {
     inline void plane_eq_from_pts(const vec3& pt0, const vec3& pt1, const vec3& pt2, vec4& equation)
     {
-        const float x3 = pt0.y * pt1.z;
-        const float x4 = pt1.y * pt2.z;
-        const float x5 = pt2.y * pt0.z;
+        const double x3 = pt0.y * pt1.z;
+        const double x4 = pt1.y * pt2.z;
+        const double x5 = pt2.y * pt0.z;
         equation.x = x3 + x4 + x5 - pt0.y * pt2.z - pt1.y * pt0.z - pt2.y * pt1.z;
         equation.y = -pt0.x * pt1.z + pt0.x * pt2.z + pt1.x * pt0.z - pt1.x * pt2.z - pt2.x * pt0.z + pt2.x * pt1.z;
         equation.z = pt0.x * pt1.y - pt0.x * pt2.y - pt1.x * pt0.y + pt1.x * pt2.y + pt2.x * pt0.y - pt2.x * pt1.y;
-- 
2.43.0


From 2355d0f5d7a0609e354322434544a9f714cba3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:04 +0000
Subject: [PATCH 21/54] fix: planes contain the origin they report and are
 built through

---
 cmmcore/plane.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index fd816bc..e168551 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -40,7 +40,7 @@ namespace cmmcore
             computeDenominator();
 
             normal = vec3(equation.x / denominator, equation.y / denominator, equation.z / denominator);
-            origin.set(normal * equation.w);
+            origin.set(normal * (-equation.w / denominator));
         }
 
         plane(const vec3& _normal) : denominator(_normal.length()), equation(_normal.x, _normal.y, _normal.z, 0),
@@ -50,7 +50,7 @@ namespace cmmcore
 
         plane(const vec3& _origin, const vec3& _normal) : denominator(_normal.length()),
                                                           equation(_normal.x, _normal.y, _normal.z,
-                                                                   -(_normal.x * _origin.x, _normal.y * _origin.y,
+                                                                   -(_normal.x * _origin.x + _normal.y * _origin.y +
                                                                        _normal.z * _origin.z)),
                                                           normal(_normal / denominator), origin(_origin)
         {
@@ -61,7 +61,7 @@ namespace cmmcore
             plane_eq_from_pts(std::get<0>(_pts), std::get<1>(_pts), std::get<2>(_pts), equation);
             computeDenominator();
             normal = vec3(equation.x / denominator, equation.y / denominator, equation.z / denominator);
-            origin.set(normal * equation.w);
+            origin.set(normal * (-equation.w / denominator));
         };
 
         void computeDenominator()
-- 
2.43.0


From a2316a312ed194347f920bdfb175918627616927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:26 +0000
Subject: [PATCH 22/54] fix: closest point on a segment uses the normalised
 parameter

---
 cmmcore/closest_point.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/closest_point.h b/cmmcore/closest_point.h
index 72bd767..af05478 100644
--- a/cmmcore/closest_point.h
+++ b/cmmcore/closest_point.h
@@ -46,7 +46,7 @@ namespace cmmcore{
     {
         vec3 d=end-start;
         vec3 o=a-start;
-        double t=d.dot(o);
+        double t=d.dot(o)/d.sqLength();
 
         if (t<0.)
         {
-- 
2.43.0


From 2d447d884197d7cc270614397a8d4984394e4d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:26 +0000
Subject: [PATCH 23/54] fix: closest point on a triangle is returned in the
 caller's frame

---
 cmmcore/closest_point.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/closest_point.h b/cmmcore/closest_point.h
index af05478..42ea4a0 100644
--- a/cmmcore/closest_point.h
+++ b/cmmcore/closest_point.h
@@ -123,7 +123,7 @@ namespace cmmcore{
     }
     inline void closestPointOnTriangle(const vec3& pt,const vec3& a, const vec3& b, const vec3& c,vec3& result)
     {
-        result.set(closestPointOnTriangle(a-pt,b-pt,c-pt));
+        result.set(closestPointOnTriangle(a-pt,b-pt,c-pt)+pt);
 
     }
     inline vec3 closestPointOnTriangle(const vec3& pt,const vec3& a, const vec3& b, const vec3& c)
-- 
2.43.0


From cefe8ec904737baf9b23076ab52da840b6f1f32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:35 +0000
Subject: [PATCH 24/54] fix: 2x2 matrix keeps the values it is initialised with

---
 cmmcore/matrix.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cmmcore/matrix.h b/cmmcore/matrix.h
index e6acf76..1aacbf8 100644
--- a/cmmcore/matrix.h
+++ b/cmmcore/matrix.h
@@ -31,7 +31,16 @@ private:
     std::array<std::array<double, 2>, 2> _m{};
 public:
     Matrix2x2() = default;
-    Matrix2x2( std::initializer_list<std::initializer_list<double>>arr){};
+    Matrix2x2( std::initializer_list<std::initializer_list<double>>arr){
+        size_t i = 0;
+        for (const auto& row : arr) {
+            size_t j = 0;
+            for (const double value : row) {
+                _m.at(i).at(j++) = value;
+            }
+            ++i;
+        }
+    };
     Matrix2x2(std::array<double,2>& ab, std::array<double,2>& cd)
     {
         _m[0][0]=ab[0];
-- 
2.43.0


From 569a56fa1e1b78a722504b3088516c7eb0f66ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:56 +0000
Subject: [PATCH 25/54] fix: curve export writes Cartesian control points
 beside the weights

---
 cmmcore/nurbs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index f080dd1..5b01631 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -671,7 +671,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 const vec4 &cp = control_points[i];
                 cp_ids[i] = entity_id;
                 out << "#" << entity_id++ << " = CARTESIAN_POINT('', ("
-                    << cp.x << ", " << cp.y << ", " << cp.z << "));\n";
+                    << cp.x / cp.w << ", " << cp.y / cp.w << ", " << cp.z / cp.w << "));\n";
             }
 
             // Get knot multiplicities and unique knots
-- 
2.43.0


From e8e33fad50b77e44f3480c0b3bbed8b23ed5a370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:56 +0000
Subject: [PATCH 26/54] fix: curve evaluation treats weighted control points as
 homogeneous like every other operation

---
 cmmcore/nurbs_utils.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index c2b9de0..8e4e2ea 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -133,11 +133,10 @@ namespace cmmcore {
 
         for (int i = 0; i < pp; ++i) {
             const int idx = span - p + i;
-            const double b = N[i] * P[idx].w;
-            sum_of_weights += b;
-            result.x += b * P[idx].x;
-            result.y += b * P[idx].y;
-            result.z += b * P[idx].z;
+            sum_of_weights += N[i] * P[idx].w;
+            result.x += N[i] * P[idx].x;
+            result.y += N[i] * P[idx].y;
+            result.z += N[i] * P[idx].z;
         }
 
         result.x /= sum_of_weights;
-- 
2.43.0


From 3993c44c35a7e97eeaf09fbd6ea6088c708a4b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:08 +0000
Subject: [PATCH 27/54] fix: basis function derivatives for degrees above three

---
 cmmcore/nurbs_utils.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index 8e4e2ea..5ece2f9 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -161,18 +161,18 @@ namespace cmmcore {
      * @param ders Output 2D vector where `ders[k][j]` contains the `k`-th derivative of the `j`-th nonzero basis function at `u`.
      */
     inline void ders_basis_funs(const int i, const double u, const int p, const int n, const std::vector<double> &U,
-                                std::vector<vec4> &ders) {
+                                std::vector<std::array<double, CMMCORE_DEG_STACK_SIZE> > &ders) {
         int pp = p + 1;
         int nn = n + 1;
 
         // Initialize ders with zeros
-        ders.assign(nn, vec4( 0.0,0.0,0.0,.0));
+        ders.assign(nn, std::array<double, CMMCORE_DEG_STACK_SIZE>{});
 
-        std::array<vec4,CMMCORE_DEG_STACK_SIZE> ndu{};
+        std::array<std::array<double,CMMCORE_DEG_STACK_SIZE>,CMMCORE_DEG_STACK_SIZE> ndu{};
         std::array<double,CMMCORE_DEG_STACK_SIZE> left{};
         std::array<double,CMMCORE_DEG_STACK_SIZE> right{};
         //std::vector<double> right(pp, 0.0);
-        std::array<vec4,2>  a;
+        std::array<std::array<double,CMMCORE_DEG_STACK_SIZE>,2>  a{};
 
         ndu[0][0] = 1.0;
 
@@ -274,7 +274,7 @@ namespace cmmcore {
 
         int span = find_span(n, p, u, U, is_periodic);
 
-        std::vector<vec4> nders;
+        std::vector<std::array<double, CMMCORE_DEG_STACK_SIZE> > nders;
         ders_basis_funs(span, u, p, du, U, nders);
 
         int pp = p + 1;
-- 
2.43.0


From fca6d19480ee3fc3cdcdc963e50ccfa0dbdb16c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:30 +0000
Subject: [PATCH 28/54] fix: second_derivative_fdm returns the second
 derivative

---
 cmmcore/nurbs.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 5b01631..e5a4706 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -428,8 +428,10 @@ namespace cmmcore {
             vec3 temp;
             evaluate(t - 1e-5, temp);
             evaluate(t + 1e-5, result);
-            result -= temp;
-            result /= 2e-5;
+            result += temp;
+            evaluate(t, temp);
+            result -= temp * 2.;
+            result /= 1e-10;
         }
 
 
-- 
2.43.0


From 7c68261552bd9f92c7d78a31ccfa142c7ffa1912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 29/54] fix: derivatives of weighted curves apply the quotient
 rule

---
 cmmcore/nurbs.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index e5a4706..d5d3f44 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -332,12 +332,14 @@ namespace cmmcore {
             std::vector<vec4> CK(1);
 
             curve_derivs_alg1(n, _degree, knots, control_points, t, 1, CK, _periodic);
-            auto der = CK[1];
+            CK.resize(2);
+            const vec4 &pt = CK[0];
+            const vec4 &der = CK[1];
 
-            //printf("(%f,%f,%f,%f)\n",der.x,der.y,der.z,der.w);
-            result.x = der.x;
-            result.y = der.y;
-            result.z = der.z;
+            // quotient rule: the control points are homogeneous
+            result.x = (der.x - der.w * pt.x / pt.w) / pt.w;
+            result.y = (der.y - der.w * pt.y / pt.w) / pt.w;
+            result.z = (der.z - der.w * pt.z / pt.w) / pt.w;
         }
 
 
@@ -386,12 +388,18 @@ namespace cmmcore {
 
             std::vector<vec4> CK(result.size());
             curve_derivs_alg1(n, _degree, knots, control_points, t, d, CK, _periodic);
+            CK.resize(d + 1);
             for (int i = 0; i < d; ++i) {
                 auto &der = CK[i];
                 auto &target = result[i];
                 target.x = der.x;
                 target.y = der.y;
                 target.z = der.z;
+                // Leibniz rule: the control points are homogeneous
+                for (int j = 1; j <= i; ++j) {
+                    target -= result[i - j] * (binomial_coefficient(i, j) * CK[j].w);
+                }
+                target /= CK[0].w;
             }
         }
 
-- 
2.43.0


From 582d3447023d42908450213bbdc0758468e3c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:52 +0000
Subject: [PATCH 30/54] fix: cross product, projection and spherical conversion
 may write into their operand

---
 cmmcore/vec.h | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 70869e9..947c850 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -361,9 +361,10 @@ struct vec3 {
   };
   }
   void cross( const vec3& b, vec3& result ) const {
-    result.x = y * b.z - z * b.y;
-    result.y=  z * b.x - x * b.z;
-    result.z=  x * b.y - y * b.x;
+    const double cx = y * b.z - z * b.y;
+    const double cy = z * b.x - x * b.z;
+    const double cz = x * b.y - y * b.x;
+    result.set(cx, cy, cz);
   }
 
   vec3 operator-(const vec3& b) const {
@@ -456,9 +457,9 @@ struct vec3 {
     const double x6 = a.z*x3;
     const double x7 = b.z*x6;
     const double x8 = a.x*x3;
-    result.x = b.x*x7 + x0*x8 + x4*x5;
-    result.y = b.y*x7 + x1*x4 + x5*x8;
-    result.z = b.x*b.z*x8 + b.y*b.z*x4 + x2*x6;
+    result = {b.x*x7 + x0*x8 + x4*x5,
+              b.y*x7 + x1*x4 + x5*x8,
+              b.x*b.z*x8 + b.y*b.z*x4 + x2*x6};
   }
 
   inline vec3 vectorProjection(const vec3&a, const vec3&b)
@@ -641,9 +642,9 @@ inline void cartesian_to_spherical(const vec3& xyz,vec3& rtp ) {
 
     double XsqPlusYsq = xyz.x *  xyz.x +  xyz.y *  xyz.y;
 
-    rtp.x= std::sqrt(XsqPlusYsq +  xyz.z *  xyz.z);        // Radius r
-    rtp.y = std::atan2(std::sqrt(XsqPlusYsq), xyz.z); // Polar angle θ (theta)
-    rtp.z = std::atan2(xyz.y, xyz.x);                     // Azimuthal angle φ (phi)
+    rtp = {std::sqrt(XsqPlusYsq +  xyz.z *  xyz.z),        // Radius r
+           std::atan2(std::sqrt(XsqPlusYsq), xyz.z),       // Polar angle θ (theta)
+           std::atan2(xyz.y, xyz.x)};                      // Azimuthal angle φ (phi)
   }
 
   inline void spherical_to_cartesian(const vec3& rtp ,vec3& xyz) {
@@ -870,9 +871,7 @@ struct vec4 {
        
      
      
-    result.x = _y * b.z - _z * b.y;
-    result.y=  _z * b.x - _x * b.z;
-    result.z=  _x * b.y - _y * b.x;
+    result = {_y * b.z - _z * b.y, _z * b.x - _x * b.z, _x * b.y - _y * b.x};
   }
   vec3 cross( const vec3& b) const {
 
-- 
2.43.0


From c8f95d22024a07e219ac908a0007ae0996065e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:36 +0000
Subject: [PATCH 31/54] fix: coplanarity test needs a plane spanned by three
 points that are not collinear

---
 cmmcore/plane.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index e168551..1867091 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -292,10 +292,25 @@ namespace cmmcore
         {
             return true;
         }
-        plane p = {{pts[0], pts[1], pts[2]}};
+        // the plane has to be spanned by three points that are not collinear
+        size_t j = 1;
+        while (j < pts.size() && (pts[j] - pts[0]).sqLength() == 0)
+        {
+            j++;
+        }
+        size_t k = j + 1;
+        while (k < pts.size() && (pts[j] - pts[0]).cross(pts[k] - pts[0]).sqLength() == 0)
+        {
+            k++;
+        }
+        if (k >= pts.size())
+        {
+            return true;
+        }
+        plane p = {{pts[0], pts[j], pts[k]}};
 
 
-        for (size_t i = 3; i < pts.size(); i++)
+        for (size_t i = 1; i < pts.size(); i++)
         {
             if (std::abs(p.signedDistance(pts[i])) >= eps)
             {
-- 
2.43.0


From c78b511873402382de618a2eb06a0345781977fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:55 +0000
Subject: [PATCH 32/54] fix: the empty box did not recognise itself as infinite

---
 cmmcore/aabb.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmmcore/aabb.h b/cmmcore/aabb.h
index f9311cb..66125d4 100644
--- a/cmmcore/aabb.h
+++ b/cmmcore/aabb.h
@@ -31,8 +31,9 @@ namespace cmmcore{
       }
     }
     bool infinity() const {
-      return (max.x == max.y == max.z == std::numeric_limits<double>::min() && min.x == min.y == min.z ==
-              std::numeric_limits<double>::max());
+      constexpr double hi = std::numeric_limits<double>::max();
+      constexpr double lo = std::numeric_limits<double>::lowest();
+      return min.x == hi && min.y == hi && min.z == hi && max.x == lo && max.y == lo && max.z == lo;
     }
 
     /**
-- 
2.43.0


From 6de2f34ad5fa24fd49b6131e30b03dc10c6e3ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:29 +0000
Subject: [PATCH 33/54] fix: knot_removal drops the removed control points, not
 the last ones

---
 cmmcore/nurbs_utils.h | 57 +++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index 5ece2f9..e6a7947 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -768,21 +768,22 @@ namespace cmmcore {
         std::vector<vec4> ctrlpts_new = ctrlpts;
         std::vector<vec4> temp(2 * degree + 1,vec4(0.,0.,0.,0.));
 
-        for (int t = 0; t < num; ++t) {
-            temp[0] = ctrlpts[first - 1];
-            temp[last - first + 2] = ctrlpts[last + 1];
+        int t = 0;
+        for (; t < num; ++t) {
+            temp[0] = ctrlpts_new[first - 1];
+            temp[last - first + 2] = ctrlpts_new[last + 1];
             int i = first;
             int j = last;
             int ii = 1;
             int jj = last - first + 1;
             bool remflag = false;
 
-            while (j - i >= t) {
+            while (j - i > t) {
                 double alpha_i = knot_removal_alpha_i(u, degree, knots, t, i);
                 double alpha_j = knot_removal_alpha_j(u, degree, knots, t, j);
                 for (int k = 0; k < dim; ++k) {
-                    temp[ii][k] = (ctrlpts[i][k] - (1.0 - alpha_i) * temp[ii - 1][k]) / alpha_i;
-                    temp[jj][k] = (ctrlpts[j][k] - alpha_j * temp[jj + 1][k]) / (1.0 - alpha_j);
+                    temp[ii][k] = (ctrlpts_new[i][k] - (1.0 - alpha_i) * temp[ii - 1][k]) / alpha_i;
+                    temp[jj][k] = (ctrlpts_new[j][k] - alpha_j * temp[jj + 1][k]) / (1.0 - alpha_j);
                 }
                 i += 1;
                 j -= 1;
@@ -800,28 +801,48 @@ namespace cmmcore {
                 for (int k = 0; k < dim; ++k) {
                     ptn[k] = alpha_i * temp[ii + t + 1][k] + (1.0 - alpha_i) * temp[ii - 1][k];
                 }
-                if (point_distance(&ctrlpts[i].x, &ptn.x, dim) <= tol) {
+                if (point_distance(&ctrlpts_new[i].x, &ptn.x, dim) <= tol) {
                     remflag = true;
                 }
             }
 
-            if (remflag) {
-                i = first;
-                j = last;
-                while (j - i > t) {
-                    ctrlpts_new[i] = temp[i - first + 1];
-                    ctrlpts_new[j] = temp[j - first + 1];
-                    i += 1;
-                    j -= 1;
-                }
+            if (!remflag) {
+                break;
+            }
+
+            i = first;
+            j = last;
+            while (j - i > t) {
+                ctrlpts_new[i] = temp[i - first + 1];
+                ctrlpts_new[j] = temp[j - first + 1];
+                i += 1;
+                j -= 1;
             }
 
             first -= 1;
             last += 1;
         }
 
-        int t_total = num;
-        int new_size = static_cast<int>(ctrlpts_new.size()) - t_total;
+        if (t == 0) {
+            return ctrlpts_new;
+        }
+
+        // Shift the control points behind the removed ones
+        int j = (2 * r - s - degree) / 2;
+        int i = j;
+        for (int k = 1; k < t; ++k) {
+            if (k % 2 == 1) {
+                i += 1;
+            } else {
+                j -= 1;
+            }
+        }
+        for (int k = i + 1; k <= n; ++k) {
+            ctrlpts_new[j] = ctrlpts_new[k];
+            j += 1;
+        }
+
+        int new_size = static_cast<int>(ctrlpts_new.size()) - t;
 
         ctrlpts_new.resize(new_size);
 
-- 
2.43.0


From c030a87359af72b5461fb8c510e337d60ac269d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:32 +0000
Subject: [PATCH 34/54] fix: surfaceCrossProduct pairs control points with the
 same indices

---
 cmmcore/nurbs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index d5d3f44..c8afe88 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -1634,7 +1634,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
         result._degree = {a._degree[0], b._degree[1]};
         for (int k = 0; k < a._size[0]; ++k) {
             for (int j = 0; j < a._size[1]; ++j) {
-                a._control_points[k][j].cross(b._control_points[j][k], result._control_points[k][j]);
+                a._control_points[k][j].cross(b._control_points[k][j], result._control_points[k][j]);
             }
         }
         result.update_interval();
-- 
2.43.0


From 3f1d545a973c70412791a05f9a4aa2d6b7e32dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:08 +0000
Subject: [PATCH 35/54] fix: curve-surface search skipped the second half of
 the curve when the first was separable

---
 cmmcore/csx.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/cmmcore/csx.h b/cmmcore/csx.h
index d15354b..34a40da 100644
--- a/cmmcore/csx.h
+++ b/cmmcore/csx.h
@@ -128,20 +128,14 @@ namespace cmmcore {
                         std::vector<vec3> curve_points = curve1.get_control_points3d();
                         std::vector<vec3> surface_points = s.control_points_flat3d();
 
-                        if ( SphericalCentralProjectionTest2(point,curve_points, surface_points)) {
-                            continue;
-
-                        }else{
+                        if ( !SphericalCentralProjectionTest2(point,curve_points, surface_points)) {
                             _curve_surface_intersect(curve1, s);
 
                     }
                     std::vector<vec3> curve_points2 = curve2.get_control_points3d();
 
 
-                    if ( SphericalCentralProjectionTest2(point,curve_points2, surface_points)) {
-                        continue;
-
-                    }else{
+                    if ( !SphericalCentralProjectionTest2(point,curve_points2, surface_points)) {
                         _curve_surface_intersect(curve2, s);
 
                     }
-- 
2.43.0


From dd73fa687e7de962d6ccaab0627ffa5c15a9f98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:08 +0000
Subject: [PATCH 36/54] fix: homogeneous points normalise, cross and compare
 directions as the points they stand for

---
 cmmcore/vec.h | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 947c850..f888960 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -849,12 +849,9 @@ struct vec4 {
   }
 
   vec4 cross( const vec4& b) const {
-    return {
-      y * b.z - z * b.y,
-      z * b.x - x * b.z,
-      x * b.y - y * b.x,
-      1.
-  };
+    vec4 result;
+    cross(b, result);
+    return result;
   }
   void cross( const vec4& b, vec4& result ) const {
     auto v1=to_vec3();
@@ -954,17 +951,7 @@ struct vec4 {
 
   }
   void unitize() {
-    if (const double l = length(); l <= std::numeric_limits<double>::epsilon() ||
-        std::abs(l - 1) <= std::numeric_limits<double>::epsilon()) {
-    } else
-    {
-      x/=(w*l);
-      y/=(w*l);
-      z/=(w*l);
-
-      w=1.;
-
-    }
+    set(to_vec3().unit());
   }
   void normalize() {
     unitize();
@@ -976,7 +963,7 @@ struct vec4 {
 
     }
   bool collinear(const vec4& other) const {
-    return CMMCORE_VEC_COLLINEAR(*this,other);
+    return to_vec3().collinear(other.to_vec3());
   }
   friend std::ostream& operator<<(std::ostream& os, const vec4& obj);
 };
-- 
2.43.0


From 9dbbbb2aea4f26cc1bd87253bc082e76eea2a6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:18 +0000
Subject: [PATCH 37/54] fix: parameter update uses the best conditioned 2x2
 system whatever its orientation

---
 cmmcore/ssx.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/ssx.h b/cmmcore/ssx.h
index 469f9e6..6e39405 100644
--- a/cmmcore/ssx.h
+++ b/cmmcore/ssx.h
@@ -43,7 +43,7 @@ namespace cmmcore
             for (size_t i = 0; i < 3; ++i)
             {
                 temp = mat[i].det();
-                if (temp > dett)
+                if (std::abs(temp) > std::abs(dett))
                 {
                     dett = temp;
                     n = i;
-- 
2.43.0


From 31f2016c75235b71c8a9e19f611d835b82e014de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:39 +0000
Subject: [PATCH 38/54] fix: boundary intersection points are merged only
 within the tolerance

---
 cmmcore/boundary_intersection.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmmcore/boundary_intersection.h b/cmmcore/boundary_intersection.h
index ae9a1cf..54d94d6 100644
--- a/cmmcore/boundary_intersection.h
+++ b/cmmcore/boundary_intersection.h
@@ -283,16 +283,17 @@ inline void find_boundary_intersections(
     
     // Remove duplicate points (within tolerance)
 
-    auto unique_points=Vec3Set();
+    std::vector<vec3> unique_points;
     const size_t sx=intersection_points.size();
     for (int i = sx- 1; i >= 0; --i) {
 
 
-        auto& point=intersection_points[i];
+        const vec3 point=intersection_points[i].point;
 
-        if (!contains(unique_points, point.point))
+        if (std::none_of(unique_points.begin(), unique_points.end(),
+                         [&](const vec3& other) { return point.distance(other) <= tol; }))
         {
-            unique_points.emplace(point.point);
+            unique_points.push_back(point);
             continue;
 
         }
-- 
2.43.0


From c5de3be0a03be3cec4386c82b4de79c7b2555899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:01 +0000
Subject: [PATCH 39/54] fix: derivative control points of a sub-range of a
 surface use the knots of that range

---
 cmmcore/nurbs_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index e6a7947..531b9cc 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -408,7 +408,7 @@ namespace cmmcore {
 
                 // Extract the control points for the current U-curve
                 for (int j = 0; j <= s; ++j) {
-                    temp_cpts_v[j] = PKL[k][0][i][j];
+                    temp_cpts_v[ss[0] + j] = PKL[k][0][i][j];
                 }
 
                 // Compute derivative control points in V direction
-- 
2.43.0


From 532444fe618c5bc1dd384981b62ea77429440476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:11 +0000
Subject: [PATCH 40/54] fix: the projection test from a common point asks for a
 plane that separates the directions

---
 cmmcore/separability.h | 74 ++++++++++++++----------------------------
 1 file changed, 24 insertions(+), 50 deletions(-)

diff --git a/cmmcore/separability.h b/cmmcore/separability.h
index c80cbe9..3e72dfd 100644
--- a/cmmcore/separability.h
+++ b/cmmcore/separability.h
@@ -395,62 +395,36 @@ inline bool SphericalSeparabilityTest( std::vector<vec3>& pts1, std::vector<vec3
      * */
 
   inline bool SphericalCentralProjectionTest2(vec3 origin, std::vector<vec3>& pts1, std::vector<vec3>& pts2) {
-
-    std::vector<vec2> poly1(pts1.size());
-    std::vector<vec2> poly2(pts2.size());
-
-
-    for (size_t i=0;i<pts1.size();i++)
-    {
-
-      centerProjectionToXY(origin, pts1[i].unit(),poly1[i]);
-    }
-    for (size_t j=0;j<pts2.size();j++)
-    {
-      centerProjectionToXY(origin, pts2[j].unit(),poly2[j]);
-
-    }
-
-#ifdef CMMCORE_DEBUG
-    printf("\n\n[");
-    for (auto& p:poly1)
+    // The two sets see each other from the origin in no common direction when a plane through the origin has one set
+    // on each side of it, that is when the directions towards pts1 and the opposites of the directions towards pts2
+    // have a convex hull that does not contain zero.
+    std::vector<vec3> directions;
+    directions.reserve(pts1.size() + pts2.size());
+    for (const auto& p : pts1)
     {
-      printf("[%f,%f],", p.x,p.y);
-    }
-    printf("],[");
-    for (auto& p:poly2)
-    {
-      printf("[%f,%f],", p.x,p.y);
-    }
-    printf("]\n");
-#endif
-
-    auto h1=convex_hull2d(poly1);
-    auto h2=convex_hull2d(poly2);
-    if (h1.empty())
-    {
-      h1.push_back(poly1[0]);
+      const vec3 d = p - origin;
+      if (d.length() > 1e-9)
+      {
+        directions.push_back(d.unit());
+      }
     }
-    if (h2.empty())
+    for (const auto& p : pts2)
     {
-      h2.push_back(poly2[0]);
-    }
-#ifdef CMMCORE_DEBUG
-    printf("[");
-    for (auto& p:h1)
-    {
-      printf("[%f,%f],", p.x,p.y);
+      const vec3 d = origin - p;
+      if (d.length() > 1e-9)
+      {
+        directions.push_back(d.unit());
+      }
     }
-    printf("],[");
-    for (auto& p:h2)
+    if (directions.empty())
     {
-      printf("[%f,%f],", p.x,p.y);
+      return false;
     }
-    printf("]\n");
-#endif
-
-    return SAT2D(h1,h2);
-
+    const std::vector<vec3> zero{vec3(0, 0, 0)};
+    std::vector<vec3> simplex;
+    vec3 closest(0, 0, 0);
+    GJK(directions, zero, simplex, closest, 1e-5);
+    return closest.length() > 1e-5;
   }
   }
 
-- 
2.43.0


From c14d7551486d6857595503f8e8d898c0632256b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:07 +0000
Subject: [PATCH 41/54] fix: curve-surface search goes on after a point found
 on the border of a piece

---
 cmmcore/csx.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/cmmcore/csx.h b/cmmcore/csx.h
index 34a40da..8b493f1 100644
--- a/cmmcore/csx.h
+++ b/cmmcore/csx.h
@@ -105,15 +105,27 @@ namespace cmmcore {
 
 
 
-                if (_is_degenerate(params, curve, surface)) {
+                const bool degenerate = _is_degenerate(params, curve, surface);
+                if (degenerate) {
                     intersections.emplace_back(CSXType::DEGENERATE, point, params);
                 } else {
                     intersections.emplace_back(CSXType::TRANSVERSAL, point, params);
                 }
-                if (std::abs(u - u0) < ptol || std::abs(u - u1) < ptol ||
-                                std::abs(v - v0) < ptol || std::abs(v - v1) < ptol) {
+                const bool on_u_border = std::abs(u - u0) < ptol || std::abs(u - u1) < ptol;
+                const bool on_v_border = std::abs(v - v0) < ptol || std::abs(v - v1) < ptol;
+                if (degenerate && (on_u_border || on_v_border)) {
                     return;
-                                }
+                }
+                // A point on a border does not divide the piece, which is halved instead
+                if (std::abs(t - curve._interval[0]) < ptol || std::abs(t - curve._interval[1]) < ptol) {
+                    t = (curve._interval[0] + curve._interval[1]) * 0.5;
+                }
+                if (on_u_border) {
+                    u = (u0 + u1) * 0.5;
+                }
+                if (on_v_border) {
+                    v = (v0 + v1) * 0.5;
+                }
                 // Add spherical separability check
 
 
-- 
2.43.0


From 5b979503d25b80540873a6b891bddf87c2a5157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:07 +0000
Subject: [PATCH 42/54] fix: polynomial products and derivatives start from a
 cleared result grid

---
 cmmcore/monomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/monomial.h b/cmmcore/monomial.h
index b40b440..8968a40 100644
--- a/cmmcore/monomial.h
+++ b/cmmcore/monomial.h
@@ -31,7 +31,7 @@ namespace cmmcore
     template <typename T>
     using Tensor2D = std::vector<std::vector<T>>;
 #define CMMCORE_CREATE_TENSOR2D(n,m,typ,...) std::vector(n, std::vector<typ>(m, {__VA_ARGS__}))
-#define CMMCORE_RESIZE_TENSOR2D(var,n,m,typ,...) var.resize(n, std::vector<typ>(m, {__VA_ARGS__}))
+#define CMMCORE_RESIZE_TENSOR2D(var,n,m,typ,...) var.assign(n, std::vector<typ>(m, {__VA_ARGS__}))
 
     template <typename T>
     inline void getVectorTensor2DComponent(Tensor2D<T>& arr, int component, MatrixD& result)
-- 
2.43.0


From 54eb89bd31652af3f8772b94c5b66515a580fdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:07 +0000
Subject: [PATCH 43/54] fix: point inversion returns the accepted iterate and
 tests the size of the step

---
 cmmcore/point_inversion.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/cmmcore/point_inversion.h b/cmmcore/point_inversion.h
index 87e624d..791be70 100644
--- a/cmmcore/point_inversion.h
+++ b/cmmcore/point_inversion.h
@@ -66,9 +66,11 @@ inline double point_inversion_curve(const NURBSCurve& curve, const vec3& P,
         
         // Newton step
         double ui1 = ui - fi / fpi;
+        const double step = ui1 - ui;
+        ui = ui1;
         
         // Convergence check 1: Parameter change small enough
-        if (std::abs(ui1 - ui) * C_prime.length() <= tol1) {
+        if (std::abs(step) * C_prime.length() <= tol1) {
             break;
         }
         
@@ -90,7 +92,6 @@ inline double point_inversion_curve(const NURBSCurve& curve, const vec3& P,
         }
         
         curve.second_derivative_fdm(ui1, C_double_prime);
-        ui = ui1;
     }
     
     return ui;
@@ -150,12 +151,13 @@ inline std::array<double,2> point_inversion_surface(const NURBSSurface& surface,
             uivi[0] - delta[0],
             uivi[1] - delta[1]
         };
+        uivi = ui1vi1;
         
         // Check convergence criteria
         
         // 1. Parameter update small enough?
-        if ((ui1vi1[0] - uivi[0]) * du.length() + 
-            (ui1vi1[1] - uivi[1]) * dv.length() <= tol1) {
+        if (std::abs(delta[0]) * du.length() + 
+            std::abs(delta[1]) * dv.length() <= tol1) {
             break;
         }
         
@@ -167,13 +169,14 @@ inline std::array<double,2> point_inversion_surface(const NURBSSurface& surface,
         
         // 3. Perpendicularity condition met?
         surface.derivative_u(ui1vi1[0], ui1vi1[1], du);
+        surface.derivative_v(ui1vi1[0], ui1vi1[1], dv);
         vec3 pt_diff = S_point - P;
         if (std::abs(du.dot(pt_diff)) / 
-            (du.length() * pt_diff.length()) <= tol2) {
+            (du.length() * pt_diff.length()) <= tol2 &&
+            std::abs(dv.dot(pt_diff)) / 
+            (dv.length() * pt_diff.length()) <= tol2) {
             break;
         }
-        
-        uivi = ui1vi1;
     }
     
     return uivi;
-- 
2.43.0


From d4300254e7b7d0c22fa1b2215f294de6f3c5c0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:14 +0000
Subject: [PATCH 44/54] fix: a copied k-d tree owns nodes of its own

---
 cmmcore/kdtree.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/cmmcore/kdtree.h b/cmmcore/kdtree.h
index acfc795..2ddf1a0 100644
--- a/cmmcore/kdtree.h
+++ b/cmmcore/kdtree.h
@@ -159,10 +159,33 @@ private:
         delete node;
     }
 
+    // Recursive function to copy the KD-Tree
+    static node_type* copyKDTree(const node_type* node) {
+        if (node == nullptr)
+            return nullptr;
+        node_type* result = new node_type(node->point, node->axis);
+        result->left = copyKDTree(node->left);
+        result->right = copyKDTree(node->right);
+        return result;
+    }
+
 public:
     // Constructor
     KDTree() : root(nullptr), size_(0) {}
 
+    // A copy owns nodes of its own
+    KDTree(const KDTree& other) : root(copyKDTree(other.root)), size_(other.size_) {}
+
+    KDTree& operator=(const KDTree& other) {
+        if (this != &other) {
+            node_type* copied = copyKDTree(other.root);
+            deleteKDTree(root);
+            root = copied;
+            size_ = other.size_;
+        }
+        return *this;
+    }
+
     // Destructor
     ~KDTree() {
         deleteKDTree(root);
-- 
2.43.0


From 47b6c44259e6dd4a55f7e17ceaab963b13c9d04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:18 +0000
Subject: [PATCH 45/54] fix: copies of a memory view own their data and hold
 every element

---
 cmmcore/memoryview.h | 52 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 9b0a6e9..ea02286 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -76,6 +76,22 @@ namespace cmmcore
             : data_(data), shape_(shape), strides_(strides), offset_(offset)
         {
         }
+        // A copy of a view that manages its data gets data of its own
+        MemoryView(const MemoryView& other)
+            : is_managed_(other.is_managed_), data_(other.is_managed_ ? other.copy_data() : other.data_),
+              shape_(other.shape_), strides_(other.strides_), offset_(other.offset_)
+        {
+        }
+        MemoryView& operator=(const MemoryView& other)
+        {
+            MemoryView copied(other);
+            std::swap(is_managed_, copied.is_managed_);
+            std::swap(data_, copied.data_);
+            std::swap(shape_, copied.shape_);
+            std::swap(strides_, copied.strides_);
+            std::swap(offset_, copied.offset_);
+            return *this;
+        }
         T* data()
         {
             return data_;
@@ -93,19 +109,11 @@ namespace cmmcore
         }
         size_t size() const
         {
-            size_t size=1;
-            for (size_t i = 0 ; i<shape_.size();i++)
-            {
-                i*=shape_[i];
-            }
-            return size;
+            return compute_total_size(shape_);
         }
         MemoryView<T>* copy() const
         {
-            size_t _size=size();
-            T* ptr = (T*)malloc(_size*sizeof(T));
-            memcpy(ptr,data_,_size*sizeof(T));
-            auto* mv=new MemoryView<T>(ptr,shape_, strides_, offset_);
+            auto* mv=new MemoryView<T>(copy_data(),shape_);
             mv->is_managed_=true;
             return mv;
 
@@ -494,6 +502,30 @@ namespace cmmcore
 
 
 
+        // Position in the data of the element with the given row-major number
+        size_t position(size_t index) const
+        {
+            size_t pos = offset_;
+            for (size_t k = shape_.size(); k-- > 0;)
+            {
+                pos += (index % shape_[k]) * strides_[k];
+                index /= shape_[k];
+            }
+            return pos;
+        }
+
+        // Elements of the view in row-major order, in a block of their own
+        T* copy_data() const
+        {
+            size_t total = size();
+            T* ptr = (T*)malloc(total*sizeof(T));
+            for (size_t i = 0; i < total; ++i)
+            {
+                ptr[i] = data_[position(i)];
+            }
+            return ptr;
+        }
+
         // Compute strides based on the current shape
         void compute_strides()
         {
-- 
2.43.0


From ae9171ba334f7e8730dd8d310b4d0f490a2abe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:21 +0000
Subject: [PATCH 46/54] fix: slices with a negative step stay inside the extent

---
 cmmcore/memoryview.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index ea02286..6d7db2b 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -155,17 +155,20 @@ namespace cmmcore
                 else
                 {
                     // Handle range slice
-                    int start = s.has_start ? s.start : 0;
-                    int stop = s.has_stop ? s.stop : static_cast<int>(shape_[i]);
                     int step = s.step;
+                    // A slice with a negative step runs down from the last element to the first one
+                    int first = step < 0 ? -1 : 0;
+                    int last = step < 0 ? static_cast<int>(shape_[i]) - 1 : static_cast<int>(shape_[i]);
+                    int start = s.has_start ? s.start : (step < 0 ? last : first);
+                    int stop = s.has_stop ? s.stop : (step < 0 ? first : last);
 
                     // Handle negative indices
-                    if (start < 0) start += static_cast<int>(shape_[i]);
-                    if (stop < 0) stop += static_cast<int>(shape_[i]);
+                    if (s.has_start && start < 0) start += static_cast<int>(shape_[i]);
+                    if (s.has_stop && stop < 0) stop += static_cast<int>(shape_[i]);
 
                     // Clamp start and stop
-                    start = std::max(0, std::min(start, static_cast<int>(shape_[i])));
-                    stop = std::max(0, std::min(stop, static_cast<int>(shape_[i])));
+                    start = std::max(first, std::min(start, last));
+                    stop = std::max(first, std::min(stop, last));
 
                     if (step == 0)
                     {
-- 
2.43.0


From f13fcd85a290fd4444ba8fd24a30d23b3e6c4d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:26 +0000
Subject: [PATCH 47/54] fix: reshaping a view of scattered elements is refused
 instead of naming other elements

---
 cmmcore/memoryview.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 6d7db2b..8ffc071 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -217,6 +217,14 @@ namespace cmmcore
             {
                 throw std::invalid_argument("Total size must remain unchanged in reshape");
             }
+            if (new_shape == shape_)
+            {
+                return;
+            }
+            if (!is_contiguous())
+            {
+                throw std::invalid_argument("A view of scattered elements cannot be reshaped");
+            }
             shape_ = new_shape;
             compute_strides();
         }
@@ -529,6 +537,21 @@ namespace cmmcore
             return ptr;
         }
 
+        // True if the elements lie one after another in row-major order
+        bool is_contiguous() const
+        {
+            size_t expected = 1;
+            for (size_t i = shape_.size(); i-- > 0;)
+            {
+                if (shape_[i] != 1 && strides_[i] != expected)
+                {
+                    return false;
+                }
+                expected *= shape_[i];
+            }
+            return true;
+        }
+
         // Compute strides based on the current shape
         void compute_strides()
         {
-- 
2.43.0


From a57f573a5c1d89e55be30df9a78e0eb9fb9e8a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:30 +0000
Subject: [PATCH 48/54] fix: serialising and printing a view of scattered
 elements visits its own elements

---
 cmmcore/memoryview.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 8ffc071..1842c3a 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -299,7 +299,7 @@ namespace cmmcore
             size_t display_count = std::min(preview_limit, total_elements);
             for (size_t i = 0; i < display_count; ++i)
             {
-                oss << data_[offset_ + i * strides_[0]];
+                oss << data_[position(i)];
                 if (i != display_count - 1) oss << ", ";
             }
             if (display_count < total_elements)
@@ -355,11 +355,15 @@ namespace cmmcore
                           reinterpret_cast<const char*>(&offset_),
                           reinterpret_cast<const char*>(&offset_) + sizeof(size_t));
 
-            // Serialize Data
-            size_t data_size = compute_total_size(shape_) * sizeof(T);
-            buffer.insert(buffer.end(),
-                          reinterpret_cast<const char*>(data_ + offset_),
-                          reinterpret_cast<const char*>(data_ + offset_) + data_size);
+            // Serialize Data, in row-major order
+            size_t total_elements = compute_total_size(shape_);
+            for (size_t i = 0; i < total_elements; ++i)
+            {
+                const T* element = data_ + position(i);
+                buffer.insert(buffer.end(),
+                              reinterpret_cast<const char*>(element),
+                              reinterpret_cast<const char*>(element) + sizeof(T));
+            }
 
             return buffer;
         }
@@ -442,8 +446,8 @@ namespace cmmcore
             std::memcpy(data, buffer.data() + pos, data_size);
             pos += data_size;
 
-            // Create MemoryView
-            return MemoryView<T>(data, shape, strides, 0);
+            // Create MemoryView: the data are stored in row-major order whatever the strides of the original
+            return MemoryView<T>(data, shape);
         }
 
         // 4a. Write Serialized Data to FILE*
-- 
2.43.0


From 322337eb4f3bc8384cd6a8b23a184b01282a45bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:54 +0000
Subject: [PATCH 49/54] fix: a segment end is removed from the index under the
 key it was filed under

---
 cmmcore/polyline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/polyline.h b/cmmcore/polyline.h
index 50cd025..6929f32 100644
--- a/cmmcore/polyline.h
+++ b/cmmcore/polyline.h
@@ -92,7 +92,7 @@ inline void add_to_index(SpatialIndex& index, Endpoint* endpoint) {
 
 // Function to remove an endpoint from the spatial index
 inline void remove_from_index(SpatialIndex& index, Endpoint* endpoint) {
-    PointKey key={endpoint->point.x, endpoint->point.y, endpoint->point.z};
+    PointKey key(endpoint->point);
     auto& vec = index[key];
     vec.erase(std::remove(vec.begin(), vec.end(), endpoint), vec.end());
     if (vec.empty()) {
-- 
2.43.0


From 1df55d94bcc6f8ce680ce970957a3f14650dbaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:58 +0000
Subject: [PATCH 50/54] fix: a serialised curve carries its own periodic flag

---
 cmmcore/serialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/serialization.h b/cmmcore/serialization.h
index 7fb746e..9853953 100644
--- a/cmmcore/serialization.h
+++ b/cmmcore/serialization.h
@@ -117,7 +117,7 @@ namespace cmmcore {
     inline std::vector<uint8_t> serializeNURBSCurve(NURBSCurve &curve) {
         std::vector<uint8_t> buffer;
         serializeInt(buffer, curve.get_degree());
-        serializeBool(buffer, curve.is_periodic());
+        serializeBool(buffer, curve._periodic);
         serializeVectorVec4(buffer, curve.control_points);
         serializeVectorDouble(buffer, curve.knots);
         return buffer;
-- 
2.43.0


From 254694a8ce9428baccfc2fab7278acb647b061fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:26 +0000
Subject: [PATCH 51/54] fix: the point of a tetrahedron nearest to the origin
 is the nearest of its faces

---
 cmmcore/gjk.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmmcore/gjk.h b/cmmcore/gjk.h
index 79921e9..d0eba42 100644
--- a/cmmcore/gjk.h
+++ b/cmmcore/gjk.h
@@ -171,6 +171,7 @@ inline vec3 closestPointOnSimplex(const std::vector<vec3>& simplex) {
             auto pt=closestPointOnTriangle(simplex[CMMCORE_SIMPLEX_FACES[i][0]], simplex[ CMMCORE_SIMPLEX_FACES[i][1]], simplex[CMMCORE_SIMPLEX_FACES[i][2]]);
             double dst=pt.sqLength();
             if (dst<mindist) {
+              mindist=dst;
               cpt=pt;
             }
             
-- 
2.43.0


From 078e52c28fad760cba075fe0d1b0dc19ccf0204d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:26 +0000
Subject: [PATCH 52/54] fix: a collision simplex keeps the edge of the triangle
 that sees the origin

---
 cmmcore/gjk.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmmcore/gjk.h b/cmmcore/gjk.h
index d0eba42..67f1374 100644
--- a/cmmcore/gjk.h
+++ b/cmmcore/gjk.h
@@ -78,12 +78,12 @@ inline bool handleSimplex(std::vector<vec3>& simplex, vec3& direction, double to
             vec3 acPerp = ab.cross(abc);
 
             if (abPerp.dot(ao) > tol) {
-                // Region outside AB
-                simplex.erase(simplex.begin());
-                direction = abPerp;
-            } else if (acPerp.dot(ao) > tol) {
                 // Region outside AC
                 simplex.erase(simplex.begin() + 1);
+                direction = abPerp;
+            } else if (acPerp.dot(ao) > tol) {
+                // Region outside AB
+                simplex.erase(simplex.begin());
                 direction = acPerp;
             } else {
                 if (abc.dot(ao) > tol) {
-- 
2.43.0


From aa2bf557bef4f5ff1f11e6d714811aa9c90d81cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:26 +0000
Subject: [PATCH 53/54] fix: the collision simplex keeps its orientation when
 it drops the third point

---
 cmmcore/gjk.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmmcore/gjk.h b/cmmcore/gjk.h
index 67f1374..af7f8d5 100644
--- a/cmmcore/gjk.h
+++ b/cmmcore/gjk.h
@@ -124,6 +124,7 @@ inline bool handleSimplex(std::vector<vec3>& simplex, vec3& direction, double to
             } else if (adb.dot(ao) > 0) {
                 // Remove point C
                 simplex.erase(simplex.begin() + 1);
+                std::swap(simplex[0], simplex[1]);
                 direction = adb;
             } else {
                 // Origin is inside the tetrahedron
-- 
2.43.0


From 3466a79fd41963317d6c977f8ab0be6e66500fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:05 +0000
Subject: [PATCH 54/54] fix: writeNURBSCurvesToFile reported success before the
 file took the bytes

---
 cmmcore/serialization.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmmcore/serialization.h b/cmmcore/serialization.h
index 9853953..7e510c9 100644
--- a/cmmcore/serialization.h
+++ b/cmmcore/serialization.h
@@ -162,6 +162,7 @@ namespace cmmcore {
             return false;
         }
         file.write(reinterpret_cast<const char *>(data.data()), data.size());
+        file.close();
         return file.good();
     }
 
-- 
2.43.0

