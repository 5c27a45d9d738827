From 44a32645ab467c651f61f4063540e3e1360cdb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 01/41] fix: PIDController::computeFeedback ignored the period
 given with the tick

The optional pPeriod argument was tested but the configured period was used
anyway, so derivative and integral terms were wrong on a jittered clock.
---
 src/dsp/pidcontroller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/pidcontroller.cpp b/src/dsp/pidcontroller.cpp
index 7e6dced..21d6948 100644
--- a/src/dsp/pidcontroller.cpp
+++ b/src/dsp/pidcontroller.cpp
@@ -128,7 +128,7 @@ float PIDController::computeFeedback(const float pCommand,
   float period = fPeriod;
   if (pPeriod > 0.0)
   {
-    period = fPeriod;
+    period = pPeriod;
   }
 
   fPreviousErr = fErr;
-- 
2.43.0


From 5c14bb57c3e546733638bfe45000f0fc46e69e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 02/41] fix: PIDController::initialize kept part of a rejected
 parameter set

The parameters were stored before being checked, so after the exception the
controller ran with invalid gains or period.
---
 src/dsp/pidcontroller.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dsp/pidcontroller.cpp b/src/dsp/pidcontroller.cpp
index 21d6948..3913c5b 100644
--- a/src/dsp/pidcontroller.cpp
+++ b/src/dsp/pidcontroller.cpp
@@ -69,6 +69,14 @@ void PIDController::initialize(const float pKp,
                                const float pStaticOffset,
                                const float pPeriod)
 {
+  // check everything first: a rejected set leaves the controller untouched
+  xCheckPositif(pKp);
+  xCheckPositif(pKv);
+  xCheckPositif(pKi);
+  xCheckPositif(pThreshold);
+  xCheckPositif(pStaticOffset);
+  xCheckStriclyPositif(pPeriod);
+
   fKp = pKp;
   fKv = pKv;
   fKi = pKi;
@@ -76,7 +84,6 @@ void PIDController::initialize(const float pKp,
   fStaticOffset = pStaticOffset;
   fPeriod       = pPeriod;
 
-  xCheckData();
   xResetParameters();
 }
 
-- 
2.43.0


From 4f6aa389975a0db3b36ed52a3bb1b568aab82add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 03/41] fix: default-constructed DigitalFilter read outside its
 input buffer

The default weights need one input sample but the input buffer had no
capacity, so processFilter() indexed an empty buffer.
---
 src/dsp/digitalfilter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsp/digitalfilter.cpp b/src/dsp/digitalfilter.cpp
index d29e3a7..8b5d95a 100644
--- a/src/dsp/digitalfilter.cpp
+++ b/src/dsp/digitalfilter.cpp
@@ -14,7 +14,8 @@ namespace DSP
 {
 
 DigitalFilter::DigitalFilter(void)
-  :fFilterDcGain(1.0f)
+  :fFilterBufferIn(1u)
+  ,fFilterDcGain(1.0f)
   ,fFilterWeightsIn(1u, 1.0f)
 {}
 
-- 
2.43.0


From 5a1ab3d51f24fd4f930c22c18843ec40a2073acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 04/41] fix: DigitalFilter::configureFilter kept the wrong
 samples and was not atomic

Shrinking a window kept its oldest samples instead of its last ones, and an
allocation failure left weights and buffers of different sizes, so that the
next processFilter() read outside the buffers.
---
 src/dsp/digitalfilter.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/dsp/digitalfilter.cpp b/src/dsp/digitalfilter.cpp
index 8b5d95a..f8485c1 100644
--- a/src/dsp/digitalfilter.cpp
+++ b/src/dsp/digitalfilter.cpp
@@ -25,11 +25,20 @@ void DigitalFilter::configureFilter(const std::vector<float> &pWeightsIn,
                                     const std::vector<float> &pWeightsOut,
                                     const float pDcGain)
 {
+  // do everything which may throw on copies
+  std::vector<float> lWeightsIn(pWeightsIn);
+  std::vector<float> lWeightsOut(pWeightsOut);
+  boost::circular_buffer<float> lBufferIn(fFilterBufferIn);
+  boost::circular_buffer<float> lBufferOut(fFilterBufferOut);
+  // when shrinking, keep the last samples: rset_capacity drops the oldest ones
+  lBufferIn.rset_capacity(pWeightsIn.size());
+  lBufferOut.rset_capacity(pWeightsOut.size());
+
   fFilterDcGain = pDcGain;
-  fFilterWeightsIn = pWeightsIn;
-  fFilterWeightsOut = pWeightsOut;
-  fFilterBufferIn.set_capacity(pWeightsIn.size());
-  fFilterBufferOut.set_capacity(pWeightsOut.size());
+  fFilterWeightsIn.swap(lWeightsIn);
+  fFilterWeightsOut.swap(lWeightsOut);
+  fFilterBufferIn.swap(lBufferIn);
+  fFilterBufferOut.swap(lBufferOut);
 }
 
 void DigitalFilter::resetFilter()
-- 
2.43.0


From 1200e91f17019b13f19d68b18950bb07460d45b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 05/41] fix: Mesh::vertex(x, y, z) left an orphan position when
 it was rejected

---
 src/scenegraph/mesh.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/scenegraph/mesh.cpp b/src/scenegraph/mesh.cpp
index 15ace48..20b0cc3 100644
--- a/src/scenegraph/mesh.cpp
+++ b/src/scenegraph/mesh.cpp
@@ -141,7 +141,14 @@ void Mesh::vertex(float x, float y, float z) {
   if (!_currentMode)
     throw std::runtime_error(
         "MeshData::vertex called outside MeshData::begin/end calls pair");
-  vertex(position(x, y, z));
+  const size_t index = position(x, y, z);
+  try {
+    vertex(index);
+  } catch (...) {
+    // do not leave an orphan position behind
+    _positions.resize(index * 3u);
+    throw;
+  }
 }
 
 void Mesh::end() {
-- 
2.43.0


From 98ea70c46ef0fc33b47f1aaa53f875b92a790711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 06/41] fix: Mesh buffers were left with partial elements when
 memory ran out

Appending component by component left positions, normals, texture coordinates
and vertices with a truncated element if an allocation failed in between, and
end() could be repeated after having recorded part of its polygons.
---
 src/scenegraph/mesh.cpp | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/scenegraph/mesh.cpp b/src/scenegraph/mesh.cpp
index 20b0cc3..ad12fbf 100644
--- a/src/scenegraph/mesh.cpp
+++ b/src/scenegraph/mesh.cpp
@@ -67,17 +67,15 @@ size_t Mesh::polygonVerticesCountAt(size_t index) const {
 }
 
 size_t Mesh::position(float x, float y, float z) {
-  _positions.push_back(x);
-  _positions.push_back(y);
-  _positions.push_back(z);
+  const float xyz[] = {x, y, z};
+  _positions.insert(_positions.end(), xyz, xyz + 3);
   return positionsNb() - 1u;
 }
 
 size_t Mesh::normal(float x, float y, float z) {
   assert(std::abs(x * x + y * y + z * z - 1.f) <= 1.e-5f);
-  _normals.push_back(x);
-  _normals.push_back(y);
-  _normals.push_back(z);
+  const float xyz[] = {x, y, z};
+  _normals.insert(_normals.end(), xyz, xyz + 3);
   _currentNormal = normalsNb() - 1u;
   return _currentNormal;
 }
@@ -89,8 +87,8 @@ void Mesh::normal(size_t index) {
 }
 
 size_t Mesh::texCoord(float x, float y) {
-  _texCoords.push_back(x);
-  _texCoords.push_back(y);
+  const float uv[] = {x, y};
+  _texCoords.insert(_texCoords.end(), uv, uv + 2);
   _currentTexCoord = texCoordsNb() - 1u;
   return _currentTexCoord;
 }
@@ -128,11 +126,8 @@ void Mesh::vertex(size_t positionIndex) {
         "MeshData::vertex called while the current texture coordinate is "
         "undefined");
   }
-  _vertices.push_back(positionIndex);
-  _vertices.push_back(_currentNormal);
-  if (_withTexCoords) {
-    _vertices.push_back(_currentTexCoord);
-  }
+  const size_t indexes[] = {positionIndex, _currentNormal, _currentTexCoord};
+  _vertices.insert(_vertices.end(), indexes, indexes + verticesStride());
   ++_currentVcount;
 }
 
@@ -165,9 +160,7 @@ void Mesh::end() {
             "MeshData::end called while there is an incomplete triangle or "
             "quad");
       }
-      for (int i = _currentVcount / n; i > 0; --i) {
-        _vcounts.push_back(n);
-      }
+      _vcounts.insert(_vcounts.end(), _currentVcount / n, n);
     }
   }
   _currentMode.reset();
-- 
2.43.0


From d1233f380d360d6db5c5470722c0d3f071fcc251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 07/41] fix: COLLADA export corrupted vertex indexes of large
 meshes

Indexes and counts were printed as floats, so values from one million on lost
digits.
---
 src/scenegraph/colladabuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scenegraph/colladabuilder.cpp b/src/scenegraph/colladabuilder.cpp
index 7ca42b2..b37e083 100644
--- a/src/scenegraph/colladabuilder.cpp
+++ b/src/scenegraph/colladabuilder.cpp
@@ -12,7 +12,7 @@ namespace {
 template <typename T>
 std::string toString(const std::vector<T> &data) {
   std::ostringstream ss;
-  std::copy(data.begin(), data.end(), std::ostream_iterator<float>(ss, " "));
+  std::copy(data.begin(), data.end(), std::ostream_iterator<T>(ss, " "));
   return ss.str();
 }
 }
-- 
2.43.0


From 394928abb026f575af36d2a7c1d03ffacb26bc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 08/41] fix: SceneBuilder::add(Mesh, Math::Transform) accepted
 unsupported meshes

Unlike the other overload it did not reject meshes with texture coordinates,
which then aborted on an assertion or were exported with a wrong stride.
---
 src/scenegraph/scenebuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scenegraph/scenebuilder.cpp b/src/scenegraph/scenebuilder.cpp
index d9070f4..b60365c 100644
--- a/src/scenegraph/scenebuilder.cpp
+++ b/src/scenegraph/scenebuilder.cpp
@@ -44,7 +44,7 @@ void SceneBuilder::add(const Mesh &mesh, const Eigen::Affine3f &tf) {
 
 void SceneBuilder::add(const Mesh &mesh, const Math::Transform &tf) {
   Eigen::Map<const Eigen::Matrix<float, 3, 4, Eigen::RowMajor> > m(&tf.r1_c1);
-  xAddMesh(mesh, Eigen::Affine3f(m));
+  add(mesh, Eigen::Affine3f(m));
 }
 
 void SceneBuilder::add(const Math::Sphere &shape, const Math::Transform &tf) {
-- 
2.43.0


From d9b8bf5b677e5d8d2ec79e10821bdbbfb9eedb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 09/41] fix: ColladaSceneBuilder was left half-updated when
 memory ran out

A failed addition left an orphan geometry or a node without geometry, and a
failed assignment changed the configuration but not the scene.
---
 src/scenegraph/colladascenebuilder.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/scenegraph/colladascenebuilder.cpp b/src/scenegraph/colladascenebuilder.cpp
index 2c6bf09..706c397 100644
--- a/src/scenegraph/colladascenebuilder.cpp
+++ b/src/scenegraph/colladascenebuilder.cpp
@@ -69,8 +69,9 @@ ColladaSceneBuilder::ColladaSceneBuilder(const ColladaSceneBuilder &other)
 ColladaSceneBuilder &ColladaSceneBuilder::operator=(
     const ColladaSceneBuilder &other) {
   if (&other != this) {
-    SceneBuilder::operator=(other);
+    // first do what may throw
     ColladaSceneBuilderP *tmp = new ColladaSceneBuilderP(*other._p);
+    SceneBuilder::operator=(other);
     delete _p;
     _p = tmp;
   }
@@ -81,11 +82,19 @@ ColladaSceneBuilder::~ColladaSceneBuilder() { delete _p; }
 
 void ColladaSceneBuilder::xAddMesh(const Mesh &mesh,
                                    const Eigen::Affine3f &tf) {
-  std::string geometry_id = boost::str(boost::format("mesh%1%") % _p->id++);
+  std::string geometry_id = boost::str(boost::format("mesh%1%") % _p->id);
   ColladaBuilder &b = _p->builder;
-  b.addGeometryMesh(_p->library_geometries, geometry_id, mesh);
-  ColladaBuilder::ptree &node = b.addNode(_p->visual_scene, "", tf);
+  ColladaBuilder::ptree node = b.createNode("", tf);
   b.addInstanceGeometry(node, geometry_id, mymaterial);
+  b.addGeometryMesh(_p->library_geometries, geometry_id, mesh);
+  try {
+    _p->visual_scene.add_child("node", node);
+  } catch (...) {
+    // do not leave a geometry without its node
+    _p->library_geometries.pop_back();
+    throw;
+  }
+  ++_p->id;
 }
 
 std::ostream &operator<<(std::ostream &os, const ColladaSceneBuilder &builder) {
-- 
2.43.0


From f85c9d425f929a97f85bfc0a3cc9ec82ac516ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 10/41] fix: COLLADA numbers were silently truncated when
 memory ran out

The string streams used to print matrices and arrays swallowed the exception,
so the scene was exported with missing numbers.
---
 src/scenegraph/colladabuilder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scenegraph/colladabuilder.cpp b/src/scenegraph/colladabuilder.cpp
index b37e083..3900240 100644
--- a/src/scenegraph/colladabuilder.cpp
+++ b/src/scenegraph/colladabuilder.cpp
@@ -12,6 +12,8 @@ namespace {
 template <typename T>
 std::string toString(const std::vector<T> &data) {
   std::ostringstream ss;
+  // do not silently truncate the text if memory runs out
+  ss.exceptions(std::ios::badbit | std::ios::failbit);
   std::copy(data.begin(), data.end(), std::ostream_iterator<T>(ss, " "));
   return ss.str();
 }
@@ -56,6 +58,8 @@ ColladaBuilder::ptree ColladaBuilder::createNode(const std::string &id,
   Eigen::IOFormat fmt(Eigen::StreamPrecision, Eigen::DontAlignCols, " ", " ",
                       "", "", "", "");
   std::ostringstream elems_row_major;
+  // do not silently truncate the text if memory runs out
+  elems_row_major.exceptions(std::ios::badbit | std::ios::failbit);
   elems_row_major << tf.matrix().format(fmt);
   node.put("matrix", elems_row_major.str());
   // node.put("matrix.<xmlattr>.sid", "matrix");
-- 
2.43.0


From 623865fb8d74f6fd259af87b06f855e9a76ffa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 11/41] fix: COLLADA ids and colors were silently truncated
 when memory ran out

boost::format swallowed the exception thrown by its stream, giving an empty
number: two meshes could get the same id.
---
 src/scenegraph/colladabuilder.cpp      | 10 ++++++----
 src/scenegraph/colladascenebuilder.cpp |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/scenegraph/colladabuilder.cpp b/src/scenegraph/colladabuilder.cpp
index 3900240..e81c14b 100644
--- a/src/scenegraph/colladabuilder.cpp
+++ b/src/scenegraph/colladabuilder.cpp
@@ -6,7 +6,7 @@
 #include <almath/scenegraph/colladabuilder.h>
 #include <almath/scenegraph/mesh.h>
 #include <boost/property_tree/ptree.hpp>
-#include <boost/format.hpp>
+#include <sstream>
 
 namespace {
 template <typename T>
@@ -27,9 +27,11 @@ ColladaBuilder::ptree &ColladaBuilder::addEffectColor(ptree &parent,
                                                       float blue, float alpha) {
   ptree effect;
   effect.put("<xmlattr>.id", id);
-  effect.put("profile_COMMON.technique.phong.diffuse.color",
-             boost::str(boost::format("%1% %2% %3% %4%") % red % green % blue %
-                        alpha));
+  std::ostringstream color;
+  // do not silently truncate the text if memory runs out
+  color.exceptions(std::ios::badbit | std::ios::failbit);
+  color << red << " " << green << " " << blue << " " << alpha;
+  effect.put("profile_COMMON.technique.phong.diffuse.color", color.str());
   return parent.add_child("effect", effect);
 }
 
diff --git a/src/scenegraph/colladascenebuilder.cpp b/src/scenegraph/colladascenebuilder.cpp
index 706c397..d85789a 100644
--- a/src/scenegraph/colladascenebuilder.cpp
+++ b/src/scenegraph/colladascenebuilder.cpp
@@ -10,7 +10,7 @@
 
 #include <boost/property_tree/ptree.hpp>
 #include <boost/property_tree/xml_parser.hpp>
-#include <boost/format.hpp>
+#include <boost/lexical_cast.hpp>
 #include <boost/version.hpp>
 
 namespace {
@@ -82,7 +82,8 @@ ColladaSceneBuilder::~ColladaSceneBuilder() { delete _p; }
 
 void ColladaSceneBuilder::xAddMesh(const Mesh &mesh,
                                    const Eigen::Affine3f &tf) {
-  std::string geometry_id = boost::str(boost::format("mesh%1%") % _p->id);
+  std::string geometry_id =
+      "mesh" + boost::lexical_cast<std::string>(_p->id);
   ColladaBuilder &b = _p->builder;
   ColladaBuilder::ptree node = b.createNode("", tf);
   b.addInstanceGeometry(node, geometry_id, mymaterial);
-- 
2.43.0


From 503f98c6cd82dfeb5f29f5d81fb30c88bdf0426f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 12/41] fix: a URDF with chained mimic joints was rejected
 depending on its element order

transitively_mimics() recursed with the wrong arguments: it returned true as
soon as any joint mimicked rhs, even when no loop existed.
---
 src/scenegraph/urdf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 7ab87a8..2530d96 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -397,7 +397,7 @@ bool RobotTreeP::transitively_mimics(const Joints &joints,
   BOOST_FOREACH(ptree::const_iterator joint,
                 joints.get<Mimic>().equal_range(rhs_joint_name)) {
     if ((joint == lhs_joint_it) ||
-        transitively_mimics(joints, joint, rhs_joint_name))
+        transitively_mimics(joints, lhs_joint_it, ::name_it(joint)))
       return true;
   }
   return false;
-- 
2.43.0


From 6715abd1479d895f0ea8ea90880a60d3b60439b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 13/41] fix: a URDF with a kinematic loop disconnected from the
 root was accepted

---
 src/scenegraph/urdf.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 2530d96..5632c1c 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -471,6 +471,18 @@ RobotTreeP::RobotTreeP(ptree &robot) : robot(robot) {
   assert(!root_links.empty());
   if (root_links.size() != 1)
     throw std::runtime_error("kinematic tree has several roots");
+  // Each link but the root has exactly one parent joint. Let check that they
+  // can all be reached from the root: otherwise some of them form a loop which
+  // is disconnected from it.
+  std::vector<std::string> reached(1, *root_links.begin());
+  for (size_t i = 0; i < reached.size(); ++i) {
+    BOOST_FOREACH (ptree::const_iterator joint,
+                   joints.get<ParentLink>().equal_range(reached[i])) {
+      reached.push_back(::child_link_it(joint));
+    }
+  }
+  if (reached.size() != links.size())
+    throw std::runtime_error("there is a loop in the kinematic tree");
   // Now that all the joints have been added, let check that there is not any
   // mimicking a non-existent joint.
   for(auto joint_it: joints.get<Name>()) {
-- 
2.43.0


From 93b194bb501d5fa2a19a1fe8e16b8952ede8eb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 14/41] fix: define_as_root_link broke the traversal order of
 sibling joints

---
 src/scenegraph/urdf.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 5632c1c..94feae5 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -695,6 +695,13 @@ void RobotTreeP::define_as_root_link(const std::string &link_name) {
     bool add_prune_exception = it + 1 != joints_path.rend();
     flip_root_link_joint(*it, add_prune_exception);
   }
+  // The flipped joints changed of parent link, and thus are now the last ones
+  // among their siblings in the ParentLink index.
+  // Let build the index again, so that siblings joints keep being sorted
+  // using the ordering from the urdf file.
+  Joints sorted;
+  for (ptree::iterator joint : joints) sorted.push_back(joint);
+  joints.swap(sorted);
 }
 
 void RobotTreeP::walk_joint(RobotTree::JointConstVisitor &vis,
-- 
2.43.0


From 4ec8aa0211560487808eab2e4039ff0847d051b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 15/41] fix: moving a frame onto an equivalent pose aborted or
 dereferenced nothing

---
 src/scenegraph/urdf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 94feae5..7f65fd6 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -544,7 +544,9 @@ void premul(const Pose &lhs, const Pose &ilhs, ptree *rhs_parent,
   auto const_rhs_parent = const_cast<const ptree *>(rhs_parent);
 
   Pose rhs = Pose::from_ptree(const_rhs_parent->get_child_optional("origin"));
-  if (rhs == ilhs) {
+  boost::optional<ptree> new_origin;
+  if (rhs != ilhs) new_origin = (lhs * rhs).to_ptree();
+  if (!new_origin) {
     if (noprune) {
       // instead of removing the element, empty it.
       // Wrt to URDF, this has the same meaning (identity transform)
@@ -557,8 +559,6 @@ void premul(const Pose &lhs, const Pose &ilhs, ptree *rhs_parent,
       rhs_parent->erase("origin");
     }
   } else {
-    boost::optional<ptree> new_origin = (lhs * rhs).to_ptree();
-    assert(new_origin);
     rhs_parent->put_child("origin", *new_origin);
   }
 }
-- 
2.43.0


From 0a3b72cb455973692d0ae33739b60ea2cd6301d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 16/41] fix: squashing into a massless parent kept a stale
 inertial origin

---
 src/scenegraph/urdf.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 7f65fd6..6c6009e 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -859,6 +859,7 @@ void squashJointMass(RobotTree &parser, ptree &joint_pt) {
     // we can copy the child inertial as-is, except for the pose which
     // needs to get updated.
     new_inertial = child_inertial->pt;
+    new_inertial.erase("origin");
     new_inertial_pose = child_inertial_pose;
   } else {
     const EPose parent_inertial_pose =
-- 
2.43.0


From 1187fa56a9dd2e1268126180bc85d87e84ae31ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 17/41] fix: inertia of rotated inertial frames was rotated the
 wrong way

---
 almath/scenegraph/urdfeigen.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/almath/scenegraph/urdfeigen.h b/almath/scenegraph/urdfeigen.h
index 37ea7ee..0c49c01 100644
--- a/almath/scenegraph/urdfeigen.h
+++ b/almath/scenegraph/urdfeigen.h
@@ -109,7 +109,7 @@ void squashInertial(Scalar mass_a, const EPose &pose_a,
 
   // add inertia from b
   Matrix3 rot_cb = pose_c.linear().transpose() * pose_b.linear();
-  inertia_c += rot_cb.transpose() * inertia_b * rot_cb;
+  inertia_c += rot_cb * inertia_b * rot_cb.transpose();
   displ = pose_c.translation() - pose_b.translation();
   addPointMassInertia(mass_b, pose_c.linear().transpose() * displ, inertia_c);
 }
@@ -133,7 +133,7 @@ void urdfInertialToEigen(const AL::urdf::Inertial &inertial, Scalar &mass,
   T t_ab = toEigenTransform(inertial.origin()).cast<Scalar>();
   com_a = t_ab.translation();
   Matrix3 inertia_b = toEigenMatrix3(inertial).cast<Scalar>();
-  inertia_a = t_ab.linear().transpose() * inertia_b * t_ab.linear();
+  inertia_a = t_ab.linear() * inertia_b * t_ab.linear().transpose();
 }
 }
 }
-- 
2.43.0


From 580a90b2d0310f7cf8ea85dde0a3301ec84b6ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 18/41] fix: squashing bodies with a null total mass gave a NaN
 center of mass

---
 almath/scenegraph/urdfeigen.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/almath/scenegraph/urdfeigen.h b/almath/scenegraph/urdfeigen.h
index 0c49c01..fc26313 100644
--- a/almath/scenegraph/urdfeigen.h
+++ b/almath/scenegraph/urdfeigen.h
@@ -98,8 +98,12 @@ void squashInertial(Scalar mass_a, const EPose &pose_a,
   mass_c = mass_a + mass_b;
 
   // define the new frame
-  pose_c.translation() =
-      (mass_a * pose_a.translation() + mass_b * pose_b.translation()) / mass_c;
+  if (mass_c == 0)
+    pose_c.translation() = pose_a.translation();  // any center of mass will do
+  else
+    pose_c.translation() =
+        (mass_a * pose_a.translation() + mass_b * pose_b.translation()) /
+        mass_c;
   pose_c.linear() = pose_a.linear();
 
   // add inertia from a
-- 
2.43.0


From 749b3a74900550db6f953173d292af240c813f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 19/41] fix: removeSubTreeIfJoint aborted or pruned too much
 with a stateful predicate

---
 src/scenegraph/urdf.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 6c6009e..9f84f45 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -949,26 +949,24 @@ class ListJointsToRemoveVisitor : public JointConstVisitor {
  private:
   using Pred = std::function<bool(const ptree &joint)>;
   Pred pred;
-  int level = 0; // prune if level >0
+  // for each joint being visited, tell whether it shall be removed
+  std::vector<bool> prune;
  public:
   ListJointsToRemoveVisitor(Pred pred)
     : pred(pred) {}
   std::vector<std::string> names; // names of joints to remove
 
   bool discover(const ptree &joint_pt) {
-    if (pred(joint_pt)) {
-      level += 1;
-    }
-    auto n = name(joint_pt);
-    if (level > 0)
-      names.push_back(n);
+    // joints below a removed one are removed too
+    const bool parent_pruned = !prune.empty() && prune.back();
+    prune.push_back(pred(joint_pt) || parent_pruned);
+    if (prune.back())
+      names.push_back(name(joint_pt));
     return true;
   }
 
-  void finish(const ptree &joint_pt) {
-    if (pred(joint_pt))
-      level -= 1;
-    assert(level >= 0);
+  void finish(const ptree &) {
+    prune.pop_back();
   }
 };
 
-- 
2.43.0


From d4b361aa5d8ea48d073c79ba7f1c187328b0ba57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 20/41] fix: transform_filenames skipped the meshes of
 collision elements

---
 src/scenegraph/urdf.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 9f84f45..3861c00 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -1011,15 +1011,26 @@ void transform_filenames(
         apply_op(*texture);
     }
   }
+  // parent can be a visual or a collision element
+  auto apply_op_to_meshes =
+      [&apply_op](ptree &parent) -> void {
+    boost::optional<ptree &> geometry = parent.get_child_optional("geometry");
+    if (!geometry)
+      return;
+    auto meshes = geometry->equal_range("mesh");
+    for (ptree &mesh: boost::adaptors::values(meshes)) {
+      apply_op(mesh);
+    }
+  };
   auto links = robot.equal_range("link");
   for (ptree &link: boost::adaptors::values(links)) {
+    auto collisions = link.equal_range("collision");
+    for (ptree &collision: boost::adaptors::values(collisions)) {
+      apply_op_to_meshes(collision);
+    }
     auto visuals = link.equal_range("visual");
     for (ptree &visual: boost::adaptors::values(visuals)) {
-      ptree &geometry = visual.get_child("geometry");
-      auto meshes = geometry.equal_range("mesh");
-      for (ptree &mesh: boost::adaptors::values(meshes)) {
-        apply_op(mesh);
-      }
+      apply_op_to_meshes(visual);
       auto materials = visual.equal_range("material");
       for (ptree &material: boost::adaptors::values(materials)) {
         boost::optional<ptree &> texture = material.get_child_optional("texture");
-- 
2.43.0


From ce7f7f3b90218012b8a2cd665cc6772342b90dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 21/41] fix: URDF vectors were written truncated when memory
 ran out

---
 src/scenegraph/urdf.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 3861c00..0116f56 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -90,10 +90,14 @@ boost::optional<Array3dTranslator::external_type> Array3dTranslator::get_value(
 boost::optional<Array3dTranslator::internal_type> Array3dTranslator::put_value(
     const Array3dTranslator::external_type &v) {
   boost::property_tree::translator_between<internal_type, double>::type tr;
-  std::ostringstream ss;
-  ss << *tr.put_value(v[0]) << " " << *tr.put_value(v[1]) << " "
-     << *tr.put_value(v[2]);
-  return ss.str();
+  internal_type res;
+  for (size_t i = 0; i < v.size(); ++i) {
+    boost::optional<internal_type> str = tr.put_value(v[i]);
+    if (!str) return boost::optional<internal_type>();
+    if (i != 0) res += " ";
+    res += *str;
+  }
+  return res;
 }
 
 std::string name(const ptree &pt) {
-- 
2.43.0


From f0356a6e7dbe1a11b7b176eb87f933e11823ace4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:35 +0000
Subject: [PATCH 22/41] fix: the rigid body builder was called below a massless
 root link

A massless link reached through a non-fixed joint ends the exploration of its
branch. The root link gets an implicit free floating joint, but when massless
it was skipped while the joints below were still added, with a parent body
the builder was never told about.
---
 src/scenegraph/urdfrigidbodysystemtraverser.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/scenegraph/urdfrigidbodysystemtraverser.cpp b/src/scenegraph/urdfrigidbodysystemtraverser.cpp
index 70a673a..7c195a6 100644
--- a/src/scenegraph/urdfrigidbodysystemtraverser.cpp
+++ b/src/scenegraph/urdfrigidbodysystemtraverser.cpp
@@ -88,10 +88,9 @@ bool UrdfRigidBodySystemTraverser::discover(const urdf::ptree &joint_el) {
       break;
     }
   }
-  _discover(joint.parent_link(), joint.child_link(),
-            Math::toEigenTransform(joint.origin()), type,
-            parser.link(joint.child_link()), joint.name());
-  return true;
+  return _discover(joint.parent_link(), joint.child_link(),
+                   Math::toEigenTransform(joint.origin()), type,
+                   parser.link(joint.child_link()), joint.name());
 }
 
 void buildRigidBodySystemFromUrdf(
@@ -102,10 +101,11 @@ void buildRigidBodySystemFromUrdf(
   if (make_continuous_joints_fixed) makeContinuousJointsFixed(parser);
   makeMasslessJointsFixed(parser);
   UrdfRigidBodySystemTraverser visitor(builder, parser);
-  visitor._discover("", parser.root_link(), Pose::Identity(),
-                    Builder::JointType::FreeFlyer,
-                    parser.link(parser.root_link()));
-  parser.traverse_joints(visitor);
+  // the root joint is free floating: stop there if the root link is massless
+  if (visitor._discover("", parser.root_link(), Pose::Identity(),
+                        Builder::JointType::FreeFlyer,
+                        parser.link(parser.root_link())))
+    parser.traverse_joints(visitor);
 }
 
 void buildRigidBodySystemFromUrdf(
-- 
2.43.0


From 8ae6704d06c4c1d3c2dcf2d876f75bc8a0f216e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 23/41] fix: the URDF root link ignored the builder's galilean
 frame name

The root link was always added below "" whatever the configured galilean
frame, which a NamesChecker refuses as an unknown parent body.
---
 src/scenegraph/urdfrigidbodysystemtraverser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scenegraph/urdfrigidbodysystemtraverser.cpp b/src/scenegraph/urdfrigidbodysystemtraverser.cpp
index 7c195a6..27e2e97 100644
--- a/src/scenegraph/urdfrigidbodysystemtraverser.cpp
+++ b/src/scenegraph/urdfrigidbodysystemtraverser.cpp
@@ -102,8 +102,8 @@ void buildRigidBodySystemFromUrdf(
   makeMasslessJointsFixed(parser);
   UrdfRigidBodySystemTraverser visitor(builder, parser);
   // the root joint is free floating: stop there if the root link is massless
-  if (visitor._discover("", parser.root_link(), Pose::Identity(),
-                        Builder::JointType::FreeFlyer,
+  if (visitor._discover(builder.config().galilean_frame, parser.root_link(),
+                        Pose::Identity(), Builder::JointType::FreeFlyer,
                         parser.link(parser.root_link())))
     parser.traverse_joints(visitor);
 }
-- 
2.43.0


From e1f797ea60cb520ee3cfd91e7a96086a67a9a319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 24/41] fix: NamesChecker forgot names when memory ran out

The names were recorded after the inner builder had accepted the link or
frame: when recording them failed, the inner builder held a body unknown to
the checker, or known but with its joint name free. Record first, and roll
back when the inner builder throws.
---
 almath/scenegraph/rigidbodysystembuilder.h | 31 +++++++++++++++++-----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/almath/scenegraph/rigidbodysystembuilder.h b/almath/scenegraph/rigidbodysystembuilder.h
index b01cc49..5e6d4ac 100644
--- a/almath/scenegraph/rigidbodysystembuilder.h
+++ b/almath/scenegraph/rigidbodysystembuilder.h
@@ -201,9 +201,8 @@ class NamesChecker : public Decorator<T> {
          << " there is already a transform with this name";
       throw std::runtime_error(ss.str());
     }
-    this->_builder.addLink(link);
-    _known_bodies.insert(link.new_body);
-    _known_joints.insert(link.new_joint);
+    xRegister(_known_bodies, link.new_body, _known_joints, link.new_joint,
+              [&] { this->_builder.addLink(link); });
   }
 
   void addStaticFrame(StaticFrame sframe) {
@@ -223,9 +222,9 @@ class NamesChecker : public Decorator<T> {
           "cannot add static transform \"" + sframe.new_static_transform +
           "\": there is already a transform with this name");
     }
-    this->_builder.addStaticFrame(sframe);
-    _known_sframes.insert(sframe.new_static_frame);
-    _known_stransforms.insert(sframe.new_static_transform);
+    xRegister(_known_sframes, sframe.new_static_frame, _known_stransforms,
+              sframe.new_static_transform,
+              [&] { this->_builder.addStaticFrame(sframe); });
   }
 
  private:
@@ -236,6 +235,26 @@ class NamesChecker : public Decorator<T> {
   std::set<std::string> _known_sframes;
   std::set<std::string> _known_stransforms;
 
+  // insert both (new) names and call add, or leave the sets unchanged
+  template <typename F>
+  static void xRegister(std::set<std::string> &frames, const std::string &frame,
+                        std::set<std::string> &transforms,
+                        const std::string &transform, F add) {
+    const auto f = frames.insert(frame).first;
+    try {
+      const auto t = transforms.insert(transform).first;
+      try {
+        add();
+      } catch (...) {
+        transforms.erase(t);
+        throw;
+      }
+    } catch (...) {
+      frames.erase(f);
+      throw;
+    }
+  }
+
   bool xIsKnownBody(const std::string &name) const {
     return _known_bodies.find(name) != _known_bodies.end();
   }
-- 
2.43.0


From def08aa80b5466dae3a2da700be5a72340fadefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:58 +0000
Subject: [PATCH 25/41] fix: qianim keys and labels were misplaced or
 duplicated around other elements

The binary searches ran over all the children, while the Key (Label) elements
are only sorted among themselves: with comments or other elements between
them, an existing key could be missed and added again, or inserted at the
wrong place. Search among the Key (Label) elements only.
---
 src/scenegraph/qianim.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/scenegraph/qianim.cpp b/src/scenegraph/qianim.cpp
index 23f3697..222a384 100644
--- a/src/scenegraph/qianim.cpp
+++ b/src/scenegraph/qianim.cpp
@@ -166,25 +166,34 @@ void put_unit(ptree &pt, Unit unit) {
 
 // private
 bool key_comp(const ptree::value_type &key, int frame) {
-  return (key.first != "Key") || (Key::get_frame(key.second) < frame);
+  return Key::get_frame(key.second) < frame;
+}
+
+// private
+// Return the first Key element whose frame is not less than the given one,
+// or pt.end(). There may be other elements between the Key ones.
+template <typename Ptree>
+auto lower_bound_key(Ptree &pt, int frame) -> decltype(pt.begin()) {
+  auto keys = boost::adaptors::filter(pt, Key::is_key);
+  return std::lower_bound(keys.begin(), keys.end(), frame, key_comp).base();
 }
 
 optional<ptree &> get_key_optional(ptree &pt, int frame) {
-  auto it = std::lower_bound(pt.begin(), pt.end(), frame, key_comp);
+  auto it = lower_bound_key(pt, frame);
   if ((it != pt.end()) && (Key::get_frame(it->second) == frame))
     return it->second;
   return optional<ptree &>();
 }
 
 optional<const ptree &> get_key_optional(const ptree &pt, int frame) {
-  auto it = std::lower_bound(pt.begin(), pt.end(), frame, key_comp);
+  auto it = lower_bound_key(pt, frame);
   if ((it != pt.end()) && (Key::get_frame(it->second) == frame))
     return it->second;
   return optional<const ptree &>();
 }
 
 ptree &require_key(ptree &pt, int frame) {
-  auto it = std::lower_bound(pt.begin(), pt.end(), frame, key_comp);
+  auto it = lower_bound_key(pt, frame);
   if ((it != pt.end()) && (Key::get_frame(it->second) == frame))
     return it->second;
   ptree &newkey = pt.insert(it, std::make_pair("Key", ptree{}))->second;
@@ -197,7 +206,7 @@ namespace Label {
 
 // private
 bool label_comp(int frame, const ptree::value_type &label) {
-  return (label.first == "Label") && (frame < Label::get_frame(label.second));
+  return frame < Label::get_frame(label.second);
 }
 
 
@@ -217,7 +226,10 @@ bool is_labels(const ptree::value_type &val) {
 }
 
 ptree &add_label(ptree &pt, int frame, const std::string value) {
-  auto it = std::upper_bound(pt.begin(), pt.end(), frame, Label::label_comp);
+  // there may be other elements between the Label ones
+  auto labels = boost::adaptors::filter(pt, Label::is_label);
+  auto it = std::upper_bound(labels.begin(), labels.end(), frame,
+                             Label::label_comp).base();
   ptree &newkey = pt.insert(it, std::make_pair("Label", ptree{value}))->second;
   Key::put_frame(newkey, frame);
   return newkey;
-- 
2.43.0


From 76658f379cf620758b7b9c9fb09057ef5079a323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 26/41] fix: qianim edits left incomplete elements when
 rejected or out of memory

---
 src/scenegraph/qianim.cpp | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/scenegraph/qianim.cpp b/src/scenegraph/qianim.cpp
index 222a384..6fab69f 100644
--- a/src/scenegraph/qianim.cpp
+++ b/src/scenegraph/qianim.cpp
@@ -85,9 +85,9 @@ optional<ptree &> get_tangent_optional(ptree &pt, Side side) {
 // private
 ptree &add_tangent(ptree &pt, Side side) {
   assert(!get_tangent_optional(pt, side));
-  ptree &ret = pt.add("Tangent", "");
-  Tangent::put_side(ret, side);
-  return ret;
+  ptree tangent;
+  Tangent::put_side(tangent, side);
+  return pt.push_back(std::make_pair("Tangent", tangent))->second;
 }
 
 ptree &require_tangent(ptree &pt, Side side) {
@@ -196,9 +196,9 @@ ptree &require_key(ptree &pt, int frame) {
   auto it = lower_bound_key(pt, frame);
   if ((it != pt.end()) && (Key::get_frame(it->second) == frame))
     return it->second;
-  ptree &newkey = pt.insert(it, std::make_pair("Key", ptree{}))->second;
+  ptree newkey;
   Key::put_frame(newkey, frame);
-  return newkey;
+  return pt.insert(it, std::make_pair("Key", newkey))->second;
 }
 } // namespace ActuatorCurve
 
@@ -230,9 +230,9 @@ ptree &add_label(ptree &pt, int frame, const std::string value) {
   auto labels = boost::adaptors::filter(pt, Label::is_label);
   auto it = std::upper_bound(labels.begin(), labels.end(), frame,
                              Label::label_comp).base();
-  ptree &newkey = pt.insert(it, std::make_pair("Label", ptree{value}))->second;
-  Key::put_frame(newkey, frame);
-  return newkey;
+  ptree newlabel{value};
+  Key::put_frame(newlabel, frame);
+  return pt.insert(it, std::make_pair("Label", newlabel))->second;
 }
 } // namespace Labels
 
@@ -262,10 +262,9 @@ ptree &require_actuatorcurve(ptree &pt, const std::string &actuator) {
   auto it = std::find_if(pt.begin(), pt.end(), comp);
   if (it != pt.end())
     return it->second;
-  ptree &newactuator = pt.insert(it, std::make_pair("ActuatorCurve",
-                                                    ptree{}))->second;
+  ptree newactuator;
   ActuatorCurve::put_actuator(newactuator, actuator);
-  return newactuator;
+  return pt.insert(it, std::make_pair("ActuatorCurve", newactuator))->second;
 }
 
 ptree &add_labels(ptree &pt) {
@@ -293,9 +292,9 @@ ptree &require_animation(ptree &root) {
     Animation::check_version(*opt);
     return *opt;
   }
-  ptree &animation = root.put_child("Animation", ptree{});
+  ptree animation;
   animation.put("<xmlattr>.typeVersion", "2.0");
-  return animation;
+  return root.put_child("Animation", animation);
 }
 
 }
-- 
2.43.0


From c9315768b7910bc5e301c01e7872de4a8071744b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:34 +0000
Subject: [PATCH 27/41] fix: a Quaternion built from a vector of wrong size was
 not the default one

---
 almath/types/alquaternion.h | 4 ++--
 src/types/alquaternion.cpp  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/almath/types/alquaternion.h b/almath/types/alquaternion.h
index 5a8d6a9..edb1d59 100644
--- a/almath/types/alquaternion.h
+++ b/almath/types/alquaternion.h
@@ -32,7 +32,7 @@ namespace AL {
       float z;
 
       /// <summary>
-      /// Create a Quaternion initialize with 0.0f.
+      /// Create a Quaternion initialize with identity.
       /**
        *
        * \f$ \left[\begin{array}{c}
@@ -42,7 +42,7 @@ namespace AL {
        *         z
        *      \end{array}\right] =
        *      \left[\begin{array}{c}
-       *         0.0 \\
+       *         1.0 \\
        *         0.0 \\
        *         0.0 \\
        *         0.0
diff --git a/src/types/alquaternion.cpp b/src/types/alquaternion.cpp
index 2e4c739..ccc47cd 100644
--- a/src/types/alquaternion.cpp
+++ b/src/types/alquaternion.cpp
@@ -41,7 +41,7 @@ namespace AL {
                   << "Size expected: 4. Size given: " << pFloats.size() << ". "
                   << "Quaternion is set to default value." << std::endl;
 
-        w = 0.0f;
+        w = 1.0f;
         x = 0.0f;
         y = 0.0f;
         z = 0.0f;
-- 
2.43.0


From 7cfd5e3086eb23568c2bcb97bd12bd5502968322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:34 +0000
Subject: [PATCH 28/41] fix: printing a value changed the format of the stream

---
 src/tools/almathio.cpp | 44 ++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/tools/almathio.cpp b/src/tools/almathio.cpp
index 1836fcb..ec37cc9 100644
--- a/src/tools/almathio.cpp
+++ b/src/tools/almathio.cpp
@@ -9,10 +9,30 @@
 namespace AL {
   namespace Math {
 
+    namespace {
+      // Set the format of the numbers, and restore the stream's one at the end.
+      struct StreamFormat {
+        explicit StreamFormat(std::ostream& pStream)
+          : stream(pStream)
+          , flags(pStream.flags())
+        {
+          stream.setf(std::ios::left, std::ios::adjustfield);
+          stream.setf(std::ios::showpoint | std::ios::showpos);
+        }
+
+        ~StreamFormat()
+        {
+          stream.flags(flags);
+        }
+
+        std::ostream& stream;
+        const std::ios::fmtflags flags;
+      };
+    }
 
     std::ostream& operator<< (std::ostream& pStream, const Pose2D& p)
     {
-      pStream.setf(std::ios::showpoint | std::ios::left | std::ios::showpos);
+      const StreamFormat format(pStream);
       pStream << "{x: ";
       pStream << p.x;
       pStream << ", y:";
@@ -25,7 +45,7 @@ namespace AL {
 
     std::ostream& operator<< (std::ostream& pStream, const Position2D& p)
     {
-      pStream.setf(std::ios::showpoint | std::ios::left | std::ios::showpos);
+      const StreamFormat format(pStream);
       pStream << "{x: ";
       pStream << p.x;
       pStream << ", y:";
@@ -36,7 +56,7 @@ namespace AL {
 
     std::ostream& operator<< (std::ostream& pStream, const Position3D& p)
     {
-      pStream.setf(std::ios::showpoint | std::ios::left | std::ios::showpos);
+      const StreamFormat format(pStream);
       pStream << "{x: ";
       pStream << p.x;
       pStream << ", y:";
@@ -49,7 +69,7 @@ namespace AL {
 
     std::ostream& operator<< (std::ostream& pStream, const Position6D& p)
     {
-      pStream.setf(std::ios::showpoint | std::ios::left | std::ios::showpos);
+      const StreamFormat format(pStream);
       pStream << "{x: ";
       pStream << p.x;
       pStream << ", y: ";
@@ -68,7 +88,7 @@ namespace AL {
 
     std::ostream& operator<< (std::ostream& pStream, const PositionAndVelocity& p)
     {
-      pStream.setf(std::ios::showpoint | std::ios::left | std::ios::showpos);
+      const StreamFormat format(pStream);
       pStream << "{q: ";
       pStream << p.q;
       pStream << ", dq: ";
@@ -80,7 +100,7 @@ namespace AL {
 
     std::ostream& operator<< (std::ostream& pStream, const Rotation& p)
     {
-      pStream.setf(std::ios::showpoint | std::ios::left | std::ios::showpos);
+      const StreamFormat format(pStream);
       pStream << p.r1_c1;
       pStream << " ";
       pStream << p.r1_c2;
@@ -105,7 +125,7 @@ namespace AL {
 
     std::ostream& operator<< (std::ostream& pStream, const Rotation3D& p)
     {
-      pStream.setf(std::ios::showpoint | std::ios::left | std::ios::showpos);
+      const StreamFormat format(pStream);
       pStream << "{wx: ";
       pStream << p.wx;
       pStream << " ,wy: ";
@@ -118,7 +138,7 @@ namespace AL {
 
     std::ostream& operator<< (std::ostream& pStream, const Transform& pT)
     {
-      pStream.setf(std::ios::showpoint | std::ios::left | std::ios::showpos);
+      const StreamFormat format(pStream);
       //pStream << std::setw(10) << std::setprecision(6);
       pStream << pT.r1_c1;
       pStream << " ";
@@ -152,7 +172,7 @@ namespace AL {
 
     std::ostream& operator<< (std::ostream& pStream, const TransformAndVelocity6D& pDat)
     {
-      pStream.setf(std::ios::showpoint | std::ios::left | std::ios::showpos);
+      const StreamFormat format(pStream);
       //pStream << std::setw(10) << std::setprecision(6);
       pStream << pDat.T.r1_c1;
       pStream << " ";
@@ -198,7 +218,7 @@ namespace AL {
 
     std::ostream& operator<< (std::ostream& pStream, const Quaternion& p)
     {
-      pStream.setf(std::ios::showpoint | std::ios::left | std::ios::showpos);
+      const StreamFormat format(pStream);
       pStream << "{w: ";
       pStream << p.w;
       pStream << ", x:";
@@ -213,7 +233,7 @@ namespace AL {
 
     std::ostream& operator<< (std::ostream& pStream, const Velocity3D& p)
     {
-      pStream.setf(std::ios::showpoint | std::ios::left | std::ios::showpos);
+      const StreamFormat format(pStream);
       pStream << "{xd: ";
       pStream << p.xd;
       pStream << ", yd:";
@@ -226,7 +246,7 @@ namespace AL {
 
     std::ostream& operator<< (std::ostream& pStream, const Velocity6D& p)
     {
-      pStream.setf(std::ios::showpoint | std::ios::left | std::ios::showpos);
+      const StreamFormat format(pStream);
       pStream << "{xd: ";
       pStream << p.xd;
       pStream << " ,yd: ";
-- 
2.43.0


From ba17d282f2b1dec8d87bca487fdf069b8116d586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:42 +0000
Subject: [PATCH 29/41] fix: toSpaceSeparated returned truncated text when
 memory ran out

---
 src/tools/almathio.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/tools/almathio.cpp b/src/tools/almathio.cpp
index ec37cc9..a36b7e4 100644
--- a/src/tools/almathio.cpp
+++ b/src/tools/almathio.cpp
@@ -266,6 +266,8 @@ namespace AL {
     std::string toSpaceSeparated(const Velocity6D& p)
     {
       std::stringstream os;
+      // report a lack of memory instead of returning a truncated string
+      os.exceptions(std::ios::badbit);
       os << p;
       return os.str();
     }
@@ -273,6 +275,8 @@ namespace AL {
     std::string toSpaceSeparated(const Transform& pT)
     {
       std::stringstream os;
+      // report a lack of memory instead of returning a truncated string
+      os.exceptions(std::ios::badbit);
       os << pT;
       return os.str();
     }
@@ -280,6 +284,8 @@ namespace AL {
     std::string toSpaceSeparated(const Position3D& p)
     {
       std::stringstream os;
+      // report a lack of memory instead of returning a truncated string
+      os.exceptions(std::ios::badbit);
       os << p;
       return os.str();
     }
@@ -287,6 +293,8 @@ namespace AL {
     std::string toSpaceSeparated(const Rotation3D& p)
     {
       std::stringstream os;
+      // report a lack of memory instead of returning a truncated string
+      os.exceptions(std::ios::badbit);
       os << p;
       return os.str();
     }
@@ -294,6 +302,8 @@ namespace AL {
     std::string toSpaceSeparated(const Position6D& p)
     {
       std::stringstream os;
+      // report a lack of memory instead of returning a truncated string
+      os.exceptions(std::ios::badbit);
       os << p;
       return os.str();
     }
@@ -301,6 +311,8 @@ namespace AL {
     std::string toSpaceSeparated(const Quaternion &pQuat)
     {
       std::stringstream os;
+      // report a lack of memory instead of returning a truncated string
+      os.exceptions(std::ios::badbit);
       os << pQuat;
       return os.str();
     }
-- 
2.43.0


From 3c4a7f7b5b0992f60ae5c89b58affc3b24b5c5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:26 +0000
Subject: [PATCH 30/41] fix: transformLogarithm shrank rotations smaller than
 0.002 radian

---
 src/tools/altransformhelpers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/altransformhelpers.cpp b/src/tools/altransformhelpers.cpp
index 77a17eb..5d1f331 100644
--- a/src/tools/altransformhelpers.cpp
+++ b/src/tools/altransformhelpers.cpp
@@ -88,7 +88,8 @@ namespace AL {
       {
         if (co > 1.0f - epsilon)
         {
-          coeff = angle/( 2.0f*si + epsilon );
+          // limit of angle/(2*sin(angle)) when angle is small
+          coeff = 0.5f;
           pVOut.wxd = coeff * (pH.r3_c2 - pH.r2_c3);
           pVOut.wyd = coeff * (pH.r1_c3 - pH.r3_c1);
           pVOut.wzd = coeff * (pH.r2_c1 - pH.r1_c2);
-- 
2.43.0


From 1856e95f4bfc77a41b10e0a6166d2b1fe29fc132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:26 +0000
Subject: [PATCH 31/41] fix: velocityExponential lost the lateral displacement
 of slow rotations

---
 src/tools/altransformhelpers.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/altransformhelpers.cpp b/src/tools/altransformhelpers.cpp
index 5d1f331..f9f7364 100644
--- a/src/tools/altransformhelpers.cpp
+++ b/src/tools/altransformhelpers.cpp
@@ -209,7 +209,9 @@ namespace AL {
 
       if (t >= 0.001f) // seuil
       {
-        CC  = (1-std::cos(t)) / (t*t); // motionCos cardinal cosinus
+        // (1-cos(t))/(t*t), without the cancellation when t is small
+        const float sinHalf = std::sin(0.5f*t);
+        CC  = 2.0f*sinHalf*sinHalf / (t*t); // motionCos cardinal cosinus
         SC  = std::sin(t) / t;       // motionSin cardinal sinus
         dSC = (t-std::sin(t)) / std::pow(t, 3); // motionSin cardinal sinus derivative std::pow
       }
-- 
2.43.0


From 150c37fc307814ae4146cd39ecd30d6985bb511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:00 +0000
Subject: [PATCH 32/41] fix: frame changes, products and interpolation misread
 their input when it was also the output

---
 src/tools/almath.cpp             |  6 ++++
 src/tools/altransformhelpers.cpp | 58 ++++++++++++++++++++++++++++++--
 src/types/altransform.cpp        | 12 +++++++
 3 files changed, 74 insertions(+), 2 deletions(-)

diff --git a/src/tools/almath.cpp b/src/tools/almath.cpp
index 9febabb..4a7d6b6 100644
--- a/src/tools/almath.cpp
+++ b/src/tools/almath.cpp
@@ -112,6 +112,12 @@ namespace AL
         const Pose2D& pPosIn,
         Pose2D&       pPosOut)
     {
+      if (&pPosIn == &pPosOut)
+      {
+        // copy to manage case where the output is the input
+        return changeReferencePose2D(pTheta, Pose2D(pPosIn), pPosOut);
+      }
+
       const float cs = std::cos(pTheta);
       const float sn = std::sin(pTheta);
       pPosOut.x = cs*pPosIn.x - sn*pPosIn.y;
diff --git a/src/tools/altransformhelpers.cpp b/src/tools/altransformhelpers.cpp
index f9f7364..8321270 100644
--- a/src/tools/altransformhelpers.cpp
+++ b/src/tools/altransformhelpers.cpp
@@ -260,6 +260,12 @@ namespace AL {
         const Velocity6D& pVIn,
         Velocity6D&       pVOut)
     {
+      if (&pVOut == &pVIn)
+      {
+        // copy to manage case where the output is the input
+        return changeReferenceVelocity6D(pH, Velocity6D(pVIn), pVOut);
+      }
+
       pVOut.xd  = pH.r1_c1 * pVIn.xd  + pH.r1_c2 * pVIn.yd  + pH.r1_c3 * pVIn.zd;
       pVOut.yd  = pH.r2_c1 * pVIn.xd  + pH.r2_c2 * pVIn.yd  + pH.r2_c3 * pVIn.zd;
       pVOut.zd  = pH.r3_c1 * pVIn.xd  + pH.r3_c2 * pVIn.yd  + pH.r3_c3 * pVIn.zd;
@@ -274,6 +280,12 @@ namespace AL {
         const Position6D& pPIn,
         Position6D&       pPOut)
     {
+      if (&pPOut == &pPIn)
+      {
+        // copy to manage case where the output is the input
+        return changeReferencePosition6D(pH, Position6D(pPIn), pPOut);
+      }
+
       pPOut.x  = pH.r1_c1 * pPIn.x  + pH.r1_c2 * pPIn.y  + pH.r1_c3 * pPIn.z;
       pPOut.y  = pH.r2_c1 * pPIn.x  + pH.r2_c2 * pPIn.y  + pH.r2_c3 * pPIn.z;
       pPOut.z  = pH.r3_c1 * pPIn.x  + pH.r3_c2 * pPIn.y  + pH.r3_c3 * pPIn.z;
@@ -318,6 +330,12 @@ namespace AL {
         const Position3D& pPosIn,
         Position3D&       pPosOut)
     {
+      if (&pPosOut == &pPosIn)
+      {
+        // copy to manage case where the output is the input
+        return changeReferencePosition3D(pH, Position3D(pPosIn), pPosOut);
+      }
+
       pPosOut.x = pH.r1_c1 * pPosIn.x + pH.r1_c2 * pPosIn.y + pH.r1_c3 * pPosIn.z;
       pPosOut.y = pH.r2_c1 * pPosIn.x + pH.r2_c2 * pPosIn.y + pH.r2_c3 * pPosIn.z;
       pPosOut.z = pH.r3_c1 * pPosIn.x + pH.r3_c2 * pPosIn.y + pH.r3_c3 * pPosIn.z;
@@ -329,6 +347,12 @@ namespace AL {
         const Position3D& pPosIn,
         Position3D&       pPosOut)
     {
+      if (&pPosOut == &pPosIn)
+      {
+        // copy to manage case where the output is the input
+        return changeReferenceTransposePosition3D(pH, Position3D(pPosIn), pPosOut);
+      }
+
       pPosOut.x = pH.r1_c1 * pPosIn.x + pH.r2_c1 * pPosIn.y + pH.r3_c1 * pPosIn.z;
       pPosOut.y = pH.r1_c2 * pPosIn.x + pH.r2_c2 * pPosIn.y + pH.r3_c2 * pPosIn.z;
       pPosOut.z = pH.r1_c3 * pPosIn.x + pH.r2_c3 * pPosIn.y + pH.r3_c3 * pPosIn.z;
@@ -340,6 +364,15 @@ namespace AL {
         const AL::Math::Transform&  pHIn,
         AL::Math::Transform&        pHOut)
     {
+      if ((&pHOut == &pHIn) || (&pHOut == &pH))
+      {
+        // copy to manage case where the output is one of the inputs
+        Transform result;
+        changeReferenceTransform(pH, pHIn, result);
+        pHOut = result;
+        return;
+      }
+
       pHOut.r1_c1 = (pH.r1_c1 * pHIn.r1_c1) + (pH.r1_c2 * pHIn.r2_c1) + (pH.r1_c3 * pHIn.r3_c1);
       pHOut.r1_c2 = (pH.r1_c1 * pHIn.r1_c2) + (pH.r1_c2 * pHIn.r2_c2) + (pH.r1_c3 * pHIn.r3_c2);
       pHOut.r1_c3 = (pH.r1_c1 * pHIn.r1_c3) + (pH.r1_c2 * pHIn.r2_c3) + (pH.r1_c3 * pHIn.r3_c3);
@@ -362,6 +395,15 @@ namespace AL {
         const AL::Math::Transform&  pHIn,
         AL::Math::Transform&        pHOut)
     {
+      if ((&pHOut == &pHIn) || (&pHOut == &pH))
+      {
+        // copy to manage case where the output is one of the inputs
+        Transform result;
+        changeReferenceTransposeTransform(pH, pHIn, result);
+        pHOut = result;
+        return;
+      }
+
       pHOut.r1_c1 = (pH.r1_c1 * pHIn.r1_c1) + (pH.r2_c1 * pHIn.r2_c1) + (pH.r3_c1 * pHIn.r3_c1);
       pHOut.r1_c2 = (pH.r1_c1 * pHIn.r1_c2) + (pH.r2_c1 * pHIn.r2_c2) + (pH.r3_c1 * pHIn.r3_c2);
       pHOut.r1_c3 = (pH.r1_c1 * pHIn.r1_c3) + (pH.r2_c1 * pHIn.r2_c3) + (pH.r3_c1 * pHIn.r3_c3);
@@ -384,6 +426,12 @@ namespace AL {
         const AL::Math::Velocity6D& pVIn,
         AL::Math::Velocity6D&       pVOut)
     {
+      if (&pVOut == &pVIn)
+      {
+        // copy to manage case where the output is the input
+        return changeReferenceTransposeVelocity6D(pH, Velocity6D(pVIn), pVOut);
+      }
+
       pVOut.xd  = pH.r1_c1 * pVIn.xd  + pH.r2_c1 * pVIn.yd  + pH.r3_c1 * pVIn.zd  ;
       pVOut.yd  = pH.r1_c2 * pVIn.xd  + pH.r2_c2 * pVIn.yd  + pH.r3_c2 * pVIn.zd  ;
       pVOut.zd  = pH.r1_c3 * pVIn.xd  + pH.r2_c3 * pVIn.yd  + pH.r3_c3 * pVIn.zd  ;
@@ -398,6 +446,12 @@ namespace AL {
         const AL::Math::Position6D& pPIn,
         AL::Math::Position6D&       pPOut)
     {
+      if (&pPOut == &pPIn)
+      {
+        // copy to manage case where the output is the input
+        return changeReferenceTransposePosition6D(pH, Position6D(pPIn), pPOut);
+      }
+
       pPOut.x  = pH.r1_c1 * pPIn.x  + pH.r2_c1 * pPIn.y  + pH.r3_c1 * pPIn.z  ;
       pPOut.y  = pH.r1_c2 * pPIn.x  + pH.r2_c2 * pPIn.y  + pH.r3_c2 * pPIn.z  ;
       pPOut.z  = pH.r1_c3 * pPIn.x  + pH.r2_c3 * pPIn.y  + pH.r3_c3 * pPIn.z  ;
@@ -424,8 +478,8 @@ namespace AL {
 
       transformInverse(pHIn1, pHIn1i);
       transformLogarithmInPlace(pHIn1i*pHIn2, pV);
-      velocityExponentialInPlace(pDist*pV, pHOut);
-      pHOut = pHIn1*pHOut;
+      // pHOut may be pHIn1
+      pHOut = pHIn1*velocityExponential(pDist*pV);
     }
 
 
diff --git a/src/types/altransform.cpp b/src/types/altransform.cpp
index 4e6608f..17f8342 100644
--- a/src/types/altransform.cpp
+++ b/src/types/altransform.cpp
@@ -383,6 +383,12 @@ namespace AL {
       const Transform& pT,
       Transform&       pTOut)
     {
+      if (&pT == &pTOut)
+      {
+        // copy to manage case where both are the same transform
+        return transformPreMultiply(Transform(pT), pTOut);
+      }
+
       float r1 = pTOut.r1_c1;
       float r2 = pTOut.r2_c1;
       pTOut.r1_c1 = (pT.r1_c1 * r1) + (pT.r1_c2 * r2) + (pT.r1_c3 * pTOut.r3_c1);
@@ -558,6 +564,12 @@ namespace AL {
       const Transform& pT,
       Transform&       pTOut)
     {
+      if (&pT == &pTOut)
+      {
+        // copy to manage case where the output is the input
+        return transformInverse(Transform(pT), pTOut);
+      }
+
       // rotation Ri = R'
       pTOut.r1_c1 = pT.r1_c1;
       pTOut.r1_c2 = pT.r2_c1;
-- 
2.43.0


From d2257dfa8725857b538ecf0c500d629bbaf93ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:50 +0000
Subject: [PATCH 33/41] fix: quaternionFromTransform gave NaN or lost small
 rotations and half turns

---
 src/tools/altransformhelpers.cpp | 83 ++++++++++++--------------------
 1 file changed, 31 insertions(+), 52 deletions(-)

diff --git a/src/tools/altransformhelpers.cpp b/src/tools/altransformhelpers.cpp
index 8321270..d566c26 100644
--- a/src/tools/altransformhelpers.cpp
+++ b/src/tools/altransformhelpers.cpp
@@ -1220,68 +1220,47 @@ namespace AL {
       //
       //   See also: Q2TR
 
-      float kx = pT.r3_c2 - pT.r2_c3; // Oz - Ay
-      float ky = pT.r1_c3 - pT.r3_c1; // Ax - Nz
-      float kz = pT.r2_c1 - pT.r1_c2; // Ny - Ox
-
-      float kx1 = 0.0f;
-      float ky1 = 0.0f;
-      float kz1 = 0.0f;
-      bool add  = false;
-
-      if ((pT.r1_c1 >= pT.r2_c2) && (pT.r1_c1 >= pT.r3_c3))
+      // Four times the product of each component by the one of largest
+      // magnitude, then normalize: neither small rotations nor half turns
+      // lose precision, and rounding errors cannot give NaN.
+      const float trace = pT.r1_c1 + pT.r2_c2 + pT.r3_c3;
+      float qw = pT.r3_c2 - pT.r2_c3; // Oz - Ay
+      float qx = 0.0f;
+      float qy = 0.0f;
+      float qz = 0.0f;
+
+      if (trace > 0.0f)
       {
-        kx1 = pT.r1_c1 - pT.r2_c2 - pT.r3_c3 + 1.0f; // Nx - Oy - Az + 1
-        ky1 = pT.r2_c1 + pT.r1_c2;                   // Ny + Ox
-        kz1 = pT.r3_c1 + pT.r1_c3;                   // Nz + Ax
-        add = (kx >= 0.0f);
+        qx = qw;
+        qw = trace + 1.0f;
+        qy = pT.r1_c3 - pT.r3_c1; // Ax - Nz
+        qz = pT.r2_c1 - pT.r1_c2; // Ny - Ox
       }
-      else if (pT.r2_c2 >= pT.r3_c3)
+      else if ((pT.r1_c1 >= pT.r2_c2) && (pT.r1_c1 >= pT.r3_c3))
       {
-        kx1 = pT.r2_c1 + pT.r1_c2;                   // Ny + Ox
-        ky1 = pT.r2_c2 - pT.r1_c1 - pT.r3_c3 + 1.0f; // Oy - Nx - Az + 1
-        kz1 = pT.r3_c2 + pT.r2_c3;                   // Oz + Ay
-        add = (ky >= 0.0f);
+        qx = pT.r1_c1 - pT.r2_c2 - pT.r3_c3 + 1.0f; // Nx - Oy - Az + 1
+        qy = pT.r2_c1 + pT.r1_c2;                   // Ny + Ox
+        qz = pT.r3_c1 + pT.r1_c3;                   // Nz + Ax
       }
-      else
-      {
-        kx1 = pT.r3_c1 + pT.r1_c3;                   // Nz + Ax
-        ky1 = pT.r3_c2 + pT.r2_c3;                   // Oz + Ay
-        kz1 = pT.r3_c3 - pT.r1_c1 - pT.r2_c2 + 1.0f; // Az - Nx - Oy + 1
-        add = (kz >= 0.0f);
-      }
-
-      if (add)
+      else if (pT.r2_c2 >= pT.r3_c3)
       {
-        kx = kx + kx1;
-        ky = ky + ky1;
-        kz = kz + kz1;
+        qw = pT.r1_c3 - pT.r3_c1;                   // Ax - Nz
+        qx = pT.r2_c1 + pT.r1_c2;                   // Ny + Ox
+        qy = pT.r2_c2 - pT.r1_c1 - pT.r3_c3 + 1.0f; // Oy - Nx - Az + 1
+        qz = pT.r3_c2 + pT.r2_c3;                   // Oz + Ay
       }
       else
       {
-        kx = kx - kx1;
-        ky = ky - ky1;
-        kz = kz - kz1;
+        qw = pT.r2_c1 - pT.r1_c2;                   // Ny - Ox
+        qx = pT.r3_c1 + pT.r1_c3;                   // Nz + Ax
+        qy = pT.r3_c2 + pT.r2_c3;                   // Oz + Ay
+        qz = pT.r3_c3 - pT.r1_c1 - pT.r2_c2 + 1.0f; // Az - Nx - Oy + 1
       }
 
-      const float nm = std::sqrt(std::pow(kx, 2) + std::pow(ky, 2) + std::pow(kz, 2));
-
-      if (nm == 0.0f)
-      {
-        return Quaternion();
-      }
-      else
-      {
-        float trace = pT.r1_c1 + pT.r2_c2 + pT.r3_c3 + 1.0f;
-        if (trace < 0.0f)
-        {
-          trace = 0.0f;
-        }
-
-        const float qs = 0.5f*std::sqrt(trace);
-        const float s = std::sqrt(1.0f - std::pow(qs, 2)) / nm;
-        return Quaternion(qs, s*kx, s*ky, s*kz);
-      }
+      // keep the scalar part positive
+      const float nm = std::sqrt(qw*qw + qx*qx + qy*qy + qz*qz);
+      const float s = (qw < 0.0f ? -1.0f : 1.0f) / nm;
+      return Quaternion(s*qw, s*qx, s*qy, s*qz);
     } // end quaternionFromTransform
 
 
-- 
2.43.0


From 1ec74b652347853432945b21c2f273f15672ebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:58 +0000
Subject: [PATCH 34/41] fix: angleAndAxisRotationFromQuaternion did not
 normalize and misread small rotations

---
 src/types/alquaternion.cpp | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/types/alquaternion.cpp b/src/types/alquaternion.cpp
index ccc47cd..460e668 100644
--- a/src/types/alquaternion.cpp
+++ b/src/types/alquaternion.cpp
@@ -242,31 +242,27 @@ namespace AL {
       float& pAxisY,
       float& pAxisZ)
     {
-      Quaternion copy = pQuaternion;
-      copy.normalize();
-      pAngle          = 2.0f*std::acos(copy.w); // * AL::Math::_2_PI_;
-      float sin_angle = std::sqrt(1.0f - std::pow(copy.w, 2));
-
-      if (std::abs(sin_angle) < 0.0005f)
-      {
-        sin_angle = 1.0f;
-      }
-
-      pAxisX = copy.x / sin_angle;
-      pAxisY = copy.y / sin_angle;
-      pAxisZ = copy.z / sin_angle;
-
+      // independent of the norm of the quaternion, and precise for
+      // small rotations too
       const float normAxe =
-          std::sqrt(std::pow(pAxisX, 2) +
-                    std::pow(pAxisY, 2) +
-                    std::pow(pAxisZ, 2));
+          std::sqrt(std::pow(pQuaternion.x, 2) +
+                    std::pow(pQuaternion.y, 2) +
+                    std::pow(pQuaternion.z, 2));
 
-      if (normAxe < 0.0001f)
+      pAngle = 2.0f*std::atan2(normAxe, pQuaternion.w);
+
+      if (normAxe == 0.0f)
       {
         pAxisX = 1.0f;
         pAxisY = 0.0f;
         pAxisZ = 0.0f;
       }
+      else
+      {
+        pAxisX = pQuaternion.x / normAxe;
+        pAxisY = pQuaternion.y / normAxe;
+        pAxisZ = pQuaternion.z / normAxe;
+      }
     }
 
     std::vector<float> angleAndAxisRotationFromQuaternion(
-- 
2.43.0


From 03a891977f89a8df605057259b32135e9baf2ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:12 +0000
Subject: [PATCH 35/41] fix: crossProduct misread its operands when one was
 also the result

---
 src/types/alposition3d.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/types/alposition3d.cpp b/src/types/alposition3d.cpp
index 2fa1d3d..25d1547 100644
--- a/src/types/alposition3d.cpp
+++ b/src/types/alposition3d.cpp
@@ -223,6 +223,13 @@ namespace AL {
       const Position3D& pPos2,
       Position3D&       pRes)
     {
+      if ((&pRes == &pPos1) || (&pRes == &pPos2))
+      {
+        // copy to manage case where the output is one of the inputs
+        return crossProduct(
+              Position3D(pPos1), Position3D(pPos2), pRes);
+      }
+
       pRes.x = pPos1.y*pPos2.z - pPos1.z*pPos2.y;
       pRes.y = pPos1.z*pPos2.x - pPos1.x*pPos2.z;
       pRes.z = pPos1.x*pPos2.y - pPos1.y*pPos2.x;
-- 
2.43.0


From 49614779b64ea0e23f4fe74209e669b9575ffa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:13 +0000
Subject: [PATCH 36/41] fix: getDubinsSolutions gave a wrong heading when the
 tangent is very short

---
 src/tools/aldubinscurve.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tools/aldubinscurve.cpp b/src/tools/aldubinscurve.cpp
index 1438927..4a2056c 100644
--- a/src/tools/aldubinscurve.cpp
+++ b/src/tools/aldubinscurve.cpp
@@ -20,6 +20,8 @@ namespace AL {
     struct dubinsTangent
     {
       float x, y;
+      // direction of the tangent
+      float theta;
       bool isLeft;
 
       dubinsTangent(
@@ -28,6 +30,7 @@ namespace AL {
           const bool  pIsLeft = false) :
           x(pX),
           y(pY),
+          theta(0.0f),
           isLeft(pIsLeft) {}
     };
 
@@ -165,6 +168,11 @@ namespace AL {
         point2.y = pCircle2.y - rd*slope.y;
       }
 
+      // The tangent is orthogonal to the radius, whatever the distance between
+      // its two points (they are the same when the circles touch each other).
+      point1.theta = std::atan2(pSens*slope.x, -pSens*slope.y);
+      point2.theta = point1.theta;
+
       // tangent
       pTangent[0] = point1;
       pTangent[1] = point2;
@@ -314,8 +322,7 @@ namespace AL {
       //// First CheckPoint of this Dubins Curve
       tmpSolution.x = bestTangent.at(0).x;
       tmpSolution.y = bestTangent.at(0).y;
-      tmpSolution.theta = std::atan2(bestTangent.at(1).y - bestTangent.at(0).y,
-                                     bestTangent.at(1).x - bestTangent.at(0).x);
+      tmpSolution.theta = bestTangent.at(0).theta;
       solutions.push_back(tmpSolution);
 
       //// Second CheckPoint of this Dubins Curve
-- 
2.43.0


From 6e8960c9b90a7bbd3cf9fb5ab7c3770ad5cb7ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:13 +0000
Subject: [PATCH 37/41] fix: getDubinsSolutions missed the path through two
 touching circles

---
 src/tools/aldubinscurve.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/aldubinscurve.cpp b/src/tools/aldubinscurve.cpp
index 4a2056c..7b6c0a6 100644
--- a/src/tools/aldubinscurve.cpp
+++ b/src/tools/aldubinscurve.cpp
@@ -12,6 +12,7 @@
 #include "float.h" // for FLT_MAX
 #include <stdexcept>
 
+#include <algorithm>
 #include <cmath>
 
 namespace AL {
@@ -141,7 +142,8 @@ namespace AL {
       if (!pLLorRR)
       {
         cos_theta = pCircleRadius*2.0f/dist;
-        sin_theta = std::sqrt(1.0f - cos_theta*cos_theta);
+        // rounding may bring touching circles nearer than two radii
+        sin_theta = std::sqrt(std::max(0.0f, 1.0f - cos_theta*cos_theta));
       }
 
       AL::Math::Position2D slope;
-- 
2.43.0


From 55c04a52e2e5f7b541f6f49e46fb3311e28d539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:13 +0000
Subject: [PATCH 38/41] fix: modulo2PI returned -PI, which is out of its
 interval

---
 src/tools/almath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/almath.cpp b/src/tools/almath.cpp
index 4a7d6b6..a27de9f 100644
--- a/src/tools/almath.cpp
+++ b/src/tools/almath.cpp
@@ -24,7 +24,7 @@ namespace AL
       {
         pAngle = pAngle - AL::Math::_2_PI_;
       }
-      else if (pAngle<-AL::Math::PI)
+      else if (pAngle<=-AL::Math::PI)
       {
         pAngle = pAngle + AL::Math::_2_PI_;
       }
-- 
2.43.0


From 9085425fae634532d979ced864075a4c9f83bd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:13 +0000
Subject: [PATCH 39/41] fix: weightedMeanAngle depended on the scale of the
 weights

---
 src/tools/almath.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/almath.cpp b/src/tools/almath.cpp
index a27de9f..0d48e5f 100644
--- a/src/tools/almath.cpp
+++ b/src/tools/almath.cpp
@@ -58,7 +58,8 @@ namespace AL
         weightSum += *w;
         sumPosition += *w * Math::Position2D(std::cos(*a), std::sin(*a));
       }
-      if (sumPosition.norm() < 1e-3f) {
+      // compare the mean vector, not the sum, to the null vector
+      if (!(sumPosition.norm() > 1e-3f * weightSum)) {
         throw std::runtime_error("No defined mean.");
       }
       return Math::modulo2PI(std::atan2(sumPosition.y, sumPosition.x));
-- 
2.43.0


From 32e08b6303fb78887c78b51ea67297cda2478b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:21 +0000
Subject: [PATCH 40/41] fix: imprecise intersection with nearly upright
 segments

---
 src/tools/avoidfootcollision.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/tools/avoidfootcollision.cpp b/src/tools/avoidfootcollision.cpp
index efc73e6..e478892 100644
--- a/src/tools/avoidfootcollision.cpp
+++ b/src/tools/avoidfootcollision.cpp
@@ -55,20 +55,23 @@ namespace AL
         return false;
       }
       float rA = 0.0f;
-      if (std::abs(gxA) <lTol)
+      // use the largest component: dividing by the other would amplify the
+      // rounding errors
+      if (std::abs(gxA) < std::abs(gyA))
       {
         if(std::abs(gyA) <lTol)
         {
           return false;
         }
-        else
-        {
-          rA = (pyB1 - pyA1 + rB*gyB)/gyA;
-        }
+        rA = (pyB1 - pyA1 + rB*gyB)/gyA;
       }
       else
       {
-         rA = (pxB1 - pxA1 + rB*gxB)/gxA;
+        if(std::abs(gxA) <lTol)
+        {
+          return false;
+        }
+        rA = (pxB1 - pxA1 + rB*gxB)/gxA;
       }
       if (rA < 0.0f || rA > 1.0f) //Intersection out of the segment A
       {
-- 
2.43.0


From 1e07c94ff5f5f858566a400d7b9d93a9f9286437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:28 +0000
Subject: [PATCH 41/41] fix: overlapping boxes with nearly parallel sides found
 apart

---
 src/tools/avoidfootcollision.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/tools/avoidfootcollision.cpp b/src/tools/avoidfootcollision.cpp
index e478892..b8cf2eb 100644
--- a/src/tools/avoidfootcollision.cpp
+++ b/src/tools/avoidfootcollision.cpp
@@ -171,17 +171,19 @@ namespace AL
           }
         }
       }
-      //Check if one box is inside the other
-      if (sizeA > 0)
+      //Check if a corner of one box is inside the other. All the corners are
+      //checked: boxes with nearly parallel sides may overlap without any
+      //crossing being found above.
+      for (std::size_t ia = 0u; ia < sizeA; ++ia)
       {
-        if (xPointsInsideBox(pBoxB, pBoxA[0]))
+        if (xPointsInsideBox(pBoxB, pBoxA[ia]))
         {
           return true;
         }
       }
-      if (sizeB > 0)
+      for (std::size_t ib = 0u; ib < sizeB; ++ib)
       {
-        if (xPointsInsideBox(pBoxA,pBoxB[0]))
+        if (xPointsInsideBox(pBoxA, pBoxB[ib]))
         {
           return true;
         }
-- 
2.43.0

