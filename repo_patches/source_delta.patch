From 39f134707a19196cbb1cd830226fb7d22e4b55ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 01/25] fix: Point::isValid reported the opposite, so polygon
 centroids were never computed

---
 delynoi/src/models/basic/Point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/models/basic/Point.cpp b/delynoi/src/models/basic/Point.cpp
index 6b14fe4..0bea35e 100644
--- a/delynoi/src/models/basic/Point.cpp
+++ b/delynoi/src/models/basic/Point.cpp
@@ -14,7 +14,7 @@ Point::Point() {
 }
 
 bool Point::isValid() {
-    return this->isEmpty;
+    return !this->isEmpty;
 }
 
 double Point::getX() const{
-- 
2.43.0


From 7629eba862bd94f6e174ec7a60d718be6b8510a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 02/25] fix: getConformingDelaunayTriangulation returned a
 reference to a local mesh

---
 delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h | 2 +-
 delynoi/src/voronoi/TriangleDelaunayGenerator.cpp           | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
index ab53d6c..6dd44f9 100644
--- a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
+++ b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
@@ -62,7 +62,7 @@ public:
      * segments, are Delaunay through the inclusion of additional points)
      * @return the conforming Delaunay triangulation
      */
-    Mesh<Triangle>& getConformingDelaunayTriangulation();
+    Mesh<Triangle> getConformingDelaunayTriangulation();
 
     /* Returns the constrained Delaunay triangulation (triangles next to constrained segments are not necessarily
      * delaunay)
diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index 4352961..f24e3c0 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -141,14 +141,13 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
     free(out.edgemarkerlist);
 }
 
-Mesh<Triangle>& TriangleDelaunayGenerator::getConformingDelaunayTriangulation()  {
+Mesh<Triangle> TriangleDelaunayGenerator::getConformingDelaunayTriangulation()  {
     if(!this->empty){
         char switches[] = "pzejDQ";
         callTriangle(seedPoints, switches);
     }
 
-    Mesh<Triangle> mesh = initializeMesh<Triangle>();
-    return mesh;
+    return initializeMesh<Triangle>();
 }
 
 void
-- 
2.43.0


From 7f18618beb19bbd2d5dcfaffbd747160904a3b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 03/25] fix: circle discretisation rounded its step to whole
 degrees (wrong count, endless for grades above 360)

---
 delynoi/src/models/polygon/Circle.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/models/polygon/Circle.cpp b/delynoi/src/models/polygon/Circle.cpp
index b4ba79f..a952cec 100644
--- a/delynoi/src/models/polygon/Circle.cpp
+++ b/delynoi/src/models/polygon/Circle.cpp
@@ -11,16 +11,14 @@ std::vector<Point> Circle::discretizeCircle() {
     DelynoiConfig* config = DelynoiConfig::instance();
 
     std::vector<Point> points;
-    double delta = 360 / config->getDiscretizationGrade();
+    int steps = config->getDiscretizationGrade();
 
-    double angle = 0;
-    while (angle < 360) {
+    for (int i = 0; i < steps; i++) {
+        double angle = 360.0 * i / steps;
         double x = center.getX() + radius * cos(utilities::radian(angle));
         double y = center.getY() + radius * sin(utilities::radian(angle));
 
         points.push_back(Point(x, y));
-
-        angle += delta;
     }
 
     return points;
-- 
2.43.0


From a24d70c49691274750fcc585e48c1fa492c6c9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 04/25] fix: coordinates scaled for clipping overflowed int

---
 delynoi/src/models/Region.cpp                      | 8 ++++----
 delynoi/src/models/hole/clipper/ClipperWrapper.cpp | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index b10a28e..233da01 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -43,14 +43,14 @@ void Region::addHole(Hole h) {
     ClipperLib::Paths solution;
 
     for(int i=0;i<this->p.size(); i++){
-        region << ClipperLib::IntPoint((int)(config->getScale()*this->p[i].getX()),
-                                       (int)(config->getScale()*this->p[i].getY()));
+        region << ClipperLib::IntPoint((ClipperLib::cInt)(config->getScale()*this->p[i].getX()),
+                                       (ClipperLib::cInt)(config->getScale()*this->p[i].getY()));
     }
 
     std::vector<Point> holePoints = h.getPoints();
     for(int i=0;i<holePoints.size();i++){
-        hole << ClipperLib::IntPoint((int)(config->getScale()*holePoints[i].getX()),
-                                     (int)(config->getScale()*holePoints[i].getY()));
+        hole << ClipperLib::IntPoint((ClipperLib::cInt)(config->getScale()*holePoints[i].getX()),
+                                     (ClipperLib::cInt)(config->getScale()*holePoints[i].getY()));
     }
 
     ClipperLib::Clipper clipper;
diff --git a/delynoi/src/models/hole/clipper/ClipperWrapper.cpp b/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
index 76f31b8..d1db946 100644
--- a/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
+++ b/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
@@ -21,7 +21,7 @@ ClipperLib::Paths ClipperWrapper::polyIntersection(std::vector<Point> parent, st
 }
 
 ClipperLib::IntPoint ClipperWrapper::scalePoint(Point point, int maxScale) {
-    return ClipperLib::IntPoint((int)(maxScale*point.getX()), (int)(maxScale*point.getY()));
+    return ClipperLib::IntPoint((ClipperLib::cInt)(maxScale*point.getX()), (ClipperLib::cInt)(maxScale*point.getY()));
 }
 
 
-- 
2.43.0


From 9e7edfaaa4a29d12031711c6c57a788097e8c741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 05/25] fix: copying a region dropped its seed points

---
 delynoi/src/models/Region.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index 233da01..42b00e2 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -25,6 +25,7 @@ Region::Region(const Polygon &other, std::vector<Point>& points) : Polygon() {
 Region::Region(const Region &other) : Polygon(other){
     this->p = other.p;
     this->holes.assign(other.holes.begin(), other.holes.end());
+    this->seedPoints = other.seedPoints;
 }
 
 std::vector<Hole>& Region::getHoles() {
-- 
2.43.0


From f0519be37e0f458a8f1e56f8cf925ef3eb4b7062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 06/25] fix: addSeedPoints replaced the seeds instead of adding
 to them

---
 delynoi/src/models/Region.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index 42b00e2..6b7389e 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -91,7 +91,7 @@ void Region::generateSeedPoints(PointGenerator p, int nX, int nY){
 }
 
 void Region::addSeedPoints(std::vector<Point>& seeds) {
-    this->seedPoints.assign(seeds.begin(), seeds.end());
+    this->seedPoints.insert(this->seedPoints.end(), seeds.begin(), seeds.end());
     this->clean();
 }
 
-- 
2.43.0


From e8bce988bde8a268083d33d404ec9f7c8f406e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 07/25] fix: grids with a single row or column had undefined
 coordinates

---
 delynoi/src/models/generator/PointGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/models/generator/PointGenerator.cpp b/delynoi/src/models/generator/PointGenerator.cpp
index 1ec7cc2..765084f 100644
--- a/delynoi/src/models/generator/PointGenerator.cpp
+++ b/delynoi/src/models/generator/PointGenerator.cpp
@@ -25,8 +25,8 @@ PointGenerator::PointGenerator(Functor *l, functions::independent_variable varia
 }
 
 void PointGenerator::generate(std::vector <Point> &vector, BoundingBox box, int nX, int nY) {
-    double dX = box.getWidth()/(nX-1);
-    double dY = box.getHeight()/(nY-1);
+    double dX = nX>1? box.getWidth()/(nX-1) : 0;
+    double dY = nY>1? box.getHeight()/(nY-1) : 0;
 
     for(int i = 0; i<nY; i++){
         for(int j = 0; j<nX; j++){
-- 
2.43.0


From 4a900d9b63bbb846b1fdd3b8f0661202ac3b67a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 08/25] fix: alternating rule missed the first point of every
 third row

---
 delynoi/src/models/generator/functions/FunctorClasses.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delynoi/src/models/generator/functions/FunctorClasses.cpp b/delynoi/src/models/generator/functions/FunctorClasses.cpp
index 7c7b12b..fc9697a 100644
--- a/delynoi/src/models/generator/functions/FunctorClasses.cpp
+++ b/delynoi/src/models/generator/functions/FunctorClasses.cpp
@@ -89,6 +89,7 @@ public:
         if(index<visitedPlaces.size()-1){
             alternating = !alternating;
             visitedPlaces.clear();
+            visitedPlaces.push_back(x);
         }
 
         if(alternating){
-- 
2.43.0


From c8c7eb788efbc515bffa7b9ee440a8b7651c69f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 09/25] fix: degrees(0) was 360

---
 lib/utilities/src/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/utilities/src/utilities.cpp b/lib/utilities/src/utilities.cpp
index ab83909..6fe3cb5 100644
--- a/lib/utilities/src/utilities.cpp
+++ b/lib/utilities/src/utilities.cpp
@@ -52,7 +52,7 @@ namespace utilities {
     }
 
     double degrees(double angle){
-        double a = (angle > 0 ? angle : (2*M_PI + angle));
+        double a = (angle >= 0 ? angle : (2*M_PI + angle));
 
         return a* 180/ (M_PI);
     }
-- 
2.43.0


From e2a443ce402b93cac9b17e3402f09f1a764a3caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 10/25] fix: UniqueList::pop_front left the stored positions of
 the remaining elements stale

---
 lib/utilities/include/utilities/UniqueList.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/utilities/include/utilities/UniqueList.h b/lib/utilities/include/utilities/UniqueList.h
index 4488837..c9c28bf 100644
--- a/lib/utilities/include/utilities/UniqueList.h
+++ b/lib/utilities/include/utilities/UniqueList.h
@@ -66,10 +66,12 @@ int UniqueList<T>::force_push_back(T &item) {
 
 template <class T>
 void UniqueList<T>::pop_front() {
-    T elem = this->list[0];
-
     this->list.erase(this->list.begin());
-    this->map.erase(elem);
+    this->map.clear();
+
+    for (int i=0;i<this->list.size();i++){
+        map.insert(std::make_pair(this->list[i], i));
+    }
 }
 
 template <class T>
-- 
2.43.0


From d50685a4ddcff2c0353bb81c64466a1fd07753c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 11/25] fix: a default NeighboursBySegment had an uninitialised
 first neighbour

---
 .../include/delynoi/models/neighbourhood/NeighboursBySegment.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/include/delynoi/models/neighbourhood/NeighboursBySegment.h b/delynoi/include/delynoi/models/neighbourhood/NeighboursBySegment.h
index ddc7c67..8da0638 100644
--- a/delynoi/include/delynoi/models/neighbourhood/NeighboursBySegment.h
+++ b/delynoi/include/delynoi/models/neighbourhood/NeighboursBySegment.h
@@ -13,7 +13,7 @@ private:
     /*
      * Indexes of the polygons that contain a segment
      */
-    int n1;
+    int n1 = -1;
     int n2 = -1;
 public:
     /*
-- 
2.43.0


From 71f9a8267b2de58552c559eaa6db30fe91523451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 12/25] fix: isConvex accepted every polygon whose first three
 vertices are collinear

---
 delynoi/src/models/polygon/Polygon.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index 5e8e16d..523302a 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -203,6 +203,10 @@ bool Polygon::isConvex(std::vector<Point>& p) {
         if(determinant*newResult<0){
             return false;
         }
+
+        if(determinant==0){
+            determinant = newResult;
+        }
     }
 
     return true;
-- 
2.43.0


From 16dc53746fa635209fca9c2f0ae65862d26cd982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 13/25] fix: indices from 1000000 on were written in rounded
 scientific notation

---
 delynoi/src/models/basic/IndexSegment.cpp                | 2 +-
 delynoi/src/models/neighbourhood/EdgeData.cpp            | 2 +-
 delynoi/src/models/neighbourhood/NeighboursBySegment.cpp | 2 +-
 delynoi/src/models/polygon/Polygon.cpp                   | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/models/basic/IndexSegment.cpp b/delynoi/src/models/basic/IndexSegment.cpp
index dfbadcd..d2cd37f 100644
--- a/delynoi/src/models/basic/IndexSegment.cpp
+++ b/delynoi/src/models/basic/IndexSegment.cpp
@@ -53,7 +53,7 @@ bool IndexSegment::isCCW(const std::vector<Point>& points, Point center) {
 }
 
 std::string IndexSegment::getString() const {
-    return utilities::toString<double>(this->getFirst()) + " " + utilities::toString<double>(this->getSecond());
+    return utilities::toString<int>(this->getFirst()) + " " + utilities::toString<int>(this->getSecond());
 }
 
 bool IndexSegment::operator==(const IndexSegment& other) const {
diff --git a/delynoi/src/models/neighbourhood/EdgeData.cpp b/delynoi/src/models/neighbourhood/EdgeData.cpp
index a52a3f3..45a86a9 100644
--- a/delynoi/src/models/neighbourhood/EdgeData.cpp
+++ b/delynoi/src/models/neighbourhood/EdgeData.cpp
@@ -17,7 +17,7 @@ void EdgeData::setTriangle(int t) {
 }
 
 std::string EdgeData::getString() {
-    return utilities::toString<double>(this->p1) + " " + utilities::toString<double>(this->p2);
+    return utilities::toString<int>(this->p1) + " " + utilities::toString<int>(this->p2);
 }
 
 bool EdgeData::operator==(const EdgeData &other) const {
diff --git a/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp b/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp
index b9ada00..dcd4275 100644
--- a/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp
+++ b/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp
@@ -29,7 +29,7 @@ int NeighboursBySegment::getSecond() const{
 }
 
 std::string NeighboursBySegment::getString() const {
-    return utilities::toString<double>(this->n1) + " " + utilities::toString<double>(this->n2);
+    return utilities::toString<int>(this->n1) + " " + utilities::toString<int>(this->n2);
 }
 
 bool NeighboursBySegment::operator==(const NeighboursBySegment &other) const{
diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index 523302a..4980ce2 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -248,10 +248,10 @@ bool Polygon::operator==(const Polygon &other) const{
 }
 
 std::string Polygon::getString() {
-    std::string base = utilities::toString<double>(this->points.size());
+    std::string base = utilities::toString<int>(this->points.size());
 
     for(int i=0;i<this->points.size();i++){
-        base += " " + utilities::toString<double>(this->points[i]);
+        base += " " + utilities::toString<int>(this->points[i]);
     }
 
     return base;
-- 
2.43.0


From 0222c47612e037f09f08d56d1ca5b67f35fa87f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 14/25] fix: mesh files ignored the configured precision

---
 delynoi/include/delynoi/models/Mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index 4bd46dd..fdd784b 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -232,7 +232,7 @@ template <typename T>
 void Mesh<T>::printInStream(std::ofstream &file) {
     file << points.size() << std::endl;
     for(int i=0;i<points.size();i++){
-        file << points[i].getString() << std::endl;
+        file << points[i].getX() << " " << points[i].getY() << std::endl;
     }
 
     file << this->edges->size() << std::endl;
-- 
2.43.0


From f947660693befdaa960abd37e3dbddee131d1d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 15/25] fix: mesh construction looked up merged point indices
 in the unmerged point list

---
 delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
index 6dd44f9..7bf17dc 100644
--- a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
+++ b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
@@ -105,11 +105,11 @@ public:
 
             for (int j = 0; j < oldPoints.size(); ++j) {
                 newPoints.push_back(indexes[oldPoints[j]]);
-                pointMap->insert(meshPoints[newPoints[j]], i);
+                pointMap->insert(points[newPoints[j]], i);
             }
 
             delynoi_utilities::checkTriangleIntegrity(newPoints);
-            polygons.push_back(T(newPoints, meshPoints));
+            polygons.push_back(T(newPoints, points.getList()));
         }
 
         return Mesh<T>(points, polygons, this->delaunayEdges, pointMap);
-- 
2.43.0


From 40bee3062e152ddb0c21e50bdf196d05a19486dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 16/25] fix: ear cutting accepted reflex corners, yielding
 triangles outside the polygon

---
 delynoi/src/triangulation/EarTriangulationGenerator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/delynoi/src/triangulation/EarTriangulationGenerator.cpp b/delynoi/src/triangulation/EarTriangulationGenerator.cpp
index fc73a4e..50c9731 100644
--- a/delynoi/src/triangulation/EarTriangulationGenerator.cpp
+++ b/delynoi/src/triangulation/EarTriangulationGenerator.cpp
@@ -14,11 +14,13 @@ Triangle EarTriangulationGenerator::getEar(std::vector<Point>& points, std::vect
         return ear;
     }
 
+    bool clockwise = Polygon(pointList, points).isClockwise(points);
+
     for(int i=0;i<size;i++){
         bool test = false;
         Triangle t ({pointList[(size+i-1)%size], pointList[i%size], pointList[(size+i+1)%size]}, points);
 
-        if(t.isConvex(points)){
+        if(t.isClockwise(points) == clockwise){
             for(int j=0;j<size;j++){
                 if(!t.isVertex(pointList[j]) && t.containsPoint(points, points[pointList[j]])){
                     test = true;
-- 
2.43.0


From aba38ca0c3b82ec2aff4f9f85792b67cad115a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 17/25] fix: polygons read from a file referred to wrong points
 after coinciding points were merged

---
 delynoi/include/delynoi/models/Mesh.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index fdd784b..f535b40 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -169,12 +169,13 @@ void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
     std::string line;
     std::getline(infile, line);
     int numberMeshPoints = std::atoi(line.c_str());
+    std::vector<int> pointIndexes;
     for (int i = 0; i < numberMeshPoints; ++i) {
         std::getline(infile, line);
         std::vector<std::string> splittedLine = utilities::splitBySpaces(line);
 
         Point newPoint(std::atof(splittedLine[0].c_str()), std::atof(splittedLine[1].c_str()));
-        this->points.push_back(newPoint);
+        pointIndexes.push_back(this->points.push_back(newPoint));
     }
 
     std::getline(infile, line);
@@ -186,7 +187,7 @@ void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
 
         std::vector<int> polygonPoints;
         for (int j = 1; j < splittedLine.size(); ++j) {
-            polygonPoints.push_back(std::atoi(splittedLine[j].c_str()) - startIndex);
+            polygonPoints.push_back(pointIndexes[std::atoi(splittedLine[j].c_str()) - startIndex]);
         }
 
         T newPolygon(polygonPoints, this->points.getList());
-- 
2.43.0


From b80ad634d743a13438e79f95e9260e8326f04aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 18/25] fix: meshes read from a file had an empty point table

---
 delynoi/include/delynoi/models/Mesh.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index f535b40..fe74778 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -198,6 +198,10 @@ void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
         for (IndexSegment s: segments){
             this->edges->insert(s, i);
         }
+
+        for (int p: polygonPoints){
+            this->pointMap->insert(this->points[p], i);
+        }
     }
 }
 
-- 
2.43.0


From e53118e8f6543b47f5bd61068c63b72a17006d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 19/25] fix: random_integer_noise was declared with other
 argument types than defined

---
 delynoi/src/models/generator/noise/noise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/models/generator/noise/noise.cpp b/delynoi/src/models/generator/noise/noise.cpp
index ecdcb56..72623fd 100644
--- a/delynoi/src/models/generator/noise/noise.cpp
+++ b/delynoi/src/models/generator/noise/noise.cpp
@@ -7,7 +7,7 @@ namespace noise{
         return new RandomDoubleNoise(f, min, max);
     }
 
-    Functor* random_integer_noise(Functor* f, int min, int max){
+    Functor* random_integer_noise(Functor* f, double min, double max){
         return new RandomIntegerNoise(f, min, max);
     }
 }
-- 
2.43.0


From e6037dddb957451c0c489528cde9de05f59b679e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 20/25] fix: collinear for segments was declared with other
 argument types than defined

---
 delynoi/include/delynoi/utilities/geometryFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/include/delynoi/utilities/geometryFunctions.h b/delynoi/include/delynoi/utilities/geometryFunctions.h
index 1c820be..9527508 100644
--- a/delynoi/include/delynoi/utilities/geometryFunctions.h
+++ b/delynoi/include/delynoi/utilities/geometryFunctions.h
@@ -25,7 +25,7 @@ namespace geometry_functions{
      * @param seg1 seg2 segments to test
      * @return are the segments collinear or not
      */
-    extern bool collinear(PointSegment& seg1, PointSegment& seg2);
+    extern bool collinear(PointSegment seg1, PointSegment seg2);
 
     /* Calculates the area of a triangle defined by three points
      * @param p1 p2 origin points that define an area
-- 
2.43.0


From aa545b8bf4aee8a7452d4da4129f6ae7b6f701e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 21/25] fix: later triangulation requests were answered with
 the result of the first one

---
 .../voronoi/TriangleDelaunayGenerator.h       |  1 -
 .../src/voronoi/TriangleDelaunayGenerator.cpp | 36 +++++++++----------
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
index 7bf17dc..6686e11 100644
--- a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
+++ b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
@@ -38,7 +38,6 @@ private:
     std::vector<EdgeData> edges;
     UniqueList<Point> circumcenters;
     std::unordered_map<Key, int, KeyHasher> edgeMap;
-    bool empty = false;
 
     /* Calls the Triangle library, filling the class members with the result
      * @param point_list points which Delaunay triangulation must be computed
diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index f24e3c0..c004ed7 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -7,14 +7,22 @@ TriangleDelaunayGenerator::TriangleDelaunayGenerator(const std::vector<Point>& p
 }
 
 void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, char *switches) {
-    this->empty = true;
     this->callTriangle(point_list, switches, std::vector<PointSegment>());
 }
 
 void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, char *switches,
                                              std::vector<PointSegment> restrictedSegments) {
 
-    this->empty = true;
+    //Every request starts anew (meshes already returned keep their own edge table)
+    this->triangles.clear();
+    this->meshPoints.clear();
+    this->points.clear();
+    this->realPoints.clear();
+    this->edges.clear();
+    this->circumcenters.clear();
+    this->edgeMap.clear();
+    this->delaunayEdges = new SegmentMap;
+
     struct triangulateio in, out;
 
     std::vector<Point> regionPoints = region.getRegionPoints();
@@ -142,10 +150,8 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
 }
 
 Mesh<Triangle> TriangleDelaunayGenerator::getConformingDelaunayTriangulation()  {
-    if(!this->empty){
-        char switches[] = "pzejDQ";
-        callTriangle(seedPoints, switches);
-    }
+    char switches[] = "pzejDQ";
+    callTriangle(seedPoints, switches);
 
     return initializeMesh<Triangle>();
 }
@@ -183,29 +189,23 @@ TriangleDelaunayGenerator::writeTriangleInputFile(UniqueList<Point> &point_list,
 }
 
 DelaunayInfo TriangleDelaunayGenerator::getConformingDelaunay() {
-    if(!this->empty){
-        char switches[] = "pzejDQ";
-        callTriangle(seedPoints, switches);
-    }
+    char switches[] = "pzejDQ";
+    callTriangle(seedPoints, switches);
 
     return DelaunayInfo(triangles, meshPoints, delaunayEdges, points, realPoints, edges, edgeMap, circumcenters);
 }
 
 Mesh<Triangle> TriangleDelaunayGenerator::getConstrainedDelaunayTriangulation() {
-    if(!this->empty){
-        char switches[] = "pzejQ";
-        callTriangle(seedPoints, switches);
-    }
+    char switches[] = "pzejQ";
+    callTriangle(seedPoints, switches);
 
     return initializeMesh<Triangle>();
 }
 
 Mesh<Triangle>
 TriangleDelaunayGenerator::getConstrainedDelaunayTriangulation(std::vector<PointSegment> restrictedSegments) {
-    if(!this->empty){
-        char switches[] = "pzejQ";
-        callTriangle(seedPoints, switches, restrictedSegments);
-    }
+    char switches[] = "pzejQ";
+    callTriangle(seedPoints, switches, restrictedSegments);
 
     return initializeMesh<Triangle>();
 }
-- 
2.43.0


From 7be3f266141ea422bc66cbf2762099dc5a92a713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 22/25] fix: a hole outside the domain was silently accepted
 and the outline was rewritten

---
 delynoi/src/models/Region.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index 6b7389e..eff3e8d 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -57,6 +57,12 @@ void Region::addHole(Hole h) {
     ClipperLib::Clipper clipper;
     clipper.AddPath(region, ClipperLib::ptSubject, true);
     clipper.AddPath(hole, ClipperLib::ptClip, true);
+    clipper.Execute(ClipperLib::ctIntersection, solution, ClipperLib::pftNonZero, ClipperLib::pftNonZero);
+
+    if(solution.empty()){
+        throw std::invalid_argument("Hole lies completely outside of domain region");
+    }
+
     clipper.Execute(ClipperLib::ctDifference, solution, ClipperLib::pftNonZero, ClipperLib::pftNonZero);
 
     if(solution.size()==1){
-- 
2.43.0


From f44ce0b2e9bba96d9c111e7431b63942d34cf57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:19 +0000
Subject: [PATCH 23/25] fix: outlines with crossing edges were accepted by the
 polygon constructor

---
 delynoi/src/models/polygon/Polygon.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index 4980ce2..24f2a1f 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -33,12 +33,12 @@ void Polygon::mutate(std::vector<Point> &p) {
 }
 
 Polygon::Polygon(std::vector<Point> &p) {
+    delynoi_utilities::TrivialIndexVector(this->points,p.size());
+
     if(isSelfIntersecting(p)){
-        std::invalid_argument("Self intersecting polygons are not supported");
+        throw std::invalid_argument("Self intersecting polygons are not supported");
     }
 
-    delynoi_utilities::TrivialIndexVector(this->points,p.size());
-
     std::vector<Point> this_points;
     for(int i=0;i<points.size();i++){
         this_points.push_back(p[points[i]]);
-- 
2.43.0


From c56171aacc53f930c324512095374e3631d8b4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 24/25] fix: random integer rules with fractional bounds left
 their range

---
 delynoi/src/models/generator/functions/RandomInteger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/delynoi/src/models/generator/functions/RandomInteger.cpp b/delynoi/src/models/generator/functions/RandomInteger.cpp
index 50d8c73..abc449c 100644
--- a/delynoi/src/models/generator/functions/RandomInteger.cpp
+++ b/delynoi/src/models/generator/functions/RandomInteger.cpp
@@ -1,4 +1,5 @@
 #include <delynoi/models/generator/functions/RandomInteger.h>
+#include <cmath>
 
 std::default_random_engine Random_Integer::rd;
 std::mt19937 Random_Integer::rng(rd());
@@ -6,7 +7,7 @@ std::mt19937 Random_Integer::rng(rd());
 Random_Integer::Random_Integer(double min, double max) {
     this->min = min;
     this->max = max;
-    this->uni = std::uniform_int_distribution<int>(min,max);
+    this->uni = std::uniform_int_distribution<int>((int) std::ceil(min), (int) std::floor(max));
 }
 
 double Random_Integer::apply(double x) {
-- 
2.43.0


From da6bf4046afab436267169a22fb3118a18cf3fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 25/25] fix: non-convex holes with their centre out of the
 region were rejected

---
 delynoi/src/models/Region.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index eff3e8d..eda5825 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -77,8 +77,14 @@ void Region::addHole(Hole h) {
         this->mutate(newPoints);
     }else{
         //Two cases, hole is completely inside or completely outside, just ignore holes outside
+        //(the center of a non convex hole may lie out of the region even when all of its points are in it)
+        bool pointsInside = true;
 
-        if(Polygon::containsPoint(this->p, h.getCenter())){
+        for(int i=0;i<holePoints.size();i++){
+            pointsInside = pointsInside && Polygon::containsPoint(this->p, holePoints[i]);
+        }
+
+        if(pointsInside || Polygon::containsPoint(this->p, h.getCenter())){
             this->holes.push_back(h);
         }else{
             throw std::invalid_argument("Hole lies completely outside of domain region");
-- 
2.43.0

