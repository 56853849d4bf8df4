From 7b5357e3157ada9fdea18af02a7b782816873e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:47 +0000
Subject: [PATCH 01/90] fix: do not dereference missing scanlines when merging
 reversed edges

---
 src/geomap/cppmap.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index d0b3230..d46baf8 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -200,9 +200,10 @@ void GeoMap::Edge::concatenate(Edge &other, bool atEnd, bool reverse)
 
     if(scanLines_.get())
     {
-        if(reverse) // FIXME: call other.scanLines() (might be NULL)
-            other.scanLines_->reverse();
-        (*scanLines_) += other.scanLines();
+        vigra::Scanlines otherScanLines(other.scanLines());
+        if(reverse)
+            otherScanLines.reverse();
+        (*scanLines_) += otherScanLines;
     }
 }
 
-- 
2.43.0


From 015801d4a7a1117bf4792c26bf5590043b01f2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:12 +0000
Subject: [PATCH 02/90] fix: keep exterior contour first when merging a face
 into one lying in its hole

---
 src/geomap/cppmap.cxx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index d46baf8..c835698 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -2102,6 +2102,11 @@ GeoMap::FacePtr GeoMap::mergeFaces(const GeoMap::Dart &dart)
     // append all remaining anchors to survivor's list:
     if(mergedFace.anchors_.size() > 1)
     {
+        // did the survivor lie within a hole of mergedFace?  then, the
+        // exterior contour of the latter becomes the survivor's one:
+        bool survivorInHole = (contour2 != mergedFace.anchors_.begin());
+        Face::Contours::size_type oldContourCount = survivor.anchors_.size();
+
 #ifndef ANCHOR_LISTS // toggle according to anchors_ being std::vector/std::list
         survivor.anchors_.insert(survivor.anchors_.end(),
                                  mergedFace.anchors_.begin(), contour2);
@@ -2111,6 +2116,13 @@ GeoMap::FacePtr GeoMap::mergeFaces(const GeoMap::Dart &dart)
         mergedFace.anchors_.erase(contour2);
         survivor.anchors_.splice(survivor.anchors_.end(), mergedFace.anchors_);
 #endif
+
+        if(survivorInHole)
+        {
+            Face::AnchorIterator exterior(survivor.anchors_.begin());
+            std::advance(exterior, oldContourCount);
+            std::iter_swap(survivor.anchors_.begin(), exterior);
+        }
     }
 
     // relabel region in image
-- 
2.43.0


From bd4f3611c7489ec83046f1bab8e0037fcc43fe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:26 +0000
Subject: [PATCH 03/90] fix: leave face labels alone if changeFaceLabels
 rejects the mapping

---
 src/geomap/cppmap.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index c835698..b1bfa1a 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1234,9 +1234,11 @@ void GeoMap::changeFaceLabels(
             !newFaces[newFaceLabels[l]],
             "changeFaceLabels: trying to map multiple faces to the same label");
         newFaces[newFaceLabels[l]] = faces_[l];
-        faces_[l]->label_ = newFaceLabels[l];
     }
     std::swap(faces_, newFaces);
+    // (do not change anything until newFaceLabels has been validated)
+    for(FaceIterator it = facesBegin(); it.inRange(); ++it)
+        (*it)->label_ = newFaceLabels[(*it)->label_];
 
     for(EdgeIterator it = edgesBegin(); it.inRange(); ++it)
     {
-- 
2.43.0


From f016b45468d9b1f9c91c367af5f8c90878d51aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:26 +0000
Subject: [PATCH 04/90] fix: rebuild label image in nesting order and reset all
 pixel areas

---
 src/geomap/cppmap.cxx | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index b1bfa1a..8ec6352 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -993,13 +993,25 @@ void GeoMap::setHasLabelImage(bool onoff)
             LabelImage::size_type(imageSize().width(), imageSize().height()), 0);
         faceLabelLUT_.initIdentity(faces_.size());
 
-        for(FaceIterator it = finiteFacesBegin(); it.inRange(); ++it)
+        // fill outer faces first (i.e. before the ones in their holes):
+        typedef std::pair<double, CellLabel> ContourAreaLabel;
+        std::vector<ContourAreaLabel> drawOrder;
+        for(FaceIterator it = facesBegin(); it.inRange(); ++it)
+        {
+            (*it)->pixelArea_ = 0;
+            if((*it)->label())
+                drawOrder.push_back(
+                    ContourAreaLabel(-contourArea((*it)->contour()),
+                                     (*it)->label()));
+        }
+        std::sort(drawOrder.begin(), drawOrder.end());
+
+        for(unsigned int i = 0; i < drawOrder.size(); ++i)
         {
             std::auto_ptr<vigra::Scanlines> scanlines =
-                (*it)->scanLines();
-            fillScannedPoly(*scanlines, (int)(*it)->label(),
+                face(drawOrder[i].second)->scanLines();
+            fillScannedPoly(*scanlines, (int)drawOrder[i].second,
                             destMultiArrayRange(*labelImage_));
-            (*it)->pixelArea_ = 0;
         }
 
         for(EdgeIterator it = edgesBegin(); it.inRange(); ++it)
-- 
2.43.0


From 12b134052a74beb50072f06aa87ca7b1aed8524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:26 +0000
Subject: [PATCH 05/90] fix: drop cached scanlines of split edges also without
 label image

---
 src/geomap/cppmap.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 8ec6352..177bc5b 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1952,9 +1952,9 @@ GeoMap::EdgePtr GeoMap::splitEdge(
             changedNode.anchor_ = -(int)result->label();
     }
 
+    edge.scanLines_.reset();
     if(labelImage_)
     {
-        edge.scanLines_.reset();
         rawAddEdgeToLabelImage(edge.scanLines(), *labelImage_, -1);
         rawAddEdgeToLabelImage(result->scanLines(), *labelImage_, -1);
     }
-- 
2.43.0


From 92ec9c5dc52dbac2cdc11aba100dfa5b15606037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:50 +0000
Subject: [PATCH 06/90] fix: free the label image together with its map

---
 src/geomap/cppmap.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 177bc5b..45dd99c 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -305,6 +305,7 @@ GeoMap::~GeoMap()
         (*it)->uninitialize();
     for(FaceIterator it = facesBegin(); it.inRange(); ++it)
         (*it)->uninitialize();
+    delete labelImage_;
 }
 
 GeoMap::FacePtr GeoMap::faceAt(const Vector2 &position)
-- 
2.43.0


From ae7faad6dfc2c49520d98e9490f9821b9171ae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:20 +0000
Subject: [PATCH 07/90] fix: halve the area contribution of appended polygon
 segments

---
 src/geomap/polygon.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 22cc271..de615e5 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -352,7 +352,7 @@ class Polygon : public PointArray<POINT>
                 length_ += (v - this->points_.back()).magnitude();
             if(partialAreaValid_)
                 partialArea_ += (v[0]*this->points_.back()[1] -
-                                      v[1]*this->points_.back()[0]);
+                                 v[1]*this->points_.back()[0]) / 2.0;
         }
         Base::push_back(v);
     }
@@ -380,7 +380,7 @@ class Polygon : public PointArray<POINT>
                 if(partialAreaValid_)
                     partialArea_ +=
                         (other.points_.front()[0]*this->points_.back()[1] -
-                         other.points_.front()[1]*this->points_.back()[0]);
+                         other.points_.front()[1]*this->points_.back()[0]) / 2.0;
             }
         }
         if(lengthValid_)
-- 
2.43.0


From f1fbe2f2690da7a783f6f4931dc2a0ff684d5e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:20 +0000
Subject: [PATCH 08/90] fix: extend the cached bounding box when setPoint()
 moves a point out of it

---
 src/geomap/polygon.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index de615e5..9e0c569 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -652,6 +652,8 @@ class BBoxPolygon : public Polygon<POINT>
                ((x[1] > this->points_[pos][1]) &&
                 (this->points_[pos][1] == boundingBox_.begin()[1])))
                 boundingBoxValid_ = false;
+            else
+                boundingBox_ |= x;
         }
         Base::setPoint(pos, x);
     }
-- 
2.43.0


From 01cde8c4bf6f71c73dc544243ef5ab9a336e3f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:20 +0000
Subject: [PATCH 09/90] fix: invalidate all cached polygon properties in
 clear() and invalidateProperties()

---
 src/geomap/polygon.hxx | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 9e0c569..46fddd2 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -344,6 +344,12 @@ class Polygon : public PointArray<POINT>
         return (result % 2) != 0;
     }
 
+    void clear()
+    {
+        invalidateProperties();
+        Base::clear();
+    }
+
     void push_back(const_reference v)
     {
         if(this->size())
@@ -613,6 +619,18 @@ class BBoxPolygon : public Polygon<POINT>
         return Base::contains(point);
     }
 
+    void invalidateProperties()
+    {
+        Base::invalidateProperties();
+        boundingBoxValid_ = false;
+    }
+
+    void clear()
+    {
+        Base::clear();
+        boundingBoxValid_ = false;
+    }
+
     BoundingBox boundingBox() const
     {
         if(!boundingBoxValid_)
-- 
2.43.0


From 5c838b73b0601538e21bff54e44de78bbf47853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:20 +0000
Subject: [PATCH 10/90] fix: do not read behind the last scanline if there are
 no segments

---
 src/geomap/polygon.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 46fddd2..650e3fd 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -1926,8 +1926,9 @@ class ScanlinesIter
     {
         while(y < scanlines.endIndex() && !scanlines[y].size())
             ++y;
-        if(y < scanlines.endIndex())
-            x = scanlines[y][0].begin;
+        if(y >= scanlines.endIndex())
+            return; // no segments at all
+        x = scanlines[y][0].begin;
         ensureValid();
     }
 
-- 
2.43.0


From 1834a3fceb33f220d2717dd6b6436e1885e08e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:51 +0000
Subject: [PATCH 11/90] fix: ignore duplicates of the extremal point in
 convexHull()

---
 src/geomap/polygon.hxx | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 650e3fd..685f53b 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -788,7 +788,6 @@ void convexHull(
     typedef typename Point::value_type Coordinate;
 
     // find extremal point (max. y, then min. x):
-    unsigned int i0 = 0;
     Point p0 = poly[0];
     for(unsigned int i = 1; i < poly.size(); ++i)
     {
@@ -796,13 +795,17 @@ void convexHull(
         if(yDiff > 0 || (yDiff == 0 && poly[i][0] < p0[0]))
         {
             p0 = poly[i];
-            i0 = i;
         }
     }
 
-    // sort other points by angle from p0:
-    std::vector<Point> other(poly.begin(), poly.begin() + i0);
-    other.insert(other.end(), poly.begin()+i0+1, poly.end());
+    // sort other points by angle from p0 (which is undefined for
+    // duplicates of p0, e.g. from closed polygons):
+    std::vector<Point> other;
+    for(unsigned int i = 0; i < poly.size(); ++i)
+        if(poly[i] != p0)
+            other.push_back(poly[i]);
+    if(!other.size())
+        other.push_back(p0);
     std::sort(other.begin(), other.end(), detail::CCWCompare<Point>(p0));
 
     std::vector<Point> result(poly.size()+1);
-- 
2.43.0


From 92df77b16c13d8ca5d8b13dd879571ddf6531f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:06 +0000
Subject: [PATCH 12/90] fix: sort points in the same direction by distance in
 convexHull()

---
 src/geomap/polygon.hxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 685f53b..8b1089e 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -772,7 +772,11 @@ struct CCWCompare
 
     bool operator()(const Point &a, const Point &b) const
     {
-        return (a[1]-p0_[1])*(b[0]-p0_[0]) - (a[0]-p0_[0])*(b[1]-p0_[1]) > 0;
+        double d = (a[1]-p0_[1])*(b[0]-p0_[0]) - (a[0]-p0_[0])*(b[1]-p0_[1]);
+        if(d != 0)
+            return d > 0;
+        // same direction from p0_, closer points first:
+        return (a - p0_).squaredMagnitude() < (b - p0_).squaredMagnitude();
     }
 };
 }
-- 
2.43.0


From cf7dd1dac579539b29b7d32de3feede28dcb328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:42 +0000
Subject: [PATCH 13/90] fix: count all turns in cyclic Gaussian polygon filter
 (endless loop)

---
 src/geomap/polygon.hxx | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 8b1089e..506c074 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -1413,16 +1413,13 @@ singleGaussianConvolvePolygonCyclic(
     ValueType sum(vigra::NumericTraits<ValueType>::zero());
     double norm = 0.0;
 
-    int size = arcLengthList.size() - 1,
-        lastIndex = size - 1;
+    int size = arcLengthList.size() - 1;
     double totalLength = arcLengthList[size];
 
     for(int j = i; true; ++j)
     {
         int k = j % size;
-        double pos = j > lastIndex
-                        ? arcLengthList[k] + totalLength
-                        : arcLengthList[k];
+        double pos = arcLengthList[k] + (j / size) * totalLength;
         ValueType point = pointList[k];
         double diff = pos - arcLengthPos;
         if(diff > g.radius())
-- 
2.43.0


From e7544db1b65e2824738e0d72c3f6c460d8ad52a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:25 +0000
Subject: [PATCH 14/90] fix: drop cached scanlines of edges whose geometry is
 replaced

---
 src/geomap/cppmap.hxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index 337c426..e62b924 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -690,6 +690,13 @@ class GeoMap::Edge
             scanLines_ = scanPoly(*this);
         return *scanLines_;
     }
+
+        // replace the geometry (drops cached scanlines, too)
+    void swap(Vector2Array &rhs)
+    {
+        Base::swap(rhs);
+        scanLines_.reset();
+    }
 };
 
 std::string description(GeoMap::Edge const &edge);
-- 
2.43.0


From 32925bdccdb89f4692fa866c085023dc3579012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:20 +0000
Subject: [PATCH 15/90] fix: invalidate cached edge and face properties in
 Node::setPosition()

---
 src/geomap/cppmap.cxx | 14 +++++++-------
 src/geomap/cppmap.hxx |  7 +++++++
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 45dd99c..07aeb0a 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -2204,14 +2204,14 @@ void GeoMap::Node::setPosition(const Vector2 &p)
         GeoMap::Dart d(map_, anchor_);
         do
         {
-            if(d.label() > 0)
+            GeoMap::Edge &edge(*map_->edge(abs(d.label())));
+            edge.setPoint(d.label() > 0 ? 0 : edge.size()-1, p);
+            if(map_->mapInitialized())
             {
-                (*map_->edge(d.label()))[ 0] = p;
-            }
-            else
-            {
-                GeoMap::Edge &edge(*map_->edge(-d.label()));
-                edge[edge.size()-1] = p;
+                edge.leftFace()->setFlag(
+                    Face::BOUNDING_BOX_VALID | Face::AREA_VALID, false);
+                edge.rightFace()->setFlag(
+                    Face::BOUNDING_BOX_VALID | Face::AREA_VALID, false);
             }
         }
         while(d.nextSigma().label() != anchor_);
diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index e62b924..f12f7df 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -691,6 +691,13 @@ class GeoMap::Edge
         return *scanLines_;
     }
 
+        // change a single point (drops cached scanlines, too)
+    void setPoint(unsigned int pos, const Vector2 &x)
+    {
+        Base::setPoint(pos, x);
+        scanLines_.reset();
+    }
+
         // replace the geometry (drops cached scanlines, too)
     void swap(Vector2Array &rhs)
     {
-- 
2.43.0


From 728cd6d9efdad22e2f2b2676dff1fe57e7925114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:53 +0000
Subject: [PATCH 16/90] fix: let DartPosition step back to the beginning of the
 previous segment

---
 src/geomap/cppmap.hxx | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index f12f7df..b0018b9 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -1658,17 +1658,23 @@ class DartPosition
 
     bool prevSegmentInternal()
     {
-        if(!segmentIndex_)
-            return false;
+        if(!atEnd()) // (at the end, segmentIndex_ is the last segment already)
+        {
+            if(!segmentIndex_)
+                return false;
+            --segmentIndex_;
+        }
         // now I assume that pointIter_ can step backwards and still
         // is inRange():
         pointIter_.reverse();
         p2_ = p1_;
         ++pointIter_;
         pointIter_.reverse();
-        p1_ = *pointIter_;
-        arcLength_ -= (p2_ - p1_).magnitude();
-        --segmentIndex_;
+        p1_ = dart_[segmentIndex_];
+        if(segmentIndex_)
+            arcLength_ -= (p2_ - p1_).magnitude();
+        else
+            arcLength_ = 0.0; // (no accumulated rounding errors)
         return true;
     }
 
-- 
2.43.0


From 67da2080d97bfba4135a312dbd892a057fc2f8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:33 +0000
Subject: [PATCH 17/90] fix: correct DartPosition::arcLength() after
 intersectCircle() hit the end

---
 src/geomap/cppmap.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index b0018b9..5270ec5 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -1618,6 +1618,7 @@ class DartPosition
             if(!nextSegmentInternal())
             {
                 position_ = p2_;
+                partialArcLength_ = 0.0;
                 return false;
             }
         }
-- 
2.43.0


From 1750da51a2ad7c025806840b2214367c8af31780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:51 +0000
Subject: [PATCH 18/90] fix: keep nodeMap entries of other nodes at the
 position of a removed or moved node

---
 src/geomap/cppmap.cxx      |  4 +---
 src/geomap/cppmap.hxx      | 22 +++++++++++++++++++---
 src/geomap/vigra/map2d.hxx |  6 ++++++
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 07aeb0a..8372197 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -2194,9 +2194,7 @@ GeoMap::FacePtr GeoMap::mergeFaces(const GeoMap::Dart &dart)
 void GeoMap::Node::setPosition(const Vector2 &p)
 {
     vigra_precondition(initialized(), "setPosition() of uninitialized node!");
-    map_->nodeMap_.erase(
-        map_->nodeMap_.nearest(PositionedNodeLabel(position_, label_),
-                               vigra::NumericTraits<double>::epsilon()));
+    eraseFrom(map_->nodeMap_);
     position_ = p;
 
     if(!isIsolated())
diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index 5270ec5..0662b44 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -450,6 +450,10 @@ class GeoMap::Node : boost::noncopyable
 
     inline void uninitialize();
 
+        // remove the entry of this node from the given nodeMap
+        // (there may be entries of other nodes at the same position)
+    inline void eraseFrom(NodeMap &nodeMap);
+
     Node(GeoMap *map, const Vector2 &position)
     : map_(map),
       label_(map->nodes_.size()),
@@ -1325,14 +1329,26 @@ inline GeoMap::Dart GeoMap::dart(int label)
     return GeoMap::Dart(this, label);
 }
 
+inline void GeoMap::Node::eraseFrom(NodeMap &nodeMap)
+{
+    std::pair<NodeMap::iterator, NodeMap::iterator>
+        range(nodeMap.equal_range(position_[0]));
+    for(NodeMap::iterator it = range.first; it != range.second; ++it)
+    {
+        if(it->second.payload == label_)
+        {
+            nodeMap.erase(it);
+            break;
+        }
+    }
+}
+
 inline void GeoMap::Node::uninitialize()
 {
     GeoMap *map = map_;
     map_ = NULL; // DON'T MESS WITH THIS!
     --map->nodeCount_;
-    map->nodeMap_.erase(
-        map->nodeMap_.nearest(PositionedNodeLabel(position_, label_),
-                              vigra::NumericTraits<double>::epsilon()));
+    eraseFrom(map->nodeMap_);
     RESET_PTR(map->nodes_[label_]); // may have effect like "delete this;"!
 }
 
diff --git a/src/geomap/vigra/map2d.hxx b/src/geomap/vigra/map2d.hxx
index 5e5397e..d52cd7f 100644
--- a/src/geomap/vigra/map2d.hxx
+++ b/src/geomap/vigra/map2d.hxx
@@ -81,6 +81,12 @@ public:
         vectors_.erase(it);
     }
 
+        // all elements with the given x coordinate
+    std::pair<iterator, iterator> equal_range(CoordType x)
+    {
+        return vectors_.equal_range(x);
+    }
+
         // assumes that Vector2D(x, y) is a valid constructor:
     void insert(CoordType x, CoordType y)
     {
-- 
2.43.0


From 3e11df42b7ce2d06b66b56baf02dd17aa06fd52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:42 +0000
Subject: [PATCH 19/90] fix: move DartPosition to the start if gotoArcLength()
 is given a negative arc length

---
 src/geomap/cppmap.hxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index 0662b44..b240fcc 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -1569,8 +1569,15 @@ class DartPosition
     bool gotoArcLength(double arcLength)
     {
         while(arcLength < arcLength_)
+        {
             if(!prevSegmentInternal())
+            {
+                // hit start
+                position_ = p1_;
+                partialArcLength_ = 0.0;
                 return false;
+            }
+        }
         do
         {
             double rest = arcLength - arcLength_;
-- 
2.43.0


From b3bafffe7fac7795cc90d4b94669a4ca8f6a7056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:49 +0000
Subject: [PATCH 20/90] fix: forget about bridges whose removal was refused in
 removeBridges()

REMOVE_BRIDGE stayed set on refused bridges, so that they were removed (or
kept from being merged by EdgeProtection) in later calls, and the flag
0x80000 of the user's edges was misinterpreted and cleared.
---
 src/geomap/cppmap_utils.cxx | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/geomap/cppmap_utils.cxx b/src/geomap/cppmap_utils.cxx
index 06459f1..8b81310 100644
--- a/src/geomap/cppmap_utils.cxx
+++ b/src/geomap/cppmap_utils.cxx
@@ -27,6 +27,7 @@
 /************************************************************************/
 
 #include "cppmap_utils.hxx"
+#include <set>
 
 GeoMap::FacePtr mergeFacesCompletely(
     GeoMap::Dart &dart, bool mergeDegree2Nodes)
@@ -115,10 +116,9 @@ unsigned int removeBridges(GeoMap &map, std::list<CellLabel> &bridges)
 
     typedef std::list<CellLabel> Bridges;
 
-    unsigned int const UNREMOVABLE_BRIDGE = 0x80000;
-
     while(bridges.size())
     {
+        std::set<CellLabel> unremovable;
         bool degree1Found = false;
 
         // search for bridge with endnode of degree 1:
@@ -140,7 +140,10 @@ unsigned int removeBridges(GeoMap &map, std::list<CellLabel> &bridges)
                 if(map.removeBridge(dart))
                     ++result;
                 else
-                    dart.edge()->setFlag(UNREMOVABLE_BRIDGE);
+                {
+                    dart.edge()->setFlag(GeoMap::Edge::REMOVE_BRIDGE, false);
+                    unremovable.insert(dart.edgeLabel());
+                }
 
                 if(next.edgeLabel() == dart.edgeLabel())
                     break;
@@ -155,25 +158,21 @@ unsigned int removeBridges(GeoMap &map, std::list<CellLabel> &bridges)
         }
 
         Bridges::iterator next = bridges.begin();
-        do
+        while(next != bridges.end())
         {
             Bridges::iterator it = next;
             ++next;
-            GeoMap::EdgePtr bridge = map.edge(*it);
-            if(!bridge)
-                bridges.erase(it);
-            else if(bridge->flag(UNREMOVABLE_BRIDGE))
-            {
-                bridge->setFlag(UNREMOVABLE_BRIDGE, false); // clean up
+            if(!map.edge(*it) || unremovable.count(*it))
                 bridges.erase(it);
-            }
         }
-        while(next != bridges.end());
 
-        if(!degree1Found)
+        if(!degree1Found && bridges.size())
         {
-            if(map.removeBridge(map.dart(bridges.front())))
+            GeoMap::EdgePtr bridge = map.edge(bridges.front());
+            if(map.removeBridge(bridge->dart()))
                 ++result;
+            else
+                bridge->setFlag(GeoMap::Edge::REMOVE_BRIDGE, false);
             bridges.erase(bridges.begin());
         }
     }
-- 
2.43.0


From b8bc054d8beca41827037e94560a3c1b983f91de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:49 +0000
Subject: [PATCH 21/90] fix: detach the hooks of an EdgeProtection upon
 destruction

---
 src/geomap/cppmap_utils.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geomap/cppmap_utils.hxx b/src/geomap/cppmap_utils.hxx
index d856d9e..856adb9 100644
--- a/src/geomap/cppmap_utils.hxx
+++ b/src/geomap/cppmap_utils.hxx
@@ -49,6 +49,11 @@ class EdgeProtection : boost::noncopyable
             attachHooks(map);
     }
 
+    ~EdgeProtection()
+    {
+        detachHooks();
+    }
+
     const boost::shared_ptr<GeoMap> map() const
     {
         return map_;
-- 
2.43.0


From b10a8b2f5404932f1da92e26028dbe9107b29e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:25 +0000
Subject: [PATCH 22/90] fix: draw faces in nesting order and edges last in
 drawLabelImage()

---
 src/geomap/cppmap_utils.hxx | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/geomap/cppmap_utils.hxx b/src/geomap/cppmap_utils.hxx
index 856adb9..e84d2ea 100644
--- a/src/geomap/cppmap_utils.hxx
+++ b/src/geomap/cppmap_utils.hxx
@@ -33,6 +33,7 @@
 #include "polygon.hxx"
 #include <boost/utility.hpp>
 #include <boost/bind.hpp>
+#include <algorithm>
 #include <vector>
 #include <list>
 
@@ -151,18 +152,30 @@ void drawLabelImage(const GeoMap &geomap,
                     DestIterator dul, SizeType ds, DestAccessor a,
                     bool negativeEdgeLabels = true)
 {
+    // fill outer faces first (i.e. before the ones in their holes):
+    typedef std::pair<double, CellLabel> ContourAreaLabel;
+    std::vector<ContourAreaLabel> drawOrder;
     for(GeoMap::ConstFaceIterator
             it = geomap.finiteFacesBegin(); it.inRange(); ++it)
+        drawOrder.push_back(
+            ContourAreaLabel(-contourArea((*it)->contour()), (*it)->label()));
+    std::sort(drawOrder.begin(), drawOrder.end());
+
+    for(unsigned int i = 0; i < drawOrder.size(); ++i)
     {
+        CellLabel label = drawOrder[i].second;
         std::auto_ptr<vigra::Scanlines> scanlines =
-            (*it)->scanLines();
-        fillScannedPoly(*scanlines, (int)(*it)->label(),
-                        dul, ds, a);
-        if(negativeEdgeLabels)
-            vigra::drawScannedPoly(*(*it)->scanLines(), -1,
-                                   dul, ds, a);
+            geomap.face(label)->scanLines();
+        fillScannedPoly(*scanlines, (int)label, dul, ds, a);
     }
 
+    if(negativeEdgeLabels)
+    {
+        for(GeoMap::ConstEdgeIterator
+                it = geomap.edgesBegin(); it.inRange(); ++it)
+            vigra::drawScannedPoly((*it)->scanLines(), -1,
+                                   dul, ds, a);
+    }
     if(!negativeEdgeLabels)
     {
         vigra::Rect2D imageROI(vigra::Size2D(ds[0], ds[1]));
-- 
2.43.0


From 726f463d1bd0053cf8d4fe791d72947255f228e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:50 +0000
Subject: [PATCH 23/90] fix: detach the hooks of FaceColorStatistics upon
 destruction

---
 src/geomap/facestatistics.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geomap/facestatistics.hxx b/src/geomap/facestatistics.hxx
index 5613333..7115e21 100644
--- a/src/geomap/facestatistics.hxx
+++ b/src/geomap/facestatistics.hxx
@@ -591,6 +591,7 @@ void FaceColorStatistics<OriginalImage>::ensureMinSampleCount(
 template<class OriginalImage>
 FaceColorStatistics<OriginalImage>::~FaceColorStatistics()
 {
+    detachHooks();
     for(unsigned int i = 0; i < functors_.size(); ++i)
         delete functors_[i];
 }
-- 
2.43.0


From 82357b38061b5ded126b630a828813294fac194b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:50 +0000
Subject: [PATCH 24/90] fix: do not share functors between copies of
 FaceColorStatistics (double free)

---
 src/geomap/facestatistics.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geomap/facestatistics.hxx b/src/geomap/facestatistics.hxx
index 7115e21..95431c1 100644
--- a/src/geomap/facestatistics.hxx
+++ b/src/geomap/facestatistics.hxx
@@ -538,6 +538,10 @@ FaceColorStatistics<OriginalImage>::FaceColorStatistics(
   superSampledCount_(other.superSampledCount_),
   maxDiffNorm_(other.maxDiffNorm_)
 {
+    // do not share the functors (they are deleted in the destructor):
+    for(unsigned int i = 0; i < functors_.size(); ++i)
+        if(functors_[i])
+            functors_[i] = new Functor(*functors_[i]);
 }
 
 template<class OriginalImage>
-- 
2.43.0


From 6f40bc38a0096f7cc41ca2983fb4c7eb0134e9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:50 +0000
Subject: [PATCH 25/90] fix: do not access reset super-sampling table in
 FaceColorStatistics

---
 src/geomap/facestatistics.hxx | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/geomap/facestatistics.hxx b/src/geomap/facestatistics.hxx
index 95431c1..8964daa 100644
--- a/src/geomap/facestatistics.hxx
+++ b/src/geomap/facestatistics.hxx
@@ -230,17 +230,14 @@ class FaceColorStatistics
         if(superSampled_.get())
         {
             if((*superSampled_)[face.label()] && !mergedSS_)
-            {
-                if(!--superSampledCount_)
-                    superSampled_.reset();
-            }
+                --superSampledCount_;
             (*superSampled_)[face.label()] = mergedSS_;
 
             if((*superSampled_)[mergedLabel])
-            {
-                if(!--superSampledCount_)
-                    superSampled_.reset();
-            }
+                --superSampledCount_;
+
+            if(!superSampledCount_)
+                superSampled_.reset();
         }
 
         delete functors_[mergedLabel];
@@ -263,7 +260,8 @@ class FaceColorStatistics
            face.pixelArea() >= minSampleCount_)
         {
             (*superSampled_)[face.label()] = 0;
-            --superSampledCount_;
+            if(!--superSampledCount_)
+                superSampled_.reset();
 
             functors_[face.label()]->reset();
 
-- 
2.43.0


From 409cf9fd3453dd92b5fd8cc8d04f8f76f7088b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:39 +0000
Subject: [PATCH 26/90] fix: do not combine statistics of faces without samples
 (0/0 = NaN average)

---
 src/geomap/facestatistics.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geomap/facestatistics.hxx b/src/geomap/facestatistics.hxx
index 8964daa..d25b706 100644
--- a/src/geomap/facestatistics.hxx
+++ b/src/geomap/facestatistics.hxx
@@ -213,7 +213,8 @@ class FaceColorStatistics
         }
 
         merged_ = *functors_[dart.leftFaceLabel()];
-        merged_(*functors_[dart.rightFaceLabel()]);
+        if(pixelCount(dart.rightFaceLabel()))
+            merged_(*functors_[dart.rightFaceLabel()]);
         return true;
     }
 
-- 
2.43.0


From efcd70ff1aada112b0d41a0a6e457fb5da8a4739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:56 +0000
Subject: [PATCH 27/90] fix: embed nested contours of tiny components into the
 right face

AbsAreaCompare treated all contours whose areas differ by less than 0.01 as
equal, so exterior contours of tiny components were embedded before the
(equally tiny) faces containing them.
---
 src/geomap/cppmap.cxx | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 8372197..c00c9d4 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1057,12 +1057,19 @@ void GeoMap::initContours()
 
 struct AbsAreaCompare
 {
+        // largest difference attributed to the summation of partial areas
+    double tolerance;
+
+    AbsAreaCompare(double tolerance)
+    : tolerance(tolerance)
+    {}
+
         // FIXME: actually, const pointers would suffice:
     bool operator()(GeoMap::FacePtr f1, GeoMap::FacePtr f2) const
     {
         double a1 = f1->area(), a2 = f2->area();
         double absdiff = std::fabs(a1) - std::fabs(a2);
-        if(std::fabs(absdiff) < 1e-2 && ((a1 < 0) != (a2 < 0)))
+        if(std::fabs(absdiff) < tolerance && ((a1 < 0) != (a2 < 0)))
             return (a1 < 0); // for faces with equal area, prefer the exterior one
         return absdiff > 0; // else, prefer face with larger absolute area
     }
@@ -1092,7 +1099,13 @@ void GeoMap::embedFaces(bool initLabelImage)
 
     // copy and remove all preliminary contours except the infinite one:
     GeoMap::Faces contours(faces_.begin() + 1, faces_.end());
-    std::sort(contours.begin(), contours.end(), AbsAreaCompare());
+    double maxCoord2 = 0.0;
+    for(EdgeIterator it = edgesBegin(); it.inRange(); ++it)
+        maxCoord2 = std::max(maxCoord2, std::max(
+            (*it)->boundingBox().begin().squaredMagnitude(),
+            (*it)->boundingBox().end().squaredMagnitude()));
+    std::sort(contours.begin(), contours.end(),
+              AbsAreaCompare(std::min(1e-2, 1e-11*maxCoord2)));
     std::fill(faces_.begin() + 1, faces_.end(), NULL_PTR(Face));
 
     for(unsigned int i = 0; i < contours.size(); ++i)
-- 
2.43.0


From 975ef042ebb0f7d503f076805b61f9156d5ed8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:10 +0000
Subject: [PATCH 28/90] fix: reject singular darts in cellimage
 mergeFaces()/mergeEdges() before accessing their edge

---
 src/cellimage/foureightsegmentation.cxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cellimage/foureightsegmentation.cxx b/src/cellimage/foureightsegmentation.cxx
index d89924f..2107880 100644
--- a/src/cellimage/foureightsegmentation.cxx
+++ b/src/cellimage/foureightsegmentation.cxx
@@ -237,6 +237,10 @@ GeoMap::FaceInfo &GeoMap::mergeFaces(const DartTraverser & dart)
 {
     //std::cerr << "mergeFaces(" << dart << ")\n";
     validateDart(dart);
+    vigra_precondition(
+        !dart.isSingular() && (dart.leftFaceLabel() != dart.rightFaceLabel()),
+        "GeoMap::mergeFaces(): dart is singular or edge is a bridge");
+
     // merge smaller face into larger one:
     DartTraverser removedDart = dart;
     if(dart.leftFace().bounds.area() < dart.rightFace().bounds.area())
@@ -248,9 +252,6 @@ GeoMap::FaceInfo &GeoMap::mergeFaces(const DartTraverser & dart)
     NodeInfo &node1= mergedEdge.start.startNode();
     NodeInfo &node2= mergedEdge.end.startNode();
 
-    vigra_precondition(survivor.label != mergedFace.label,
-        "GeoMap::mergeFaces(): dart is singular or edge is a bridge");
-
     // find indices of contour components to be merged
     const unsigned int contour1(findComponentAnchor(survivor, removedDart));
     const unsigned int contour2(findComponentAnchor(mergedFace, removedDart));
@@ -387,6 +388,8 @@ GeoMap::EdgeInfo &GeoMap::mergeEdges(const DartTraverser & dart)
     //std::cerr << "mergeEdges(" << dart << ")\n";
     // merge smaller edge (mergedEdge) into larger one (survivor):
     validateDart(dart);
+    vigra_precondition(!dart.isSingular(),
+        "GeoMap::mergeEdges(): dart does not point to any edge");
     DartTraverser dart1(dart);
     dart1.nextSigma();
     bool firstIsSmaller =
-- 
2.43.0


From 39423ce88d370d250f65264ccab692c2cdd94b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:10 +0000
Subject: [PATCH 29/90] fix: make everything enclosed by a node part of it in
 cell images

---
 src/cellimage/foureightsegmentation.cxx | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/cellimage/foureightsegmentation.cxx b/src/cellimage/foureightsegmentation.cxx
index 2107880..5a23d6d 100644
--- a/src/cellimage/foureightsegmentation.cxx
+++ b/src/cellimage/foureightsegmentation.cxx
@@ -725,6 +725,28 @@ void GeoMap::initCellImage(BImage & contourImage, CellType cornerType)
     // way (faceList_[0].anchor is directly initialized from this
     // position)
     cellImage(1, 1).setType(CellTypeVertex, 0);
+
+    // everything enclosed by a node becomes part of it (nodes must be
+    // simply connected, since only the darts along their outer contour
+    // are found)
+    BImage nodeImage(cellImage.size());
+    transformImage(srcImageRange(cellImage, CellTypeAccessor()),
+                   destImage(nodeImage), CellTypeEquals<CellTypeVertex>());
+    IImage outerImage(cellImage.size());
+    outerImage = 0;
+    labelImageWithBackground(srcImageRange(nodeImage),
+                             destImage(outerImage), false, 1);
+    for(int y=0; y < cellImage.height(); ++y)
+    {
+        for(int x=0; x < cellImage.width(); ++x)
+        {
+            if(outerImage(x, y) && (outerImage(x, y) != outerImage(0, 0)))
+            {
+                cellImage(x, y).setType(CellTypeVertex, 0);
+                contourImage(x, y) = 1;
+            }
+        }
+    }
 #ifndef NDEBUG
     std::cerr << "*** RUN-TIME WARNING: slowness results from missing NDEBUG flag during compilation of foureightsegmentation.cxx! ***\n";
 #endif
-- 
2.43.0


From e4f69a08675e4ea1ef324692f001c8bb08cc793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:10 +0000
Subject: [PATCH 30/90] fix: keep level index and checkpoints consistent in
 CellPyramid::changeIntoComposite()

---
 src/cellimage/cellpyramid.hxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cellimage/cellpyramid.hxx b/src/cellimage/cellpyramid.hxx
index 57db2a0..be47640 100644
--- a/src/cellimage/cellpyramid.hxx
+++ b/src/cellimage/cellpyramid.hxx
@@ -434,6 +434,13 @@ class CellPyramid
     {
         if(!composing_)
         {
+            vigra_precondition(history_.size() > 0,
+                "changeIntoComposite(): no operation to be changed");
+            // the last level is not complete anymore:
+            --topLevel_.index_;
+            checkpoints_.erase(checkpoints_.upper_bound(topLevel_.index()),
+                               checkpoints_.end());
+
             Operation &last(history_.back());
             Operation tmp(last);         // copy old
             last = Operation();          // create composite
-- 
2.43.0


From 7458e663d45dde72613c753b10c8158d94b0c29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:10 +0000
Subject: [PATCH 31/90] fix: do not dereference NULL when replaying an empty
 composite operation

---
 src/cellimage/cellpyramid.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cellimage/cellpyramid.hxx b/src/cellimage/cellpyramid.hxx
index be47640..5ee4676 100644
--- a/src/cellimage/cellpyramid.hxx
+++ b/src/cellimage/cellpyramid.hxx
@@ -226,7 +226,8 @@ class CellPyramid
         {
             if(op.type == Composite)
             {
-                CellInfo *result = NULL;
+                // (composite operations may be empty)
+                CellInfo *result = &segmentation_.face(0);
                 for(typename History::iterator it = op.opList->begin();
                     it != op.opList->end(); ++it)
                     result = &performOperation(*it);
-- 
2.43.0


From c17401fc5eb2bd19382a9ffee26e66abdc4cf4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:10 +0000
Subject: [PATCH 32/90] fix: do not keep failed operations in the history of a
 CellPyramid

---
 src/cellimage/cellpyramid.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cellimage/cellpyramid.hxx b/src/cellimage/cellpyramid.hxx
index 5ee4676..597288d 100644
--- a/src/cellimage/cellpyramid.hxx
+++ b/src/cellimage/cellpyramid.hxx
@@ -326,7 +326,8 @@ class CellPyramid
             }
             catch(...)
             {
-                cutAbove(topLevel_.index());
+                history_.erase(history_.begin() + topLevel_.index(),
+                               history_.end());
                 throw;
             }
         }
-- 
2.43.0


From a2565b301767c866d59e4717e6cda4ef6344c49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:10 +0000
Subject: [PATCH 33/90] fix: reject singular darts in CellPyramid operations on
 edges

---
 src/cellimage/cellpyramid.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cellimage/cellpyramid.hxx b/src/cellimage/cellpyramid.hxx
index 597288d..dd02e08 100644
--- a/src/cellimage/cellpyramid.hxx
+++ b/src/cellimage/cellpyramid.hxx
@@ -313,6 +313,9 @@ class CellPyramid
 //         vigra_precondition(topLevel_.index() == levelCount()-1,
 //             "addAndPerformOperation(): topLevel_ is not the top level anymore");
 
+        vigra_precondition(t == RemoveIsolatedNode || !p.isSingular(),
+            "CellPyramid: operation needs a dart with an edge");
+
         CellInfo *result = NULL;
         if(!composing_)
         {
-- 
2.43.0


From 066a29104bc69b1168900e090b308ab937983cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:10 +0000
Subject: [PATCH 34/90] fix: do not leak the operations of composites in
 CellPyramid::Operation::operator=()

---
 src/cellimage/cellpyramid.hxx | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/cellimage/cellpyramid.hxx b/src/cellimage/cellpyramid.hxx
index dd02e08..d36832f 100644
--- a/src/cellimage/cellpyramid.hxx
+++ b/src/cellimage/cellpyramid.hxx
@@ -85,9 +85,14 @@ class CellPyramid
 
         Operation &operator =(const Operation &other)
         {
-            if(type == Composite)
-                ;//delete opList; // FIXME: memory leak! (but crashes)
-            assign(other);
+            if(this != &other)
+            {
+                // (other may be part of our own opList)
+                std::vector<Operation> *oldList =
+                    (type == Composite) ? opList : NULL;
+                assign(other);
+                delete oldList;
+            }
             return *this;
         }
 
@@ -461,9 +466,8 @@ class CellPyramid
             Operation &last(history_.back());
             if(last.opList->size() == 1)
             {
-                History *h = last.opList;
-                last = (*h)[0];
-                delete h;
+                Operation single((*last.opList)[0]);
+                last = single;
             }
             ++topLevel_.index_;
             if(topLevel_.subIndex_ >= nextCheckpointLevelIndex_)
-- 
2.43.0


From 671e39df940f7b8e4139846b0b53f9725bc99eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:34 +0000
Subject: [PATCH 35/90] fix: invert the assertion against cycling backwards in
 tangentDSL()

The condition was that the backward iterator *is* at the starting point,
so with assertions enabled every tangent in a straight run failed.
---
 src/geomap/vigra/dsl.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geomap/vigra/dsl.hxx b/src/geomap/vigra/dsl.hxx
index 8588e7e..5cfe0fb 100644
--- a/src/geomap/vigra/dsl.hxx
+++ b/src/geomap/vigra/dsl.hxx
@@ -251,7 +251,7 @@ int tangentDSL(FreemanCodeIter freemanCodesBegin,
                 return 0;
         }
         --backwardIter;
-        vigra_assert(backwardIter == freemanCodesStart,
+        vigra_assert(backwardIter != freemanCodesStart,
                      "even for closed crack-edge polygons, we should not cycle!");
 
         // check whether we have two different codes now:
-- 
2.43.0


From 968db3c8abf2eb8c539ed770fdc9a587b65b60f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:27 +0000
Subject: [PATCH 36/90] fix: place spline knots within the last segment in
 polygonSplineControlPoints()

---
 src/geomap/polygon.hxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 506c074..0253ac7 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -1590,6 +1590,14 @@ void polygonSplineControlPoints(
             ++l;
         }
     }
+    for(; l < segmentCount; ++l)
+    {
+        // remaining spline knots lie within the last polygon segment
+        augmentedPoly.push_back(poly.interpolate(
+            size-2, (l - arcLength[size-2]) / (arcLength[size-1] - arcLength[size-2])));
+        augmentedArcLength.push_back(l);
+        splineIndices[l] = augmentedPoly.size()-1;
+    }
     augmentedPoly.push_back(poly[size-1]);
     augmentedArcLength.push_back(segmentCount);
     splineIndices[segmentCount] = augmentedPoly.size()-1;
-- 
2.43.0


From 48275b0dd50d463d6649caf905563b3a26becfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:27 +0000
Subject: [PATCH 37/90] fix: accumulate wrapped spline coefficients in
 polygonSplineControlPoints()

---
 src/geomap/polygon.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 0253ac7..5d28d91 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -1718,7 +1718,7 @@ void polygonSplineControlPoints(
         for(int k=0; k<solutionSize; ++k)
         {
             for(int l=-3; l<=3; ++l)
-                m(k, (k+l+solutionSize) % solutionSize) = spline7(l);
+                m(k, (k+l+solutionSize) % solutionSize) += spline7(l);
             rhs(k, 0) = integrals[k][0];
             rhs(k, 1) = integrals[k][1];
         }
-- 
2.43.0


From 09f79bd4648fdedd54cc961a7bb54038c2151244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:27 +0000
Subject: [PATCH 38/90] fix: require at least three segments in
 polygonSplineControlPoints()

---
 src/geomap/polygon.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 5d28d91..197f859 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -1554,6 +1554,8 @@ void polygonSplineControlPoints(
     int size = poly.size();
     vigra_precondition(size >= 4,
         "polygonSplineControlPoints(): Polygon must have at least 4 points.");
+    vigra_precondition(segmentCount >= 3,
+        "polygonSplineControlPoints(): Need at least 3 spline segments.");
 
     bool isOpenPolygon = !poly.closed();
 
-- 
2.43.0


From 3e65d45a6aa3459af14c4a4626a5c073b32de7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:08 +0000
Subject: [PATCH 39/90] fix: keep both leaning points of axis-parallel starts
 in simplifyPolygonDigitalLine()

---
 src/geomap/polygon.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 197f859..627615e 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -1030,6 +1030,11 @@ void simplifyPolygonDigitalLine(
                 b = l1[0] - l2[0];
                 c = -a*l2[0] - b*l2[1];
             }
+            else if(d >= ab - 1.0)
+            {
+                // both leaning lines coincide
+                r2 = poly[k];
+            }
         }
         else if(d >= ab - 1.0)
         {
-- 
2.43.0


From 37bbc86400b5f531d9c81ea8be4cf40abd1abbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:30 +0000
Subject: [PATCH 40/90] fix: do not intersect parallel lines in
 simplifyPolygonDigitalLine()

---
 src/geomap/polygon.hxx | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 627615e..0b9044c 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -966,9 +966,12 @@ void simplifyPolygon(
 namespace detail {
 
 template <class Point>
-Point digitalLineIntersection(TinyVector<double, 3> const & l1, TinyVector<double, 3> const & l2)
+Point digitalLineIntersection(TinyVector<double, 3> const & l1, TinyVector<double, 3> const & l2,
+                              Point const & commonPoint)
 {
     double d = l1[0]*l2[1] - l1[1]*l2[0];
+    if(d == 0.0)
+        return commonPoint; // parallel lines do not intersect
     return Point((l1[1]*l2[2] - l1[2]*l2[1]) / d, (l1[2]*l2[0] - l1[0]*l2[2]) / d);
 }
 
@@ -993,6 +996,7 @@ void simplifyPolygonDigitalLine(
     bool isOpenPolygon = poly[size-1] != poly[0];
 
     ArrayVector<TinyVector<double, 3> > lines;
+    ArrayVector<Point> commonPoints; // between consecutive lines
     Point l1 = poly[0],
           r1 = l1,
           l2 = poly[1],
@@ -1012,6 +1016,7 @@ void simplifyPolygonDigitalLine(
             c = (c - a*r2[0] - b*r2[1]) / 2.0;
             lines.push_back(TinyVector<double, 3>(a, b, c));
             // initialize new segment
+            commonPoints.push_back(poly[k-1]);
             l1 = poly[k-1];
             r1 = l1;
             l2 = poly[k];
@@ -1056,15 +1061,15 @@ void simplifyPolygonDigitalLine(
     if(isOpenPolygon)
         simple.push_back(poly[0]);
     else
-        simple.push_back(detail::digitalLineIntersection<Point>(lines[0], lines[segments-1]));
+        simple.push_back(detail::digitalLineIntersection<Point>(lines[0], lines[segments-1], poly[0]));
 
     for(int k=1; k<segments; ++k)
-        simple.push_back(detail::digitalLineIntersection<Point>(lines[k-1], lines[k]));
+        simple.push_back(detail::digitalLineIntersection<Point>(lines[k-1], lines[k], commonPoints[k-1]));
 
     if(isOpenPolygon)
         simple.push_back(poly[size-1]);
     else
-        simple.push_back(detail::digitalLineIntersection<Point>(lines[0], lines[segments-1]));
+        simple.push_back(detail::digitalLineIntersection<Point>(lines[0], lines[segments-1], poly[0]));
 }
 
 /********************************************************************/
-- 
2.43.0


From ea454a8d548fa77c92c1d6573c9895f6e18f3025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:18 +0000
Subject: [PATCH 41/90] fix: reject degree queries of removed nodes

---
 src/geomap/cppmap.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index b240fcc..385ba48 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -1377,6 +1377,7 @@ inline GeoMap::Dart GeoMap::Node::anchor() const
 
 inline unsigned int GeoMap::Node::degree() const
 {
+    vigra_precondition(initialized(), "degree() of uninitialized node!");
     if(!anchor_)
         return 0;
 
@@ -1393,6 +1394,7 @@ inline unsigned int GeoMap::Node::degree() const
 
 inline bool GeoMap::Node::hasMinDegree(unsigned int minDegree) const
 {
+    vigra_precondition(initialized(), "hasMinDegree() of uninitialized node!");
     if(!anchor_)
         return minDegree == 0;
 
@@ -1412,6 +1414,7 @@ inline bool GeoMap::Node::hasMinDegree(unsigned int minDegree) const
 
 inline bool GeoMap::Node::hasDegree(unsigned int exactDegree) const
 {
+    vigra_precondition(initialized(), "hasDegree() of uninitialized node!");
     if(!anchor_)
         return exactDegree == 0;
 
-- 
2.43.0


From a3800ce0b81a7f574859271865c13668fa2a58c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:18 +0000
Subject: [PATCH 42/90] fix: reject dart() of removed edges

---
 src/geomap/cppmap.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index 385ba48..560d254 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -1433,6 +1433,7 @@ inline bool GeoMap::Node::hasDegree(unsigned int exactDegree) const
 
 inline GeoMap::Dart GeoMap::Edge::dart() const
 {
+    vigra_precondition(initialized(), "dart() of uninitialized edge!");
     return map_->dart(label());
 }
 
-- 
2.43.0


From f24df0190953b3f8f535b83014089a1fad0e6491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:32 +0000
Subject: [PATCH 43/90] fix: reject contour() of faces without contours

---
 src/geomap/cppmap.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index 560d254..1937a5d 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -1260,6 +1260,7 @@ class GeoMap::Face : boost::noncopyable
 
     const Dart &contour()
     {
+        vigra_precondition(!anchors_.empty(), "contour() of face without contours!");
         return *contoursBegin();
     }
 
-- 
2.43.0


From 2d07f376299fcbb4fb1f206bebed4bea466d1e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:32 +0000
Subject: [PATCH 44/90] fix: pickle GeoMaps without edges

---
 src/python_bindings/cppmapmodule.cxx | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/python_bindings/cppmapmodule.cxx b/src/python_bindings/cppmapmodule.cxx
index 84608fa..163808a 100644
--- a/src/python_bindings/cppmapmodule.cxx
+++ b/src/python_bindings/cppmapmodule.cxx
@@ -651,7 +651,10 @@ struct GeoMapPickleSuite : bp::pickle_suite
         for(GeoMap::FaceIterator it = map.facesBegin(); it.inRange(); ++it)
         {
             faceFlags.append((*it)->flags() & ~0xf0000000U);
-            faceAnchors.append((*it)->contour().label());
+            // (an infinite face around nothing but isolated nodes has
+            // no anchor)
+            faceAnchors.append((*it)->contoursBegin() != (*it)->contoursEnd()
+                               ? (*it)->contour().label() : 0);
             faceLabels.append((*it)->label());
         }
 
@@ -702,12 +705,13 @@ struct GeoMapPickleSuite : bp::pickle_suite
         std::vector<CellLabel> newFaceLabels(map.maxFaceLabel());
         for(i = 0; i < map.faceCount(); ++i)
         {
-            GeoMap::Dart anchor =
-                map.dart(bp::extract<int>(faceAnchors[i])());
-            anchor.leftFace()->setFlag(
+            int anchorLabel = bp::extract<int>(faceAnchors[i])();
+            CellLabel faceLabel = anchorLabel
+                ? map.dart(anchorLabel).leftFaceLabel() : 0;
+            map.face(faceLabel)->setFlag(
                 bp::extract<CellFlags>(faceFlags[i])() & ~(CellFlags)0xf0000000);
             if(hasLabels)
-                newFaceLabels[anchor.leftFaceLabel()] =
+                newFaceLabels[faceLabel] =
                     bp::extract<CellLabel>(faceLabels[i])();
         }
 
-- 
2.43.0


From f6a259a33f6ff4ba9f4a10909a68af9f7c01c743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:45 +0000
Subject: [PATCH 45/90] fix: describe removed nodes instead of querying their
 degree

---
 src/python_bindings/cppmapmodule.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/python_bindings/cppmapmodule.cxx b/src/python_bindings/cppmapmodule.cxx
index 163808a..565daae 100644
--- a/src/python_bindings/cppmapmodule.cxx
+++ b/src/python_bindings/cppmapmodule.cxx
@@ -757,8 +757,11 @@ std::string Node__repr__(GeoMap::Node const &node)
 {
     std::stringstream s;
     s.precision(3);
-    s << "<GeoMap.Node " << node.label() << " at " << node.position()
-      << ", degree " << node.degree() << ">";
+    s << "<GeoMap.Node " << node.label() << " at " << node.position();
+    if(node.initialized())
+        s << ", degree " << node.degree() << ">";
+    else
+        s << ", removed>";
     return s.str();
 }
 
-- 
2.43.0


From 6239b06617b19ed5c32b4f41a5fc20caf7c09552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:53 +0000
Subject: [PATCH 46/90] fix: mark both ends of all connections in
 crackConnectionImage()

---
 src/python_bindings/cppmapmodule_utils.cxx | 23 +++++++---------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/python_bindings/cppmapmodule_utils.cxx b/src/python_bindings/cppmapmodule_utils.cxx
index efe4021..1cfe4ae 100644
--- a/src/python_bindings/cppmapmodule_utils.cxx
+++ b/src/python_bindings/cppmapmodule_utils.cxx
@@ -89,27 +89,18 @@ pyCrackConnectionImage(NumpyFImage const &labels)
 
     crackConnectionImage(srcImageRange(labels), destImage(result));
 
-    NumpyFImage::traverser
-        end = result.traverser_end() - TinyVector<int, 2>(Diff2D(1, 1)),
-        row = result.traverser_begin();
-    for(; row.iteratorForDimension(1) < end.iteratorForDimension(1); row.operator++(1))
+    // mark the opposite end of each connection, too (left: 4, up: 8):
+    for(int y = 0; y < result.shape(1); ++y)
     {
-      NumpyFImage::traverser it = row;
-        for(; it.iteratorForDimension(0) < end.iteratorForDimension(0); it.operator++(0))
+        for(int x = 0; x < result.shape(0); ++x)
         {
-            if((int)*it & 1)
-                it[TinyVector<int,2>(Diff2D(1, 0))] = (int)it[TinyVector<int,2>(Diff2D(1, 0))] | 4;
-            if((int)*it & 2)
-                it[TinyVector<int,2>(Diff2D(0, 1))] = (int)it[TinyVector<int,2>(Diff2D(0, 1))] | 8;
+            if((int)result(x, y) & 1)
+                result(x+1, y) = (int)result(x+1, y) | 4;
+            if((int)result(x, y) & 2)
+                result(x, y+1) = (int)result(x, y+1) | 8;
         }
-        if((int)*it & 2)
-            it[TinyVector<int,2>(Diff2D(0, 1))] = (int)it[TinyVector<int,2>(Diff2D(0, 1))] | 8;
     }
 
-    for(; row.iteratorForDimension(0) < end.iteratorForDimension(0); row.operator++(0))
-        if((int)*row & 1)
-            row[TinyVector<int,2>(Diff2D(1, 0))] = (int)row[TinyVector<int,2>(Diff2D(1, 0))] | 4;
-
     return result;
 }
 
-- 
2.43.0


From 3cdc2712e647c6d58b35359997b7a402aa06c007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:24 +0000
Subject: [PATCH 47/90] fix: reject measuring removed faces

---
 src/geomap/cppmap.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index 1937a5d..30dfaa3 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -1169,6 +1169,7 @@ class GeoMap::Face : boost::noncopyable
 
         if(!flag(BOUNDING_BOX_VALID))
         {
+            vigra_precondition(initialized(), "boundingBox() of uninitialized face!");
             boundingBox_ = BoundingBox();
             Dart anchor(*anchors_.begin()), dart(anchor);
             do
@@ -1213,6 +1214,7 @@ class GeoMap::Face : boost::noncopyable
     {
         if(!flag(AREA_VALID))
         {
+            vigra_precondition(initialized(), "area() of uninitialized face!");
             area_ = 0.0;
             for(ContourIterator it = contoursBegin();
                 it != contoursEnd(); ++it)
@@ -1226,6 +1228,8 @@ class GeoMap::Face : boost::noncopyable
 
     std::auto_ptr<vigra::Scanlines> scanLines() const
     {
+        vigra_precondition(initialized(), "scanLines() of uninitialized face!");
+
         int startIndex = (int)floor(boundingBox().begin()[1] + 0.5);
         int endIndex = (int)floor(boundingBox_.end()[1] + 0.5);
 
-- 
2.43.0


From 30e841e89851e2bbc431c80ed3c7ae4275c984aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:50 +0000
Subject: [PATCH 48/90] fix: reject deleting the point behind the last one

---
 src/python_bindings/polygon.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index bbb0bca..d660e7d 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -188,7 +188,7 @@ void insert(Polygon & p, int pos, typename Polygon::const_reference x)
 template<class Polygon>
 void erase(Polygon & p, int pos)
 {
-    checkPythonIndex(pos, p.size() + 1);
+    checkPythonIndex(pos, p.size());
     p.erase(p.begin() + pos);
 }
 
-- 
2.43.0


From 56c3750d6ed07a2dbef153cc4dd81a70a949c000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:50 +0000
Subject: [PATCH 49/90] fix: closed() of empty polygons

---
 src/geomap/polygon.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 0b9044c..022ddf2 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -306,7 +306,8 @@ class Polygon : public PointArray<POINT>
         /// Returns true iff the last and first points are equal.
     bool closed() const
     {
-        return this->points_[this->size()-1] == this->points_[0];
+        return this->size() &&
+            this->points_[this->size()-1] == this->points_[0];
     }
 
         /**
-- 
2.43.0


From 9699e6a1328257c9fab87a13625b4c2dee27bac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:50 +0000
Subject: [PATCH 50/90] fix: reject dx < 1 in curvatureList()

---
 src/python_bindings/polygon.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index d660e7d..8b774af 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -346,6 +346,13 @@ list curvatureList(const Array &p, int dx = 5, unsigned int skip = 0)
         throw_error_already_set();
     }
 
+    if(dx < 1)
+    {
+        PyErr_SetString(PyExc_ValueError,
+            "curvatureList: dx too small (must be >= 1)");
+        throw_error_already_set();
+    }
+
     double pos = 0.0;
     for(unsigned int i = 0; i < dx + skip - 1; ++i)
         pos += (p[i+1]-p[i]).magnitude();
-- 
2.43.0


From 0e286f5c81f156d22161bca449650ce664f6941f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:50 +0000
Subject: [PATCH 51/90] fix: use points at twice the distance for third
 derivatives

---
 src/python_bindings/polygon.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 8b774af..df4fc6e 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -962,7 +962,7 @@ Point estimateThirdDerivative(Iterator points, Iterator end, int index, double d
     for(; k>-size; --k)
     {
         d = points[k].arcLength - a0;
-        if(d < -dist)
+        if(d < -2.0*dist)
             break;
     }
     vigra_invariant(k>-size,
-- 
2.43.0


From af11588dd8b308e98db96ee57318a87e2f86a220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:50 +0000
Subject: [PATCH 52/90] fix: continue with the last angle in
 appendTangentList()

---
 src/python_bindings/polygon.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index df4fc6e..352936b 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -1452,7 +1452,7 @@ double appendTangentList(
 {
     ContinuousDirection makeContinuous;
     if(len(tangents1))
-        makeContinuous.prevAngle = extract<double>(tangents1[-1]);
+        makeContinuous.prevAngle = extract<double>(tangents1[-1][1]);
 
     return appendTangentList(tangents1, arcLengthOffset,
                              tangents2, offset, makeContinuous);
-- 
2.43.0


From 7523466706c8273c74be13f0099bd7e3a48841ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:50 +0000
Subject: [PATCH 53/90] fix: clip at the intersection with the line in
 intersectLine()

---
 src/python_bindings/polygon.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 352936b..0096534 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -1813,6 +1813,7 @@ list intersectLine(
         }
 
         currentPart.push_back(polygon[pointIndex]);
+        prevDist = dist;
     }
 
     if(inside)
-- 
2.43.0


From ba85aa906890c8f5bf87a88f38bea0969841e44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:50 +0000
Subject: [PATCH 54/90] fix: keep scanlines alive while iterating over their
 points

---
 src/python_bindings/polygon.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 0096534..ad81536 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -1940,7 +1940,7 @@ void defPolygon()
         .def("startIndex", &Scanlines::startIndex)
         .def("endIndex", &Scanlines::endIndex)
         .def("points", &createScanlinesIter,
-             with_custodian_and_ward_postcall<1, 0>())
+             with_custodian_and_ward_postcall<0, 1>())
     ;
 
     RangeIterWrapper<ScanlinesIter>("_ScanlinesIter");
-- 
2.43.0


From f42ad9c4c397d58a6b07ba1d40fed7d6f91f404a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:50 +0000
Subject: [PATCH 55/90] fix: initialize maximum of PolylineStatistics properly

---
 src/python_bindings/statistics.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python_bindings/statistics.cxx b/src/python_bindings/statistics.cxx
index 12f6b33..4541875 100644
--- a/src/python_bindings/statistics.cxx
+++ b/src/python_bindings/statistics.cxx
@@ -51,7 +51,7 @@ class PolylineStatistics
     : weightedSum_(0),
       length_(0),
       min_(vigra::NumericTraits<double>::max()),
-      max_(vigra::NumericTraits<double>::min())
+      max_(-vigra::NumericTraits<double>::max())
     {}
 
 //     PolylineStatistics(const PointArray<Vector2> &poly, object siv)
@@ -73,7 +73,7 @@ class PolylineStatistics
     : weightedSum_(0),
       length_(0),
       min_(vigra::NumericTraits<double>::max()),
-      max_(vigra::NumericTraits<double>::min())
+      max_(-vigra::NumericTraits<double>::max())
     {
         for(unsigned int i = 0; i < poly.size() - 1; ++i)
         {
-- 
2.43.0


From 152e5fa568ee7417bc535289d012836c2da922c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:50 +0000
Subject: [PATCH 56/90] fix: statistics of empty polygons

---
 src/python_bindings/statistics.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python_bindings/statistics.cxx b/src/python_bindings/statistics.cxx
index 4541875..9619777 100644
--- a/src/python_bindings/statistics.cxx
+++ b/src/python_bindings/statistics.cxx
@@ -75,7 +75,7 @@ class PolylineStatistics
       min_(vigra::NumericTraits<double>::max()),
       max_(-vigra::NumericTraits<double>::max())
     {
-        for(unsigned int i = 0; i < poly.size() - 1; ++i)
+        for(unsigned int i = 0; i + 1 < poly.size(); ++i)
         {
             Vector2
                 segment(poly[i+1]-poly[i]),
@@ -157,7 +157,7 @@ class QuantileStatistics : public PolylineStatistics
     QuantileStatistics(const PointArray<Vector2> &poly,
                        const SplineImageView<5, GrayValue> &siv)
     {
-        for(unsigned int i = 0; i < poly.size() - 1; ++i)
+        for(unsigned int i = 0; i + 1 < poly.size(); ++i)
         {
             Vector2
                 segment(poly[i+1]-poly[i]),
-- 
2.43.0


From caf7df2dea32db268bccec0e50abec46f4c4b136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:50 +0000
Subject: [PATCH 57/90] fix: initialize sort state of QuantileStatistics

---
 src/python_bindings/statistics.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python_bindings/statistics.cxx b/src/python_bindings/statistics.cxx
index 9619777..ddaaba5 100644
--- a/src/python_bindings/statistics.cxx
+++ b/src/python_bindings/statistics.cxx
@@ -152,10 +152,12 @@ class QuantileStatistics : public PolylineStatistics
 
   public:
     QuantileStatistics()
+    : sorted_(true)
     {}
 
     QuantileStatistics(const PointArray<Vector2> &poly,
                        const SplineImageView<5, GrayValue> &siv)
+    : sorted_(true)
     {
         for(unsigned int i = 0; i + 1 < poly.size(); ++i)
         {
@@ -241,6 +243,7 @@ class QuantileStatisticsPickleSuite : public boost::python::pickle_suite
             w.segments_[i].first = extract<double>(segments[i][0])();
             w.segments_[i].second = extract<double>(segments[i][1])();
         }
+        w.sorted_ = false;
     }
 };
 
-- 
2.43.0


From a518c40b3a0a0ec3661a7fade4fedcdd479bf207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:21 +0000
Subject: [PATCH 58/90] fix: do not read beyond the extended curve when
 estimating derivatives

---
 src/python_bindings/polygon.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index ad81536..4bcec16 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -896,13 +896,13 @@ Point estimateFirstDerivative(Iterator points, Iterator end, int index, double d
 {
     double a0 = points[index].arcLength, d = 0, o;
     int k, size = end  - points;
-    for(k = index+1; k<2*size; ++k)
+    for(k = index+1; k<2*size-1; ++k)
     {
         d = points[k].arcLength - a0;
         if(d > dist)
             break;
     }
-    vigra_invariant(k < 2*size,
+    vigra_invariant(k < 2*size-1,
         "estimateThirdDerivative(): Polygon shorter than requested distance.");
     o = (d - dist) / (points[k].arcLength - points[k-1].arcLength);
     Point p1(o * points[k-1].point + (1.0 - o) * points[k].point);
@@ -926,24 +926,24 @@ Point estimateThirdDerivative(Iterator points, Iterator end, int index, double d
 {
     double a0 = points[index].arcLength, d = 0, o;
     int k, size = end  - points;
-    for(k = index+1; k<2*size; ++k)
+    for(k = index+1; k<2*size-1; ++k)
     {
         d = points[k].arcLength - a0;
         if(d > dist)
             break;
     }
-    vigra_invariant(k < 2*size,
+    vigra_invariant(k < 2*size-1,
         "estimateThirdDerivative(): Polygon shorter than requested distance.");
     o = (d - dist) / (points[k].arcLength - points[k-1].arcLength);
     Point p1(o * points[k-1].point + (1.0 - o) * points[k].point);
 
-    for(; k<2*size; ++k)
+    for(; k<2*size-1; ++k)
     {
         d = points[k].arcLength - a0;
         if(d > 2.0*dist)
             break;
     }
-    vigra_invariant(k < 2*size,
+    vigra_invariant(k < 2*size-1,
         "estimateThirdDerivative(): Polygon shorter than requested distance.");
     o = (d - 2.0*dist) / (points[k].arcLength - points[k-1].arcLength);
     Point p2(o * points[k-1].point + (1.0 - o) * points[k].point);
-- 
2.43.0


From c29f4549bc6a534550635ce1ee0581cdc7b171f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:21 +0000
Subject: [PATCH 59/90] fix: reject empty point lists in tangent estimation

---
 src/python_bindings/polygon.cxx | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 4bcec16..fca7a7d 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -1168,8 +1168,8 @@ list tangentListChordOptimal(const Array1 &points, const Array2 &confidences, do
 list pytangentListChord(list const & pyPoints, list const & pyConf, double scale)
 {
     int size = len(pyPoints);
-    vigra_precondition(size == len(pyConf),
-        "tangentListChord(): lists must have the same size.");
+    vigra_precondition(size > 0 && size == len(pyConf),
+        "tangentListChord(): lists must have the same size and not be empty.");
     ArrayVector<Vector2> points(size);
     ArrayVector<double>  conf(size);
     for(int k=0; k<size; ++k)
@@ -1183,8 +1183,8 @@ list pytangentListChord(list const & pyPoints, list const & pyConf, double scale
 list pytangentListNormalizedGaussian(list const & pyPoints, list const & pyConf, double scale)
 {
     int size = len(pyPoints);
-    vigra_precondition(size == len(pyConf),
-        "tangentListNormalizedGaussian(): lists must have the same size.");
+    vigra_precondition(size > 0 && size == len(pyConf),
+        "tangentListNormalizedGaussian(): lists must have the same size and not be empty.");
     ArrayVector<Vector2> points(size);
     ArrayVector<double>  conf(size);
     for(int k=0; k<size; ++k)
@@ -1199,8 +1199,8 @@ list pygaussianOptimalScales(list const & pyPoints, list const & pyConf,
         double filterScale, double thirdDerivScale, double minScale)
 {
     int size = len(pyPoints);
-    vigra_precondition(size == len(pyConf),
-        "gaussianOptimalScales(): lists must have the same size.");
+    vigra_precondition(size > 0 && size == len(pyConf),
+        "gaussianOptimalScales(): lists must have the same size and not be empty.");
     ArrayVector<Vector2> points(size);
     ArrayVector<double>  conf(size);
     for(int k=0; k<size; ++k)
@@ -1214,8 +1214,8 @@ list pygaussianOptimalScales(list const & pyPoints, list const & pyConf,
 list pytangentListNormalizedGaussianOptimal(list const & pyPoints, list const & pyConf, double maxScale)
 {
     int size = len(pyPoints);
-    vigra_precondition(size == len(pyConf),
-        "tangentListNormalizedGaussianOptimal(): lists must have the same size.");
+    vigra_precondition(size > 0 && size == len(pyConf),
+        "tangentListNormalizedGaussianOptimal(): lists must have the same size and not be empty.");
     ArrayVector<Vector2> points(size);
     ArrayVector<double>  conf(size);
     for(int k=0; k<size; ++k)
@@ -1229,8 +1229,8 @@ list pytangentListNormalizedGaussianOptimal(list const & pyPoints, list const &
 list pytangentListNormalizedGaussianVariableScale(list const & pyPoints, list const & pyConf, list const & pyScales)
 {
     int size = len(pyPoints);
-    vigra_precondition(size == len(pyConf) && size == len(pyScales),
-        "tangentListNormalizedGaussianVariableScale(): lists must have the same size.");
+    vigra_precondition(size > 0 && size == len(pyConf) && size == len(pyScales),
+        "tangentListNormalizedGaussianVariableScale(): lists must have the same size and not be empty.");
     ArrayVector<Vector2> points(size);
     ArrayVector<double>  conf(size);
     ArrayVector<double>  scales(size);
@@ -1247,6 +1247,8 @@ list pyThirdDerivativeOfPolygon(list const & pyPoints, double dist)
 {
     typedef AugmentedPolygonPoint<Vector2> APoint;
     int size = len(pyPoints);
+    vigra_precondition(size > 0,
+        "thirdDerivativeOfPolygon(): polygon must not be empty.");
 
     ArrayVector<Vector2> points(size);
     ArrayVector<double>  conf(size);
@@ -1278,8 +1280,8 @@ list pyThirdDerivativeOfPolygon(list const & pyPoints, double dist)
 list pytangentListChordOptimal(list const & pyPoints, list const & pyConf, double maxScale)
 {
     int size = len(pyPoints);
-    vigra_precondition(size == len(pyConf),
-        "tangentListChordOptimal(): lists must have the same size.");
+    vigra_precondition(size > 0 && size == len(pyConf),
+        "tangentListChordOptimal(): lists must have the same size and not be empty.");
     ArrayVector<Vector2> points(size);
     ArrayVector<double>  conf(size);
     for(int k=0; k<size; ++k)
@@ -1296,6 +1298,8 @@ list tangentListGaussianReflective(const Array &points, double sigma, double dif
     typedef typename Array::value_type Point;
 
     unsigned int size = points.size();
+    vigra_precondition(size > 0,
+        "tangentListGaussian...(): polygon must not be empty.");
 
     // compute arc lengths
     ArrayVector<double> arcLengths(size);
@@ -1342,6 +1346,8 @@ list tangentListGaussianCyclic(const Array &points, double sigma, double diff =
     typedef typename Array::value_type Point;
 
     unsigned int size = points.size();
+    vigra_precondition(size > 0,
+        "tangentListGaussian...(): polygon must not be empty.");
 
     // compute arc lengths
     ArrayVector<double> arcLengths(size);
-- 
2.43.0


From bcc49a481fa3bdc6819f56b6ba3f771ead7ae628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:21 +0000
Subject: [PATCH 60/90] fix: reject filters reaching beyond the extended curve

---
 src/python_bindings/polygon.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index fca7a7d..317063f 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -1308,7 +1308,7 @@ list tangentListGaussianReflective(const Array &points, double sigma, double dif
         arcLengths[i] = norm(points[i] - points[i-1]) + arcLengths[i-1];
 
     Gaussian<> g(sigma);
-    vigra_precondition(arcLengths[size-1] > g.radius(),
+    vigra_precondition(arcLengths[size-1] > g.radius() + std::fabs(diff),
         "tangentListGaussianReflective(): Filter longer than polygon.");
 
     list result;
@@ -1357,7 +1357,7 @@ list tangentListGaussianCyclic(const Array &points, double sigma, double diff =
     double restLength = norm(points[0] - points[size-1]);
 
     Gaussian<> g(sigma);
-    vigra_precondition(arcLengths[size-1] > g.radius(),
+    vigra_precondition(arcLengths[size-1] > g.radius() + std::fabs(diff),
         "tangentListGaussianCyclic(): Filter longer than polygon.");
 
     list result;
-- 
2.43.0


From e08a06f7bba19011db69c24b4d506cfd1dac84bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:44 +0000
Subject: [PATCH 61/90] fix: border treatment of Gaussian derivatives along
 curves

---
 src/python_bindings/polygon.cxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 317063f..b5cbe7c 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -509,16 +509,19 @@ tuple singleGaussianConvolveAtArcLength(
         sum /= (lnorm+rnorm);
     else if(g.derivativeOrder() & 1)
     {
+        // (lnorm is the norm of the part *after* arcLengthPos)
         double disparity = std::fabs(rnorm) - std::fabs(lnorm);
         if(disparity > 0)
-            sum += disparity * extract<ValueType>(arcLengthList[0][1])();
+            sum += -(lnorm+rnorm) * extract<ValueType>(arcLengthList[-1][1])();
         else
-            sum += -disparity * extract<ValueType>(arcLengthList[-1][1])();
+            sum += -(lnorm+rnorm) * extract<ValueType>(arcLengthList[0][1])();
     }
     else
     {
-        sum += -lnorm * extract<ValueType>(arcLengthList[0][1])();
-        sum += -rnorm * extract<ValueType>(arcLengthList[-1][1])();
+        // the center belongs to both halves
+        double center = 0.5*g(0.0);
+        sum += -(rnorm + center) * extract<ValueType>(arcLengthList[0][1])();
+        sum += -(lnorm - center) * extract<ValueType>(arcLengthList[-1][1])();
     }
 
     return make_tuple(arcLengthPos, sum);
-- 
2.43.0


From b1fa3e2202aa2313793525cca8f73cc686eb4ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:05 +0000
Subject: [PATCH 62/90] fix: check indices in LabelLUT.relabel() and merged()

---
 src/python_bindings/cppmapmodule_utils.cxx | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/python_bindings/cppmapmodule_utils.cxx b/src/python_bindings/cppmapmodule_utils.cxx
index 1cfe4ae..1936ee3 100644
--- a/src/python_bindings/cppmapmodule_utils.cxx
+++ b/src/python_bindings/cppmapmodule_utils.cxx
@@ -113,6 +113,19 @@ pyCrackEdgeGraph(NumpyIImage const &labels, bool eightConnectedRegions)
     return cemg.result;
 }
 
+void LabelLUT_relabel(LabelLUT &lut, int from, int to)
+{
+    checkPythonIndex(from, lut.size());
+    checkPythonIndex(to, lut.size());
+    lut.relabel(from, to);
+}
+
+LabelLUT::MergedIterator LabelLUT_merged(const LabelLUT &lut, int start)
+{
+    checkPythonIndex(start, lut.size());
+    return lut.mergedBegin(start);
+}
+
 unsigned int pyRemoveEdges(GeoMap &map, bp::list edgeLabels)
 {
     std::vector<CellLabel> cppel(len(edgeLabels));
@@ -152,8 +165,8 @@ void defMapUtils()
             .def("appendOne", &LabelLUT::appendOne)
             .def("__getitem__", &Array__getitem__<LabelLUT>)
             .def("__len__", &LabelLUT::size)
-            .def("relabel", &LabelLUT::relabel) // FIXME: check index
-            .def("merged", &LabelLUT::mergedBegin)
+            .def("relabel", &LabelLUT_relabel)
+            .def("merged", &LabelLUT_merged)
             .def("__copy__", &generic__copy__<LabelLUT>)
             .def("__deepcopy__", &generic__deepcopy__<LabelLUT>)
             );
-- 
2.43.0


From 1b798b1d65fdd8859e85125e4ffff0fab92dc51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:05 +0000
Subject: [PATCH 63/90] fix: check index in SubPixelWatersheds.edge()

---
 src/python_bindings/subpixel_watersheds.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/python_bindings/subpixel_watersheds.cxx b/src/python_bindings/subpixel_watersheds.cxx
index a4b6cdb..9b6894e 100644
--- a/src/python_bindings/subpixel_watersheds.cxx
+++ b/src/python_bindings/subpixel_watersheds.cxx
@@ -95,6 +95,14 @@ class SPWSWrapper : public SPWSType
     python::object
     edge(int index)
     {
+        if(this->saddles_.size() == 0)
+            this->findCriticalPoints();
+        if(index < 1 || index >= (int)this->saddles_.size())
+        {
+            PyErr_SetString(PyExc_IndexError, "saddle index out of bounds.");
+            python::throw_error_already_set();
+        }
+
         double x = this->saddles_[index][0];
         double y = this->saddles_[index][1];
 
-- 
2.43.0


From bbd6fcc495d80538745290d6cc4cc3da3baef995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:05 +0000
Subject: [PATCH 64/90] fix: reject label images for maps that are not
 initialized

---
 src/geomap/cppmap.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index c00c9d4..cee38c5 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -988,6 +988,8 @@ void GeoMap::setHasLabelImage(bool onoff)
 
     if(onoff)
     {
+        vigra_precondition(mapInitialized(),
+                           "setHasLabelImage: map must be initialized!");
         vigra_precondition(imageSize_.area() > 0,
                            "initLabelImage: imageSize must be non-zero!");
         labelImage_ = new LabelImage(
-- 
2.43.0


From 63ec34c84b3d1b8a6dd7ca0ee6adf24b615fe8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:15 +0000
Subject: [PATCH 65/90] fix: keep label tables alive while iterating over
 merged labels

---
 src/python_bindings/cppmapmodule_utils.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python_bindings/cppmapmodule_utils.cxx b/src/python_bindings/cppmapmodule_utils.cxx
index 1936ee3..1867857 100644
--- a/src/python_bindings/cppmapmodule_utils.cxx
+++ b/src/python_bindings/cppmapmodule_utils.cxx
@@ -166,7 +166,8 @@ void defMapUtils()
             .def("__getitem__", &Array__getitem__<LabelLUT>)
             .def("__len__", &LabelLUT::size)
             .def("relabel", &LabelLUT_relabel)
-            .def("merged", &LabelLUT_merged)
+            .def("merged", &LabelLUT_merged,
+                 with_custodian_and_ward_postcall<0, 1>())
             .def("__copy__", &generic__copy__<LabelLUT>)
             .def("__deepcopy__", &generic__deepcopy__<LabelLUT>)
             );
-- 
2.43.0


From 74962cc4349626ee1b18280d47d3812c3b7c21e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:55 +0000
Subject: [PATCH 66/90] fix: make drawing functions callable with images from
 Python

---
 src/python_bindings/polygon.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index b5cbe7c..5f17a0e 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -308,7 +308,7 @@ ScanlinesIter createScanlinesIter(const Scanlines &sl)
 
 unsigned int pyFillScannedPoly(
     const Scanlines &scanlines,
-    NumpyFImage &target,
+    NumpyFImage target,
     GrayValue value)
     //const Pixel &value)
 {
@@ -320,7 +320,7 @@ unsigned int pyFillScannedPoly(
 
 unsigned int pyDrawScannedPoly(
     const Scanlines &scanlines,
-    NumpyFImage &target,
+    NumpyFImage target,
     float value)
 {
     return drawScannedPoly(scanlines, value,
@@ -1685,7 +1685,7 @@ struct ParabolaFit
 
 void markEdgeInLabelImage(
     const Scanlines &scanlines,
-    NumpyFImage &labelImage)
+    NumpyFImage labelImage)
 {
     // clip to image range vertically:
     int y = std::max(0, scanlines.startIndex()),
@@ -1718,7 +1718,7 @@ void markEdgeInLabelImage(
 
 list removeEdgeFromLabelImage(
     const Scanlines &scanlines,
-    NumpyFImage &labelImage,
+    NumpyFImage labelImage,
     GrayValue substituteLabel)
 {
     list result;
-- 
2.43.0


From 84cf0a810f5408f3b0a10b669c740ea2e4860692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:32 +0000
Subject: [PATCH 67/90] fix: do not wrap negative offsets in Gaussian tangent
 estimation

---
 src/python_bindings/polygon.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 5f17a0e..8d37022 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -859,7 +859,7 @@ list tangentListNormalizedGaussian(const Array1 &points, const Array2 &confidenc
 
     list result;
     ContinuousDirection makeContinuous;
-    for(unsigned int i = 0; i < size; ++i)
+    for(int i = 0; i < (int)size; ++i)
     {
         Point  sp = p[i].confidence*p[i].point, spp = Point(0.0, 0.0);
         double sw = p[i].confidence, swp = 0.0;
@@ -1041,7 +1041,7 @@ list tangentListNormalizedGaussianOptimal(const Array1 &points, const Array2 &co
 
     list result;
     ContinuousDirection makeContinuous;
-    for(unsigned int i = 0; i < size; ++i)
+    for(int i = 0; i < (int)size; ++i)
     {
         double q3 = norm(estimateThirdDerivative<Point>(p, p + size, i, dist));
         double scale = std::pow(0.75/sqrt(M_PI)/sq(p[i].confidence*q3), 1.0/7.0);
@@ -1099,7 +1099,7 @@ list tangentListNormalizedGaussianVariableScale(
 
     list result;
     ContinuousDirection makeContinuous;
-    for(unsigned int i = 0; i < size; ++i)
+    for(int i = 0; i < (int)size; ++i)
     {
         double scale = scales[i];
         double s2 = scale*scale;
-- 
2.43.0


From 58a058295d90c81c90a58a853113cdd0f0c0fce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:32 +0000
Subject: [PATCH 68/90] fix: return corners of bounding boxes by value

---
 src/python_bindings/polygon.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 8d37022..b0599f1 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -1912,9 +1912,9 @@ void defPolygon()
         .def(init<const Vector2 &, const Vector2 &>(args("begin", "end")))
         .def("__init__", make_constructor(&createBoxFromRect2D<BoundingBox>))
         .def("begin", (const Vector2 &(BoundingBox::*)() const)
-             &BoundingBox::begin, return_internal_reference<>())
+             &BoundingBox::begin, return_value_policy<copy_const_reference>())
         .def("end", (const Vector2 &(BoundingBox::*)() const)
-             &BoundingBox::end, return_internal_reference<>())
+             &BoundingBox::end, return_value_policy<copy_const_reference>())
         .def("setBegin", &BoundingBox::setBegin, arg("begin"))
         .def("setEnd", &BoundingBox::setEnd, arg("end"))
         .def("moveTo", &BoundingBox::moveTo, arg("newBegin"))
-- 
2.43.0


From d904014ec95a2645321b849ecc3b5d2305df58eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:43 +0000
Subject: [PATCH 69/90] fix: restore size of unpickled rectangles

---
 src/python_bindings/pythondiff2d.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python_bindings/pythondiff2d.cxx b/src/python_bindings/pythondiff2d.cxx
index 8d84419..86dec43 100644
--- a/src/python_bindings/pythondiff2d.cxx
+++ b/src/python_bindings/pythondiff2d.cxx
@@ -84,7 +84,7 @@ struct Rect2DPickleSuite : python::pickle_suite
 {
     static python::tuple getinitargs(Rect2D const& r)
     {
-        return python::make_tuple(r.upperLeft(), r.lowerRight());
+        return python::make_tuple(r.left(), r.top(), r.right(), r.bottom());
     }
 };
 
-- 
2.43.0


From f27bdb32d83dd3304853571bf7ea873e03ebe2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:04 +0000
Subject: [PATCH 70/90] fix: slices of empty arrays

---
 src/python_bindings/exporthelpers.hxx | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/python_bindings/exporthelpers.hxx b/src/python_bindings/exporthelpers.hxx
index e4fd40f..2ffe498 100644
--- a/src/python_bindings/exporthelpers.hxx
+++ b/src/python_bindings/exporthelpers.hxx
@@ -67,29 +67,22 @@ template<class Array>
 std::auto_ptr<Array>
 Array__getitem_slice__(Array const & a, boost::python::slice sl)
 {
-    boost::python::slice::range<typename Array::const_iterator>
-        bounds;
-    try
-    {
-#if BOOST_VERSION >= 104800
-        bounds = sl.template get_indices<>(a.begin(), a.end());
-#else
-        bounds = sl.template get_indicies<>(a.begin(), a.end());
-#endif
-    }
-    catch (std::invalid_argument)
-    {
-        return std::auto_ptr<Array>(new Array());
-    }
+    boost::python::object indices(sl.attr("indices")(a.size()));
+    int start = boost::python::extract<int>(indices[0])(),
+         stop = boost::python::extract<int>(indices[1])(),
+         step = boost::python::extract<int>(indices[2])();
 
-    if(bounds.step != 1)
+    if(step != 1)
     {
         PyErr_SetString(PyExc_IndexError,
                         "No extended slicing supported yet.");
         boost::python::throw_error_already_set();
     }
 
-    return std::auto_ptr<Array>(new Array(bounds.start, bounds.stop+1));
+    if(stop <= start)
+        return std::auto_ptr<Array>(new Array());
+    return std::auto_ptr<Array>(
+        new Array(a.begin() + start, a.begin() + stop));
 }
 
 template<class Array>
-- 
2.43.0


From a430c0daa66bc2962f9302e13399ea77a8f6bd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:29 +0000
Subject: [PATCH 71/90] fix: simplify empty polygons

---
 src/geomap/polygon.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 022ddf2..e367d01 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -947,6 +947,9 @@ template<class PointArray>
 void simplifyPolygon(
     const PointArray &poly, PointArray &simple, double epsilon)
 {
+    if(!poly.size())
+        return;
+
     simple.push_back(poly[0]);
     simplifyPolygonHelper<false>(poly.begin(), poly.end(), simple, epsilon);
     simple.push_back(poly[poly.size()-1]);
@@ -956,6 +959,9 @@ template<class PointArray>
 void simplifyPolygon(
     const PointArray &poly, PointArray &simple, double epsilon, double maxStep)
 {
+    if(!poly.size())
+        return;
+
     simple.push_back(poly[0]);
     simplifyPolygonHelper<true>(poly.begin(), poly.end(),
                                 simple, epsilon, maxStep*maxStep);
-- 
2.43.0


From 8fd2545c536e6489ccdfde5aaa4ed844c8b51c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:29 +0000
Subject: [PATCH 72/90] fix: resample polygons with less than two points

---
 src/geomap/polygon.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index e367d01..c3527e6 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -1088,6 +1088,12 @@ void resamplePolygon(
     typedef typename PointArray::value_type Point;
 
     int size = poly.size();
+    if(size < 2)
+    {
+        simple = poly;
+        return;
+    }
+
     bool isOpenPolygon = !poly.closed();
 
     ArrayVector<double> arcLength;
-- 
2.43.0


From 26ffe6bd959356a461ed63fb846255b491a5a955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:28 +0000
Subject: [PATCH 73/90] fix: swap measures of polygons, too

---
 src/python_bindings/polygon.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index b0599f1..edcfbf0 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -1893,8 +1893,8 @@ void defPolygon()
         .def("partialArea", &PythonPolygon::partialArea)
         .def("boundingBox", &PythonPolygon::boundingBox)
         .def("contains", &PythonPolygon::contains)
-        .def("swap", (void (PythonPolygon::*)(PythonPolygon &))&PythonPolygon::swap)
         .def("swap", (void (PythonPolygon::*)(Vector2Array &))&PythonPolygon::swap)
+        .def("swap", (void (PythonPolygon::*)(PythonPolygon &))&PythonPolygon::swap)
         .def("reverse", &PythonPolygon::reverse)
         .def("nearestPoint", &PythonPolygon::nearestPoint)
         .def("invalidateProperties", &PythonPolygon::invalidateProperties)
-- 
2.43.0


From 3a9138de6d0625582049a74f2720d502773196c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:57 +0000
Subject: [PATCH 74/90] fix: negative indices and empty curves in tangentDSL()

---
 src/geomap/vigra/dsl.hxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/geomap/vigra/dsl.hxx b/src/geomap/vigra/dsl.hxx
index 5cfe0fb..99b2fdf 100644
--- a/src/geomap/vigra/dsl.hxx
+++ b/src/geomap/vigra/dsl.hxx
@@ -208,12 +208,16 @@ int tangentDSL(FreemanCodeIter freemanCodesBegin,
                bool closed,
                DigitalStraightLine<Integer, true> &dsl)
 {
-    vigra_precondition(closed ||
-        (pointIndex > 0 && pointIndex < freemanCodesEnd - freemanCodesBegin),
+    vigra_precondition(closed
+        ? freemanCodesBegin != freemanCodesEnd
+        : (pointIndex > 0 && pointIndex < freemanCodesEnd - freemanCodesBegin),
         "tangentDSL: cannot find tangent at end of open poly!");
 
     if(closed)
-        pointIndex %= freemanCodesEnd - freemanCodesBegin;
+    {
+        int size = freemanCodesEnd - freemanCodesBegin;
+        pointIndex = (pointIndex % size + size) % size;
+    }
 
     // FreemanCodes should be integers;
     // freemanCode & 1 must be a valid expression
-- 
2.43.0


From 689f8c0c41e8cf423c608386ef94cda0ffb808e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:06 +0000
Subject: [PATCH 75/90] fix: do not iterate over empty rectangles

---
 src/python_bindings/pythondiff2d.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python_bindings/pythondiff2d.cxx b/src/python_bindings/pythondiff2d.cxx
index 86dec43..c983276 100644
--- a/src/python_bindings/pythondiff2d.cxx
+++ b/src/python_bindings/pythondiff2d.cxx
@@ -191,7 +191,7 @@ class MeshGridIterator
             point_.x = rect_.left();
             point_.y += stride_.y;
          }
-         if(point_.y >= rect_.bottom())
+         if(point_.y >= rect_.bottom() || rect_.isEmpty())
          {
             PyErr_SetString(PyExc_StopIteration, "MeshGridIterator.next(): iterator exhausted.");
             python::throw_error_already_set();
-- 
2.43.0


From f83b45a03bc63a90c49bc1863d6f2b2be379de76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:20 +0000
Subject: [PATCH 76/90] fix: curvature of curves that turn back exactly

---
 src/python_bindings/polygon.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index edcfbf0..d951b30 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -382,7 +382,7 @@ list curvatureList(const Array &p, int dx = 5, unsigned int skip = 0)
         double gamma = (a2+b2-c2) / (2*a*b), delta;
         if(gamma > -1.0)
         {
-            delta = M_PI - acos(gamma);
+            delta = M_PI - acos(std::min(gamma, 1.0));
             if((s1[0]*s3[1] - s3[0]*s1[1]) < 0)
                 result.append(make_tuple(pos, -2*delta / (a+b)));
             else
-- 
2.43.0


From 6fea8919a43085cfcf148464c19ded4a1823afca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:56 +0000
Subject: [PATCH 77/90] fix: embed holes that touch the contour of their parent
 face

---
 src/geomap/cppmap.cxx | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index cee38c5..ec6a5af 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1139,15 +1139,20 @@ void GeoMap::embedFaces(bool initLabelImage)
         }
         else
         {
-            // contour is a hole, determine parent face
+            // contour is a hole, determine parent face; contours may
+            // touch in single points (e.g. crack edges), so check the
+            // centers of the line segments
             GeoMap::FacePtr parent = NULL_PTR(GeoMap::Face);
 
             if(initLabelImage)
             {
-                ContourPointIter cpi(anchor);
-                while(cpi.inRange())
+                ContourPointIter cpi(anchor, true);
+                Vector2 prevPoint(*cpi);
+                while((++cpi).inRange())
                 {
-                    GeoMap::LabelImage::difference_type p(detail::intVPos(*cpi++));
+                    Vector2 center((prevPoint + *cpi) / 2.0);
+                    prevPoint = *cpi;
+                    GeoMap::LabelImage::difference_type p(detail::intVPos(center));
                     if(labelImage_->isInside(p))
                     {
                         int parentLabel = (*labelImage_)[p];
@@ -1162,11 +1167,15 @@ void GeoMap::embedFaces(bool initLabelImage)
 
             if(!parent)
             {
-                for(ContourPointIter cpi(anchor); cpi.inRange(); ++cpi)
+                ContourPointIter cpi(anchor, true);
+                Vector2 prevPoint(*cpi);
+                for(++cpi; cpi.inRange(); ++cpi)
                 {
+                    Vector2 center((prevPoint + *cpi) / 2.0);
+                    prevPoint = *cpi;
                     for(FaceIterator it = facesBegin(); it.inRange(); ++it)
                     {
-                        if((*it)->contains(*cpi))
+                        if((*it)->contains(center))
                         {
                             parent = *it;
                             goto parent_found; // double break
-- 
2.43.0


From 2251e1f9b5b09c750e9a3b909c609488a466a497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:35 +0000
Subject: [PATCH 78/90] fix: keep near-parallel darts together across the cut
 of the angles

When sorting edges, a group of near-parallel darts which straddles the
+-pi direction was only rotated together if the gap before the group was
not directly after the first dart of the array.
---
 src/geomap/cppmap.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index ec6a5af..7895815 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -546,8 +546,9 @@ void sortEdgesInternal(const Vector2 &currentPos,
     {
         // first and last dart are less than minAngle apart,..
         DPAI prev(firstGroupStart);
-        while(--firstGroupStart > dpBegin)
+        while(firstGroupStart != dpBegin)
         {
+            --firstGroupStart;
             // ..determine last decision point..
             if(prev->angle - firstGroupStart->angle >= minAngle)
             {
-- 
2.43.0


From 8b48e506a4b3c60db2b286d5eea40f3c505be8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:21 +0000
Subject: [PATCH 79/90] fix: make the iterators iterable in Python 3

---
 src/cellimage/cellimage_dart+info.cxx | 1 +
 src/cellimage/cellimage_edges.cxx     | 2 ++
 src/cellimage/cellimage_faces.cxx     | 2 ++
 src/cellimage/cellimage_nodes.cxx     | 2 ++
 src/python_bindings/exporthelpers.hxx | 1 +
 src/python_bindings/polygon.cxx       | 1 +
 src/python_bindings/pythondiff2d.cxx  | 1 +
 7 files changed, 10 insertions(+)

diff --git a/src/cellimage/cellimage_dart+info.cxx b/src/cellimage/cellimage_dart+info.cxx
index d710645..ee8bc51 100644
--- a/src/cellimage/cellimage_dart+info.cxx
+++ b/src/cellimage/cellimage_dart+info.cxx
@@ -151,6 +151,7 @@ void defineDartTraverser()
         .def("__iter__", &DartIterator::__iter__,
              return_internal_reference<>())
         .def("next", &DartIterator::next)
+        .def("__next__", &DartIterator::next)
         .def("nodePosition", &DartIterator::nodePosition)
     ;
 }
diff --git a/src/cellimage/cellimage_edges.cxx b/src/cellimage/cellimage_edges.cxx
index f1a502e..c36014b 100644
--- a/src/cellimage/cellimage_edges.cxx
+++ b/src/cellimage/cellimage_edges.cxx
@@ -41,6 +41,8 @@ void defineEdges()
              // this is not really true, since the true owner would be
              // the GeoMap object (however, it's
              // lifetime is expected to be long enough):
+             return_internal_reference<>())
+        .def("__next__", &nextIterPos<GeoMap::EdgeIterator>,
              return_internal_reference<>());
 
     class_<EdgeListProxy>("EdgeList", no_init)
diff --git a/src/cellimage/cellimage_faces.cxx b/src/cellimage/cellimage_faces.cxx
index f84b353..a78580a 100644
--- a/src/cellimage/cellimage_faces.cxx
+++ b/src/cellimage/cellimage_faces.cxx
@@ -41,6 +41,8 @@ void defineFaces()
              // this is not really true, since the true owner would be
              // the GeoMap object (however, it's
              // lifetime is expected to be long enough:
+             return_internal_reference<>())
+        .def("__next__", &nextIterPos<GeoMap::FaceIterator>,
              return_internal_reference<>());
 
     class_<FaceListProxy>("FaceList", no_init)
diff --git a/src/cellimage/cellimage_nodes.cxx b/src/cellimage/cellimage_nodes.cxx
index 868dab1..9574e08 100644
--- a/src/cellimage/cellimage_nodes.cxx
+++ b/src/cellimage/cellimage_nodes.cxx
@@ -41,6 +41,8 @@ void defineNodes()
              // this is not really true, since the true owner would be
              // the GeoMap object (however, it's
              // lifetime is expected to be long enough):
+             return_internal_reference<>())
+        .def("__next__", &nextIterPos<GeoMap::NodeIterator>,
              return_internal_reference<>());
 
     class_<NodeListProxy>("NodeList", no_init)
diff --git a/src/python_bindings/exporthelpers.hxx b/src/python_bindings/exporthelpers.hxx
index 2ffe498..fe67a39 100644
--- a/src/python_bindings/exporthelpers.hxx
+++ b/src/python_bindings/exporthelpers.hxx
@@ -114,6 +114,7 @@ struct RangeIterWrapper
         this->def("__iter__", (Iterator &(*)(Iterator &))&returnSelf,
 				  boost::python::return_internal_reference<>());
         this->def("next", &nextIterPos, cp);
+        this->def("__next__", &nextIterPos, cp);
     }
 
     static Iterator &returnSelf(Iterator &v)
diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index d951b30..6e24532 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -217,6 +217,7 @@ void defIter(const char *name)
         .def("__iter__", &Iterator::__iter__,
              return_internal_reference<>())
         .def("next", &Iterator::next)
+        .def("__next__", &Iterator::next)
     ;
 }
 
diff --git a/src/python_bindings/pythondiff2d.cxx b/src/python_bindings/pythondiff2d.cxx
index c983276..910866b 100644
--- a/src/python_bindings/pythondiff2d.cxx
+++ b/src/python_bindings/pythondiff2d.cxx
@@ -227,6 +227,7 @@ void defDiff2D()
     class_<MeshGridIterator>("MeshGridIterator", python::no_init)
         .def("__iter__", &MeshGridIterator::__iter__)
         .def("next", &MeshGridIterator::next)
+        .def("__next__", &MeshGridIterator::next)
         ;
 
     class_<Diff2D> diff2d("Diff2D", python::no_init);
-- 
2.43.0


From d7d3fd987dfc84bd520c03f30248b4e20529a596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:01 +0000
Subject: [PATCH 80/90] fix: let region growing stop when no candidates are
 left

---
 python/maputils/maputils.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 35162c6..be955a1 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -2066,13 +2066,10 @@ class SeededRegionGrowing(AutomaticMethodBase):
 
     def mergeStep(self):
         # fetch candidate Face from queue:
-        while True:
-            faceLabel, mergeCost = self._queue.pop()
-            face = self._map.face(faceLabel)
-            if face and not face.flag(flag_constants.SRG_SEED):
-                break
-
-        assert face, "no more candidate faces found"
+        faceLabel, mergeCost = self._queue.pop()
+        face = self._map.face(faceLabel)
+        if not face or face.flag(flag_constants.SRG_SEED):
+            return # already associated with a region
 
         # look for neighbor with lowest merge cost:
         best = None
-- 
2.43.0


From ace178238428a6afb7ebc7386872bc766a4124dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:01 +0000
Subject: [PATCH 81/90] fix: find the next candidate of the region merger

---
 python/maputils/maputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index be955a1..219ef50 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -1440,7 +1440,7 @@ class AutomaticMethodBase(object):
         edge at the front of the internal priority queue might have
         been removed already); see `ensureValidNext()`."""
 
-        self._ensureValidNext()
+        self.ensureValidNext()
         return self._queue.top()[0]
 
     def step(self):
-- 
2.43.0


From b16b6aa0837496c6db62ad607b0d8328d2c3e22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:01 +0000
Subject: [PATCH 82/90] fix: skip bridges when looking for the best neighbour

---
 python/maputils/maputils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 219ef50..55c6b28 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -1212,10 +1212,12 @@ def mergeFaceToBestNeighbor(face, costMeasure):
     for dart in contourDarts(face):
         if dart.edge().flag(flag_constants.ALL_PROTECTION):
             continue
+        if dart.edge().isBridge():
+            continue
         cost = costMeasure(dart)
         if best is None or cost < best[0]:
             best = cost, dart
-    return mergeFacesCompletely(best[1])
+    return best and mergeFacesCompletely(best[1])
 
 def removeSmallRegions(
     map, minArea = None, minPixelArea = None, costMeasure = None):
-- 
2.43.0


From 54fb940675eb5b0acd1502876b9e7abdb059d73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:01 +0000
Subject: [PATCH 83/90] fix: keep seeds with label 0 in the static region
 growing

---
 python/maputils/maputils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 55c6b28..094cb26 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -1973,21 +1973,21 @@ def seededRegionGrowingStatic(map, faceLabels, edgeCosts):
 
     heap = []
     for face in map.faceIter():
-        if not faceLabels[face.label()]:
+        if faceLabels[face.label()] is None:
             continue
         for dart in contourDarts(face):
-            if not faceLabels[dart.rightFaceLabel()]:
+            if faceLabels[dart.rightFaceLabel()] is None:
                 cost = edgeCosts[dart.edgeLabel()]
                 if cost != None:
                     heappush(heap, (cost, dart.label()))
     while heap:
         _, dartLabel = heappop(heap)
         dart = map.dart(dartLabel)
-        if faceLabels[dart.rightFaceLabel()]:
+        if faceLabels[dart.rightFaceLabel()] is not None:
             continue # labeled in the meantime
         faceLabels[dart.rightFaceLabel()] = faceLabels[dart.leftFaceLabel()]
         for dart in contourDarts(dart.rightFace()):
-            if not faceLabels[dart.rightFaceLabel()]:
+            if faceLabels[dart.rightFaceLabel()] is None:
                 cost = edgeCosts[dart.edgeLabel()]
                 if cost != None:
                     heappush(heap, (cost, dart.label()))
-- 
2.43.0


From 1ec7258155d45b51d6515b3bdaa1f61ed06fcbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:01 +0000
Subject: [PATCH 84/90] fix: open history files with open()

---
 python/maputils/maputils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 094cb26..20c3010 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -1312,11 +1312,11 @@ class History(list):
 
     @staticmethod
     def load(filename):
-        return History(eval(file(filename).read()))
+        return History(eval(open(filename).read()))
 
     def save(self, filename):
         import pprint
-        f = file(filename, "w")
+        f = open(filename, "w")
         pprint.pprint(self, stream = f)
         f.close()
 
-- 
2.43.0


From 05e28457671ba435b90bee75f24d1b5cffdb510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:01 +0000
Subject: [PATCH 85/90] fix: extend the saddle lists for edges added later

---
 python/maputils/statistics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/maputils/statistics.py b/python/maputils/statistics.py
index 2a14490..e671aa4 100644
--- a/python/maputils/statistics.py
+++ b/python/maputils/statistics.py
@@ -813,8 +813,9 @@ class WatershedStatistics(DynamicEdgeIndices):
         mel = self._map().maxEdgeLabel()
         if len(self._passValues) < mel:
             self._passValues.extend([None] * (mel - len(self._passValues)))
+        if len(self._indices) < mel:
             self._indices.extend([[] for i in
-                                  range(mel - len(self._passValues))])
+                                  range(mel - len(self._indices))])
 
     def preMergeEdges(self, dart):
         if not self.__base.preMergeEdges(self, dart):
-- 
2.43.0


From bb893aab8940c47e9e920b9dc11f0c707d429e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:01 +0000
Subject: [PATCH 86/90] fix: accumulate equal values in PercentPointFunction

---
 python/maputils/statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/maputils/statistics.py b/python/maputils/statistics.py
index e671aa4..0027cad 100644
--- a/python/maputils/statistics.py
+++ b/python/maputils/statistics.py
@@ -1189,7 +1189,7 @@ class PercentPointFunction(list):
                 iCDF.append((al, v1))
                 cur = (v1, l)
             else:
-                cur[1] += l
+                cur = (cur[0], cur[1] + l)
         if cur[1]:
             al += cur[1]
             iCDF.append((al, v2))
-- 
2.43.0


From ce13da543245c9276e7f47a76a34e32e0416ca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:25 +0000
Subject: [PATCH 87/90] fix: find points in faces without pixels

---
 python/maputils/maputils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 20c3010..f473d02 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -1704,15 +1704,16 @@ def pointInFace(face, level = 2):
     def subsampledPoint(face, level = 2):
         result = []
         bbox = face.boundingBox()
-        midPoint = (bbox.begin() + bbox.end())/2
+        midX = (bbox.begin()[0] + bbox.end()[0])/2
+        midY = (bbox.begin()[1] + bbox.end()[1])/2
         xRange = numpy.arange(bbox.begin()[0], bbox.end()[0], 1.0/level)
         for y in numpy.arange(bbox.begin()[1], bbox.end()[1], 1.0/level):
             for x in xRange:
                 p = (x, y)
                 if face.contains(p):
-                    result.append(((p-midPoint).squaredMagnitude(), p))
+                    result.append(((x-midX)**2 + (y-midY)**2, p))
         if not result:
-            return _pointInHole(face, level+1)
+            return subsampledPoint(face, 2*level)
         result.sort()
         return result[0][1]
 
-- 
2.43.0


From 3a5cd10477fa3aed94c2123706e41472c4d1602c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:26 +0000
Subject: [PATCH 88/90] fix: make Path.boundingBox() work

---
 python/maputils/dartpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/maputils/dartpath.py b/python/maputils/dartpath.py
index 2f10bfd..f3dae5a 100644
--- a/python/maputils/dartpath.py
+++ b/python/maputils/dartpath.py
@@ -94,7 +94,7 @@ class Path(list):
         dart.edge().boundingBox()es)."""
 
         it = iter(self)
-        result = it.next().boundingBox()
+        result = next(it).edge().boundingBox()
         for dart in it:
             result |= dart.edge().boundingBox()
         return result
-- 
2.43.0


From b4422e9d90b241c2509eb391747f94dcc641e49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:21 +0000
Subject: [PATCH 89/90] fix: unpickle StaticEdgeCosts with their combiner

---
 python/maputils/statistics.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/maputils/statistics.py b/python/maputils/statistics.py
index 0027cad..1ff3fb5 100644
--- a/python/maputils/statistics.py
+++ b/python/maputils/statistics.py
@@ -619,12 +619,13 @@ class StaticEdgeCosts(DetachableStatistics):
         return self._costs[dart.edgeLabel()]
 
     def __getstate__(self):
-        return DynamicEdgeStatistics.__getstate__(self) + (
-            self._costs, )
+        return DetachableStatistics.__getstate__(self) + (
+            self._costs, self._combiner)
 
-    def __setstate__(self, (map, tree)):
-        DynamicEdgeStatistics.__setstate__(self, (map, ))
-        self._costs = tree
+    def __setstate__(self, (map, costs, combiner)):
+        self._costs = costs
+        self._combiner = combiner
+        DetachableStatistics.__setstate__(self, (map, ))
 
 # formerly, this was called EdgeMergeTree:
 class MergedEdges(DynamicEdgeStatistics):
-- 
2.43.0


From 79eca5373b5edf090f0a25a5a7b41212a6feeb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:10 +0000
Subject: [PATCH 90/90] fix: rescan merged super-sampled faces with enough
 pixels whatever their levels

---
 src/geomap/facestatistics.hxx | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/geomap/facestatistics.hxx b/src/geomap/facestatistics.hxx
index d25b706..ac5f5a1 100644
--- a/src/geomap/facestatistics.hxx
+++ b/src/geomap/facestatistics.hxx
@@ -175,7 +175,18 @@ class FaceColorStatistics
             unsigned char ssLeft((*superSampled_)[dart.leftFaceLabel()]);
             unsigned char ssRight((*superSampled_)[dart.rightFaceLabel()]);
 
-            if(ssLeft != ssRight)
+            if(ssLeft && ssRight &&
+               dart.leftFace()->pixelArea() + dart.rightFace()->pixelArea()
+               >= minSampleCount_)
+            {
+                merged_.reset();
+                rescanFace(*dart.leftFace(), merged_);
+                rescanFace(*dart.rightFace(), merged_);
+                mergedSS_ = 0;
+
+                return true;
+            }
+            else if(ssLeft != ssRight)
             {
                 if(ssLeft < ssRight)
                 {
@@ -193,23 +204,8 @@ class FaceColorStatistics
                 }
                 return true;
             }
-            else if(ssLeft) // ssLeft == ssRight
-            {
-                mergedSS_ = ssLeft;
-
-                if(dart.leftFace()->pixelArea() + dart.rightFace()->pixelArea()
-                   >= minSampleCount_)
-                {
-                    merged_.reset();
-                    rescanFace(*dart.leftFace(), merged_);
-                    rescanFace(*dart.rightFace(), merged_);
-                    mergedSS_ = 0;
-
-                    return true;
-                }
-            }
             else
-                mergedSS_ = 0;
+                mergedSS_ = ssLeft; // ssLeft == ssRight
         }
 
         merged_ = *functors_[dart.leftFaceLabel()];
-- 
2.43.0

