From 0aa260d857c033cf459f2da3290605b0e4d2ffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:31 +0000
Subject: [PATCH 01/95] fix: invert small-scale matrices instead of treating
 them as singular

---
 src/geometry/matrix4.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/matrix4.cpp b/src/geometry/matrix4.cpp
index 0ed5f94..0d3d371 100644
--- a/src/geometry/matrix4.cpp
+++ b/src/geometry/matrix4.cpp
@@ -409,7 +409,7 @@ bool Matrix4::inverse(Matrix4* output) const
     det = Matrix4::m00*inv[0]+Matrix4::m01*inv[4]
           +Matrix4::m02*inv[8]+Matrix4::m03*inv[12];
 
-    if(flt_equal(det, 0.0f))
+    if(det == 0.0f || !std::isfinite(det))
         return false;
 
     det = 1.0f/det;
-- 
2.43.0


From e5de0686b3f44f33d76c2484db98c465b3d12be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:01 +0000
Subject: [PATCH 02/95] fix: relative tangent tolerance in the quadratic solver

An absolute tolerance on the discriminant makes rays passing well outside a
scaled-up sphere hit it.
---
 src/utility/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/utility.hpp b/src/utility/utility.hpp
index 9f33cc0..d6052ce 100644
--- a/src/utility/utility.hpp
+++ b/src/utility/utility.hpp
@@ -290,7 +290,7 @@ inline bool equation2(const float a, const float b, const float c,
                       float* sol1, float* sol2)
 {
     float delta = b*b-4.0f*a*c;
-    if(delta<=0 && delta+1e-4f>=0) //tanget but with float error
+    if(delta<=0 && delta+4e-6f*b*b>=0) //tanget but with float error
     {                            //happens in area lights
         *sol1 = -b/(a*2);
         *sol2 = *sol1;
-- 
2.43.0


From fb30745638421c58d99d98409d4b3f435b9cea0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:12 +0000
Subject: [PATCH 03/95] fix: box hit from inside reports the normal of the face
 it leaves by

---
 src/primitives/box.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/primitives/box.cpp b/src/primitives/box.cpp
index 04e5efd..53732d3 100644
--- a/src/primitives/box.cpp
+++ b/src/primitives/box.cpp
@@ -62,6 +62,7 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
     float mint;
     float maxt;
     char axis = 0; //used for normal identification
+    char exit_axis = 0; //same, when the ray starts inside the box
 
     //x plane
     float invr = 1.0f/r->direction.x;
@@ -83,7 +84,11 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
         mint = near;
         axis = 1;
     }
-    maxt = far<maxt?far:maxt;
+    if(far<maxt)
+    {
+        maxt = far;
+        exit_axis = 1;
+    }
     if(mint>maxt)
         return false;
 
@@ -98,7 +103,11 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
         mint = near;
         axis = 2;
     }
-    maxt = far<maxt?far:maxt;
+    if(far<maxt)
+    {
+        maxt = far;
+        exit_axis = 2;
+    }
     if(mint>maxt)
         return false;
     float tmpdistance;
@@ -107,6 +116,7 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
     else if(maxt>SELF_INTERSECT_ERROR)
     {
         inside = true;
+        axis = exit_axis;
         tmpdistance = maxt;
     }
     else
-- 
2.43.0


From 35ea79e6107316aad078ec642b5b7220d1de7db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 04/95] fix: triangle no longer reports NaN hits when the
 determinant underflows

---
 src/primitives/triangle.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/primitives/triangle.cpp b/src/primitives/triangle.cpp
index 9416495..6c80555 100644
--- a/src/primitives/triangle.cpp
+++ b/src/primitives/triangle.cpp
@@ -71,16 +71,16 @@ bool Triangle::intersect(const Ray* r, float* distance, HitPoint* h,
     float invdet = 1.f/det;
     const Vec3 tv = r->origin-a.p;
     float u = pv.dot(tv)*invdet;
-    if(u<0.f || u>1.f) //origin position and dir inclination
+    if(!(u>=0.f && u<=1.f)) //origin position and dir inclination
         return false; //constraints are u,v>=0 & u+v<=1 so if u>1 I can exit now
 
     const Vec3 qv = tv.cross(ba);
     float v = r->direction.dot(qv)*invdet;
-    if(v<0.f || u+v>1.f) //I could hit with this origin, but the direction
+    if(!(v>=0.f && u+v<=1.f)) //I could hit with this origin, but the direction
         return false;    //betrays me
 
     float dist = ca.dot(qv)*invdet;
-    if(dist<SELF_INTERSECT_ERROR || dist>*distance)
+    if(!(dist>=SELF_INTERSECT_ERROR && dist<=*distance)) //false if NaN
         return false;
 
     //hit now dependes only on masking
-- 
2.43.0


From 28cbc42ff0e607a40df9b211f6be32133724b5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:14 +0000
Subject: [PATCH 05/95] fix: box/ray test accepts negative zero direction
 components

---
 src/geometry/AABB.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geometry/AABB.cpp b/src/geometry/AABB.cpp
index 8eddea5..1b9b070 100644
--- a/src/geometry/AABB.cpp
+++ b/src/geometry/AABB.cpp
@@ -100,7 +100,7 @@ bool AABB::intersect(const Ray* r, float* p1, float* p2) const
     float invx = 1.f/r->direction.x;
     float invy = 1.f/r->direction.y;
     float invz = 1.f/r->direction.z;
-    if(r->direction.x>=0)
+    if(invx>=0)
     {
         minxt = (bounds[0].x-r->origin.x)*invx;
         maxxt = (bounds[1].x-r->origin.x)*invx;
@@ -110,7 +110,7 @@ bool AABB::intersect(const Ray* r, float* p1, float* p2) const
         minxt = (bounds[1].x-r->origin.x)*invx;
         maxxt = (bounds[0].x-r->origin.x)*invx;
     }
-    if(r->direction.y>=0)
+    if(invy>=0)
     {
         minyt = (bounds[0].y-r->origin.y)*invy;
         maxyt = (bounds[1].y-r->origin.y)*invy;
@@ -128,7 +128,7 @@ bool AABB::intersect(const Ray* r, float* p1, float* p2) const
     if(maxyt<maxxt)
         maxxt = maxyt;
 
-    if(r->direction.z>=0)
+    if(invz>=0)
     {
         minzt = (bounds[0].z-r->origin.z)*invz;
         maxzt = (bounds[1].z-r->origin.z)*invz;
-- 
2.43.0


From 9e8e1c04b55b5fe4f6928869fdd0f747bc4e5ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:20 +0000
Subject: [PATCH 06/95] fix: planar meshes no longer convert NaN to integer in
 the BVH build

---
 src/accelerators/bvh.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/accelerators/bvh.cpp b/src/accelerators/bvh.cpp
index b0c61dd..147b3fb 100644
--- a/src/accelerators/bvh.cpp
+++ b/src/accelerators/bvh.cpp
@@ -102,9 +102,10 @@ static inline uint64_t expand(uint64_t val)
 static uint64_t mortonCode(float inx, float iny, float inz)
 {
     //convert floats in range [0,1] to fixed point
-    float x = inx*0x1FFFFFU;
-    float y = iny*0x1FFFFFU;
-    float z = inz*0x1FFFFFU;
+    //an axis without extent (planar mesh) yields NaN, mapped to 0
+    float x = inx>0.f?min(inx, 1.f)*0x1FFFFFU:0.f;
+    float y = iny>0.f?min(iny, 1.f)*0x1FFFFFU:0.f;
+    float z = inz>0.f?min(inz, 1.f)*0x1FFFFFU:0.f;
 
 #ifndef __BMI2__ //not Intel >haswell or AMD >ryzord. Probably also on windows
 
-- 
2.43.0


From bbf6349dc7eb34287d5b4c17911f35a8305dd281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:34 +0000
Subject: [PATCH 07/95] fix: mesh hits report the index of the triangle as it
 was added

The BVH build reorders the triangle array, so the index written in the HitPoint
was the position in the reordered array while the materials of an asset are
associated with the order of insertion.
---
 src/accelerators/bvh.cpp | 12 +++++++++++-
 src/accelerators/bvh.hpp |  7 +++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/accelerators/bvh.cpp b/src/accelerators/bvh.cpp
index 147b3fb..2dc4ecc 100644
--- a/src/accelerators/bvh.cpp
+++ b/src/accelerators/bvh.cpp
@@ -299,9 +299,17 @@ static uint32_t traverseTree(Triangle* tris, Primitive* p, uint32_t offs,
 
 // <><><><><><><><> Bvh methods <><><><><><><><><><><><><><><><><><><><><><><><>
 
+Bvh::Bvh()
+{
+    nodesList = NULL;
+    tris = NULL;
+    faces = NULL;
+}
+
 Bvh::~Bvh()
 {
     free(nodesList);
+    free(faces);
 }
 
 void Bvh::buildTree(Triangle* tris, int len)
@@ -364,8 +372,10 @@ void Bvh::buildTree(Triangle* tris, int len)
     Triangle* tmp = (Triangle*)malloc(sizeof(Triangle)*len);
     memcpy((void*)tmp, (void*)tris,
            sizeof(Triangle)*len);//create reference copy
+    faces = (uint32_t*)malloc(sizeof(uint32_t)*len);
     for(int i = 0; i<len; i++)
     {
+        faces[i] = (uint32_t)prims[i].index;
         tris[i].a = tmp[prims[i].index].a; //copy from the reference
         tris[i].b = tmp[prims[i].index].b;
         tris[i].c = tmp[prims[i].index].c;
@@ -429,7 +439,7 @@ bool Bvh::intersect(const Ray* r, float* distance, HitPoint* h,
                     unsigned int tmp_index = node->offset+i;
                     if(Bvh::tris[tmp_index].intersect(r, distance, h, mask))
                     {
-                        h->index = tmp_index;
+                        h->index = faces != NULL?faces[tmp_index]:tmp_index;
                         found = true;
                     }
                 }
diff --git a/src/accelerators/bvh.hpp b/src/accelerators/bvh.hpp
index 9c092f1..0db9045 100644
--- a/src/accelerators/bvh.hpp
+++ b/src/accelerators/bvh.hpp
@@ -75,6 +75,9 @@ class Bvh
 {
 public:
 
+    ///Default constructor
+    Bvh();
+
     ///Default destructor
     ~Bvh();
 
@@ -114,6 +117,10 @@ private:
 
     //A pointer to the array of triangles around which the bvh is built
     Triangle* tris;
+
+    //original index of every triangle, as passed to the buildTree() method.
+    //NULL if the triangles were not reordered
+    uint32_t* faces;
 };
 
 #endif
-- 
2.43.0


From 1c149fcd8664c6c9f9729345c6d5e786a1d872cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:38 +0000
Subject: [PATCH 08/95] fix: mesh traversal no longer overflows its stack on
 deep hierarchies

---
 src/accelerators/bvh.cpp | 23 +++++++++++++++++------
 src/accelerators/bvh.hpp |  7 +++++--
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/accelerators/bvh.cpp b/src/accelerators/bvh.cpp
index 2dc4ecc..d96adda 100644
--- a/src/accelerators/bvh.cpp
+++ b/src/accelerators/bvh.cpp
@@ -304,6 +304,7 @@ Bvh::Bvh()
     nodesList = NULL;
     tris = NULL;
     faces = NULL;
+    depth = 0;
 }
 
 Bvh::~Bvh()
@@ -364,7 +365,7 @@ void Bvh::buildTree(Triangle* tris, int len)
     }
     uint32_t index = 0;
 
-    flatten(clusters.at(0), &index);
+    depth = flatten(clusters.at(0), &index);
 
     //reorder the Triangle* array
     //this is actually horrible but I don't want to deallocate array under
@@ -384,8 +385,9 @@ void Bvh::buildTree(Triangle* tris, int len)
     free(prims);
 }
 
-void Bvh::flatten(void* n, uint32_t* index)
+uint32_t Bvh::flatten(void* n, uint32_t* index)
 {
+    uint32_t height = 0;
     BvhBuildNode* node = (BvhBuildNode*)n;
     if(node->left == NULL) //leaf
     {
@@ -401,16 +403,18 @@ void Bvh::flatten(void* n, uint32_t* index)
         uint32_t myindex = (*index)++;
 
         //left node is right after the parent, right node is somewhere else
-        flatten(node->left, index);
+        uint32_t height_left = flatten(node->left, index);
 
         //I processed all the left nodes, so now I know the right node position
         nodesList[myindex].bounding = node->bounding;
         nodesList[myindex].sibling = *index;
         nodesList[myindex].len = 0;
         nodesList[myindex].axis = (uint8_t)(node->split);
-        flatten(node->right, index);
+        uint32_t height_right = flatten(node->right, index);
+        height = 1+(height_left>height_right?height_left:height_right);
     }
     delete (node);
+    return height;
 }
 
 ///Max depth of the Bvh tree
@@ -424,8 +428,15 @@ bool Bvh::intersect(const Ray* r, float* distance, HitPoint* h,
     float dmax;
     bool found = false;
 
-    BvhNode* jobs[BVH_MAX_DEPTH];
-    unsigned char jobs_stack_top = 0;
+    BvhNode* jobs_local[BVH_MAX_DEPTH];
+    BvhNode** jobs = jobs_local;
+    std::vector<BvhNode*> jobs_heap; //only for the trees deeper than the max
+    if(depth>BVH_MAX_DEPTH)
+    {
+        jobs_heap.resize(depth);
+        jobs = &jobs_heap[0];
+    }
+    unsigned int jobs_stack_top = 0;
     BvhNode* node = Bvh::nodesList;
     while(node != NULL)
     {
diff --git a/src/accelerators/bvh.hpp b/src/accelerators/bvh.hpp
index 0db9045..2a41347 100644
--- a/src/accelerators/bvh.hpp
+++ b/src/accelerators/bvh.hpp
@@ -109,8 +109,8 @@ public:
 
 private:
 
-    //transform the temp build structure in the flattened one
-    void flatten(void*, uint32_t*);
+    //transform the temp build structure in the flattened one, returns its depth
+    uint32_t flatten(void*, uint32_t*);
 
     //The flattened tree
     BvhNode* nodesList;
@@ -121,6 +121,9 @@ private:
     //original index of every triangle, as passed to the buildTree() method.
     //NULL if the triangles were not reordered
     uint32_t* faces;
+
+    //max number of interior nodes between the root and a leaf
+    uint32_t depth;
 };
 
 #endif
-- 
2.43.0


From bc82c64c441481aa694eae9cbd08ef9a18dc2560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:37 +0000
Subject: [PATCH 09/95] fix: BVH build copes with bounding boxes whose area
 overflows

---
 src/accelerators/bvh.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/accelerators/bvh.cpp b/src/accelerators/bvh.cpp
index d96adda..0b0babc 100644
--- a/src/accelerators/bvh.cpp
+++ b/src/accelerators/bvh.cpp
@@ -131,7 +131,8 @@ using bvhhelpers::Primitive;
 static uint32_t findBestMatch(std::vector<BvhBuildNode*>* c, BvhBuildNode* b)
 {
     float best_area = INFINITY;
-    uint32_t retval = 0; //if size == 1 return myself
+    //if size == 1 return myself, otherwise never, even if every area overflows
+    uint32_t retval = (c->size()>1 && c->at(0) == b)?1:0;
     for(unsigned int i = 0; i<c->size(); i++) //linear search
     {
         if(c->at(i) != b)
@@ -170,6 +171,8 @@ static uint32_t combineCluster(std::vector<BvhBuildNode*>* c, int n, char axis)
     while((int)c->size()>n)
     {
         float best = INFINITY;
+        left = 0;
+        right = closest[0];
         //find best of best-pairs
         for(unsigned int i = 0; i<c->size(); i++)
         {
-- 
2.43.0


From b7e74b124ee815076e405489a7237bf2e78ba558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:53 +0000
Subject: [PATCH 10/95] fix: kd-tree build no longer loses assets which are
 flat along the split axis

---
 src/accelerators/kdtree.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/accelerators/kdtree.cpp b/src/accelerators/kdtree.cpp
index 968e24b..5801647 100644
--- a/src/accelerators/kdtree.cpp
+++ b/src/accelerators/kdtree.cpp
@@ -110,7 +110,10 @@ namespace KdHelpers
     //used to sort the splicandidate in the kdtree build
     bool compare_sc(const SplitCandidate s1, const SplitCandidate s2)
     {
-        return s1.pos<s2.pos;
+        //for a flat asset the two sides have the same pos: left comes first,
+        //otherwise the asset could end up in neither child
+        return s1.pos<s2.pos ||
+               (s1.pos == s2.pos && s1.isLeftSide && !s2.isLeftSide);
     }
 
     //helper structure for kd tree traversal
-- 
2.43.0


From 12e25e19046720c6ba271b140000b1a9e0503f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:18 +0000
Subject: [PATCH 11/95] fix: kd-tree keeps its assets and the references of its
 leaves separated

The leaves were stored in the fixed size array of the assets: overlapping assets
wrote past its end, and building the tree again used the previous leaves.
---
 src/accelerators/kdtree.cpp | 24 ++++++++++++++----------
 src/accelerators/kdtree.hpp |  3 +++
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/accelerators/kdtree.cpp b/src/accelerators/kdtree.cpp
index 5801647..b58262e 100644
--- a/src/accelerators/kdtree.cpp
+++ b/src/accelerators/kdtree.cpp
@@ -154,7 +154,10 @@ KdTree::~KdTree()
 void KdTree::addAsset(const Asset* addme)
 {
     if(assets_number == _MAX_ASSETS_)
+    {
         Console.severe(MESSAGE_MAXASSETNUMBER);
+        return;
+    }
     if(assets_number == assets_allocated)
     {
         int allocNo = min(assets_allocated << 1, _MAX_ASSETS_);
@@ -226,13 +229,14 @@ void KdTree::buildTree()
     for(int i = 1; i<assets_number; i++)
         scene_aabb.engulf(assetsList[i]->get_AABB());
 
-    //copy the assets, since the original array will be rewritten in a
-    //different order
+    //forget the previous tree, if any
+    nodes_index = 0;
+    leavesList.clear();
+
+    //copy the assets, since they are passed down the tree by the build method
     Asset** alcopy = (Asset**)malloc(sizeof(Asset*)*KdTree::assets_number);
     memcpy(alcopy, KdTree::assetsList, sizeof(Asset*)*KdTree::assets_number);
-    unsigned int a_n = KdTree::assets_number; //assets_number will be set to 0
-    KdTree::assets_number = 0;//and assets will be reinserted in order during
-    //building of the kd-tree
+    unsigned int a_n = KdTree::assets_number;
 
     //allocate the array of possible candidates. sc[axis][candidate]
     SplitCandidate** sc = (SplitCandidate**)malloc(sizeof(SplitCandidate*)*3);
@@ -268,14 +272,14 @@ void KdTree::build(void* n, char depth, void* s_c, Asset** a_l,
     //terminate recursion if max depth or too few assets
     if(depth == KD_MAX_DEPTH || a_n<=_LEAF_ASSETS_)
     {
-        node->offset_start = KdTree::assets_number;
+        node->offset_start = (unsigned int)KdTree::leavesList.size();
         node->assets_number = a_n;
 
         //assets are added in order to the Class assets array
         //now i can reference them with a pointer to the first and the number
         //of assets for the leaf
         for(unsigned int i = 0; i<a_n; i++)
-            KdTree::addAsset(a_l[i]);
+            KdTree::leavesList.push_back(a_l[i]);
         node->isLeaf = true;
         node->left = NULL;
         node->right = NULL;
@@ -367,10 +371,10 @@ void KdTree::build(void* n, char depth, void* s_c, Asset** a_l,
     //best cost sucks, better not to split at all -> make a leaf
     if((best_cost>4.f*old_cost && a_n<16) || best_axis == 0xFF)
     {
-        node->offset_start = KdTree::assets_number;
+        node->offset_start = (unsigned int)KdTree::leavesList.size();
         node->assets_number = a_n;
         for(unsigned int i = 0; i<a_n; i++)
-            KdTree::addAsset(a_l[i]);
+            KdTree::leavesList.push_back(a_l[i]);
         node->isLeaf = true;
         node->left = NULL;
         node->right = NULL;
@@ -486,7 +490,7 @@ bool KdTree::intersect(const Ray* r, HitPoint* h) const
             //try to intersect every asset
             for(unsigned int i = 0; i<a_n; i++)
             {
-                current_asset = assetsList[n->getAssetOffset()+i];
+                current_asset = leavesList[n->getAssetOffset()+i];
 
                 //firstly try with the aabb since it's faster
                 if(current_asset->intersect_AABB(r, &rp, &res1, &res2))
diff --git a/src/accelerators/kdtree.hpp b/src/accelerators/kdtree.hpp
index 00831f8..da1612b 100644
--- a/src/accelerators/kdtree.hpp
+++ b/src/accelerators/kdtree.hpp
@@ -246,6 +246,9 @@ private:
     //the allocated size of the assetsList array
     int assets_allocated;
 
+    //the assets referenced by the leaves. The same asset may appear many times
+    std::vector<const Asset*> leavesList;
+
     //the list of nodes managed by this kd-tree
     KdTreeNode* nodesList;
 
-- 
2.43.0


From 7e989b919424201f36522db0c5ab613c4ffaddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:05 +0000
Subject: [PATCH 12/95] fix: tangent tolerance of the quadratic solver scales
 with the leading coefficient

Relative to b squared it grew with the distance of the ray from the sphere.
---
 src/utility/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/utility.hpp b/src/utility/utility.hpp
index d6052ce..4f0f85b 100644
--- a/src/utility/utility.hpp
+++ b/src/utility/utility.hpp
@@ -290,7 +290,7 @@ inline bool equation2(const float a, const float b, const float c,
                       float* sol1, float* sol2)
 {
     float delta = b*b-4.0f*a*c;
-    if(delta<=0 && delta+4e-6f*b*b>=0) //tanget but with float error
+    if(delta<=0 && delta+1e-4f*fabsf(a)>=0) //tanget but with float error
     {                            //happens in area lights
         *sol1 = -b/(a*2);
         *sol2 = *sol1;
-- 
2.43.0


From 04831365dce1a61c6f0e3dcc62f9db44d48c9f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:27 +0000
Subject: [PATCH 13/95] fix: mesh sampling chooses the triangle its cumulative
 area table says

The triangle before the chosen one was sampled, a mesh with one triangle read
before the table and a mesh without area looped forever.
---
 src/primitives/mesh.cpp | 55 ++++++++++-------------------------------
 1 file changed, 13 insertions(+), 42 deletions(-)

diff --git a/src/primitives/mesh.cpp b/src/primitives/mesh.cpp
index 6f250c8..428b45d 100644
--- a/src/primitives/mesh.cpp
+++ b/src/primitives/mesh.cpp
@@ -172,46 +172,17 @@ void Mesh::sample_point(float r0, float r1, const float* densities, Point3* p,
 {
     //flatten the random value between 0.0 and the total area
     float extSample = lerp(r0, 0.0f, densities[count-1]);
-
-    //divide et impera search
-    int start = 0;
-    int end = count-1;
-    int mid;
-    //the sample in the interval [0,1]. After processing the lerp step
-    float sample01;
-
-    //limit cases, they generate infinite loops
-    //first triangle of the array
-    if(extSample<densities[0])
-    {
-        sample01 = inverse_lerp(extSample, 0, densities[0]);
-        tris[0].sample_point(sample01, r1, NULL, p, n);
-        return;
-    }
-    //last triangle of the array
-    if(extSample>densities[end-1])
-    {
-        sample01 = inverse_lerp(extSample-densities[end-1], 0,
-                                densities[end]-densities[end-1]);
-        tris[end].sample_point(sample01, r1, NULL, p, n);
-        return;
-    }
-
-    //find the sampled triangle by using cumulative areas (cdf)
-    while(true)
-    {
-        mid = (start+end)/2;
-        //mid contains the value
-        if(densities[mid]<=extSample && densities[mid+1]>extSample)
-            break;
-        else if(densities[mid]>extSample)
-            end = mid;
-        else
-            start = mid;
-    }
-
-    //sample the triangle
-    sample01 = inverse_lerp(extSample-densities[mid], 0,
-                            densities[mid+1]-densities[mid]);
-    tris[mid].sample_point(sample01, r1, NULL, p, n);
+    //find the first triangle with a cumulative density higher than the sample.
+    //Triangles without area are never chosen
+    const float* chosen = std::upper_bound(densities, densities+count,
+                                           extSample);
+    if(chosen == densities+count)//sample past the last one, numerical error
+        chosen = std::lower_bound(densities, densities+count,
+                                  densities[count-1]);
+    unsigned int index = (unsigned int)(chosen-densities);
+    float previous = index>0?densities[index-1]:0.f;
+    float sample01 = 0.f;
+    if(*chosen>previous)
+        sample01 = min(inverse_lerp(extSample, previous, *chosen), 1.f);
+    tris[index].sample_point(sample01, r1, NULL, p, n);
 }
-- 
2.43.0


From 7abd79fa310dcefd148929ca23fea2ea2ad9ccce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:36 +0000
Subject: [PATCH 14/95] fix: hit points used for shadow and light queries start
 without differentials

Their flag was read uninitialised when testing masks.
---
 src/primitives/hit_point.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/primitives/hit_point.hpp b/src/primitives/hit_point.hpp
index 1f97c3a..682f7e5 100644
--- a/src/primitives/hit_point.hpp
+++ b/src/primitives/hit_point.hpp
@@ -39,10 +39,10 @@ struct HitPoint
     Vec3 dpdv;
 
     ///Hit asset
-    const Asset* asset_h;
+    const Asset* asset_h = NULL;
 
     ///index of the hit triangle (0 if the asset is not a mesh)
-    unsigned int index;
+    unsigned int index = 0;
 
     ///Mapping coordinate u of the point, used for texture mapping
     Point2 uv;
@@ -54,7 +54,7 @@ struct HitPoint
     Vec2 dv;
 
     //true if the values du and dv are set
-    bool differentials;
+    bool differentials = false;
 };
 
 void calculate_differentials(HitPoint* hp, Ray* rx, Ray* ry);
-- 
2.43.0


From b7023d06525c48c98679adcc7f77e720ecc5768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:35 +0000
Subject: [PATCH 15/95] fix: area light densities and distances are in world
 space for scaled lights

The distance was measured in object space while the area is in world space, and
a ray missing the light because of rounding used an unset normal.
---
 src/lights/area_light.cpp | 64 ++++++++++++---------------------------
 1 file changed, 20 insertions(+), 44 deletions(-)

diff --git a/src/lights/area_light.cpp b/src/lights/area_light.cpp
index 1b54aa1..0cb4955 100644
--- a/src/lights/area_light.cpp
+++ b/src/lights/area_light.cpp
@@ -59,10 +59,7 @@ AreaLight::sample_visible_surface(float r0, float r1, const Point3* pos,
                                   Vec3* wi, float* pdf, float* distance) const
 {
     Normal normal;
-    Point3 light_point; //object space
-    Ray ray;
-    ray.origin = worldToObj**pos;
-
+    Point3 light_point; //object space, then world space
     //generate random origin point of the emitted radiance in the surface of the
     //underlying model of the light
     AreaLight::model->sample_point(r0, r1, cd, &light_point, &normal);
@@ -70,30 +67,21 @@ AreaLight::sample_visible_surface(float r0, float r1, const Point3* pos,
     //in the next steps a ray originating from the current_pos and pointing to
     //the sampled point is tested against the light. This because if the sampled
     //point is on the backface, a point facing the current_pos is selected
-    ray.direction = light_point-ray.origin;
+    //the density is expressed in world space, like the area
+    light_point = AreaLight::objToWorld*light_point;
+    Ray ray(*pos, light_point-*pos);
     ray.direction.normalize();
     HitPoint hit;
-    *distance = FLT_MAX;
-    //will always succeed
-//    bool res=
-    AreaLight::model->intersect(&ray, distance, &hit, &mask);
-    //erase the next if after all the intersections are tried
-    //TODO: now this should never happen and has been commented. Tried
-    //blackbox testing for something like 1 hour, but maybe for newer
-    //shapes this could generate problems so it is left here as a reference
-//    if(!res)
-//    {
-//        bool res=AreaLight::model->intersect(&ray,distance,&hit);
-//        *pdf = 0;
-//        return SPECTRUM_BLACK;
-//    }
-    light_point = ray.apply(*distance);
-    normal = hit.normal_h; //object space
     *wi = ray.direction;
-    *pdf = (ray.origin.x-light_point.x)*(ray.origin.x-light_point.x)+
-           (ray.origin.y-light_point.y)*(ray.origin.y-light_point.y)+
-           (ray.origin.z-light_point.z)*(ray.origin.z-light_point.z);
-    *pdf /= (absdot(normal, -(*wi))*AreaLight::area);
+    *distance = FLT_MAX;
+    if(!AreaLight::intersect(&ray, distance, &hit))
+    {
+        *pdf = 0;
+        *distance = FLT_MAX;
+        return SPECTRUM_BLACK;
+    }
+    normal = hit.normal_h;
+    *pdf = *distance**distance/(absdot(normal, -(*wi))*AreaLight::area);
     if(std::isinf(*pdf))
     {
         *pdf = 0;
@@ -101,36 +89,24 @@ AreaLight::sample_visible_surface(float r0, float r1, const Point3* pos,
         return SPECTRUM_BLACK;
     }
 
-    //convert wi to world space
-    Spectrum retval;
     if(dot(normal, -(*wi))>0) //cos between ray and hit point normal > 0
-        retval = AreaLight::c;
+        return AreaLight::c;
     else
-        retval = SPECTRUM_BLACK;
-
-    *wi = AreaLight::objToWorld**wi;
-    wi->normalize();
-    return retval;
+        return SPECTRUM_BLACK;
 }
 
 float AreaLight::pdf(const Point3* p, const Vec3* wi) const
 {
-    Ray ray;
-    ray.origin = AreaLight::worldToObj**p;
-    ray.direction = AreaLight::worldToObj**wi;
+    Ray ray(*p, *wi);
+    ray.direction.normalize();
     HitPoint hit;
     float distance = FLT_MAX;
     //here success is not guaranteed, maybe the wi vector is random
     //need to check if the intersection can happen
-    bool res = AreaLight::model->intersect(&ray, &distance, &hit, &mask);
-    if(!res)
+    if(!AreaLight::intersect(&ray, &distance, &hit))
         return 0;
-    Point3 light_point = ray.apply(distance);
-    float pdf = (ray.origin.x-light_point.x)*(ray.origin.x-light_point.x)+
-                (ray.origin.y-light_point.y)*(ray.origin.y-light_point.y)+
-                (ray.origin.z-light_point.z)*(ray.origin.z-light_point.z);
-    pdf /= (absdot(hit.normal_h, -(ray.direction))*AreaLight::area);
-    return pdf;
+    return distance*distance/
+           (absdot(hit.normal_h, -(ray.direction))*AreaLight::area);
 }
 
 float AreaLight::pdf(const Ray*) const
-- 
2.43.0


From 66d741ae020d03073b13a06ce91ddc476e8db1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:21 +0000
Subject: [PATCH 16/95] fix: progress bar read the job queue and its alive flag
 without synchronisation

---
 src/renderer.cpp | 41 +++++++++++++++++++++++++----------------
 src/renderer.hpp |  6 ++++--
 2 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/renderer.cpp b/src/renderer.cpp
index b683157..e086363 100644
--- a/src/renderer.cpp
+++ b/src/renderer.cpp
@@ -9,8 +9,8 @@ static void executor(Camera* camera, ImageFilm* film, std::mutex* lock, int spp,
                      Scene* scene, LightIntegrator* mc_solver);
 
 
-static void progressBar(std::stack<Renderer_task>* jobs, unsigned long ts,
-                        bool& alive);
+static void progressBar(std::stack<Renderer_task>* jobs, std::mutex* lock,
+                        unsigned long ts, std::atomic<bool>& alive);
 
 Renderer::Renderer(int width, int height, int spp, const char* out,
                    int thread_number):film(width, height, out)
@@ -111,7 +111,7 @@ int Renderer::render(Scene* s)
         }
     }
     steady_clock::time_point a = steady_clock::now();
-    RendererProgressBar progress_bar(&jobs);
+    RendererProgressBar progress_bar(&jobs, &jobs_mtx);
     //create threads
     for(int i = 0; i<Renderer::numthreads; i++)
     {
@@ -244,12 +244,13 @@ void executor(Camera* camera, ImageFilm* film, std::mutex* lock, int spp,
     film->add_pixel_forced(&ex);
 }
 
-RendererProgressBar::RendererProgressBar(std::stack<Renderer_task>* jobs)
+RendererProgressBar::RendererProgressBar(std::stack<Renderer_task>* jobs,
+                                         std::mutex* lock)
 {
     RendererProgressBar::jobs = jobs;
     RendererProgressBar::alive = true;
-    RendererProgressBar::listener = std::thread(progressBar, jobs, jobs->size(),
-                                                std::ref(alive));
+    RendererProgressBar::listener = std::thread(progressBar, jobs, lock,
+                                                jobs->size(), std::ref(alive));
 }
 
 RendererProgressBar::~RendererProgressBar()
@@ -269,8 +270,8 @@ void RendererProgressBar::kill()
     Console.progress_bar_done();
 }
 
-void progressBar(std::stack<Renderer_task>* jobs, unsigned long jobs_no,
-                 bool& alive)
+void progressBar(std::stack<Renderer_task>* jobs, std::mutex* lock,
+                 unsigned long jobs_no, std::atomic<bool>& alive)
 {
     unsigned long remaining;
     float done;
@@ -279,14 +280,22 @@ void progressBar(std::stack<Renderer_task>* jobs, unsigned long jobs_no,
     time_t eta;
     while(alive)
     {
-        remaining = jobs->size(); //I don't care about dirty reads, it's an
-        current_time = time(NULL); //eta, I cannot block n threads for an eta
-        done = (float)(jobs_no-remaining)/(float)jobs_no;
-        eta = (time_t)((float)(current_time-start_time)/(jobs_no-remaining)*
-                       remaining);
-        //avoid garbage values... it is useless, but it runs once per second...
-        if(eta>0)
-            Console.progress_bar(done, (float)eta);
+        //once per second, the workers are not slowed down by this
+        lock->lock();
+        remaining = (unsigned long)jobs->size();
+        lock->unlock();
+        current_time = time(NULL);
+        //without any completed job there is nothing to estimate
+        if(remaining<jobs_no)
+        {
+            done = (float)(jobs_no-remaining)/(float)jobs_no;
+            eta = (time_t)((float)(current_time-start_time)/
+                           (jobs_no-remaining)*remaining);
+            //avoid garbage values... it is useless, but it runs once per
+            //second...
+            if(eta>0)
+                Console.progress_bar(done, (float)eta);
+        }
         std::this_thread::sleep_for
                 (std::chrono::seconds(PROGRESS_BAR_UPDATE_SECONDS));
     }
diff --git a/src/renderer.hpp b/src/renderer.hpp
index 75b7671..31a591c 100644
--- a/src/renderer.hpp
+++ b/src/renderer.hpp
@@ -27,6 +27,7 @@
 #include "integrators/light_integrator.hpp"
 #include "settings.h"
 #include <thread> //std::thread
+#include <atomic>
 #include <stack> //std::stack
 #include <chrono> //std::this_thread::sleep_for, platform independent
 #include <ctime> //time for srand
@@ -60,8 +61,9 @@ public:
     /** \brief Default constructor
      *
      * \param[in] jobs The job queue
+     * \param[in] lock The mutex protecting the job queue
      */
-    RendererProgressBar(std::stack<Renderer_task>* jobs);
+    RendererProgressBar(std::stack<Renderer_task>* jobs, std::mutex* lock);
 
     ///Default destructor
     ~RendererProgressBar();
@@ -78,7 +80,7 @@ private:
     std::thread listener;
 
     //used to terminate the thread
-    bool alive;
+    std::atomic<bool> alive;
 };
 
 /**
-- 
2.43.0


From ec346d05a036ecc719c29021460791a3549ca2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:41 +0000
Subject: [PATCH 17/95] fix: image film dropped the last row and column of each
 sample's filter footprint

---
 src/cameras/image_film.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cameras/image_film.cpp b/src/cameras/image_film.cpp
index 821fb54..075dfe0 100644
--- a/src/cameras/image_film.cpp
+++ b/src/cameras/image_film.cpp
@@ -59,12 +59,12 @@ void ImageFilm::add_pixel(const Sample* sample, ColorXYZ color,
     int update_y1 = (int)floorf(centre_y+filter->range_y);
     update_x0 = max(update_x0, 0);
     update_y0 = max(update_y0, 0);
-    update_x1 = min(update_x1, width);
-    update_y1 = min(update_y1, height);
+    update_x1 = min(update_x1, width-1);
+    update_y1 = min(update_y1, height-1);
 
     //foreach affected pixel
-    for(int y = update_y0; y<update_y1; y++)
-        for(int x = update_x0; x<update_x1; x++)
+    for(int y = update_y0; y<=update_y1; y++)
+        for(int x = update_x0; x<=update_x1; x++)
         {
             float weight = filter->weight(x-centre_x, y-centre_y);
             if(x<secure_area->startx || x>secure_area->endx ||
-- 
2.43.0


From a72da315b81ef3f0acf49d560dfda3721f355519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:03 +0000
Subject: [PATCH 18/95] fix: tiles wrote their border pixels without
 synchronisation with the neighbour tiles

---
 src/cameras/image_film.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cameras/image_film.cpp b/src/cameras/image_film.cpp
index 075dfe0..a58e316 100644
--- a/src/cameras/image_film.cpp
+++ b/src/cameras/image_film.cpp
@@ -67,8 +67,12 @@ void ImageFilm::add_pixel(const Sample* sample, ColorXYZ color,
         for(int x = update_x0; x<=update_x1; x++)
         {
             float weight = filter->weight(x-centre_x, y-centre_y);
-            if(x<secure_area->startx || x>secure_area->endx ||
-               y<secure_area->starty || y>secure_area->endy)
+            //samples outside the area reach also the pixels inside, if closer
+            //than the filter extent: those are written by other threads too
+            if(x<=secure_area->startx-0.5f+filter->range_x ||
+               x>=secure_area->endx-0.5f-filter->range_x ||
+               y<=secure_area->starty-0.5f+filter->range_y ||
+               y>=secure_area->endy-0.5f-filter->range_y)
             {
                 //critical section, other threads could interfere. deferred add
                 TodoPixel pixel_toadd;
-- 
2.43.0


From 306c7d6ff2a908d19976771b1e4fe46c983a2dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:28 +0000
Subject: [PATCH 19/95] fix: differential rays of the orthographic camera are
 one pixel away at any resolution

---
 src/cameras/camera_orthographic.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/cameras/camera_orthographic.cpp b/src/cameras/camera_orthographic.cpp
index 219c1ba..54115ae 100644
--- a/src/cameras/camera_orthographic.cpp
+++ b/src/cameras/camera_orthographic.cpp
@@ -58,20 +58,14 @@ CameraOrthographic::CameraOrthographic(const Point3* pos, const Point3* target,
     Matrix4 raster2screen(values);
     raster2world *= screen2camera;
     raster2world *= raster2screen;
-    Matrix4 raster2camera;
-    raster2camera.set_identity();
-    raster2camera *= screen2camera;
-    raster2camera *= raster2screen;
-    dx = raster2camera*Vec3(1, 0, 0);
-    dy = raster2camera*Vec3(0, -1, 0);
 }
 
 void CameraOrthographic::create_ray(const Sample* spl, Ray* ray, Ray* rx,
                                     Ray* ry) const
 {
     ray->origin = raster2world*Point3(spl->posx, spl->posy, 0);
-    rx->origin = raster2world*Point3(spl->posx+dx.x, spl->posy+dx.y, dx.z);
-    ry->origin = raster2world*Point3(spl->posx+dy.x, spl->posy+dy.y, dy.z);
+    rx->origin = raster2world*Point3(spl->posx+1.f, spl->posy, 0);
+    ry->origin = raster2world*Point3(spl->posx, spl->posy+1.f, 0);
     ray->direction = camera2world*Vec3(0, 0, 1);
     rx->direction = ray->direction;
     ry->direction = ray->direction;
-- 
2.43.0


From 7677423b6feb95ad7fe838559c9133551edba431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:20 +0000
Subject: [PATCH 20/95] fix: pixels whose filter weights sum to a negative
 value were saved black

---
 src/cameras/image_film.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cameras/image_film.cpp b/src/cameras/image_film.cpp
index a58e316..aaf6336 100644
--- a/src/cameras/image_film.cpp
+++ b/src/cameras/image_film.cpp
@@ -159,7 +159,7 @@ bool ImageFilm::save_image()
         for(int x = 0; x<ImageFilm::width; x++)
         {
             Pixel value = buffer.get(x, y);
-            if(value.samples>0.f) //if at least one sample
+            if(value.samples != 0.f) //filters can have negative lobes
             {
                 float weight = 1.f/value.samples;
                 rgb = ColorXYZ(value.cie_x*weight,
-- 
2.43.0


From b56e6a4c60c8283f57e8005ec8755fcf177f3e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:00 +0000
Subject: [PATCH 21/95] fix: totally reflected light was not divided by the
 cosine

---
 src/materials/reflection.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/materials/reflection.cpp b/src/materials/reflection.cpp
index af453d4..d4c2147 100644
--- a/src/materials/reflection.cpp
+++ b/src/materials/reflection.cpp
@@ -100,8 +100,7 @@ Spectrum DielectricReflection::sample_value(const Vec3* wo, Vec3* wi,
         float rperp = (etaicosi-etatcost)/(etaicosi+etatcost);
         float rpar = (etatcosi-etaicost)/(etatcosi+etaicost);
         eval = (rpar*rpar+rperp*rperp)/2.f;
-        eval /= fabsf(wo->z);
     }
-    return eval;
+    return eval/fabsf(wo->z);
 }
 
-- 
2.43.0


From bbfa79fac012b0b64a08b2de811e01df367de4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:52 +0000
Subject: [PATCH 22/95] fix: rough transmission densities for same-side samples
 and from inside the medium

---
 src/materials/microfacet.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/materials/microfacet.cpp b/src/materials/microfacet.cpp
index 37bcb78..663b53a 100644
--- a/src/materials/microfacet.cpp
+++ b/src/materials/microfacet.cpp
@@ -155,6 +155,11 @@ Spectrum MicrofacetT::sample_value(const Vec3* woS, Vec3* wiS, float r0,
     const float jacobian_denom = (etai*dot(*wiS, wh)+etao*dotwoh);
     jacobian /= jacobian_denom*jacobian_denom;
     wiS->normalize();
+    if(woS->z*wiS->z>=0.f) //refracted to the side it came from
+    {
+        *pdf = 0.f;
+        return SPECTRUM_BLACK;
+    }
     *pdf = MicrofacetT::distribution->pdf(woS, &wh)*jacobian;
     return MicrofacetT::value(woS, wiS);
 }
@@ -179,6 +184,8 @@ float MicrofacetT::pdf(const Vec3* woS, const Vec3* wiS) const
     if(wh.x == 0 && wh.y == 0 && wh.z == 0)
         return 0.f;
     wh.normalize();
+    if(wh.z*woS->z<0) //sampled half vectors are on the side of wo
+        wh = -wh;
     const float dotwoh = dot(*woS, wh);
     float jacobian = etao*etao*fabsf(dotwoh);
     const float jacobian_denom = (etai*dot(*wiS, wh)+etao*dotwoh);
-- 
2.43.0


From ae7c548fdf060e22cc2e877e39513b8eba036f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:03 +0000
Subject: [PATCH 23/95] fix: Oren-Nayar loses the sign of the azimuth's sine

---
 src/materials/oren_nayar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/materials/oren_nayar.cpp b/src/materials/oren_nayar.cpp
index 2e2d22c..bf70c5a 100644
--- a/src/materials/oren_nayar.cpp
+++ b/src/materials/oren_nayar.cpp
@@ -37,8 +37,8 @@ Spectrum OrenNayar::value(const Vec3* wout, const Vec3* wincident) const
         float cosphiin, cosphiout, sinphiin, sinphiout;
         cosphiin = clamp(wincident->x/sinthetain, -1.f, 1.f);
         cosphiout = clamp(wout->x/sinthetaout, -1.f, 1.f);
-        sinphiin = max(0.f, sqrtf(1.f-cosphiin*cosphiin));
-        sinphiout = max(0.f, sqrtf(1.f-cosphiout*cosphiout));
+        sinphiin = clamp(wincident->y/sinthetain, -1.f, 1.f);
+        sinphiout = clamp(wout->y/sinthetaout, -1.f, 1.f);
         maxcos = max(0.0f, cosphiin*cosphiout+sinphiin*sinphiout);
     }
     else
-- 
2.43.0


From 25c7ae8a9f5763164c39a6ef34c752ed26493a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:41 +0000
Subject: [PATCH 24/95] fix: every component of a sampled material keeps its
 own colour

---
 src/materials/multi_bsdf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/materials/multi_bsdf.cpp b/src/materials/multi_bsdf.cpp
index dd73f5d..190067c 100644
--- a/src/materials/multi_bsdf.cpp
+++ b/src/materials/multi_bsdf.cpp
@@ -121,7 +121,7 @@ Spectrum MultiBSDF::sample_value(float r0, float r1, float r2, const Vec3* woW,
             if(bdfs[i]->matches(flags))//add contribution only if matches
             {
                 retval += bdfs[i]->value(&wo_shading, &wi_shading)*
-                          diffuse[chosen]->map(h);
+                          diffuse[i]->map(h);
                 *pdf += bdfs[i]->pdf(&wo_shading, &wi_shading);
             }
         }
-- 
2.43.0


From 8ffb97e3a04cbc988fbc54e11687fa42caf6fbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:53 +0000
Subject: [PATCH 25/95] fix: failed samples of one component of a material no
 longer count for the others

---
 src/materials/multi_bsdf.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/materials/multi_bsdf.cpp b/src/materials/multi_bsdf.cpp
index 190067c..0a01778 100644
--- a/src/materials/multi_bsdf.cpp
+++ b/src/materials/multi_bsdf.cpp
@@ -70,6 +70,7 @@ Spectrum MultiBSDF::sample_value(float r0, float r1, float r2, const Vec3* woW,
         if(matchcount == 0)
         {
             //otherwise it will access invalid array positions
+            *matchedSpec = false;
             *pdf = 0.f;
             return SPECTRUM_BLACK;
         }
@@ -94,8 +95,10 @@ Spectrum MultiBSDF::sample_value(float r0, float r1, float r2, const Vec3* woW,
     //the result is thrown away
     retval = matching[chosen]->sample_value(&wo_shading, &wi_shading, r1, r2,
                                             pdf);
-    if(wi_shading.length() == 0) //total internal reflection
+    //total internal reflection, or no direction could be sampled
+    if(wi_shading.length() == 0 || *pdf == 0.f)
     {
+        *matchedSpec = false;
         *pdf = 0.f;
         return SPECTRUM_BLACK;
     }
-- 
2.43.0


From 4a6fcd7ac1edfc4fecb9459b27f9f0033504b726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:31 +0000
Subject: [PATCH 26/95] fix: direct_l returned the emission of the surface
 itself besides the direct light, so emitters counted twice

---
 src/integrators/ray_tracer.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/integrators/ray_tracer.cpp b/src/integrators/ray_tracer.cpp
index 163d0a9..112ae2a 100644
--- a/src/integrators/ray_tracer.cpp
+++ b/src/integrators/ray_tracer.cpp
@@ -10,9 +10,6 @@ direct_l(const Scene* sc, const HitPoint* hp, const Ray* r, Sampler* sam,
 {
     Spectrum L = SPECTRUM_BLACK;
     int nlights = sc->size_lights();
-    if(hp->asset_h->is_light())
-        if(dot(*normal_s, -r->direction)>0)
-            L += ((AreaLight*)hp->asset_h)->emissive_spectrum();
     if(nlights>0)
     {
         float rand[6];
-- 
2.43.0


From bd1cac2bf230d19e1c501cc2857fa9582e6972cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:39 +0000
Subject: [PATCH 27/95] fix: direct_l samples one light at random, its light
 has to be weighted with the number of lights

---
 src/integrators/ray_tracer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/integrators/ray_tracer.cpp b/src/integrators/ray_tracer.cpp
index 112ae2a..823b0ad 100644
--- a/src/integrators/ray_tracer.cpp
+++ b/src/integrators/ray_tracer.cpp
@@ -39,8 +39,8 @@ direct_l(const Scene* sc, const HitPoint* hp, const Ray* r, Sampler* sam,
                 {
                     float weight = (lightpdf*lightpdf)/
                                    (lightpdf*lightpdf+bsdfpdf*bsdfpdf);
-                    L += bsdf_f*direct_l*absdot(wi, *normal_s)*weight/
-                         lightpdf;
+                    L += bsdf_f*direct_l*absdot(wi, *normal_s)*weight*nlights/
+                         lightpdf; //one light out of nlights was chosen
                 }
             }
         }
@@ -65,7 +65,7 @@ direct_l(const Scene* sc, const HitPoint* hp, const Ray* r, Sampler* sam,
                     if(dot(h2.normal_h, -r2.direction)>0)
                     {
                         Spectrum rad = light->emissive_spectrum();
-                        L += bsdf_f*rad*absdot(wi, *normal_s)*w/bsdfpdf;
+                        L += bsdf_f*rad*absdot(wi, *normal_s)*w*nlights/bsdfpdf;
                     }
         }
     }
-- 
2.43.0


From 8ed2ff457a2f86864e163c456564c28a25979c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:10 +0000
Subject: [PATCH 28/95] fix: paths surviving Russian roulette were scaled down
 instead of up

---
 src/integrators/path_tracer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrators/path_tracer.cpp b/src/integrators/path_tracer.cpp
index 6f19314..0d23934 100644
--- a/src/integrators/path_tracer.cpp
+++ b/src/integrators/path_tracer.cpp
@@ -44,7 +44,7 @@ Spectrum PathTracer::l_rec(const Scene* sc, const HitPoint* hp, const Ray* r,
         if(rand[0]<term)
             return retval;
         else
-            rrprob = term; //survived russian roulette, need to cut down contrib
+            rrprob = 1.f/(1.f-term); //survived, makes up for terminated ones
     }
     if(r->ricochet == DEFAULT_BOUNCES)
         return retval;
-- 
2.43.0


From ca6a73bd93d484109fdbec23effc2e78031e9462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:37 +0000
Subject: [PATCH 29/95] fix: spectral builds took sRGB colours for linear light

---
 src/utility/spectrum.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/utility/spectrum.cpp b/src/utility/spectrum.cpp
index f554031..936e8bc 100644
--- a/src/utility/spectrum.cpp
+++ b/src/utility/spectrum.cpp
@@ -476,10 +476,19 @@ Spectrum::Spectrum(float val)
 #endif
 }
 
+#ifdef SPECTRAL
+static inline float srgb_to_linear(float val)
+{
+    return val>0.04045f?powf((val+0.055f)/1.055f, 2.4f):val/12.92f;
+}
+#endif
+
 Spectrum::Spectrum(ColorRGB c, bool l)
 {
 #ifdef SPECTRAL
     memset(Spectrum::w,0,sizeof(float)*SPECTRUM_SAMPLES);
+    //the basis spectra are mixed in linear light
+    c = ColorRGB(srgb_to_linear(c.r), srgb_to_linear(c.g), srgb_to_linear(c.b));
     if(!l)
     {
         if(c.r<=c.g && c.r<=c.b)
-- 
2.43.0


From 0551708fe955d681d052517f9e302381d35963a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:36 +0000
Subject: [PATCH 30/95] fix: Adobe RGB of colours outside its gamut was NaN

---
 src/utility/color.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utility/color.cpp b/src/utility/color.cpp
index 22b76bc..543bf39 100644
--- a/src/utility/color.cpp
+++ b/src/utility/color.cpp
@@ -188,9 +188,10 @@ ColorRGB ColorXYZ::to_AdobeRGB() const
     float g = x*-0.96924f+y*1.87597f+z*0.03342f;
     float b = x*0.01344f+y*-0.11836f+z*1.34926f;
 
-    return ColorRGB((float)pow(r, EXP),
-                    (float)pow(g, EXP),
-                    (float)pow(b, EXP));
+    //components outside the gamut can't be encoded, a negative base gives NaN
+    return ColorRGB((float)pow(r>0.f?r:0.f, EXP),
+                    (float)pow(g>0.f?g:0.f, EXP),
+                    (float)pow(b>0.f?b:0.f, EXP));
 }
 
 ColorRGB::ColorRGB()
-- 
2.43.0


From 4b002786d6965ad0c199c0cbf602461b03eddc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:17 +0000
Subject: [PATCH 31/95] fix: mirrors returned infinite weights for directions
 along the surface

---
 src/materials/reflection.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/materials/reflection.cpp b/src/materials/reflection.cpp
index d4c2147..b463884 100644
--- a/src/materials/reflection.cpp
+++ b/src/materials/reflection.cpp
@@ -46,6 +46,11 @@ DielectricReflection::DielectricReflection(const Spectrum& ior_i,
 Spectrum ConductorReflection::sample_value(const Vec3* wo, Vec3* wi,
                                            float, float, float* pdf) const
 {
+    if(wo->z == 0.f) //along the surface, no reflection is defined
+    {
+        *pdf = 0.f;
+        return SPECTRUM_BLACK;
+    }
     //wi = wo * [-1 0 0 0]
     //          [0 -1 0 0]
     //          [0  0 1 0]
@@ -67,6 +72,11 @@ Spectrum ConductorReflection::sample_value(const Vec3* wo, Vec3* wi,
 Spectrum DielectricReflection::sample_value(const Vec3* wo, Vec3* wi,
                                             float, float, float* pdf) const
 {
+    if(wo->z == 0.f) //along the surface, no reflection is defined
+    {
+        *pdf = 0.f;
+        return SPECTRUM_BLACK;
+    }
     wi->x = -wo->x;
     wi->y = -wo->y;
     wi->z = wo->z;
-- 
2.43.0


From 01caa54a693f71d5b63ef7751900a4bd1f997e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:01 +0000
Subject: [PATCH 32/95] fix: microfacet reflection reported negative densities
 for directions along the surface

---
 src/materials/microfacet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/materials/microfacet.cpp b/src/materials/microfacet.cpp
index 663b53a..e6c2212 100644
--- a/src/materials/microfacet.cpp
+++ b/src/materials/microfacet.cpp
@@ -41,7 +41,7 @@ Spectrum MicrofacetR::sample_value(const Vec3* wo, Vec3* wi, float r0, float r1,
     wh.normalize();
     *wi = -reflect(*wo, wh);
     wi->normalize();
-    if(wo->z*wi->z<0)
+    if(wo->z*wi->z<=0)
     {
         *pdf = 0;
         return SPECTRUM_BLACK;
-- 
2.43.0


From b0b4c0a81658153f10d12cc57989ba97fa8c8db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:55 +0000
Subject: [PATCH 33/95] fix: microfacet reflection reported negative densities
 next to the horizon

---
 src/materials/microfacet.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/materials/microfacet.cpp b/src/materials/microfacet.cpp
index e6c2212..1ed91de 100644
--- a/src/materials/microfacet.cpp
+++ b/src/materials/microfacet.cpp
@@ -41,14 +41,16 @@ Spectrum MicrofacetR::sample_value(const Vec3* wo, Vec3* wi, float r0, float r1,
     wh.normalize();
     *wi = -reflect(*wo, wh);
     wi->normalize();
-    if(wo->z*wi->z<=0)
+    const float dotwoh = dot(*wo, wh);
+    //a half vector facing away can end up here only because of rounding
+    if(wo->z*wi->z<=0 || dotwoh<=0)
     {
         *pdf = 0;
         return SPECTRUM_BLACK;
     }
     //4.f*dot(woS,wh); is the transformation from pdf wrt half vector
     //(returned by the function) to pdf wrt incident vector.
-    *pdf = MicrofacetR::distribution->pdf(wo, &wh)/(4.f*dot(*wo, wh));
+    *pdf = MicrofacetR::distribution->pdf(wo, &wh)/(4.f*dotwoh);
     return MicrofacetR::value(wo, wi);
 }
 
@@ -62,7 +64,10 @@ float MicrofacetR::pdf(const Vec3* woS, const Vec3* wiS) const
     wh.normalize();
     //4.f*dot(woS,wh); is the transformation from pdf wrt half vector
     //to pdf wrt incident vector
-    return MicrofacetR::distribution->pdf(woS, &wh)/(4.f*dot(*woS, wh));
+    const float dotwoh = dot(*woS, wh);
+    if(dotwoh<=0) //only because of rounding
+        return 0.f;
+    return MicrofacetR::distribution->pdf(woS, &wh)/(4.f*dotwoh);
 }
 
 MicrofacetT::MicrofacetT(const MicrofacetDist* md,
-- 
2.43.0


From f34b152082124601ac834e7a86558e2da77375b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:52 +0000
Subject: [PATCH 34/95] fix: texture lookups read past the last MIPmap level

---
 src/textures/image_map.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index 1c41184..e20af07 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -124,7 +124,7 @@ TexelUnion ImageMapTrilinear::filter(float u, float v, float dudx, float dvdx,
     TexelUnion p0; //retval
     if(chosen<=0.f) //use full size map
         p0 = bilinear(u, v, 0);
-    else if(chosen>maps_no-1) //return the single, most distant pixel
+    else if(chosen>=maps_no-1) //return the single, most distant pixel
         p0 = MIPmap[maps_no-1]->get(0, 0);
     else //perform trilinear interpolation
     {
@@ -179,7 +179,7 @@ TexelUnion ImageMapEWA::filter(float u, float v, float dudx, float dvdx,
     // shorter axis 0 previously catched in an if
     float chosen = max(0.f, maps_no-1+log2f(shorter_axis));
     TexelUnion p0; //retval
-    if(chosen>maps_no-1) //return the single, most distant pixel
+    if(chosen>=maps_no-1) //return the single, most distant pixel
         p0 = MIPmap[maps_no-1]->get(0, 0);
     else
     {
-- 
2.43.0


From 760cf78d1cc621098067f28a04ef02bed493247e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:39 +0000
Subject: [PATCH 35/95] fix: bilinear texture lookups mirrored instead of
 wrapping at the first texel

---
 src/textures/image_map.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index e20af07..4c0f7cb 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -208,15 +208,18 @@ TexelUnion ImageMap::bilinear(float u, float v, uint8_t level) const
 {
     u = u*side[level]-0.5f;
     v = v*side[level]-0.5f;
-    int x = (int)u;
-    int y = (int)v;
-    float decimal_u = fabsf(u-x); //to avoid corner case where this can be -0.5f
-    float decimal_v = fabsf(v-y);
+    int x = (int)floorf(u);
+    int y = (int)floorf(v);
+    float decimal_u = u-x;
+    float decimal_v = v-y;
     float int_u = 1.f-decimal_u;
     float int_v = 1.f-decimal_v;
-    //wraps texture if filtering happens outside bounds (val+1) = out of texture
-    int next_x = (x+1)<=side[level]-1?(x+1):0;
-    int next_y = (y+1)<=side[level]-1?(y+1):0;
+    //wraps texture if filtering happens outside bounds (side is a power of 2)
+    const int mask = side[level]-1;
+    int next_x = (x+1) & mask;
+    int next_y = (y+1) & mask;
+    x &= mask;
+    y &= mask;
     const Texel T0 = MIPmap[level]->get(x, y).bgra_texel;
     const Texel T1 = MIPmap[level]->get(next_x, y).bgra_texel;
     const Texel T2 = MIPmap[level]->get(x, next_y).bgra_texel;
-- 
2.43.0


From 93252db08015a5f653bde0f2eced746a8858a916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:51 +0000
Subject: [PATCH 36/95] fix: EWA ellipse multiplied the differentials it should
 add

---
 src/textures/image_map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index 4c0f7cb..879f765 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -250,7 +250,7 @@ ImageMapEWA::ewa(float u, float v, float dudx, float dvdx, float dudy,
     dvdy *= side[level];
 
     //calulate ellipse coefficients
-    float a = dvdx*dvdx*+dvdy*dvdy+1.f;
+    float a = dvdx*dvdx+dvdy*dvdy+1.f;
     float b = -2.f*(dudx*dvdx+dudy*dvdy);
     float c = dudx*dudx+dudy*dudy+1.f;
     const float invf = 1.f/(a*c-b*b*.25f);
-- 
2.43.0


From bcb752f0cbfa91d90a827ef733bb528c0f83e338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:02 +0000
Subject: [PATCH 37/95] fix: EWA weighted wrapped texels by their wrapped
 position and could index outside the image

---
 src/textures/image_map.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index 879f765..9f97ece 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -277,13 +277,13 @@ ImageMapEWA::ewa(float u, float v, float dudx, float dvdx, float dudy,
     for(int y = v0; y<=v1; y++)
     {
         //wraps texture if ellipse is outside bounds
-        int newy = y<0?side[level]+y:y>side[level]-1?y%side[level]:y;
-        const float voff = newy-v;
+        const int newy = y & (side[level]-1);
+        const float voff = y-v;
         for(int x = u0; x<=u1; x++)
         {
             //wraps texture if ellipse is outside bounds
-            int newx = x<0?side[level]+x:x>side[level]-1?x%side[level]:x;
-            const float uoff = newx-u;
+            const int newx = x & (side[level]-1);
+            const float uoff = x-u;
             const float radius2 = a*uoff*uoff+b*voff*uoff+c*voff*voff;
             if(radius2<1.f)
             {
-- 
2.43.0


From 042d4814854f2fa3aec7b8d71df6840320d864fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:43 +0000
Subject: [PATCH 38/95] fix: textures were not repeated for negative
 coordinates

---
 src/textures/texture_image.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/textures/texture_image.cpp b/src/textures/texture_image.cpp
index e3b03b5..b333e45 100644
--- a/src/textures/texture_image.cpp
+++ b/src/textures/texture_image.cpp
@@ -62,10 +62,10 @@ TexelUnion TextureImage::map_value(const HitPoint* hit) const
     float v = hit->uv.y*scale.y+shift.y;
 
     //apply repeating if uv are outside 0-1 range
-    if(u>1.f)
-        u = u-(int)u;
-    if(v>1.f)
-        v = v-(int)v;
+    if(u<0.f || u>1.f)
+        u = u-floorf(u);
+    if(v<0.f || v>1.f)
+        v = v-floorf(v);
 
     TexelUnion res;
     if(unfiltered)
-- 
2.43.0


From ad4b65c0c364009a2d8c60ab56473c9550dba7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:56 +0000
Subject: [PATCH 39/95] fix: texture differentials were scaled by the wrong
 axis

---
 src/textures/texture_image.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textures/texture_image.cpp b/src/textures/texture_image.cpp
index b333e45..eee6c6a 100644
--- a/src/textures/texture_image.cpp
+++ b/src/textures/texture_image.cpp
@@ -78,8 +78,8 @@ TexelUnion TextureImage::map_value(const HitPoint* hit) const
         {
             //scale dudx dvdx dudy dvdy
             float dudx = hit->du.x*scale.x;
-            float dudy = hit->du.y*scale.y;
-            float dvdx = hit->dv.x*scale.x;
+            float dudy = hit->du.y*scale.x;
+            float dvdx = hit->dv.x*scale.y;
             float dvdy = hit->dv.y*scale.y;
             res = imagemap->filter(u, v, dudx, dvdx, dudy, dvdy);
         }
-- 
2.43.0


From 1297997ee48680f0b50760d862e783641cb83a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:35 +0000
Subject: [PATCH 40/95] fix: filtering darkened textures, even constant ones

---
 src/textures/image_map.cpp | 66 +++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 40 deletions(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index 9f97ece..2dc0138 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -6,6 +6,12 @@
 static void downsample(const TexelUnion* in, TexelUnion* out,
                        uint16_t input_side);
 
+//interpolation written so that equal values are returned unchanged
+static inline float interpolate(float v0, float v1, float t)
+{
+    return v0+(v1-v0)*t;
+}
+
 //------------------------ removed because expf not constexpr in macOS ---------
 //constexpr float init_ewa_weight(int step)
 //{
@@ -133,19 +139,10 @@ TexelUnion ImageMapTrilinear::filter(float u, float v, float dudx, float dvdx,
         float decimal = chosen-chosen_below;
         p0 = bilinear(u, v, chosen_below);
         p1 = bilinear(u, v, chosen_below+1);
-        const float other_decimal = 1.f-decimal;
-        p0.bgra_texel.r *= other_decimal;
-        p0.bgra_texel.g *= other_decimal;
-        p0.bgra_texel.b *= other_decimal;
-        p0.bgra_texel.a *= other_decimal;
-        p1.bgra_texel.r *= decimal;
-        p1.bgra_texel.g *= decimal;
-        p1.bgra_texel.b *= decimal;
-        p1.bgra_texel.a *= decimal;
-        p0.bgra_texel.r += p1.bgra_texel.r;
-        p0.bgra_texel.g += p1.bgra_texel.g;
-        p0.bgra_texel.b += p1.bgra_texel.b;
-        p0.bgra_texel.a += p1.bgra_texel.a;
+        p0.bgra_texel.r = interpolate(p0.bgra_texel.r, p1.bgra_texel.r, decimal);
+        p0.bgra_texel.g = interpolate(p0.bgra_texel.g, p1.bgra_texel.g, decimal);
+        p0.bgra_texel.b = interpolate(p0.bgra_texel.b, p1.bgra_texel.b, decimal);
+        p0.bgra_texel.a = interpolate(p0.bgra_texel.a, p1.bgra_texel.a, decimal);
     }
     return p0;
 }
@@ -187,19 +184,10 @@ TexelUnion ImageMapEWA::filter(float u, float v, float dudx, float dvdx,
         float decimal = chosen-chosen_below;
         p0 = ewa(u, v, dudx, dvdx, dudy, dvdy, chosen_below);
         TexelUnion p1 = ewa(u, v, dudx, dvdx, dudy, dvdy, chosen_below+1);
-        const float other_decimal = 1.f-decimal;
-        p0.bgra_texel.r *= other_decimal;
-        p0.bgra_texel.g *= other_decimal;
-        p0.bgra_texel.b *= other_decimal;
-        p0.bgra_texel.a *= other_decimal;
-        p1.bgra_texel.r *= decimal;
-        p1.bgra_texel.g *= decimal;
-        p1.bgra_texel.b *= decimal;
-        p1.bgra_texel.a *= decimal;
-        p0.bgra_texel.r += p1.bgra_texel.r;
-        p0.bgra_texel.g += p1.bgra_texel.g;
-        p0.bgra_texel.b += p1.bgra_texel.b;
-        p0.bgra_texel.a += p1.bgra_texel.a;
+        p0.bgra_texel.r = interpolate(p0.bgra_texel.r, p1.bgra_texel.r, decimal);
+        p0.bgra_texel.g = interpolate(p0.bgra_texel.g, p1.bgra_texel.g, decimal);
+        p0.bgra_texel.b = interpolate(p0.bgra_texel.b, p1.bgra_texel.b, decimal);
+        p0.bgra_texel.a = interpolate(p0.bgra_texel.a, p1.bgra_texel.a, decimal);
     }
     return p0;
 }
@@ -212,8 +200,6 @@ TexelUnion ImageMap::bilinear(float u, float v, uint8_t level) const
     int y = (int)floorf(v);
     float decimal_u = u-x;
     float decimal_v = v-y;
-    float int_u = 1.f-decimal_u;
-    float int_v = 1.f-decimal_v;
     //wraps texture if filtering happens outside bounds (side is a power of 2)
     const int mask = side[level]-1;
     int next_x = (x+1) & mask;
@@ -225,14 +211,14 @@ TexelUnion ImageMap::bilinear(float u, float v, uint8_t level) const
     const Texel T2 = MIPmap[level]->get(x, next_y).bgra_texel;
     const Texel T3 = MIPmap[level]->get(next_x, next_y).bgra_texel;
     TexelUnion res;
-    res.bgra_texel.r = (uint8_t)((T0.r*int_u+T1.r*decimal_u)*int_v+
-                                 (T2.r*int_u+T3.r*decimal_u)*decimal_v);
-    res.bgra_texel.g = (uint8_t)((T0.g*int_u+T1.g*decimal_u)*int_v+
-                                 (T2.g*int_u+T3.g*decimal_u)*decimal_v);
-    res.bgra_texel.b = (uint8_t)((T0.b*int_u+T1.b*decimal_u)*int_v+
-                                 (T2.b*int_u+T3.b*decimal_u)*decimal_v);
-    res.bgra_texel.a = (uint8_t)((T0.a*int_u+T1.a*decimal_u)*int_v+
-                                 (T2.a*int_u+T3.a*decimal_u)*decimal_v);
+    res.bgra_texel.r = (uint8_t)interpolate(interpolate(T0.r, T1.r, decimal_u),
+                                     interpolate(T2.r, T3.r, decimal_u), decimal_v);
+    res.bgra_texel.g = (uint8_t)interpolate(interpolate(T0.g, T1.g, decimal_u),
+                                     interpolate(T2.g, T3.g, decimal_u), decimal_v);
+    res.bgra_texel.b = (uint8_t)interpolate(interpolate(T0.b, T1.b, decimal_u),
+                                     interpolate(T2.b, T3.b, decimal_u), decimal_v);
+    res.bgra_texel.a = (uint8_t)interpolate(interpolate(T0.a, T1.a, decimal_u),
+                                     interpolate(T2.a, T3.a, decimal_u), decimal_v);
 
     return res;
 }
@@ -303,10 +289,10 @@ ImageMapEWA::ewa(float u, float v, float dudx, float dvdx, float dudy,
     }
     float invweigth = 1.f/total_weight;
     TexelUnion retval;
-    retval.bgra_texel.r = resr*invweigth;
-    retval.bgra_texel.g = resg*invweigth;
-    retval.bgra_texel.b = resb*invweigth;
-    retval.bgra_texel.a = resa*invweigth;
+    retval.bgra_texel.r = (uint8_t)(resr*invweigth+0.5f);
+    retval.bgra_texel.g = (uint8_t)(resg*invweigth+0.5f);
+    retval.bgra_texel.b = (uint8_t)(resb*invweigth+0.5f);
+    retval.bgra_texel.a = (uint8_t)(resa*invweigth+0.5f);
     return retval;
 }
 
-- 
2.43.0


From e75862dba63e364f281d59af33709b285a6f2205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:31 +0000
Subject: [PATCH 41/95] fix: keep the v derivative when the mask of a triangle
 is looked up

---
 src/primitives/triangle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/triangle.cpp b/src/primitives/triangle.cpp
index 6c80555..d184bd0 100644
--- a/src/primitives/triangle.cpp
+++ b/src/primitives/triangle.cpp
@@ -101,7 +101,7 @@ bool Triangle::intersect(const Ray* r, float* distance, HitPoint* h,
     tmp.uv.x = w*a.t.x+u*b.t.x+v*c.t.x;
     tmp.uv.y = w*a.t.y+u*b.t.y+v*c.t.y;
     tmp.du = h->du;
-    tmp.dv = h->du;
+    tmp.dv = h->dv;
     tmp.differentials = h->differentials;
     if(!mask->is_masked(&tmp))
     {
-- 
2.43.0


From e02423bc53356a50c12ff87fdd764fb849f3fa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:43 +0000
Subject: [PATCH 42/95] fix: do not accept the far side of a masked sphere
 beyond the current nearest hit

---
 src/primitives/sphere.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/sphere.cpp b/src/primitives/sphere.cpp
index 6a60ac3..47990e4 100644
--- a/src/primitives/sphere.cpp
+++ b/src/primitives/sphere.cpp
@@ -116,7 +116,7 @@ bool Sphere::intersect(const Ray* r, float* distance, HitPoint* hit,
             hit->dpdu = tmp.dpdu;
             hit->dpdv = tmp.dpdv;
         }
-        else if(!std::isnan(sol2))
+        else if(!std::isnan(sol2) && sol2<=*distance)
         {
             //repeat the procedure with second hit, first was invalidated
             hitp = r->apply(sol2);
-- 
2.43.0


From 5927a48e65d3fa9c0d872d5e915b57bd9cae3a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:57 +0000
Subject: [PATCH 43/95] fix: pad the rows of bitmaps to a multiple of four
 bytes

---
 src/utility/imageio/bmp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utility/imageio/bmp.c b/src/utility/imageio/bmp.c
index 728896b..6f860d7 100644
--- a/src/utility/imageio/bmp.c
+++ b/src/utility/imageio/bmp.c
@@ -92,8 +92,8 @@ char bmp_write(const char* name, int width, int height, const uint32_t* data)
         uint8_t* row;
         create_bmp_header(width, height, &header, &dib);
         bpp = ENDIANNESS_LITTLE16(dib.bpp) >> 3;
-        padding = (width*bpp)%4;
-        row = (uint8_t*)malloc(sizeof(uint8_t)*(bpp*width+padding));
+        padding = (4-(width*bpp)%4)%4; /* rows are 4 bytes aligned */
+        row = (uint8_t*)calloc(bpp*width+padding, sizeof(uint8_t));
         fwrite(&header, sizeof(struct bmp_header), 1, fout);
         fwrite(&dib, sizeof(struct bmp_dib_v3), 1, fout);
         for(y = 0; y<height; y++)
@@ -136,7 +136,7 @@ char bmp_read(const char* name, uint32_t* values)
             const int WIDTH = ENDIANNESS_LITTLE32(dib.width);
             const int BPP = ENDIANNESS_LITTLE16(dib.bpp) >> 3;
             const char HAS_ALPHA = BPP == 4;
-            const char PADDING = (WIDTH*BPP)%4;
+            const char PADDING = (4-(WIDTH*BPP)%4)%4;
             int y;
             int ymax;
             int x;
-- 
2.43.0


From c4a8d8d4ee33b361d55452233a2e52de9fe2e7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:46 +0000
Subject: [PATCH 44/95] fix: report a failure to write an image

---
 src/utility/imageio/bmp.c  |  4 ++--
 src/utility/imageio/png.c  | 22 +++++++++++++---------
 src/utility/imageio/ppm.c  |  4 ++--
 src/utility/imageio/tga.c  |  4 ++--
 src/utility/imageio/tiff.c |  5 +++--
 5 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/utility/imageio/bmp.c b/src/utility/imageio/bmp.c
index 6f860d7..f4052e0 100644
--- a/src/utility/imageio/bmp.c
+++ b/src/utility/imageio/bmp.c
@@ -108,8 +108,8 @@ char bmp_write(const char* name, int width, int height, const uint32_t* data)
             fwrite(row, sizeof(uint8_t), bpp*width+padding, fout);
         }
         free(row);
-        fclose(fout);
-        retval = data_idx == width*height*bpp;
+        retval = data_idx == width*height*bpp && !ferror(fout);
+        retval &= fclose(fout) == 0;
     }
     return retval;
 }
diff --git a/src/utility/imageio/png.c b/src/utility/imageio/png.c
index 51432ab..97f0bae 100644
--- a/src/utility/imageio/png.c
+++ b/src/utility/imageio/png.c
@@ -29,19 +29,23 @@ char png_write(const char* name, int width, int height, const uint32_t* data)
         png_img = png_create_write_struct(PNG_LIBPNG_VER_STRING, NULL, NULL,
                                           NULL);
         png_info = png_create_info_struct(png_img);
-        png_init_io(png_img, fout);
-        png_set_IHDR(png_img, png_info, width, height,
-                     8, PNG_COLOR_TYPE_RGB, PNG_INTERLACE_NONE,
-                     PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
-        png_write_info(png_img, png_info);
-        png_write_image(png_img, rows);
-        png_write_end(png_img, NULL);
+        /* libpng jumps here if it encounters an error */
+        if(setjmp(png_jmpbuf(png_img)) == 0)
+        {
+            png_init_io(png_img, fout);
+            png_set_IHDR(png_img, png_info, width, height,
+                         8, PNG_COLOR_TYPE_RGB, PNG_INTERLACE_NONE,
+                         PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
+            png_write_info(png_img, png_info);
+            png_write_image(png_img, rows);
+            png_write_end(png_img, NULL);
+            retval = 1;
+        }
         for(y = 0; y<height; y++)
             free(rows[y]);
         free(rows);
         png_destroy_write_struct(&png_img, &png_info);
-        fclose(fout);
-        retval = 1;
+        retval &= fclose(fout) == 0;
     }
     return retval;
 }
diff --git a/src/utility/imageio/ppm.c b/src/utility/imageio/ppm.c
index b6595b0..ff05430 100644
--- a/src/utility/imageio/ppm.c
+++ b/src/utility/imageio/ppm.c
@@ -23,8 +23,8 @@ char ppm_write(const char* name, int width, int height, const uint32_t* array)
             pixel[2] = (array[i] & 0xFF000000) >> 24;
             written += fwrite(&pixel, sizeof(uint8_t), 3, fout);
         }
-        fclose(fout);
-        retval = written == width*height*3;
+        retval = written == width*height*3 && !ferror(fout);
+        retval &= fclose(fout) == 0;
     }
     return retval;
 }
diff --git a/src/utility/imageio/tga.c b/src/utility/imageio/tga.c
index 182962c..f365fa7 100644
--- a/src/utility/imageio/tga.c
+++ b/src/utility/imageio/tga.c
@@ -103,9 +103,9 @@ char tga_write(const char* name, int width, int height, const uint32_t* data)
             }
             fwrite(row, sizeof(uint8_t), BPP*width, fout);
         }
-        fclose(fout);
         free(row);
-        retval = data_idx == width*height*BPP;
+        retval = data_idx == width*height*BPP && !ferror(fout);
+        retval &= fclose(fout) == 0;
     }
     return retval;
 }
diff --git a/src/utility/imageio/tiff.c b/src/utility/imageio/tiff.c
index 36931a9..18e8ef5 100644
--- a/src/utility/imageio/tiff.c
+++ b/src/utility/imageio/tiff.c
@@ -33,12 +33,13 @@ char tiff_write(const char* name, int width, int height, const uint32_t* data)
                 row[x*3+2] = (data[y*width+x] & 0xFF000000) >> 24;
                 x++;
             }
-            if(TIFFWriteScanline(fout, row, y++, 0)<0)
+            if(TIFFWriteScanline(fout, row, y, 0)<0)
                 break;
+            y++;
         }
         _TIFFfree(row);
+        retval = y == height && TIFFFlush(fout);
         TIFFClose(fout);
-        retval = y == height;
     }
     return retval;
 }
-- 
2.43.0


From 7f87c75ae66f6dc521985f919ab3dd8827986d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:48 +0000
Subject: [PATCH 45/95] fix: stop decoding or encoding a JPEG image at the
 first error

---
 src/utility/imageio/jpg.c | 82 ++++++++++++++++++++++++++++-----------
 src/utility/imageio/jpg.h |  1 +
 2 files changed, 61 insertions(+), 22 deletions(-)

diff --git a/src/utility/imageio/jpg.c b/src/utility/imageio/jpg.c
index 5031ba6..bc83d53 100644
--- a/src/utility/imageio/jpg.c
+++ b/src/utility/imageio/jpg.c
@@ -5,10 +5,23 @@
 
 #define UNUSED(x) (void)(x)
 
+struct jpg_error_mgr
+{
+    struct jpeg_error_mgr mgr;
+    /* where to resume after an error */
+    jmp_buf env;
+};
+
 static void jpg_error(j_common_ptr jpg_img)
+{
+    /* avoid terminating program if jpg error is encountered. Libjpeg requires
+     * this function not to return */
+    longjmp(((struct jpg_error_mgr*)jpg_img->err)->env, 1);
+}
+
+static void jpg_message(j_common_ptr jpg_img)
 {
     UNUSED(jpg_img);
-    /* avoid terminating program if jpg error is encountered */
 }
 
 char jpg_write(const char* name, int width, int height, const uint32_t* data)
@@ -18,7 +31,7 @@ char jpg_write(const char* name, int width, int height, const uint32_t* data)
     if(fout != NULL)
     {
         struct jpeg_compress_struct jpg_img;
-        struct jpeg_error_mgr jpg_err;
+        struct jpg_error_mgr jpg_err;
         int i;
         JSAMPROW current_row;
         /*not the best thing, but the jpeg functions wants a modifiable array*/
@@ -32,9 +45,16 @@ char jpg_write(const char* name, int width, int height, const uint32_t* data)
             data_nc[i*3+1] = (data[i] & 0x00FF0000) >> 16;
             data_nc[i*3+2] = (data[i] & 0xFF000000) >> 24;
         }
-        jpg_img.err = jpeg_std_error(&jpg_err);
-        jpg_err.error_exit = jpg_error;
-        jpg_err.output_message = jpg_error;
+        jpg_img.err = jpeg_std_error(&jpg_err.mgr);
+        jpg_err.mgr.error_exit = jpg_error;
+        jpg_err.mgr.output_message = jpg_message;
+        if(setjmp(jpg_err.env))
+        {
+            fclose(fout);
+            free(data_nc);
+            jpeg_destroy_compress(&jpg_img);
+            return 0;
+        }
         jpeg_create_compress(&jpg_img);
         jpeg_stdio_dest(&jpg_img, fout);
         jpg_img.image_width = width;
@@ -49,9 +69,8 @@ char jpg_write(const char* name, int width, int height, const uint32_t* data)
             current_row = data_nc+jpg_img.next_scanline*3*width;
             jpeg_write_scanlines(&jpg_img, &current_row, 1);
         }
-        retval = 1;
         jpeg_finish_compress(&jpg_img);
-        fclose(fout);
+        retval = fclose(fout) == 0;
         free(data_nc);
         jpeg_destroy_compress(&jpg_img);
     }
@@ -66,12 +85,18 @@ char jpg_valid(const char* name)
     {
         struct jpeg_decompress_struct jpg_img;
         /* without error handling SIGSEGV will be generated */
-        struct jpeg_error_mgr jpg_err;
+        struct jpg_error_mgr jpg_err;
         memset(&jpg_img, 0, sizeof(jpg_img));
         memset(&jpg_err, 0, sizeof(jpg_err));
-        jpg_img.err = jpeg_std_error(&jpg_err);
-        jpg_err.error_exit = jpg_error;
-        jpg_err.output_message = jpg_error;
+        jpg_img.err = jpeg_std_error(&jpg_err.mgr);
+        jpg_err.mgr.error_exit = jpg_error;
+        jpg_err.mgr.output_message = jpg_message;
+        if(setjmp(jpg_err.env))
+        {
+            jpeg_destroy_decompress(&jpg_img);
+            fclose(fin);
+            return 0;
+        }
         jpeg_create_decompress(&jpg_img);
         jpeg_stdio_src(&jpg_img, fin);
         /* check if the header is correct. The actual error handling does
@@ -93,12 +118,18 @@ char jpg_dimensions(const char* name, int* width, int* height)
     {
         struct jpeg_decompress_struct jpg_img;
         /* without error handling SIGSEGV will be generated */
-        struct jpeg_error_mgr jpg_err;
+        struct jpg_error_mgr jpg_err;
         memset(&jpg_img, 0, sizeof(jpg_img));
         memset(&jpg_err, 0, sizeof(jpg_err));
-        jpg_img.err = jpeg_std_error(&jpg_err);
-        jpg_err.error_exit = jpg_error;
-        jpg_err.output_message = jpg_error;
+        jpg_img.err = jpeg_std_error(&jpg_err.mgr);
+        jpg_err.mgr.error_exit = jpg_error;
+        jpg_err.mgr.output_message = jpg_message;
+        if(setjmp(jpg_err.env))
+        {
+            jpeg_destroy_decompress(&jpg_img);
+            fclose(fin);
+            return 0;
+        }
         jpeg_create_decompress(&jpg_img);
         jpeg_stdio_src(&jpg_img, fin);
         if(jpeg_read_header(&jpg_img, TRUE) == JPEG_HEADER_OK)
@@ -131,19 +162,27 @@ char jpg_read(const char* name, uint32_t* values)
         uint8_t* row;
         struct jpeg_decompress_struct jpg_img;
         /* without error handling SIGSEGV will be generated */
-        struct jpeg_error_mgr jpg_err;
+        struct jpg_error_mgr jpg_err;
         memset(&jpg_img, 0, sizeof(jpg_img));
         memset(&jpg_err, 0, sizeof(jpg_err));
-        jpg_img.err = jpeg_std_error(&jpg_err);
-        jpg_err.error_exit = jpg_error;
-        jpg_err.output_message = jpg_error;
+        jpg_img.err = jpeg_std_error(&jpg_err.mgr);
+        jpg_err.mgr.error_exit = jpg_error;
+        jpg_err.mgr.output_message = jpg_message;
+        if(setjmp(jpg_err.env))
+        {
+            jpeg_destroy_decompress(&jpg_img);
+            fclose(fin);
+            return 0;
+        }
         jpeg_create_decompress(&jpg_img);
         jpeg_stdio_src(&jpg_img, fin);
         if(jpeg_read_header(&jpg_img, TRUE) == JPEG_HEADER_OK)
         {
             jpeg_start_decompress(&jpg_img);
             row_len = jpg_img.output_width*jpg_img.output_components;
-            row = (uint8_t*)malloc(sizeof(uint8_t)*row_len);
+            /* released with jpg_img, also after an error */
+            row = *jpg_img.mem->alloc_sarray((j_common_ptr)&jpg_img,
+                                             JPOOL_IMAGE, row_len, 1);
             retval = 1;
             while(jpg_img.output_scanline<jpg_img.output_height)
             {
@@ -160,9 +199,8 @@ char jpg_read(const char* name, uint32_t* values)
                     x++;
                 }
             }
-            free(row);
+            jpeg_finish_decompress(&jpg_img);
         }
-        jpeg_finish_decompress(&jpg_img);
         jpeg_destroy_decompress(&jpg_img);
         fclose(fin);
     }
diff --git a/src/utility/imageio/jpg.h b/src/utility/imageio/jpg.h
index 2035957..88f4f8b 100644
--- a/src/utility/imageio/jpg.h
+++ b/src/utility/imageio/jpg.h
@@ -20,6 +20,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <memory.h>
+#include <setjmp.h>
 #include <jpeglib.h>
 
 /**
-- 
2.43.0


From 18762e8a542bb6b6da6433284f8df15600f6e1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:03 +0000
Subject: [PATCH 46/95] fix: expand grayscale JPEG images

---
 src/utility/imageio/jpg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utility/imageio/jpg.c b/src/utility/imageio/jpg.c
index bc83d53..6ad5f6a 100644
--- a/src/utility/imageio/jpg.c
+++ b/src/utility/imageio/jpg.c
@@ -178,6 +178,8 @@ char jpg_read(const char* name, uint32_t* values)
         jpeg_stdio_src(&jpg_img, fin);
         if(jpeg_read_header(&jpg_img, TRUE) == JPEG_HEADER_OK)
         {
+            /* grayscale images are expanded */
+            jpg_img.out_color_space = JCS_RGB;
             jpeg_start_decompress(&jpg_img);
             row_len = jpg_img.output_width*jpg_img.output_components;
             /* released with jpg_img, also after an error */
-- 
2.43.0


From eaf2d8fe39289ba9c10d9fdeeb865363e4292311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:49 +0000
Subject: [PATCH 47/95] fix: survive broken PNG images

---
 src/utility/imageio/png.c | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/utility/imageio/png.c b/src/utility/imageio/png.c
index 97f0bae..d1a2e00 100644
--- a/src/utility/imageio/png.c
+++ b/src/utility/imageio/png.c
@@ -57,8 +57,8 @@ char png_valid(const char* name)
     if(fin != NULL)
     {
         uint8_t header[8];
-        fread(header, 1, 8, fin);
-        retval = png_sig_cmp(header, 0, 8) == 0;
+        retval = fread(header, 1, 8, fin) == 8 &&
+                 png_sig_cmp(header, 0, 8) == 0;
         fclose(fin);
     }
     return retval;
@@ -73,12 +73,18 @@ char png_dimensions(const char* name, int* width, int* height)
         uint8_t header[8];
         png_structp png_img;
         png_infop png_info;
-        fread(header, 1, 8, fin);
-        if(png_sig_cmp(header, 0, 8) == 0)
+        if(fread(header, 1, 8, fin) == 8 && png_sig_cmp(header, 0, 8) == 0)
         {
             png_img = png_create_read_struct(PNG_LIBPNG_VER_STRING, NULL, NULL,
                                              NULL);
             png_info = png_create_info_struct(png_img);
+            /* libpng jumps here if it encounters an error */
+            if(setjmp(png_jmpbuf(png_img)))
+            {
+                png_destroy_read_struct(&png_img, &png_info, NULL);
+                fclose(fin);
+                return 0;
+            }
             png_init_io(png_img, fin);
             png_set_sig_bytes(png_img, 8);
             png_read_info(png_img, png_info);
@@ -101,7 +107,9 @@ char png_read(const char* name, uint32_t* values)
         int y;
         int x;
         uint8_t header[8];
-        png_byte** rows;
+        /* volatile because they are used after an error in libpng */
+        png_byte** volatile rows = NULL;
+        volatile int rows_no = 0;
         png_structp png_img;
         png_infop png_info;
         int width;
@@ -109,12 +117,21 @@ char png_read(const char* name, uint32_t* values)
         int color_type;
         int bpp;
         int index_rgb;
-        fread(header, 1, 8, fin);
-        if(png_sig_cmp(header, 0, 8) == 0)
+        if(fread(header, 1, 8, fin) == 8 && png_sig_cmp(header, 0, 8) == 0)
         {
             png_img = png_create_read_struct(PNG_LIBPNG_VER_STRING, NULL, NULL,
                                              NULL);
             png_info = png_create_info_struct(png_img);
+            /* libpng jumps here if it encounters an error */
+            if(setjmp(png_jmpbuf(png_img)))
+            {
+                for(y = 0; rows != NULL && y<rows_no; y++)
+                    free(rows[y]);
+                free(rows);
+                png_destroy_read_struct(&png_img, &png_info, NULL);
+                fclose(fin);
+                return 0;
+            }
             png_init_io(png_img, fin);
             png_set_sig_bytes(png_img, 8);
             png_read_info(png_img, png_info);
@@ -144,7 +161,10 @@ char png_read(const char* name, uint32_t* values)
             png_read_update_info(png_img, png_info);
             rows = (png_byte**)malloc(sizeof(png_byte*)*height);
             for(y = 0; y<height; y++)
+            {
                 rows[y] = (png_byte*)malloc(sizeof(png_byte)*width*4);
+                rows_no++;
+            }
             png_read_image(png_img, rows);
             index_rgb = 0;
             for(y = 0; y<height; y++)
-- 
2.43.0


From 7f0026da16ad0d99a9437c9277240c17ecf2ff79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:12 +0000
Subject: [PATCH 48/95] fix: reject TIFF images which cannot be decoded
 completely

---
 src/utility/imageio/imageio.c | 2 +-
 src/utility/imageio/tiff.c    | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/utility/imageio/imageio.c b/src/utility/imageio/imageio.c
index 5e15257..2e91b12 100644
--- a/src/utility/imageio/imageio.c
+++ b/src/utility/imageio/imageio.c
@@ -76,7 +76,7 @@ char img_dimensions(const char* name, const char* ext,
     else if(strcmp(ext, "png") == 0)
         retval = png_dimensions(name, width, height);
 #endif
-#ifdef JPEG_FOUND
+#ifdef TIFF_FOUND
     else if(strcmp(ext, "tif") == 0 || strcmp(ext, "tiff") == 0)
         retval = tiff_dimensions(name, width, height);
 #endif
diff --git a/src/utility/imageio/tiff.c b/src/utility/imageio/tiff.c
index 18e8ef5..bce9670 100644
--- a/src/utility/imageio/tiff.c
+++ b/src/utility/imageio/tiff.c
@@ -91,10 +91,15 @@ char tiff_read(const char* name, uint32_t* values)
         retval |= TIFFGetField(fin, TIFFTAG_IMAGEWIDTH, &width);
         retval &= TIFFGetField(fin, TIFFTAG_IMAGELENGTH, &height);
         retval &= TIFFGetField(fin, TIFFTAG_SAMPLESPERPIXEL, &channels);
+        if(!retval || width<=0 || height<=0)
+        {
+            TIFFClose(fin);
+            return 0;
+        }
         data = (uint32_t*)_TIFFmalloc(sizeof(uint32_t)*width*height);
         /* The first retval is used to ensure channels/width/height are valid */
-        if(retval && (channels == 3 || channels == 4) &&
-           TIFFReadRGBAImage(fin, width, height, data, 0))
+        if(data != NULL && (channels == 3 || channels == 4) &&
+           TIFFReadRGBAImage(fin, width, height, data, 1))
         {
             int x;
             int y;
-- 
2.43.0


From ce187782b70cecc0e0726b94cda0b76500f932d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:50 +0000
Subject: [PATCH 49/95] fix: reject bitmaps with unusable dimensions

---
 src/utility/imageio/bmp.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/utility/imageio/bmp.c b/src/utility/imageio/bmp.c
index f4052e0..e74c94f 100644
--- a/src/utility/imageio/bmp.c
+++ b/src/utility/imageio/bmp.c
@@ -49,8 +49,9 @@ char bmp_dimensions(const char* name, int* width, int* height)
             {
                 *width = ENDIANNESS_LITTLE32(dib.width);
                 *height = ENDIANNESS_LITTLE32(dib.height);
-                *height = *height>=0?*height:-*height;
-                retval = 1;
+                retval = *width>0 && *height != 0 && *height != INT32_MIN;
+                if(retval)
+                    *height = *height>=0?*height:-*height;
             }
         }
         fclose(fin);
@@ -130,7 +131,11 @@ char bmp_read(const char* name, uint32_t* values)
         /* not v3 or other fancy features not supported */
         if(res && dib.compression == 0 && dib.palette_no == 0 &&
            (ENDIANNESS_LITTLE16(dib.bpp) == 24 ||
-            ENDIANNESS_LITTLE16(dib.bpp) == 32))
+            ENDIANNESS_LITTLE16(dib.bpp) == 32) &&
+           (int32_t)ENDIANNESS_LITTLE32(dib.width)>0 &&
+           (int32_t)ENDIANNESS_LITTLE32(dib.width)<=(INT32_MAX-3)/4 &&
+           (int32_t)ENDIANNESS_LITTLE32(dib.height) != 0 &&
+           (int32_t)ENDIANNESS_LITTLE32(dib.height) != INT32_MIN)
         {
             int height = ENDIANNESS_LITTLE32(dib.height);
             const int WIDTH = ENDIANNESS_LITTLE32(dib.width);
@@ -141,7 +146,6 @@ char bmp_read(const char* name, uint32_t* values)
             int ymax;
             int x;
             int increment = -height/abs(height);
-            int written = 0;
             const int ROW_LEN = BPP*WIDTH+PADDING;
             uint8_t* row = (uint8_t*)malloc(ROW_LEN);
             if(increment<0)
@@ -172,11 +176,10 @@ char bmp_read(const char* name, uint32_t* values)
                     values[y*WIDTH+x] = pixel;
                     x++;
                 }
-                written += WIDTH;
                 y += increment;
             }
             free(row);
-            retval = written == (height*WIDTH);
+            retval = y == ymax;
         }
     }
     fclose(fin);
-- 
2.43.0


From 8e9052e03cb7356894b506815af69aba21565acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:28 +0000
Subject: [PATCH 50/95] fix: reject broken PPM images and accept comments in
 their headers

---
 src/utility/imageio/ppm.c | 83 ++++++++++++++++++++++++++++++---------
 1 file changed, 65 insertions(+), 18 deletions(-)

diff --git a/src/utility/imageio/ppm.c b/src/utility/imageio/ppm.c
index ff05430..8d72aab 100644
--- a/src/utility/imageio/ppm.c
+++ b/src/utility/imageio/ppm.c
@@ -3,7 +3,7 @@
 
 #include "ppm.h"
 
-#define CLAMP(x, y, z) ((x)<0)?0:(x)>(z)?(z):(x)
+#define CLAMP(x, y, z) (((x)<(y))?(y):((x)>(z))?(z):(x))
 
 char ppm_write(const char* name, int width, int height, const uint32_t* array)
 {
@@ -29,18 +29,51 @@ char ppm_write(const char* name, int width, int height, const uint32_t* array)
     return retval;
 }
 
+/* Skip white space and comments, then parse a number of the header */
+static char ppm_header_number(FILE* fin, unsigned int* value)
+{
+    int c = fgetc(fin);
+    while(c == '#' || c == ' ' || (c>='\t' && c<='\r'))
+    {
+        if(c == '#')
+            while(c != '\n' && c != '\r' && c != EOF)
+                c = fgetc(fin);
+        else
+            c = fgetc(fin);
+    }
+    if(c<'0' || c>'9')
+        return 0;
+    for(*value = 0; c>='0' && c<='9'; c = fgetc(fin))
+    {
+        if(*value>(INT32_MAX-9)/10)
+            return 0;
+        *value = *value*10+(c-'0');
+    }
+    /* keep whatever follows the number */
+    if(c != EOF)
+        ungetc(c, fin);
+    return 1;
+}
+
 char ppm_dimensions(const char* name, int* width, int* height)
 {
     FILE* fin = fopen(name, "rb");
     char retval = 0;
     if(fin != NULL)
     {
-        char magic[2];
+        char magic[2] = {0, 0};
         fscanf(fin, "%c%c", magic+0, magic+1);
         if(magic[0] == 'P' && (magic[1] == '3' || magic[1] == '6'))
         {
-            fscanf(fin, "%d%d", width, height);
-            retval = 1;
+            unsigned int w;
+            unsigned int h;
+            retval = ppm_header_number(fin, &w) && ppm_header_number(fin, &h) &&
+                     w>0 && h>0;
+            if(retval)
+            {
+                *width = (int)w;
+                *height = (int)h;
+            }
         }
         fclose(fin);
     }
@@ -53,7 +86,7 @@ char ppm_valid(const char* name)
     FILE* fin = fopen(name, "rb");
     if(fin != NULL)
     {
-        char magic[2];
+        char magic[2] = {0, 0};
         fscanf(fin, "%c%c", magic+0, magic+1);
         fclose(fin);
         retval = magic[0] == 'P' && (magic[1] == '3' || magic[1] == '6');
@@ -67,7 +100,7 @@ char ppm_read(const char* name, uint32_t* values)
     char retval = 0;
     if(fin != NULL)
     {
-        char magic[2];
+        char magic[2] = {0, 0};
         uint8_t red;
         uint8_t green;
         uint8_t blue;
@@ -78,8 +111,16 @@ char ppm_read(const char* name, uint32_t* values)
             unsigned int width;
             unsigned int height;
             float depth;
-            uint16_t depth_short;
-            fscanf(fin, "%u%u%hu", &width, &height, &depth_short);
+            unsigned int depth_short;
+            if(!ppm_header_number(fin, &width) ||
+               !ppm_header_number(fin, &height) ||
+               !ppm_header_number(fin, &depth_short) ||
+               width == 0 || width>UINT32_MAX/6 || height == 0 ||
+               depth_short == 0 || depth_short>UINT16_MAX)
+            {
+                fclose(fin);
+                return 0;
+            }
             /* not my fucking problem if the depth is > 65536, the specification
              states that the aforementioned value is the max */
             depth = (float)depth_short;
@@ -91,20 +132,23 @@ char ppm_read(const char* name, uint32_t* values)
                 for(i = 0; i<width*height; i++)
                 {
                     values[i] = 0x000000FF;
-                    fscanf(fin, "%5s", val);
-                    sscanf(val, "%hu", &num_val);
+                    if(fscanf(fin, "%5s", val) != 1 ||
+                       sscanf(val, "%hu", &num_val) != 1)
+                        break;
                     red = (uint8_t)(CLAMP((num_val/depth), 0.f, 1.f)*255);
-                    fscanf(fin, "%5s", val);
-                    sscanf(val, "%hu", &num_val);
+                    if(fscanf(fin, "%5s", val) != 1 ||
+                       sscanf(val, "%hu", &num_val) != 1)
+                        break;
                     green = (uint8_t)(CLAMP((num_val/depth), 0.f, 1.f)*255);
-                    fscanf(fin, "%5s", val);
-                    sscanf(val, "%hu", &num_val);
+                    if(fscanf(fin, "%5s", val) != 1 ||
+                       sscanf(val, "%hu", &num_val) != 1)
+                        break;
                     blue = (uint8_t)(CLAMP((num_val/depth), 0.f, 1.f)*255);
                     values[i] |= red << 8;
                     values[i] |= green << 16;
                     values[i] |= blue << 24;
                 }
-                retval = 1;
+                retval = i == width*height;
             }
             else if(magic[1] == '6') /* Binary */
             {
@@ -127,9 +171,12 @@ char ppm_read(const char* name, uint32_t* values)
                         x = 0;
                         while(x<width)
                         {
-                            red = (uint8_t)((row[row_idx++]/depth)*255);
-                            green = (uint8_t)((row[row_idx++]/depth)*255);
-                            blue = (uint8_t)((row[row_idx++]/depth)*255);
+                            red = (uint8_t)(CLAMP(row[row_idx]/depth, 0.f, 1.f)*255);
+                            row_idx++;
+                            green = (uint8_t)(CLAMP(row[row_idx]/depth, 0.f, 1.f)*255);
+                            row_idx++;
+                            blue = (uint8_t)(CLAMP(row[row_idx]/depth, 0.f, 1.f)*255);
+                            row_idx++;
                             values[output_idx] = 0x000000FF;
                             values[output_idx] |= red << 8;
                             values[output_idx] |= green << 16;
-- 
2.43.0


From 68de87bd004fd3ffd60f5d00efe9d1cfc7b85381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:14 +0000
Subject: [PATCH 51/95] fix: read raw packets of run length encoded TGA images
 completely

---
 src/utility/imageio/tga.c | 73 +++++++++++----------------------------
 1 file changed, 21 insertions(+), 52 deletions(-)

diff --git a/src/utility/imageio/tga.c b/src/utility/imageio/tga.c
index f365fa7..494a0a0 100644
--- a/src/utility/imageio/tga.c
+++ b/src/utility/imageio/tga.c
@@ -190,56 +190,13 @@ char tga_read(const char* name, uint32_t* values)
                 }
                 else /* RLE compression */
                 {
-                    if(pixel[0] & 0x80) /* RLE */
-                    {
-                        int rle_len = 1+(pixel[0] & 0x7F);
-                        for(rle = 0; rle<rle_len; rle++)
-                        {
-                            if(BPP == 3) /* 24 bit no RLE */
-                            {
-                                values[i] = 0x000000FF;
-                                values[i] |= pixel[3] << 8;  /* Red   */
-                                values[i] |= pixel[2] << 16; /* Green */
-                                values[i] |= pixel[1] << 24; /* Blue  */
-                            }
-                            else if(BPP == 4) /* 32 bit no RLE */
-                            {
-                                values[i] = 0x00000000;
-                                values[i] |= pixel[4] << 0;  /* Alpha */
-                                values[i] |= pixel[3] << 8;  /* Red   */
-                                values[i] |= pixel[2] << 16; /* Green */
-                                values[i] |= pixel[1] << 24; /* Blue  */
-                            }
-                            else /* 16 bit no RLE */
-                            {
-                                values[i] = 0x000000FF;
-                                /* the shift is a multiplication by 8 */
-                                /* used to map a value from 0-31 to 0-255 */
-                                values[i] |= ((pixel[2] & 0x7C) << 1) << 8;
-                                values[i] |= ((pixel[2] & 0x03) << 6 |
-                                              (pixel[1] & 0xE0) >> 2) << 16;
-                                values[i] |= ((pixel[1] & 0x1F) << 3) << 24;
-                            }
-                            i++;
-                            written++;
-                            x++;
-                            if(x == WIDTH) /* wrap line */
-                            {
-                                y += increment;
-                                if(y == ymax) /* endgame */
-                                {
-                                    /* set condition to break both loops */
-                                    y = ymax-increment;
-                                    x = WIDTH;
-                                }
-                                else
-                                    x = 0;
-                                i = y*WIDTH;
-                            }
-                        }
-                    }
-                    else /* normal */
+                    /* either a pixel to be repeated or several pixels */
+                    const int RAW = !(pixel[0] & 0x80);
+                    int rle_len = 1+(pixel[0] & 0x7F);
+                    for(rle = 0; rle<rle_len && written<WIDTH*HEIGHT; rle++)
                     {
+                        if(RAW && rle>0 && !fread(pixel+1, BPP, 1, fin))
+                            break;
                         if(BPP == 3) /* 24 bit no RLE */
                         {
                             values[i] = 0x000000FF;
@@ -265,11 +222,23 @@ char tga_read(const char* name, uint32_t* values)
                                           (pixel[1] & 0xE0) >> 2) << 16;
                             values[i] |= ((pixel[1] & 0x1F) << 3) << 24;
                         }
-                        x++;
-                        written++;
                         i++;
+                        written++;
+                        x++;
+                        if(x == WIDTH) /* wrap line */
+                        {
+                            y += increment;
+                            if(y == ymax) /* endgame */
+                            {
+                                /* set condition to break both loops */
+                                y = ymax-increment;
+                                x = WIDTH;
+                            }
+                            else
+                                x = 0;
+                            i = y*WIDTH;
+                        }
                     }
-
                 }
             }
             y += increment;
-- 
2.43.0


From 425b6aa227ae186c02a5ac375e86e3fd6aeae776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:41 +0000
Subject: [PATCH 52/95] fix: do not write TGA images too big for their header

---
 src/utility/imageio/tga.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utility/imageio/tga.c b/src/utility/imageio/tga.c
index 494a0a0..24c7f05 100644
--- a/src/utility/imageio/tga.c
+++ b/src/utility/imageio/tga.c
@@ -75,7 +75,10 @@ char tga_write(const char* name, int width, int height, const uint32_t* data)
 {
     const char BPP = 3;
     char retval = 0;
-    FILE* fout = fopen(name, "wb");
+    FILE* fout;
+    if(width>UINT16_MAX || height>UINT16_MAX) /* not representable */
+        return 0;
+    fout = fopen(name, "wb");
     if(fout != NULL)
     {
         struct tga_header header;
-- 
2.43.0


From 93648f606d82b7003f578c28f259ac8522047bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:53 +0000
Subject: [PATCH 53/95] fix: use the default texture for images which cannot be
 decoded

---
 src/textures/texture_image.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/textures/texture_image.cpp b/src/textures/texture_image.cpp
index eee6c6a..4c85f8c 100644
--- a/src/textures/texture_image.cpp
+++ b/src/textures/texture_image.cpp
@@ -10,17 +10,25 @@ TextureImage::TextureImage(const File& src, Vec2& shift, Vec2& scale,
     }
     else //create imagemap
     {
-        if(src.readable())
+        int width;
+        int height;
+        if(src.readable() &&
+           img_dimensions(src.absolute_path(), src.extension(),
+                          &width, &height))
         {
-            int width;
-            int height;
-            img_dimensions(src.absolute_path(), src.extension(),
-                           &width, &height);
-            if(width == height && (height & (height-1)) == 0) //power of 2
+            //32768 is the biggest power of 2 representable as ImageMap side
+            if(width>0 && width<=32768 && width == height && (height & (height-1)) == 0) //power of 2
             {
                 uint32_t* bgra_data = (uint32_t*)malloc(width*height*sizeof
                         (uint32_t));
-                img_read8(src.absolute_path(), src.extension(), bgra_data);
+                if(bgra_data == NULL ||
+                   !img_read8(src.absolute_path(), src.extension(), bgra_data))
+                {
+                    free(bgra_data);
+                    Console.warning(MESSAGE_TEXTURE_ERROR, src.absolute_path());
+                    imagemap = TexLib.get_dflt_map();
+                    return;
+                }
                 switch(filter)
                 {
                     case UNFILTERED:
-- 
2.43.0


From fb8c97e15453896480939cf3b45bfa39c8ed4010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:33 +0000
Subject: [PATCH 54/95] fix: keep the low byte of 16 bit PPM components

---
 src/utility/imageio/endianness.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/imageio/endianness.h b/src/utility/imageio/endianness.h
index 952d8e0..59a1ce0 100644
--- a/src/utility/imageio/endianness.h
+++ b/src/utility/imageio/endianness.h
@@ -11,7 +11,7 @@
 !defined(IS_BIG_ENDIAN)
 #define ENDIANNESS_LITTLE16(value) value
 #define ENDIANNESS_LITTLE32(value) value
-#define ENDIANNESS_BIG16(value) ((value & 0xFF) >> 8) | (value << 8)
+#define ENDIANNESS_BIG16(value) (((value & 0xFF00) >> 8) | ((value & 0xFF) << 8))
 #define ENDIANNESS_BIG32(value) ((value & 0xFF000000) >> 24) | \
                                        ((value & 0x00FF0000) >> 8) | \
                                        ((value & 0x0000FF00) << 8) | \
-- 
2.43.0


From 7b7d3f7eb873b016ede982c4be629bf6c7d4d57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:16 +0000
Subject: [PATCH 55/95] fix: do not premultiply the colours of TIFF images by
 their alpha

---
 src/utility/imageio/tiff.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utility/imageio/tiff.c b/src/utility/imageio/tiff.c
index bce9670..075f4e7 100644
--- a/src/utility/imageio/tiff.c
+++ b/src/utility/imageio/tiff.c
@@ -96,6 +96,12 @@ char tiff_read(const char* name, uint32_t* values)
             TIFFClose(fin);
             return 0;
         }
+        /* libtiff would premultiply the colours by an unassociated alpha */
+        if(channels == 4)
+        {
+            const uint16_t EXTRA = EXTRASAMPLE_UNSPECIFIED;
+            TIFFSetField(fin, TIFFTAG_EXTRASAMPLES, 1, &EXTRA);
+        }
         data = (uint32_t*)_TIFFmalloc(sizeof(uint32_t)*width*height);
         /* The first retval is used to ensure channels/width/height are valid */
         if(data != NULL && (channels == 3 || channels == 4) &&
-- 
2.43.0


From 9bc9bad7d9ea9dc9c2ff6298fe4338032b159311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:56 +0000
Subject: [PATCH 56/95] fix: OBJ reader hung on a missing last newline and
 misread tabs, trailing spaces and vp lines

---
 src/parsers/parser_obj.cpp | 41 +++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index fbc5757..7c06bb6 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -86,7 +86,7 @@ bool ParserObj::get_next_mesh(Mesh* obj)
     used_materials.insert({{"Default", 0}});
     object_name = "";
     char token[TOKEN_SIZE];
-    while(*buffer != END_OF_BUFFER_GUARD)
+    while(buffer != buffer_ro+read_bytes)
     {
         if(craft_token)
         {
@@ -130,6 +130,8 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                         normals.emplace_back(x, y, z);
                         break;
                     }
+                    case 'p': //parameter space vertices, unsupported
+                        break;
                     default: //vertices
                     {
                         float x, y, z;
@@ -223,10 +225,12 @@ bool ParserObj::get_next_mesh(Mesh* obj)
             {
                 bool recreate_normals = false;
                 bool recreate_textures = false;
-                while(*buffer == ' ') //load every component of the face
+                while(true) //load every component of the face
                 {
                     get_next_token(&buffer, token, TOKEN_SIZE,
                                    &read_bytes, buffer_ro, fin);
+                    if(token[0] == '\0' || token[0] == '#') //end of the face
+                        break;
                     char* tk_idx = token; //token index
                     //process face
                     int vert_idx = 0;
@@ -377,26 +381,28 @@ bool ParserObj::get_next_mesh(Mesh* obj)
         //skip rest of line /////////////
         while(*buffer != '\n')
         {
-            if(*buffer == END_OF_BUFFER_GUARD)
+            if(buffer == buffer_ro+read_bytes)
             {
                 feed_buffer(&read_bytes, buffer_ro, fin);
                 buffer = buffer_ro;
+                if(read_bytes == 0) //file ended without a newline
+                    break;
             }
             else
                 buffer++;
         }
         //////////////////////////////////
-        if(*buffer != END_OF_BUFFER_GUARD)
+        if(buffer != buffer_ro+read_bytes)
         {
             buffer++;
             lineno++;
-            //avoid leaving buffer pointer on the guard while there
+            //avoid leaving buffer pointer at the end of the buffer while there
             //are still bytes to read
-            if(*buffer == END_OF_BUFFER_GUARD)
+            if(buffer == buffer_ro+read_bytes)
             {
                 feed_buffer(&read_bytes, buffer_ro, fin);
                 buffer = buffer_ro;
-                //if buffer is still equal END_OF_BUFFER_GUARD the file is ended
+                //if nothing has been read the file is ended
             }
         }
     }
@@ -476,16 +482,16 @@ static inline void get_next_token(char** source, char* token_buf, int max_size,
     //skip spaces
     while(current == ' ' || current == '\t' || current == END_OF_BUFFER_GUARD)
     {
-        if(current == END_OF_BUFFER_GUARD)
+        if(*source == buffer_ro+*read_bytes)
         {
             feed_buffer(read_bytes, buffer_ro, input);
             *source = buffer_ro;
             current = **source;
-            //should never happen
-            //TODO: try with non POSIX files
-            //if(current == END_OF_BUFFER_GUARD)
-            //    return;
+            if(*read_bytes == 0) //end of file
+                break;
         }
+        else if(current == END_OF_BUFFER_GUARD) //part of the file
+            break;
         else
         {
             (*source)++;
@@ -494,17 +500,16 @@ static inline void get_next_token(char** source, char* token_buf, int max_size,
     }
     //get token
     int i = 0;
-    while(current != ' ' && current != '\n' && current != '\r')
+    while(current != ' ' && current != '\t' && current != '\n' &&
+          current != '\r')
     {
-        if(current == END_OF_BUFFER_GUARD)
+        if(*source == buffer_ro+*read_bytes)
         {
             feed_buffer(read_bytes, buffer_ro, input);
             *source = buffer_ro;
             current = **source;
-            //should never happen
-            //TODO: try with non POSIX files
-            //if(current == END_OF_BUFFER_GUARD) //end of file
-            //    break; //break instead of return since I want an ok token
+            if(*read_bytes == 0) //end of file
+                break; //break instead of return since I want an ok token
         }
         else
         {
-- 
2.43.0


From bbc96aeb629a74344e2e77cfd97b461ce3f59cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:47 +0000
Subject: [PATCH 57/95] fix: OBJ faces with v/vt indices read a stale normal
 and bad indices crashed

---
 src/localization.h         |   3 ++
 src/parsers/parser_obj.cpp | 108 +++++++++++++++----------------------
 2 files changed, 47 insertions(+), 64 deletions(-)

diff --git a/src/localization.h b/src/localization.h
index e3967a2..c966ed3 100644
--- a/src/localization.h
+++ b/src/localization.h
@@ -153,6 +153,9 @@
 #define MESSAGE_INDEX_OBJ "Error while parsing file %s. "\
 "File file was malformed. Face at line %d refers to a non-existent index"
 
+#define MESSAGE_FACE_OBJ "Error while parsing file %s. "\
+"File file was malformed. Face at line %d has less than three vertices"
+
 #define MESSAGE_OBJ_ERROR "Reading of file %s failed. The expected extension "\
 "was .obj but instead the file extension is .%s. File has not been "\
 "imported"
diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index 7c06bb6..27492da 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -14,6 +14,10 @@ static inline void get_next_token(char** source, char* buffer, int max_size,
 
 static inline void feed_buffer(int* read_bytes, char* buffer_ro, FILE* input);
 
+//transform an index of the .obj file, starting from 1 or negative if relative,
+//to the position in an array with the given size. False if it does not exist
+static inline bool resolve_index(long* index, size_t size);
+
 ParserObj::ParserObj()
 {
     buffer_ro = NULL;
@@ -233,76 +237,42 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                         break;
                     char* tk_idx = token; //token index
                     //process face
-                    int vert_idx = 0;
-                    int text_idx = 0;
-                    int norm_idx = 0;
-                    vert_idx = (int)strtol(tk_idx, &tk_idx, 10);
+                    long vert_idx = 0;
+                    long text_idx = 0;
+                    long norm_idx = 0;
+                    vert_idx = strtol(tk_idx, &tk_idx, 10);
                     Vertex res;
-                    if(*tk_idx != '\0')
+                    if(*tk_idx == '/')
                     {
                         tk_idx++;
                         if(*tk_idx != '/') //v/vt/vn
-                            text_idx = (int)strtol(tk_idx, &tk_idx, 10);
-                        tk_idx++;
-                        norm_idx = (int)strtol(tk_idx, &tk_idx, 10);
-                    }
-                    //check indexes consistency
-                    if(vert_idx != 0)
-                    {
-                        int vert_size = (int)vertices.size();
-                        if(vert_idx<0)
-                            vert_idx = vert_size+vert_idx;
-                        else if(vert_idx>0 && vert_idx<=vert_size)
-                            vert_idx--;
-                        else
-                        {
-                            Console.severe(MESSAGE_INDEX_OBJ,
-                                           path, lineno);
-                            finalize_mesh(obj);
-                            return false;
-                        }
-                        res.p = vertices.at((unsigned long)vert_idx);
-                    }
-                    if(text_idx != 0)
-                    {
-                        int text_size = (int)textures.size();
-                        if(text_idx<0)
-                            text_idx = text_size+text_idx;
-                        else if(text_idx>0 && text_idx<=text_size)
-                            text_idx--;
-                        else
-                        {
-                            Console.severe(MESSAGE_INDEX_OBJ,
-                                           path, lineno);
-                            finalize_mesh(obj);
-                            return false;
-                        }
-                        res.t = textures.at((unsigned long)text_idx);
-                    }
-                    else
-                    {
-                        recreate_textures = true;
-                    }
-                    if(norm_idx != 0)
-                    {
-                        int norm_size = (int)normals.size();
-                        if(norm_idx<0)
-                            norm_idx = norm_size+norm_idx;
-                        else if(norm_idx>0 && norm_idx<=norm_size)
-                            norm_idx--;
-                        else
+                            text_idx = strtol(tk_idx, &tk_idx, 10);
+                        if(*tk_idx == '/')
                         {
-                            Console.severe(MESSAGE_INDEX_OBJ,
-                                           path, lineno);
-                            finalize_mesh(obj);
-                            return false;
+                            tk_idx++;
+                            norm_idx = strtol(tk_idx, &tk_idx, 10);
                         }
-                        res.n = normals.at((unsigned long)norm_idx);
                     }
-                    else
+                    recreate_textures = recreate_textures || text_idx == 0;
+                    recreate_normals = recreate_normals || norm_idx == 0;
+                    const bool has_texture = text_idx != 0;
+                    const bool has_normal = norm_idx != 0;
+                    //check indexes consistency
+                    if(!resolve_index(&vert_idx, vertices.size()) ||
+                       (has_texture &&
+                        !resolve_index(&text_idx, textures.size())) ||
+                       (has_normal &&
+                        !resolve_index(&norm_idx, normals.size())))
                     {
-                        recreate_normals = true;
+                        Console.severe(MESSAGE_INDEX_OBJ, path, lineno);
+                        finalize_mesh(obj);
+                        return false;
                     }
+                    res.p = vertices[vert_idx];
+                    if(has_texture)
+                        res.t = textures[text_idx];
+                    if(has_normal)
+                        res.n = normals[norm_idx];
                     face_tmp.push_back(res);
                     //  Never managed to reach this point.
                     //  TODO: try with non POSIX files
@@ -312,7 +282,7 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                     //     buffer = buffer_ro;
                     // }
                 }
-                if(recreate_normals)
+                if(recreate_normals && face_tmp.size()>2)
                 {
                     //the normal should be created for the entire face
                     //no risk of losing info: if the normal is missing
@@ -367,8 +337,9 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                         face_no++;
                     }
                 }
-                else //face with less than 2 vertex. not even writing to
-                {    // console
+                else //face with less than 3 vertices
+                {
+                    Console.severe(MESSAGE_FACE_OBJ, path, lineno);
                     finalize_mesh(obj);
                     return false;
                 }
@@ -528,3 +499,12 @@ static inline void feed_buffer(int* read_bytes, char* buffer_ro, FILE* input)
     *read_bytes = (int)fread(buffer_ro, sizeof(char), BUFFER_SIZE, input);
     buffer_ro[*read_bytes] = END_OF_BUFFER_GUARD;
 }
+
+static inline bool resolve_index(long* index, size_t size)
+{
+    if(*index<0)
+        *index += (long)size;
+    else
+        (*index)--;
+    return *index>=0 && *index<(long)size;
+}
-- 
2.43.0


From 68a86bf31930cbdc425b62245e8cb3f73f0763ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:21 +0000
Subject: [PATCH 58/95] fix: OBJ objects without faces stopped the loading of
 the following ones

---
 src/parsers/parser_obj.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index 27492da..613494c 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -188,8 +188,9 @@ bool ParserObj::get_next_mesh(Mesh* obj)
             }
             case 'o':
             {
-                //old object finished, bail out
-                if(object_name != "")
+                //old object finished, bail out. An object without faces is
+                //not a mesh, so it's simply replaced by the next one
+                if(face_no>0)
                 {
                     //since the original get_next_token already ate the 'g'
                     //buffer needs to be decremented. But buffer could have
@@ -207,7 +208,7 @@ bool ParserObj::get_next_mesh(Mesh* obj)
             }
             case 'g':
             {
-                if(object_name != "" && groups_as_names)
+                if(face_no>0 && (object_name == "" || groups_as_names))
                 {
                     //like in the 'o' switch, but craft a 'g' instead
                     craft_token = 'g';
-- 
2.43.0


From 0e84cd9caf035a506cdc9e01db91f97c839ee912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:56 +0000
Subject: [PATCH 59/95] fix: OBJ materials were lost at the next object and
 wrapped around after 255

---
 src/localization.h         |  3 +++
 src/parsers/parser_obj.cpp | 26 ++++++++++++++++++++++++--
 src/parsers/parser_obj.hpp |  5 +++++
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/localization.h b/src/localization.h
index c966ed3..26071da 100644
--- a/src/localization.h
+++ b/src/localization.h
@@ -156,6 +156,9 @@
 #define MESSAGE_FACE_OBJ "Error while parsing file %s. "\
 "File file was malformed. Face at line %d has less than three vertices"
 
+#define MESSAGE_MAX_MATERIAL_OBJ "File %s uses more than %d materials in a "\
+"single mesh. Material %s is replaced by the default one"
+
 #define MESSAGE_OBJ_ERROR "Reading of file %s failed. The expected extension "\
 "was .obj but instead the file extension is .%s. File has not been "\
 "imported"
diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index 613494c..514ea3a 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -22,6 +22,7 @@ ParserObj::ParserObj()
 {
     buffer_ro = NULL;
     fin = NULL;
+    last_material = NULL;
 }
 
 ParserObj::~ParserObj()
@@ -41,6 +42,7 @@ void ParserObj::start_parsing(const char* path)
     fin = fopen(path, "r");
     groups_as_names = false;
     craft_token = '\0';
+    last_material = NULL;
     if(buffer_ro == NULL)
         buffer_ro = (char*)malloc(sizeof(char)*(BUFFER_SIZE+1));
     if(fin != NULL)
@@ -88,6 +90,13 @@ bool ParserObj::get_next_mesh(Mesh* obj)
     materials.push_back(MtlLib.get_default());
     material_association.clear();
     used_materials.insert({{"Default", 0}});
+    //a material is used until the next usemtl, even if in another object
+    if(last_material != NULL)
+    {
+        current_material = 1;
+        materials.push_back(last_material);
+        used_materials.insert({{last_material_name, 1}});
+    }
     object_name = "";
     char token[TOKEN_SIZE];
     while(buffer != buffer_ro+read_bytes)
@@ -176,13 +185,26 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                         }
                         else
                         {
-                            current_material = materials.size();
+                            //the number of materials must fit in a byte
+                            if(materials.size()<UCHAR_MAX)
+                            {
+                                current_material = materials.size();
+                                materials.push_back(cur_mat);
+                            }
+                            else
+                            {
+                                current_material = 0;
+                                Console.warning(MESSAGE_MAX_MATERIAL_OBJ, path,
+                                                UCHAR_MAX, token);
+                            }
                             used_materials.insert({{token, current_material}});
-                            materials.push_back(cur_mat);
                         }
                     }
                     else
                         current_material = it->second;
+                    last_material_name = token;
+                    last_material = current_material == 0 ?
+                                    NULL : materials[current_material];
                 }
                 break;
             }
diff --git a/src/parsers/parser_obj.hpp b/src/parsers/parser_obj.hpp
index 4ba7baf..26af305 100644
--- a/src/parsers/parser_obj.hpp
+++ b/src/parsers/parser_obj.hpp
@@ -25,6 +25,7 @@
 #include <cstring>
 #include <string>
 #include <cstdlib>
+#include <climits>
 
 /**
  *  \class ParserObj parser_obj.hpp "parsers/parser_obj.hpp"
@@ -172,6 +173,10 @@ private:
     //the material associated for every triangle. It is the offset of the
     // materials array
     std::vector<unsigned char> material_association;
+    //material selected by the last usemtl, NULL if it was the default one
+    const Bsdf* last_material;
+    //name of the material selected by the last usemtl
+    std::string last_material_name;
     //name of the mesh
     std::string object_name;
     //vertices of every mesh contained in the file
-- 
2.43.0


From c05659bfa993857db6aacfbf8fa6269ddb9067f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:08 +0000
Subject: [PATCH 60/95] fix: OBJ polygons starting with aligned vertices got an
 invalid normal

---
 src/parsers/parser_obj.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index 514ea3a..eb43432 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -311,9 +311,13 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                     //no risk of losing info: if the normal is missing
                     //for one vertex it MUST be missing for every vertex
                     //of the face
-                    Vec3 u = face_tmp[1].p-face_tmp[0].p;
-                    Vec3 v = face_tmp[2].p-face_tmp[0].p;
-                    Normal face_normal = (Normal)cross(u, v);
+                    //sum over the whole polygon because the first three
+                    //vertices could be aligned
+                    Vec3 area(0.f, 0.f, 0.f);
+                    for(size_t i = 2; i<face_tmp.size(); i++)
+                        area += cross(face_tmp[i-1].p-face_tmp[0].p,
+                                      face_tmp[i].p-face_tmp[0].p);
+                    Normal face_normal = (Normal)area;
                     face_normal.normalize();
                     for(int i = 0; i<(int)face_tmp.size(); i++)
                         face_tmp[i].n = face_normal;
-- 
2.43.0


From 0339e87f12ace36e2b90d4553f0516bbca73ffc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:26 +0000
Subject: [PATCH 61/95] fix: OBJ reader leaked its buffer and kept the vertices
 of the previous file

---
 src/parsers/parser_obj.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index eb43432..ba9306d 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -27,15 +27,15 @@ ParserObj::ParserObj()
 
 ParserObj::~ParserObj()
 {
-    if(buffer_ro != NULL)
-    {
-        buffer_ro = NULL;
-        delete buffer_ro;
-    }
+    end_parsing();
 }
 
 void ParserObj::start_parsing(const char* path)
 {
+    end_parsing(); //if another file was still being parsed
+    vertices.clear();
+    textures.clear();
+    normals.clear();
     ParserObj::path = path;
     lineno = 1;
     face_no = 0; //used to know when nothing was parsed
@@ -59,8 +59,8 @@ void ParserObj::end_parsing()
 {
     if(buffer_ro != NULL)
     {
+        free(buffer_ro);
         buffer_ro = NULL;
-        delete buffer_ro;
     }
     if(fin != NULL)
     {
-- 
2.43.0


From 99852376855c5f5d909da7000a978dee2b9c9c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:07 +0000
Subject: [PATCH 62/95] fix: File did not resolve a trailing or lone .. and
 read past short paths

---
 src/utility/file.cpp | 100 ++++++++++++++-----------------------------
 1 file changed, 32 insertions(+), 68 deletions(-)

diff --git a/src/utility/file.cpp b/src/utility/file.cpp
index 60dfb90..3dfe73c 100644
--- a/src/utility/file.cpp
+++ b/src/utility/file.cpp
@@ -60,82 +60,46 @@ static void append_relative(const char* abs, const char* relative, char* out)
     }
 #endif
     rel[i] = '\0';
-    strcpy(out, abs);
-    int absolute_index = (int)strlen(abs);
-    unsigned int relative_index = 0;
-    if(rel[0] == '.')
+    const char* next = rel; //next component of the relative path
+    int absolute_index; //length of the output path, without ending separator
+    if(abs[0] != '\0')
     {
-        //resolve ../file
-        if(rel[1] == '.' && rel[2] == File::PATH_SEPARATOR)
-        {
-            relative_index = 2;
-            //backtrack to previous / in the absolute path
-            //(guaranteed to exists since file is absolute)
-            //position right on / ready to be substituted
-            while(absolute_index-->min_abs_index &&
-                  out[absolute_index] != File::PATH_SEPARATOR);
-        }
-        else if(rel[1] == File::PATH_SEPARATOR) //resolve ./file
-            relative_index = 1;
+        strcpy(out, abs);
+        absolute_index = (int)strlen(abs);
+        if(absolute_index>min_abs_index &&
+           out[absolute_index-1] == File::PATH_SEPARATOR)
+            absolute_index--;
     }
-    if(rel[relative_index] != File::PATH_SEPARATOR &&
-        absolute_index > min_abs_index) //to avoid starting with \\ on win abs
+    else
     {
-        out[absolute_index++] = File::PATH_SEPARATOR;
+        //relative is actually an absolute path, keep the drive (if any)
+        memcpy(out, rel, min_abs_index);
+        absolute_index = min_abs_index;
+        next += min_abs_index;
     }
-    /*
-     *  at this point
-     *  -> relative path does not start with . (checked in this if)
-     *  -> relative starts with / or a filename
-     *  -> absolute path ends with / if relative does not starts with /
-     */
-    while(relative_index<strlen(rel))
+    while(*next != '\0')
     {
-        if(rel[relative_index] == File::PATH_SEPARATOR)
+        const char* end = strchr(next, File::PATH_SEPARATOR);
+        const int len = end != NULL ? (int)(end-next) : (int)strlen(next);
+        if(len == 2 && next[0] == '.' && next[1] == '.')
         {
-            if(rel[relative_index+1] == '.')
-            {
-                //handle /./
-                if(rel[relative_index+2] == File::PATH_SEPARATOR ||
-                   rel[relative_index+2] == 0)
-                {
-                    relative_index += 2;
-                    continue;
-                }
-                    //handle /../
-                else if(rel[relative_index+2] == '.' &&
-                        (rel[relative_index+3] == File::PATH_SEPARATOR ||
-                         rel[relative_index+3] == 0))
-                {
-                    relative_index += 3;
-                    //avoid out of bounds if too many ../../../
-                    if(absolute_index<=min_abs_index+1)
-                        continue;
-                    absolute_index -= 2;
-                    while((absolute_index--)>min_abs_index &&
-                          out[absolute_index] != File::PATH_SEPARATOR);
-                    continue;
-                }
-            }
-                //handle //
-            else if(rel[relative_index+1] == File::PATH_SEPARATOR
-#ifdef _WIN32
-                    && absolute_index>0 //avoid erasing \\ in UNC paths
-#endif
-                )
-            {
-                relative_index++;
-                continue;
-            }
+            //remove the last component
+            while(absolute_index>min_abs_index &&
+                  out[--absolute_index] != File::PATH_SEPARATOR);
         }
-        out[absolute_index++] = rel[relative_index++];
-    }
-    //remove last trailing char, if exists and not root trailing
-    if(out[absolute_index - 1] == File::PATH_SEPARATOR &&
-        absolute_index > min_abs_index +1)
-    {
-        absolute_index--;
+        else if(len>0 && !(len == 1 && next[0] == '.'))
+        {
+            out[absolute_index++] = File::PATH_SEPARATOR;
+            memcpy(out+absolute_index, next, len);
+            absolute_index += len;
+        }
+        next += len;
+        if(*next != '\0') //skip the separator
+            next++;
     }
+    //the root is the only path ending with a separator
+    if(absolute_index == min_abs_index)
+        out[absolute_index++] = File::PATH_SEPARATOR;
     out[absolute_index] = 0;
     free(rel);
 }
-- 
2.43.0


From c2ab81ecea2513dcfa3646050cc6ab255338cea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:26 +0000
Subject: [PATCH 63/95] fix: File assignment leaked the old path and broke on
 self assignment

---
 src/utility/file.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utility/file.cpp b/src/utility/file.cpp
index 3dfe73c..4d041c1 100644
--- a/src/utility/file.cpp
+++ b/src/utility/file.cpp
@@ -239,6 +239,9 @@ bool File::is_file() const
 
 File& File::operator=(const File& old)
 {
+    if(this == &old)
+        return *this;
+    free(File::absolute);
     File::absolute = (char*)malloc(sizeof(char)*(strlen(old.absolute)+1));
     strcpy(absolute, old.absolute);
     //recalculate offsets(since I cannot blindly copy pointers of other classes)
-- 
2.43.0


From 91024304dff19c4b10ca0c9e79dbd8467bcd0f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:04 +0000
Subject: [PATCH 64/95] fix: File answered folder and extension queries with
 outdated or other files' information

---
 src/utility/file.cpp | 27 +++++++--------------------
 src/utility/file.hpp |  6 ------
 2 files changed, 7 insertions(+), 26 deletions(-)

diff --git a/src/utility/file.cpp b/src/utility/file.cpp
index 4d041c1..844f253 100644
--- a/src/utility/file.cpp
+++ b/src/utility/file.cpp
@@ -128,9 +128,6 @@ File::File(const char* path)
         append_relative(current_dir, path, absolute);
         free((void*)current_dir);
     }
-#ifndef _WIN32
-    File::statres = stat(absolute, &(File::fileinfo)) == 0;
-#endif
 
     //guaranteed to exists at least the toplevel /
     File::file = strrchr(absolute, File::PATH_SEPARATOR);
@@ -162,10 +159,6 @@ File::File(const File& old_obj)
     //recalculate offsets(since I cannot blindly copy pointers of other classes)
     File::ext = File::absolute+(old_obj.ext-old_obj.absolute);
     File::file = File::absolute+(old_obj.file-old_obj.absolute);
-#ifndef _WIN32
-    File::statres = old_obj.statres;
-    File::fileinfo = old_obj.fileinfo;
-#endif
 }
 
 File::~File()
@@ -175,6 +168,8 @@ File::~File()
 
 const char* File::extension() const
 {
+    if(is_folder())
+        return absolute+strlen(absolute);
     return File::ext;
 }
 
@@ -222,7 +217,8 @@ bool File::is_folder() const
     return attr!=INVALID_FILE_ATTRIBUTES &&
            (attr & FILE_ATTRIBUTE_DIRECTORY) != 0;
 #else
-    return statres && S_ISDIR(fileinfo.st_mode);
+    struct stat fileinfo;
+    return stat(absolute, &fileinfo) == 0 && S_ISDIR(fileinfo.st_mode);
 #endif
 }
 
@@ -233,7 +229,8 @@ bool File::is_file() const
     return attr != INVALID_FILE_ATTRIBUTES && 
            (attr & FILE_ATTRIBUTE_DIRECTORY) == 0;
 #else
-    return statres && S_ISREG(fileinfo.st_mode);
+    struct stat fileinfo;
+    return stat(absolute, &fileinfo) == 0 && S_ISREG(fileinfo.st_mode);
 #endif
 }
 
@@ -247,10 +244,6 @@ File& File::operator=(const File& old)
     //recalculate offsets(since I cannot blindly copy pointers of other classes)
     File::ext = File::absolute+(old.ext-old.absolute);
     File::file = File::absolute+(old.file-old.absolute);
-#ifndef _WIN32
-    File::statres = old.statres;
-    File::fileinfo = old.fileinfo;
-#endif
     return *this;
 }
 
@@ -261,9 +254,6 @@ File& File::append(const char* path)
     append_relative(absolute, path, newp);
     free(absolute);
     absolute = newp;
-#ifndef _WIN32
-    File::statres = stat(absolute, &(File::fileinfo)) == 0;
-#endif
     File::file = strrchr(absolute, File::PATH_SEPARATOR);
     if(*(file+1) != 0)
         File::file++;
@@ -332,10 +322,7 @@ bool File::mkdir()
 #ifdef _WIN32
     return CreateDirectoryA(absolute, NULL);
 #else
-    bool retval = ::mkdir(absolute, S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH) == 0;
-    //refresh info about this folder
-    File::statres = stat(absolute, &(File::fileinfo)) == 0;
-    return retval;
+    return ::mkdir(absolute, S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH) == 0;
 #endif
 }
 
diff --git a/src/utility/file.hpp b/src/utility/file.hpp
index 1e1f39c..32b33ab 100644
--- a/src/utility/file.hpp
+++ b/src/utility/file.hpp
@@ -216,12 +216,6 @@ private:
     char* absolute;
     const char* ext;
     const char* file;
-#ifndef _WIN32
-    //if the stat() called by the constructor succeded
-    bool statres;
-    //information about the fullpath
-    struct stat fileinfo;
-#endif
 };
 
 ///Determines if a path is absolute or not
-- 
2.43.0


From 0a9b745e6c2992aea52c024a8993dfa4bfcb03b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:37 +0000
Subject: [PATCH 65/95] fix: parents of files in the root folder or with a
 dotted folder had wrong name and extension

---
 src/utility/file.cpp | 50 ++++----------------------------------------
 1 file changed, 4 insertions(+), 46 deletions(-)

diff --git a/src/utility/file.cpp b/src/utility/file.cpp
index 844f253..4f522dd 100644
--- a/src/utility/file.cpp
+++ b/src/utility/file.cpp
@@ -269,52 +269,10 @@ File& File::append(const char* path)
 
 File File::get_parent() const
 {
-    File retval(*this);
-    if(!is_absolute(retval.file)) //not root
-    {
-        int i = -1;
-        //starts from -1 up to - max_decrement
-        int max_decrement = (int)(absolute-file);
-        //root folder is the parent
-#ifdef _WIN32
-        //absolute path (non UNC) is the parent
-        if(max_decrement == -3 && absolute[1] == ':' && absolute[2] == '\\')
-        {
-            retval.absolute[3] = 0;
-            retval.file = retval.absolute;
-            retval.ext = retval.absolute + 3;
-        }
-        //absolute path UNC is the parent
-        else if(max_decrement == -2 && absolute[0] == '\\' && absolute[1] == '\\')
-        {
-            retval.absolute[2] = 0;
-            retval.file = retval.absolute;
-            retval.ext = retval.absolute + 2;
-        }
-#else
-        if(max_decrement == -1)
-        {
-            retval.absolute[1] = 0;
-            retval.file = retval.absolute;
-            retval.ext = retval.absolute+1;
-        }
-#endif
-        else
-        {
-            //replace the / right before the filename with 0
-            retval.absolute[(retval.file-retval.absolute)-1] = 0;
-            //update the extension to be "" -> point to the newly inserted 0
-            retval.ext = retval.file-1;
-            //go back with the file pointer until the last /
-            while(i-->max_decrement && file[i] != File::PATH_SEPARATOR);
-            //if not root, point to the filename
-            if(i != max_decrement)
-                retval.file += i+1;
-            //else
-            /* do nothing, already catched in the max_decrement==-1 */;
-        }
-    }
-    return retval;
+    File parent(*this);
+    parent.append("..");
+    //the parent of the toplevel / is / itself
+    return File(parent.absolute);
 }
 
 bool File::mkdir()
-- 
2.43.0


From fbf64d31a176a1bdb22915e4e08ecd89cf48860c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:05 +0000
Subject: [PATCH 66/95] fix: rotations and field of view of the input file are
 in degrees

---
 src/parsers/README.md         | 4 ++--
 src/parsers/config_driver.cpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parsers/README.md b/src/parsers/README.md
index fae93ad..d84c0ec 100644
--- a/src/parsers/README.md
+++ b/src/parsers/README.md
@@ -21,14 +21,14 @@ resolution: {
 }
 filter:{type: lanczos, value0: 3.5}
 spp: 36
-integrator: pt
+integrator: path
 sampler: stratified
 camera: {
     type: perspective
     position: [0,0,0]
     target: [-1.5,0.0,.9]
     up: [0,1,0]
-    fov: 0.55
+    fov: 55
 }
 shape: "lamp.obj"
 shape: "scene.obj"
diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index ccb2c41..dffdec5 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -240,7 +240,7 @@ Camera* ConfigDriver::build_camera()
         case SPECTRE_CAMERA_PERSPECTIVE:
         default:
             camera = new CameraPerspective(&camera_pos, &camera_tar, &camera_up,
-                                           width, height, fov);
+                                           width, height, radians(fov));
             break;
     }
     return camera;
@@ -617,9 +617,9 @@ void ConfigDriver::build_meshes()
         Matrix4 rotz_matrix;
         Matrix4 scale_matrix;
         position_matrix.set_translation(mesh_w.position);
-        rotx_matrix.set_rotate_x(mesh_w.rotation.x);
-        roty_matrix.set_rotate_y(mesh_w.rotation.y);
-        rotz_matrix.set_rotate_z(mesh_w.rotation.z);
+        rotx_matrix.set_rotate_x(radians(mesh_w.rotation.x));
+        roty_matrix.set_rotate_y(radians(mesh_w.rotation.y));
+        rotz_matrix.set_rotate_z(radians(mesh_w.rotation.z));
         rotation_matrix = rotz_matrix*roty_matrix*rotx_matrix;
         scale_matrix.set_scale(mesh_w.scale);
         //watchout the order!!!
-- 
2.43.0


From 406548f934a8cdae87db712a6c9cf0ba1a861cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:08 +0000
Subject: [PATCH 67/95] fix: settings in children files were ignored and a
 child changed the folder of every later relative path

---
 src/parsers/config_driver.cpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index dffdec5..fddc2a3 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -2,6 +2,8 @@
 //license: GNU GPLv3
 
 #include "config_driver.hpp"
+#include <cerrno>
+#include <cstring>
 
 ///minimum value for ParsedMaterial::rough_x when the material is not specular
 #define MIN_ROUGHNESS 0.001f
@@ -52,19 +54,7 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     yy::ConfigParser parser(*this);
     parser.parse();
     scan_end();
-    check_resolution();
-    check_spp();
-#ifdef DEBUG //single threaded
-    r = new Renderer(width, height, spp, output.c_str(), 1);
-#else //maximum threads
-    r = new Renderer(width,height,spp,output.c_str());
-#endif
-    r->set_sampler(sampler_type);
-    r->inherit_camera(build_camera());
-    r->inherit_filter(build_filter());
-    r->inherit_integrator(integrator);
-
-    //load children files
+    //load children files, they can override the settings of this one
     //avoid recursive children
     std::vector<std::string> consolidated_children = children;
     children.clear();
@@ -72,7 +62,7 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     {
         File file1 = is_absolute(consolidated_children[i].c_str())?
                      File(consolidated_children[i].c_str()):
-                     current_dir.append(consolidated_children[i].c_str());
+                     File(current_dir).append(consolidated_children[i].c_str());
         file = file1.absolute_path();
         if(file1.exists())
         {
@@ -81,13 +71,25 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
             scan_end();
         }
         else
-            Console.severe(MESSAGE_INPUT_ERROR, file.c_str());
+            Console.severe(MESSAGE_INPUT_ERROR, file.c_str(), strerror(ENOENT));
     }
     //free some memory
     consolidated_children.clear();
     consolidated_children.resize(0);
     children.resize(0);
 
+    check_resolution();
+    check_spp();
+#ifdef DEBUG //single threaded
+    r = new Renderer(width, height, spp, output.c_str(), 1);
+#else //maximum threads
+    r = new Renderer(width,height,spp,output.c_str());
+#endif
+    r->set_sampler(sampler_type);
+    r->inherit_camera(build_camera());
+    r->inherit_filter(build_filter());
+    r->inherit_integrator(integrator);
+
     //build default sphere
     default_sphere = new Sphere();
     current_scene->inherit_shape(default_sphere);
-- 
2.43.0


From 36e8d0ac79e54826de40a129bc428f0d5109a7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:19 +0000
Subject: [PATCH 68/95] fix: relative output paths were resolved from the
 working directory

---
 src/parsers/config_driver.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index fddc2a3..28cdcf7 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -80,10 +80,13 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
 
     check_resolution();
     check_spp();
+    File out = is_absolute(output.c_str())?
+               File(output.c_str()):
+               File(current_dir).append(output.c_str());
 #ifdef DEBUG //single threaded
-    r = new Renderer(width, height, spp, output.c_str(), 1);
+    r = new Renderer(width, height, spp, out.absolute_path(), 1);
 #else //maximum threads
-    r = new Renderer(width,height,spp,output.c_str());
+    r = new Renderer(width, height, spp, out.absolute_path());
 #endif
     r->set_sampler(sampler_type);
     r->inherit_camera(build_camera());
-- 
2.43.0


From 33f0d05e7815176ce7c3b17aa7fdf8eb637da088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:09 +0000
Subject: [PATCH 69/95] fix: textures ignored a filter declared after them and
 were confused by equal file names

---
 src/parsers/config_driver.cpp    | 35 ++++++++++++++++++++++++++++++--
 src/parsers/config_driver.hpp    | 28 +++++++++++++++++++++++++
 src/parsers/config_parser.tab.cc |  8 ++++----
 src/parsers/config_parser.y      |  8 ++++----
 4 files changed, 69 insertions(+), 10 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 28cdcf7..8a7bb26 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -98,6 +98,7 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     current_scene->inherit_shape(default_sphere);
 
     //build deferred objects
+    build_textures();
     build_materials();
     build_dualmaterials();
     for(unsigned int i = 0; i<deferred_shapes.size(); i++)
@@ -123,6 +124,7 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     //delete everything else used for parsing
     all_textures.clear();
     children.clear();
+    deferred_textures.clear();
     deferred_materials.clear();
     deferred_dualmats.clear();
     shapes.clear();
@@ -263,6 +265,33 @@ const TextureUniform* ConfigDriver::load_texture_uniform()
     return val;
 }
 
+void ConfigDriver::defer_texture()
+{
+    ParsedTexture tex;
+    tex.name = tex_name;
+    tex.src = tex_src;
+    tex.scale = tex_scale;
+    tex.shift = tex_shift;
+    deferred_textures.push_back(tex);
+    tex_name.clear(); //reset name for next texture
+    tex_scale = Vec2(1.f); //reset scaling for next texture
+    tex_shift = Vec2(); //reset shifting for next texture
+}
+
+void ConfigDriver::build_textures()
+{
+    for(size_t i = 0; i<deferred_textures.size(); i++)
+    {
+        const ParsedTexture& tex = deferred_textures[i];
+        //the default name is the filename
+        tex_name = tex.name.empty() ? File(tex.src.c_str()).filename() :
+                   tex.name;
+        tex_scale = tex.scale;
+        tex_shift = tex.shift;
+        load_texture(tex.src);
+    }
+}
+
 const TextureImage* ConfigDriver::load_texture(const std::string& path)
 {
 
@@ -273,9 +302,11 @@ const TextureImage* ConfigDriver::load_texture(const std::string& path)
         cur_file = File(path.c_str());
     else
         cur_file.append(path.c_str());
-    //resolve texture name
+    //resolve texture name, if not in the library the name is a path. Different
+    //folders could contain files with the same name
     if(tex_name.empty())
-        tex_name = cur_file.filename();
+        tex_name = TexLib.contains_texture(path) ? path :
+                   cur_file.absolute_path();
     if(TexLib.contains_texture(tex_name))
         //TexLib already contains TextureImage
         addme = (TextureImage*)TexLib.get_texture(tex_name);
diff --git a/src/parsers/config_driver.hpp b/src/parsers/config_driver.hpp
index 43a9523..5781ffd 100644
--- a/src/parsers/config_driver.hpp
+++ b/src/parsers/config_driver.hpp
@@ -140,6 +140,24 @@ struct MeshObject
     unsigned char* association;
 };
 
+///Class used to hold information about a texture, until every file is parsed
+class ParsedTexture
+{
+public:
+
+    ///name of the texture
+    std::string name;
+
+    ///location of the texture
+    std::string src;
+
+    ///scaling factor of the uv coordinates
+    Vec2 scale;
+
+    ///shifting factor of the uv coordinates
+    Vec2 shift;
+};
+
 ///Class used to hold information about a mask, until the texture are parsed
 class ParsedMask
 {
@@ -389,6 +407,16 @@ public:
     ///Shift factor of the texture
     Vec2 tex_shift;
 
+    ///Textures declared in the file. The texture filter must be known in order
+    ///to load them, and it could be declared later
+    std::vector<ParsedTexture> deferred_textures;
+
+    ///Record the texture currently being parsed
+    void defer_texture();
+
+    ///Load every texture recorded with defer_texture()
+    void build_textures();
+
     ///Load a texture and the corresponding map given the path on disk
     const TextureImage* load_texture(const std::string& path);
 
diff --git a/src/parsers/config_parser.tab.cc b/src/parsers/config_parser.tab.cc
index e381c10..39a8446 100644
--- a/src/parsers/config_parser.tab.cc
+++ b/src/parsers/config_parser.tab.cc
@@ -869,25 +869,25 @@ namespace yy {
 
   case 69:
 #line 234 "config_parser.y" // lalr1.cc:859
-    {driver.tex_src=yystack_[0].value.as< std::string > ().substr(1,yystack_[0].value.as< std::string > ().size()-2);driver.load_texture(driver.tex_src);}
+    {driver.tex_src=yystack_[0].value.as< std::string > ().substr(1,yystack_[0].value.as< std::string > ().size()-2);driver.defer_texture();}
 #line 874 "config_parser.tab.cc" // lalr1.cc:859
     break;
 
   case 70:
 #line 235 "config_parser.y" // lalr1.cc:859
-    {driver.tex_src=yystack_[1].value.as< std::string > ().substr(1,yystack_[1].value.as< std::string > ().size()-2);driver.load_texture(driver.tex_src);}
+    {driver.tex_src=yystack_[1].value.as< std::string > ().substr(1,yystack_[1].value.as< std::string > ().size()-2);driver.defer_texture();}
 #line 880 "config_parser.tab.cc" // lalr1.cc:859
     break;
 
   case 71:
 #line 236 "config_parser.y" // lalr1.cc:859
-    {driver.tex_src=yystack_[0].value.as< std::string > ().substr(1,yystack_[0].value.as< std::string > ().size()-2);driver.load_texture(driver.tex_src);}
+    {driver.tex_src=yystack_[0].value.as< std::string > ().substr(1,yystack_[0].value.as< std::string > ().size()-2);driver.defer_texture();}
 #line 886 "config_parser.tab.cc" // lalr1.cc:859
     break;
 
   case 72:
 #line 237 "config_parser.y" // lalr1.cc:859
-    {driver.tex_src=yystack_[1].value.as< std::string > ().substr(1,yystack_[1].value.as< std::string > ().size()-2);driver.load_texture(driver.tex_src);}
+    {driver.tex_src=yystack_[1].value.as< std::string > ().substr(1,yystack_[1].value.as< std::string > ().size()-2);driver.defer_texture();}
 #line 892 "config_parser.tab.cc" // lalr1.cc:859
     break;
 
diff --git a/src/parsers/config_parser.y b/src/parsers/config_parser.y
index 401663a..71c349a 100644
--- a/src/parsers/config_parser.y
+++ b/src/parsers/config_parser.y
@@ -231,10 +231,10 @@ light_stmt
 ;
 
 texture_obj /* name is already known at this point */
-: SRC COLON STRING {driver.tex_src=$3.substr(1,$3.size()-2);driver.load_texture(driver.tex_src);}
-| SRC COLON STRING texture_rec {driver.tex_src=$3.substr(1,$3.size()-2);driver.load_texture(driver.tex_src);}
-| texture_rec SRC COLON STRING {driver.tex_src=$4.substr(1,$4.size()-2);driver.load_texture(driver.tex_src);}
-| texture_rec SRC COLON STRING texture_rec {driver.tex_src=$4.substr(1,$4.size()-2);driver.load_texture(driver.tex_src);}
+: SRC COLON STRING {driver.tex_src=$3.substr(1,$3.size()-2);driver.defer_texture();}
+| SRC COLON STRING texture_rec {driver.tex_src=$3.substr(1,$3.size()-2);driver.defer_texture();}
+| texture_rec SRC COLON STRING {driver.tex_src=$4.substr(1,$4.size()-2);driver.defer_texture();}
+| texture_rec SRC COLON STRING texture_rec {driver.tex_src=$4.substr(1,$4.size()-2);driver.defer_texture();}
 ;
 
 texture_rec:texture_rec texture_stmt|texture_stmt;
-- 
2.43.0


From 328ea017ad237c2d981bfac6dfae79b600b4863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:14 +0000
Subject: [PATCH 70/95] fix: wrong locations and buffer overruns while
 reporting configuration errors

---
 src/localization.h            |   3 +
 src/parsers/config_driver.cpp |  19 +-
 src/parsers/config_lexer.l    |  85 ++++++---
 src/parsers/lex.yy.cc         | 331 +++++++++++++++++++---------------
 4 files changed, 258 insertions(+), 180 deletions(-)

diff --git a/src/localization.h b/src/localization.h
index 26071da..c9be20a 100644
--- a/src/localization.h
+++ b/src/localization.h
@@ -120,6 +120,9 @@
 
 #define MESSAGE_SHAPE_NOT_FOUND "Shape \"%s\" not found in any of the .obj parsed"
 
+/** Error when a number in the configuration file can not be represented */
+#define MESSAGE_VALUE_RANGE "value out of range"
+
 #define MESSAGE_INPUT_ERROR "Unable to open file %s: %s"
 
 #define MESSAGE_TEXTURE_ERROR "Unable to load texture %s"
diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 8a7bb26..7d8d7cf 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -178,15 +178,16 @@ void ConfigDriver::error(const yy::location& l, const std::string& m)
     if(l.begin.column<l.end.column && l.begin.line == l.end.line &&
        l.end.column-l.begin.column<=BUFFER-5) //prev. segfault if token len >buf
     {
-        char buf[128];
-        char under[128];
-        int offset = get_line(buf, 128);
-        for(unsigned int i = 0; i<l.begin.column-1-offset; i++)
-            under[i] = ' ';
-        for(unsigned int i = l.begin.column-1-offset; i<end_col-offset; i++)
-            under[i] = '~';
-        under[end_col-offset] = 0;
-        Console.critical("%s:%d.%d: " BLD "%s" NRM "\n%s\n%" GRN "%s" NRM,
+        char buf[BUFFER];
+        char under[BUFFER];
+        int offset = get_line(buf, BUFFER);
+        //the token may begin before the part of the line that is printed
+        int under_begin = max((int)l.begin.column-1-offset, 0);
+        int under_end = min(max((int)end_col-offset, 0), BUFFER-1);
+        for(int i = 0; i<under_end; i++)
+            under[i] = i<under_begin ? ' ' : '~';
+        under[under_end] = 0;
+        Console.critical("%s:%d.%d: " BLD "%s" NRM "\n%s\n" GRN "%s" NRM,
                          file.c_str(), l.end.line, end_col, m.c_str(), buf,
                          under);
     }
diff --git a/src/parsers/config_lexer.l b/src/parsers/config_lexer.l
index f5f8ff8..90bd473 100644
--- a/src/parsers/config_lexer.l
+++ b/src/parsers/config_lexer.l
@@ -2,8 +2,8 @@
 /* Last Edit  3 Apr 2018 */
 
 %{
-#include <cstdlib> //for atof and atoi. They are deprecated because of lack of
-                      //error handling, but lex ensures no errors
+#include <cstdlib> //for strtol and strtod
+#include <cmath> //for std::isfinite
 #include <climits>
 #include <cerrno>
 #include <string>
@@ -15,6 +15,33 @@
 static yy::location loc;
 long int current_pos;
 long int last_line_pos;
+
+//The conversions are performed on strings already validated by the lexer, so
+//the only possible error is a value that can not be represented
+static int parse_integer(ConfigDriver& driver, const char* text)
+{
+    errno = 0;
+    long int val = strtol(text, NULL, 10);
+    if(errno == ERANGE || val < INT_MIN || val > INT_MAX)
+    {
+        driver.error(loc, MESSAGE_VALUE_RANGE);
+        val = 0;
+    }
+    return (int)val;
+}
+
+static float parse_float(ConfigDriver& driver, const char* text)
+{
+    float val = (float)strtod(text, NULL);
+    if(!std::isfinite(val))
+    {
+        driver.error(loc, MESSAGE_VALUE_RANGE);
+        val = 0.f;
+    }
+    return val;
+}
+
+static void count_lines();
 %}
 %option nounput
 %option noinput
@@ -57,7 +84,7 @@ zirconium [Zz][Rr]
 
 %{
     #define YY_USER_ACTION loc.columns(yyleng);
-    #define UPDATE_POS current_pos+=strlen(yytext)
+    #define UPDATE_POS current_pos+=yyleng
 %}
 
 %%
@@ -140,10 +167,10 @@ inverted {UPDATE_POS; return yy::ConfigParser::make_INV(loc);}
 mask {UPDATE_POS; return yy::ConfigParser::make_MASK(loc);}
 first {UPDATE_POS; return yy::ConfigParser::make_FIRST(loc);}
 second {UPDATE_POS; return yy::ConfigParser::make_SECOND(loc);}
-{uint}    { UPDATE_POS; return yy::ConfigParser::make_UINT(atoi(yytext),loc); }
-{int}    { UPDATE_POS; return yy::ConfigParser::make_INT(atoi(yytext),loc); }
-{float} { UPDATE_POS; return yy::ConfigParser::make_FLOAT(atof(yytext),loc); }
-{string} { UPDATE_POS; return yy::ConfigParser::make_STRING(yytext,loc); }
+{uint}    { UPDATE_POS; return yy::ConfigParser::make_UINT(parse_integer(driver,yytext),loc); }
+{int}    { UPDATE_POS; return yy::ConfigParser::make_INT(parse_integer(driver,yytext),loc); }
+{float} { UPDATE_POS; return yy::ConfigParser::make_FLOAT(parse_float(driver,yytext),loc); }
+{string} { UPDATE_POS; count_lines(); return yy::ConfigParser::make_STRING(yytext,loc); }
 {silver} { UPDATE_POS; return yy::ConfigParser::make_SILVER(loc);}
 {aluminium} { UPDATE_POS; return yy::ConfigParser::make_ALUMINIUM(loc);}
 {gold} { UPDATE_POS; return yy::ConfigParser::make_GOLD(loc);}
@@ -177,15 +204,31 @@ second {UPDATE_POS; return yy::ConfigParser::make_SECOND(loc);}
 [ \t\r]   {UPDATE_POS; loc.step();}
 [\n]     {UPDATE_POS; loc.lines(yyleng);loc.step(); last_line_pos=current_pos; }
 .        {UPDATE_POS; driver.unknown_char(loc,yytext[0]);}
-<<EOF>>            { UPDATE_POS; return yy::ConfigParser::make_END(loc); }
+<<EOF>>            { return yy::ConfigParser::make_END(loc); }
 
 %%
 
+//a string may contain newlines: the location must keep track of them
+static void count_lines()
+{
+    const char* line = yytext;
+    const char* next;
+    while((next = (const char*)memchr(line,'\n',yytext+yyleng-line)) != NULL)
+    {
+        loc.lines(1);
+        line = next+1;
+        last_line_pos = current_pos-(yytext+yyleng-line);
+    }
+    if(line != yytext)
+        loc.columns(yytext+yyleng-line);
+}
+
 void ConfigDriver::scan_begin()
 {
     errno = 0;
     current_pos = 0;
     last_line_pos = 0;
+    loc.initialize(&file);
     yyin = fopen(file.c_str(), "r");
     if(!yyin)
         Console.critical(MESSAGE_INPUT_ERROR,file.c_str(),strerror(errno));
@@ -199,34 +242,28 @@ void ConfigDriver::scan_end()
 int ConfigDriver::get_line(char* buf,int len)
 {
     int line_offset = 0;
+    long int start = last_line_pos;
     //entire line can't fit in buffer
     //-4 because if the line is too long the last 3 chars are set to ... and
     //I don't want to show the underline ~~~~ in these characters
     if(current_pos-last_line_pos>=len-4)
     {
-        line_offset = last_line_pos;
-        last_line_pos = current_pos - len/2;
-        line_offset = last_line_pos-line_offset;
-    }
-    fseek(yyin,last_line_pos,SEEK_SET);
-    fread(buf,sizeof(char),len,yyin);
-    int i = 0;
-    while(i<len)
-    {
-        if(buf[i]=='\n' || buf[i]=='\r')
-            buf[i] = 0;
-        if(buf[i]==0)
-            break;
-        i++;
+        start = current_pos - len/2;
+        line_offset = start - last_line_pos;
     }
-    if(i==len)
+    fseek(yyin,start,SEEK_SET);
+    size_t count = fread(buf,sizeof(char),len-1,yyin);
+    buf[count] = 0;
+    size_t i = strcspn(buf,"\r\n");
+    buf[i] = 0;
+    if(i==(size_t)len-1)
     {
         buf[len-4] = '.';
         buf[len-3] = '.';
         buf[len-2] = '.';
         buf[len-1] = 0;
     }
-    if(line_offset!=0)
+    if(line_offset!=0 && i>=3)
     {
         buf[0] = '.';
         buf[1] = '.';
diff --git a/src/parsers/lex.yy.cc b/src/parsers/lex.yy.cc
index ecb8d8d..e613f22 100644
--- a/src/parsers/lex.yy.cc
+++ b/src/parsers/lex.yy.cc
@@ -733,8 +733,8 @@ char *yytext;
 /* Created   24 Mar 2018 */
 /* Last Edit  3 Apr 2018 */
 #line 5 "config_lexer.l"
-#include <cstdlib> //for atof and atoi. They are deprecated because of lack of
-                      //error handling, but lex ensures no errors
+#include <cstdlib> //for strtol and strtod
+#include <cmath> //for std::isfinite
 #include <climits>
 #include <cerrno>
 #include <string>
@@ -746,14 +746,41 @@ char *yytext;
 static yy::location loc;
 long int current_pos;
 long int last_line_pos;
-#line 750 "lex.yy.c"
+
+//The conversions are performed on strings already validated by the lexer, so
+//the only possible error is a value that can not be represented
+static int parse_integer(ConfigDriver& driver, const char* text)
+{
+    errno = 0;
+    long int val = strtol(text, NULL, 10);
+    if(errno == ERANGE || val < INT_MIN || val > INT_MAX)
+    {
+        driver.error(loc, MESSAGE_VALUE_RANGE);
+        val = 0;
+    }
+    return (int)val;
+}
+
+static float parse_float(ConfigDriver& driver, const char* text)
+{
+    float val = (float)strtod(text, NULL);
+    if(!std::isfinite(val))
+    {
+        driver.error(loc, MESSAGE_VALUE_RANGE);
+        val = 0.f;
+    }
+    return val;
+}
+
+static void count_lines();
+#line 777 "lex.yy.c"
 #define YY_NO_INPUT 1
 #define YY_NO_UNISTD_H 1
-#line 59 "config_lexer.l"
+#line 86 "config_lexer.l"
     #define YY_USER_ACTION loc.columns(yyleng);
-    #define UPDATE_POS current_pos+=strlen(yytext)
-#line 756 "lex.yy.c"
-#line 757 "lex.yy.c"
+    #define UPDATE_POS current_pos+=yyleng
+#line 783 "lex.yy.c"
+#line 784 "lex.yy.c"
 
 #define INITIAL 0
 
@@ -968,14 +995,14 @@ YY_DECL
 		}
 
 	{
-#line 63 "config_lexer.l"
+#line 90 "config_lexer.l"
 
 
 
-#line 67 "config_lexer.l"
+#line 94 "config_lexer.l"
     loc.step();
 
-#line 979 "lex.yy.c"
+#line 1006 "lex.yy.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -1030,576 +1057,576 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 69 "config_lexer.l"
+#line 96 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_COLON(loc); }
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 70 "config_lexer.l"
+#line 97 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_OPEN_SQ(loc); }
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 71 "config_lexer.l"
+#line 98 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_CLOSE_SQ(loc); }
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 72 "config_lexer.l"
+#line 99 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_OPEN_CU(loc); }
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 73 "config_lexer.l"
+#line 100 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_CLOSE_CU(loc); }
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 74 "config_lexer.l"
+#line 101 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_COMMA(loc); }
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 75 "config_lexer.l"
+#line 102 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_OUTPUT(loc); }
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 76 "config_lexer.l"
+#line 103 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_INTEGRATOR(loc); }
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 77 "config_lexer.l"
+#line 104 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_PATH_TRACE(loc); }
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 78 "config_lexer.l"
+#line 105 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_RESOLUTION(loc); }
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 79 "config_lexer.l"
+#line 106 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_SPP(loc); }
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 80 "config_lexer.l"
+#line 107 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_WIDTH(loc); }
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 81 "config_lexer.l"
+#line 108 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_HEIGHT(loc); }
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 82 "config_lexer.l"
+#line 109 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_VAL_0(loc); }
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 83 "config_lexer.l"
+#line 110 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_VAL_1(loc); }
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 84 "config_lexer.l"
+#line 111 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_SAMPLER(loc); }
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 85 "config_lexer.l"
+#line 112 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_RANDOM(loc); }
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 86 "config_lexer.l"
+#line 113 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_STRATIFIED(loc); }
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 87 "config_lexer.l"
+#line 114 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_FILTER(loc); }
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 88 "config_lexer.l"
+#line 115 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_TYPE(loc); }
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 89 "config_lexer.l"
+#line 116 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_BOX(loc); }
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 90 "config_lexer.l"
+#line 117 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_TENT(loc); }
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 91 "config_lexer.l"
+#line 118 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_TENT(loc); }
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
-#line 92 "config_lexer.l"
+#line 119 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_GAUSS(loc); }
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 93 "config_lexer.l"
+#line 120 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_GAUSS(loc); }
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 94 "config_lexer.l"
+#line 121 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_MITCHELL(loc); }
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 95 "config_lexer.l"
+#line 122 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_LANCZOS(loc); }
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 96 "config_lexer.l"
+#line 123 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_UNFILTERED(loc); }
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 97 "config_lexer.l"
+#line 124 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_TRILINEAR(loc); }
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 98 "config_lexer.l"
+#line 125 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_EWA(loc); }
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 99 "config_lexer.l"
+#line 126 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_CAMERA(loc); }
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 100 "config_lexer.l"
+#line 127 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_PERSPECTIVE(loc); }
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
-#line 101 "config_lexer.l"
+#line 128 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_PANORAMA(loc); }
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-#line 102 "config_lexer.l"
+#line 129 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_ORTHOGRAPHIC(loc); }
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
-#line 103 "config_lexer.l"
+#line 130 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_POSITION(loc); }
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 104 "config_lexer.l"
+#line 131 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_TARGET(loc); }
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 105 "config_lexer.l"
+#line 132 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_UP(loc); }
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-#line 106 "config_lexer.l"
+#line 133 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_FOV(loc); }
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-#line 107 "config_lexer.l"
+#line 134 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_SHAPE(loc); }
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 108 "config_lexer.l"
+#line 135 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_WORLD(loc); }
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-#line 109 "config_lexer.l"
+#line 136 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_LIGHT(loc); }
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 110 "config_lexer.l"
+#line 137 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_NAME(loc); }
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
-#line 111 "config_lexer.l"
+#line 138 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_ROTATION(loc); }
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
-#line 112 "config_lexer.l"
+#line 139 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_SCALE(loc); }
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
-#line 113 "config_lexer.l"
+#line 140 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_SHIFT(loc); }
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-#line 114 "config_lexer.l"
+#line 141 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_TEMPERATURE(loc); }
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-#line 115 "config_lexer.l"
+#line 142 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_MATERIAL(loc); }
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-#line 116 "config_lexer.l"
+#line 143 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_DUALMATERIAL(loc);}
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
-#line 117 "config_lexer.l"
+#line 144 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_TEXTURE(loc); }
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
-#line 118 "config_lexer.l"
+#line 145 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_SRC(loc); }
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
-#line 119 "config_lexer.l"
+#line 146 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_MATTE(loc); }
 	YY_BREAK
 case 52:
 YY_RULE_SETUP
-#line 120 "config_lexer.l"
+#line 147 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_GLOSSY(loc); }
 	YY_BREAK
 case 53:
 YY_RULE_SETUP
-#line 121 "config_lexer.l"
+#line 148 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_METAL(loc); }
 	YY_BREAK
 case 54:
 YY_RULE_SETUP
-#line 122 "config_lexer.l"
+#line 149 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_GLASS(loc); }
 	YY_BREAK
 case 55:
 YY_RULE_SETUP
-#line 123 "config_lexer.l"
+#line 150 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_IOR(loc); }
 	YY_BREAK
 case 56:
 YY_RULE_SETUP
-#line 124 "config_lexer.l"
+#line 151 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_ROUGHNESS(loc); }
 	YY_BREAK
 case 57:
 YY_RULE_SETUP
-#line 125 "config_lexer.l"
+#line 152 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_ANISOTROPY(loc); }
 	YY_BREAK
 case 58:
 YY_RULE_SETUP
-#line 126 "config_lexer.l"
+#line 153 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_DISTRIBUTION(loc); }
 	YY_BREAK
 case 59:
 YY_RULE_SETUP
-#line 127 "config_lexer.l"
+#line 154 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_DIFFUSE(loc); }
 	YY_BREAK
 case 60:
 YY_RULE_SETUP
-#line 128 "config_lexer.l"
+#line 155 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_SPECULAR(loc); }
 	YY_BREAK
 case 61:
 YY_RULE_SETUP
-#line 129 "config_lexer.l"
+#line 156 "config_lexer.l"
 {/* UPDATE_POS; return yy::ConfigParser::make_BUMP(loc); */}
 	YY_BREAK
 case 62:
 YY_RULE_SETUP
-#line 130 "config_lexer.l"
+#line 157 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_NORMAL(loc);}
 	YY_BREAK
 case 63:
 YY_RULE_SETUP
-#line 131 "config_lexer.l"
+#line 158 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_BLINN(loc); }
 	YY_BREAK
 case 64:
 YY_RULE_SETUP
-#line 132 "config_lexer.l"
+#line 159 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_BECKMANN(loc); }
 	YY_BREAK
 case 65:
 YY_RULE_SETUP
-#line 133 "config_lexer.l"
+#line 160 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_GGX(loc); }
 	YY_BREAK
 case 66:
 YY_RULE_SETUP
-#line 134 "config_lexer.l"
+#line 161 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_COLOR(loc);}
 	YY_BREAK
 case 67:
 YY_RULE_SETUP
-#line 135 "config_lexer.l"
+#line 162 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_ELEM(loc);}
 	YY_BREAK
 case 68:
 YY_RULE_SETUP
-#line 136 "config_lexer.l"
+#line 163 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_CHNR(loc);}
 	YY_BREAK
 case 69:
 YY_RULE_SETUP
-#line 137 "config_lexer.l"
+#line 164 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_CHNG(loc);}
 	YY_BREAK
 case 70:
 YY_RULE_SETUP
-#line 138 "config_lexer.l"
+#line 165 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_CHNB(loc);}
 	YY_BREAK
 case 71:
 YY_RULE_SETUP
-#line 139 "config_lexer.l"
+#line 166 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_CHNA(loc);}
 	YY_BREAK
 case 72:
 YY_RULE_SETUP
-#line 140 "config_lexer.l"
+#line 167 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_INV(loc);}
 	YY_BREAK
 case 73:
 YY_RULE_SETUP
-#line 141 "config_lexer.l"
+#line 168 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_MASK(loc);}
 	YY_BREAK
 case 74:
 YY_RULE_SETUP
-#line 142 "config_lexer.l"
+#line 169 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_FIRST(loc);}
 	YY_BREAK
 case 75:
 YY_RULE_SETUP
-#line 143 "config_lexer.l"
+#line 170 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_SECOND(loc);}
 	YY_BREAK
 case 76:
 YY_RULE_SETUP
-#line 144 "config_lexer.l"
-{ UPDATE_POS; return yy::ConfigParser::make_UINT(atoi(yytext),loc); }
+#line 171 "config_lexer.l"
+{ UPDATE_POS; return yy::ConfigParser::make_UINT(parse_integer(driver,yytext),loc); }
 	YY_BREAK
 case 77:
 YY_RULE_SETUP
-#line 145 "config_lexer.l"
-{ UPDATE_POS; return yy::ConfigParser::make_INT(atoi(yytext),loc); }
+#line 172 "config_lexer.l"
+{ UPDATE_POS; return yy::ConfigParser::make_INT(parse_integer(driver,yytext),loc); }
 	YY_BREAK
 case 78:
 YY_RULE_SETUP
-#line 146 "config_lexer.l"
-{ UPDATE_POS; return yy::ConfigParser::make_FLOAT(atof(yytext),loc); }
+#line 173 "config_lexer.l"
+{ UPDATE_POS; return yy::ConfigParser::make_FLOAT(parse_float(driver,yytext),loc); }
 	YY_BREAK
 case 79:
 /* rule 79 can match eol */
 YY_RULE_SETUP
-#line 147 "config_lexer.l"
-{ UPDATE_POS; return yy::ConfigParser::make_STRING(yytext,loc); }
+#line 174 "config_lexer.l"
+{ UPDATE_POS; count_lines(); return yy::ConfigParser::make_STRING(yytext,loc); }
 	YY_BREAK
 case 80:
 YY_RULE_SETUP
-#line 148 "config_lexer.l"
+#line 175 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_SILVER(loc);}
 	YY_BREAK
 case 81:
 YY_RULE_SETUP
-#line 149 "config_lexer.l"
+#line 176 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_ALUMINIUM(loc);}
 	YY_BREAK
 case 82:
 YY_RULE_SETUP
-#line 150 "config_lexer.l"
+#line 177 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_GOLD(loc);}
 	YY_BREAK
 case 83:
 YY_RULE_SETUP
-#line 151 "config_lexer.l"
+#line 178 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_COPPER(loc);}
 	YY_BREAK
 case 84:
 YY_RULE_SETUP
-#line 152 "config_lexer.l"
+#line 179 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_IRON(loc);}
 	YY_BREAK
 case 85:
 YY_RULE_SETUP
-#line 153 "config_lexer.l"
+#line 180 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_MERCURY(loc);}
 	YY_BREAK
 case 86:
 YY_RULE_SETUP
-#line 154 "config_lexer.l"
+#line 181 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_LEAD(loc);}
 	YY_BREAK
 case 87:
 YY_RULE_SETUP
-#line 155 "config_lexer.l"
+#line 182 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_PLATINUM(loc);}
 	YY_BREAK
 case 88:
 YY_RULE_SETUP
-#line 156 "config_lexer.l"
+#line 183 "config_lexer.l"
 { UPDATE_POS; return yy::ConfigParser::make_TUNGSTEN(loc);}
 	YY_BREAK
 case 89:
 YY_RULE_SETUP
-#line 157 "config_lexer.l"
+#line 184 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_BERYLLIUM(loc);}
 	YY_BREAK
 case 90:
 YY_RULE_SETUP
-#line 158 "config_lexer.l"
+#line 185 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_BISMUTH(loc);}
 	YY_BREAK
 case 91:
 YY_RULE_SETUP
-#line 159 "config_lexer.l"
+#line 186 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_COBALT(loc);}
 	YY_BREAK
 case 92:
 YY_RULE_SETUP
-#line 160 "config_lexer.l"
+#line 187 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_CHROMIUM(loc);}
 	YY_BREAK
 case 93:
 YY_RULE_SETUP
-#line 161 "config_lexer.l"
+#line 188 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_GERMANIUM(loc);}
 	YY_BREAK
 case 94:
 YY_RULE_SETUP
-#line 162 "config_lexer.l"
+#line 189 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_POTASSIUM(loc);}
 	YY_BREAK
 case 95:
 YY_RULE_SETUP
-#line 163 "config_lexer.l"
+#line 190 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_LITHIUM(loc);}
 	YY_BREAK
 case 96:
 YY_RULE_SETUP
-#line 164 "config_lexer.l"
+#line 191 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_MAGNESIUM(loc);}
 	YY_BREAK
 case 97:
 YY_RULE_SETUP
-#line 165 "config_lexer.l"
+#line 192 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_MANGANESE(loc);}
 	YY_BREAK
 case 98:
 YY_RULE_SETUP
-#line 166 "config_lexer.l"
+#line 193 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_MOLYBDENUM(loc);}
 	YY_BREAK
 case 99:
 YY_RULE_SETUP
-#line 167 "config_lexer.l"
+#line 194 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_SODIUM(loc);}
 	YY_BREAK
 case 100:
 YY_RULE_SETUP
-#line 168 "config_lexer.l"
+#line 195 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_NIOBIUM(loc);}
 	YY_BREAK
 case 101:
 YY_RULE_SETUP
-#line 169 "config_lexer.l"
+#line 196 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_NICKEL(loc);}
 	YY_BREAK
 case 102:
 YY_RULE_SETUP
-#line 170 "config_lexer.l"
+#line 197 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_PALLADIUM(loc);}
 	YY_BREAK
 case 103:
 YY_RULE_SETUP
-#line 171 "config_lexer.l"
+#line 198 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_RHODIUM(loc);}
 	YY_BREAK
 case 104:
 YY_RULE_SETUP
-#line 172 "config_lexer.l"
+#line 199 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_TANTALUM(loc);}
 	YY_BREAK
 case 105:
 YY_RULE_SETUP
-#line 173 "config_lexer.l"
+#line 200 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_TITANIUM(loc);}
 	YY_BREAK
 case 106:
 YY_RULE_SETUP
-#line 174 "config_lexer.l"
+#line 201 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_VANADIUM(loc);}
 	YY_BREAK
 case 107:
 YY_RULE_SETUP
-#line 175 "config_lexer.l"
+#line 202 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_ZINC(loc);}
 	YY_BREAK
 case 108:
 YY_RULE_SETUP
-#line 176 "config_lexer.l"
+#line 203 "config_lexer.l"
 {UPDATE_POS; return yy::ConfigParser::make_ZIRCONIUM(loc);}
 	YY_BREAK
 case 109:
 YY_RULE_SETUP
-#line 177 "config_lexer.l"
+#line 204 "config_lexer.l"
 {UPDATE_POS; loc.step();}
 	YY_BREAK
 case 110:
 YY_RULE_SETUP
-#line 178 "config_lexer.l"
+#line 205 "config_lexer.l"
 {UPDATE_POS; loc.step();}
 	YY_BREAK
 case 111:
 /* rule 111 can match eol */
 YY_RULE_SETUP
-#line 179 "config_lexer.l"
+#line 206 "config_lexer.l"
 {UPDATE_POS; loc.lines(yyleng);loc.step(); last_line_pos=current_pos; }
 	YY_BREAK
 case 112:
 YY_RULE_SETUP
-#line 180 "config_lexer.l"
+#line 207 "config_lexer.l"
 {UPDATE_POS; driver.unknown_char(loc,yytext[0]);}
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
-#line 181 "config_lexer.l"
-{ UPDATE_POS; return yy::ConfigParser::make_END(loc); }
+#line 208 "config_lexer.l"
+{ return yy::ConfigParser::make_END(loc); }
 	YY_BREAK
 case 113:
 YY_RULE_SETUP
-#line 183 "config_lexer.l"
+#line 210 "config_lexer.l"
 ECHO;
 	YY_BREAK
-#line 1603 "lex.yy.c"
+#line 1630 "lex.yy.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -2566,14 +2593,30 @@ void yyfree (void * ptr )
 
 #define YYTABLES_NAME "yytables"
 
-#line 183 "config_lexer.l"
+#line 210 "config_lexer.l"
+
 
+//a string may contain newlines: the location must keep track of them
+static void count_lines()
+{
+    const char* line = yytext;
+    const char* next;
+    while((next = (const char*)memchr(line,'\n',yytext+yyleng-line)) != NULL)
+    {
+        loc.lines(1);
+        line = next+1;
+        last_line_pos = current_pos-(yytext+yyleng-line);
+    }
+    if(line != yytext)
+        loc.columns(yytext+yyleng-line);
+}
 
 void ConfigDriver::scan_begin()
 {
     errno = 0;
     current_pos = 0;
     last_line_pos = 0;
+    loc.initialize(&file);
     yyin = fopen(file.c_str(), "r");
     if(!yyin)
         Console.critical(MESSAGE_INPUT_ERROR,file.c_str(),strerror(errno));
@@ -2587,34 +2630,28 @@ void ConfigDriver::scan_end()
 int ConfigDriver::get_line(char* buf,int len)
 {
     int line_offset = 0;
+    long int start = last_line_pos;
     //entire line can't fit in buffer
     //-4 because if the line is too long the last 3 chars are set to ... and
     //I don't want to show the underline ~~~~ in these characters
     if(current_pos-last_line_pos>=len-4)
     {
-        line_offset = last_line_pos;
-        last_line_pos = current_pos - len/2;
-        line_offset = last_line_pos-line_offset;
-    }
-    fseek(yyin,last_line_pos,SEEK_SET);
-    fread(buf,sizeof(char),len,yyin);
-    int i = 0;
-    while(i<len)
-    {
-        if(buf[i]=='\n' || buf[i]=='\r')
-            buf[i] = 0;
-        if(buf[i]==0)
-            break;
-        i++;
+        start = current_pos - len/2;
+        line_offset = start - last_line_pos;
     }
-    if(i==len)
+    fseek(yyin,start,SEEK_SET);
+    size_t count = fread(buf,sizeof(char),len-1,yyin);
+    buf[count] = 0;
+    size_t i = strcspn(buf,"\r\n");
+    buf[i] = 0;
+    if(i==(size_t)len-1)
     {
         buf[len-4] = '.';
         buf[len-3] = '.';
         buf[len-2] = '.';
         buf[len-1] = 0;
     }
-    if(line_offset!=0)
+    if(line_offset!=0 && i>=3)
     {
         buf[0] = '.';
         buf[1] = '.';
-- 
2.43.0


From 0a33694abf97b14e2e02ab23b25eeb401b63c352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:43 +0000
Subject: [PATCH 71/95] fix: empty or enormous resolutions and sample counts
 crashed instead of being rejected

---
 src/localization.h            |  6 ++++++
 src/parsers/config_driver.cpp | 16 ++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/localization.h b/src/localization.h
index c9be20a..6f5045f 100644
--- a/src/localization.h
+++ b/src/localization.h
@@ -63,6 +63,12 @@
 #define MESSAGE_RESOLUTION_CHANGED "Rendered image width should be a multiple "\
 "of %d for performance reasons. Resolution has been adjusted to %dx%d"
 
+#define MESSAGE_RESOLUTION_RANGE "Unsupported image resolution %dx%d. Width " \
+"and height should be between 1 and %d"
+
+#define MESSAGE_SPP_RANGE "Unsupported number of samples per pixel: %d. It " \
+"should be between 1 and %d"
+
 #define MESSAGE_SPP_CHANGED "While using a Stratified Sampler, samples per " \
 "pixel should be a perfect square. Using %d samples"
 
diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 7d8d7cf..dde613d 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -7,6 +7,10 @@
 
 ///minimum value for ParsedMaterial::rough_x when the material is not specular
 #define MIN_ROUGHNESS 0.001f
+//highest supported width or height of the image
+#define MAX_RESOLUTION 32768
+//highest supported number of samples per pixel
+#define MAX_SPP 1048576
 
 ParsedMaterial::ParsedMaterial()
 {
@@ -137,6 +141,12 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
 
 void ConfigDriver::check_resolution()
 {
+    if(width<1 || height<1 || width>MAX_RESOLUTION || height>MAX_RESOLUTION)
+    {
+        Console.critical(MESSAGE_RESOLUTION_RANGE, width, height,
+                         MAX_RESOLUTION);
+        return; //for tests, actually critical kills the program
+    }
     int rem = width%SPLIT_SIZE;
     if(rem != 0)
     {
@@ -145,12 +155,18 @@ void ConfigDriver::check_resolution()
         height += (int)((SPLIT_SIZE-rem)/aspect_ratio);
         if(height%2 != 0)
             height++;
+        height = min(height, MAX_RESOLUTION);
         Console.notice(MESSAGE_RESOLUTION_CHANGED, SPLIT_SIZE, width, height);
     }
 }
 
 void ConfigDriver::check_spp()
 {
+    if(spp<1 || spp>MAX_SPP)
+    {
+        Console.critical(MESSAGE_SPP_RANGE, spp, MAX_SPP);
+        return; //for tests, actually critical kills the program
+    }
     if(sampler_type == SPECTRE_SAMPLER_STRATIFIED)
     {
         float root = sqrtf((float)spp);
-- 
2.43.0


From 6b87ede43cd3d15b87831be51da77a5128f79fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:05 +0000
Subject: [PATCH 72/95] fix: unavailable masks hid inverted objects; a texture
 did not replace a previously declared colour

---
 src/parsers/config_driver.cpp    | 3 +++
 src/parsers/config_parser.tab.cc | 4 ++--
 src/parsers/config_parser.y      | 4 ++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index dde613d..ef665ba 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -753,6 +753,9 @@ MaskBoolean ConfigDriver::build_mask(const ParsedMask& mask)
     else
     {
         map = load_texture(mask.mask_tex);
+        //without a texture there is nothing to be masked
+        if(map == TexLib.get_dflt_teximage())
+            map = NULL;
     }
     return MaskBoolean(map, mask.mask_chn, mask.mask_inv);
 }
diff --git a/src/parsers/config_parser.tab.cc b/src/parsers/config_parser.tab.cc
index 39a8446..434efbb 100644
--- a/src/parsers/config_parser.tab.cc
+++ b/src/parsers/config_parser.tab.cc
@@ -1019,7 +1019,7 @@ namespace yy {
 
   case 99:
 #line 272 "config_parser.y" // lalr1.cc:859
-    {driver.cur_mat.diffuse = yystack_[0].value.as< std::string > ().substr(1,yystack_[0].value.as< std::string > ().size()-2);}
+    {driver.cur_mat.diffuse = yystack_[0].value.as< std::string > ().substr(1,yystack_[0].value.as< std::string > ().size()-2); driver.cur_mat.diffuse_uniform = NULL;}
 #line 1024 "config_parser.tab.cc" // lalr1.cc:859
     break;
 
@@ -1031,7 +1031,7 @@ namespace yy {
 
   case 101:
 #line 274 "config_parser.y" // lalr1.cc:859
-    {driver.cur_mat.specular = yystack_[0].value.as< std::string > ().substr(1,yystack_[0].value.as< std::string > ().size()-2);}
+    {driver.cur_mat.specular = yystack_[0].value.as< std::string > ().substr(1,yystack_[0].value.as< std::string > ().size()-2); driver.cur_mat.specular_uniform = NULL;}
 #line 1036 "config_parser.tab.cc" // lalr1.cc:859
     break;
 
diff --git a/src/parsers/config_parser.y b/src/parsers/config_parser.y
index 71c349a..04ba357 100644
--- a/src/parsers/config_parser.y
+++ b/src/parsers/config_parser.y
@@ -269,9 +269,9 @@ material_stmt
 | DISTRIBUTION COLON BLINN {driver.cur_mat.dist = SPECTRE_DIST_BLINN;}
 | DISTRIBUTION COLON BECKMANN {driver.cur_mat.dist = SPECTRE_DIST_BECKMANN;}
 | DISTRIBUTION COLON GGX {driver.cur_mat.dist = SPECTRE_DIST_GGX;}
-| DIFFUSE COLON STRING {driver.cur_mat.diffuse = $3.substr(1,$3.size()-2);}
+| DIFFUSE COLON STRING {driver.cur_mat.diffuse = $3.substr(1,$3.size()-2); driver.cur_mat.diffuse_uniform = NULL;}
 | DIFFUSE COLON vector {driver.tex_color = $3; driver.cur_mat.diffuse_uniform = driver.load_texture_uniform();}
-| SPECULAR COLON STRING {driver.cur_mat.specular = $3.substr(1,$3.size()-2);}
+| SPECULAR COLON STRING {driver.cur_mat.specular = $3.substr(1,$3.size()-2); driver.cur_mat.specular_uniform = NULL;}
 | SPECULAR COLON vector {driver.tex_color = $3; driver.cur_mat.specular_uniform = driver.load_texture_uniform();}
 /* | BUMP COLON STRING {driver.cur_mat.bump = $3.substr(1,$3.size()-2); driver.cur_mat.bump_is_normal = false;} */
 | NORMAL COLON STRING {driver.cur_mat.bump = $3.substr(1,$3.size()-2); /* driver.cur_mat.bump_is_normal = true; */}
-- 
2.43.0


From 1e424521993b65f3eea07a010e5fab27b69e86eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:17 +0000
Subject: [PATCH 73/95] fix: uninitialised enum values were read while moving
 parser symbols

---
 src/parsers/config_parser.tab.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/config_parser.tab.hh b/src/parsers/config_parser.tab.hh
index c7ffa00..c19c131 100644
--- a/src/parsers/config_parser.tab.hh
+++ b/src/parsers/config_parser.tab.hh
@@ -169,7 +169,7 @@ namespace yy {
       YYASSERT (!yytypeid_);
       YYASSERT (sizeof (T) <= S);
       yytypeid_ = & typeid (T);
-      return *new (yyas_<T> ()) T;
+      return *new (yyas_<T> ()) T ();
     }
 
     /// Instantiate a \a T in here from \a t.
-- 
2.43.0


From 7f1de0469a39b1f1e1a6743e8953dcd3d06a9263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:58 +0000
Subject: [PATCH 74/95] fix: name the folder in the 'output exists and is a
 folder' message

---
 src/cameras/image_film.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cameras/image_film.cpp b/src/cameras/image_film.cpp
index aaf6336..aa76ced 100644
--- a/src/cameras/image_film.cpp
+++ b/src/cameras/image_film.cpp
@@ -12,7 +12,7 @@ ImageFilm::ImageFilm(int width, int height, const char* fullpath)
     buffer.zero_out();
     if(output.exists() && output.is_folder())
     {
-        Console.critical(MESSAGE_OUTPUT_ISFOLDER);
+        Console.critical(MESSAGE_OUTPUT_ISFOLDER, output.absolute_path());
         return; // <- bail out in tests since critical msg does not kill program
     }
     File parent_folder = output.get_parent();
-- 
2.43.0


From 902d6853048489ad5267924cd7e86fcaf0b7f16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:41 +0000
Subject: [PATCH 75/95] fix: merge bounding boxes that are not numbers without
 leaving the array

---
 src/accelerators/bvh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/accelerators/bvh.cpp b/src/accelerators/bvh.cpp
index 0b0babc..c88d1c0 100644
--- a/src/accelerators/bvh.cpp
+++ b/src/accelerators/bvh.cpp
@@ -186,6 +186,10 @@ static uint32_t combineCluster(std::vector<BvhBuildNode*>* c, int n, char axis)
             }
         }
 
+        //the second is the one replaced by the last, so it has to be the higher
+        if(left>right)
+            std::swap(left, right);
+
         //merge them together in a new node
         BvhBuildNode* node = new BvhBuildNode();
         created++;
-- 
2.43.0


From 8aeef46fc6fe770d869abce7359b2e468a1f4334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:38 +0000
Subject: [PATCH 76/95] fix: ignore shapes whose transformation cannot be
 inverted

---
 src/localization.h            | 4 ++++
 src/parsers/config_driver.cpp | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/src/localization.h b/src/localization.h
index 6f5045f..c4f0108 100644
--- a/src/localization.h
+++ b/src/localization.h
@@ -126,6 +126,10 @@
 
 #define MESSAGE_SHAPE_NOT_FOUND "Shape \"%s\" not found in any of the .obj parsed"
 
+/** Warning when the scaling of a shape cannot be inverted */
+#define MESSAGE_SHAPE_TRANSFORM "Shape \"%s\" ignored: it is too small or too "\
+"big to be represented"
+
 /** Error when a number in the configuration file can not be represented */
 #define MESSAGE_VALUE_RANGE "value out of range"
 
diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index ef665ba..134b550 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -677,6 +677,13 @@ void ConfigDriver::build_meshes()
         scale_matrix.set_scale(mesh_w.scale);
         //watchout the order!!!
         transform = position_matrix*rotation_matrix*scale_matrix;
+        Matrix4 inverted;
+        if(!transform.inverse(&inverted))
+        {
+            //the shape is flattened, or too big, and has no object space
+            Console.warning(MESSAGE_SHAPE_TRANSFORM, mesh_w.name.c_str());
+            continue;
+        }
         Asset* current_asset;
         if(!mesh_w.is_light)
         {
-- 
2.43.0


From fbdce0ecabdc74f3bd528f064fe19911b9729287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:49 +0000
Subject: [PATCH 77/95] fix: release the previous content when an Array2D is
 assigned

---
 src/utility/array2D.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/utility/array2D.hpp b/src/utility/array2D.hpp
index 3425f69..91d9b60 100644
--- a/src/utility/array2D.hpp
+++ b/src/utility/array2D.hpp
@@ -204,11 +204,16 @@ public:
     ///Copy-assignment operator
     Array2D& operator=(const Array2D& other)
     {
-        blocks_no_side = other.blocks_no_side;
-        size_t array_len = blocks_no_side*blocks_no_side*BLOCK_SIDE*BLOCK_SIDE;
-        array_len *= sizeof(T);
-        data = (T*)malloc(array_len);
-        memcpy(data, other.data, array_len);
+        if(this != &other)
+        {
+            blocks_no_side = other.blocks_no_side;
+            size_t array_len = blocks_no_side*blocks_no_side*
+                               BLOCK_SIDE*BLOCK_SIDE;
+            array_len *= sizeof(T);
+            free(data);
+            data = (T*)malloc(array_len);
+            memcpy(data, other.data, array_len);
+        }
         return *this;
     }
 
-- 
2.43.0


From 93d9949b7183fd60567b6cee2f8858497126a135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:49 +0000
Subject: [PATCH 78/95] fix: refuse dual materials with a used name

---
 src/materials/material_library.cpp | 1 +
 src/parsers/config_driver.cpp      | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/src/materials/material_library.cpp b/src/materials/material_library.cpp
index 34b3ebd..78337c7 100644
--- a/src/materials/material_library.cpp
+++ b/src/materials/material_library.cpp
@@ -12,6 +12,7 @@ MaterialLibrary::MaterialLibrary()
 MaterialLibrary::~MaterialLibrary()
 {
     MaterialLibrary::clear();
+    delete default_material;
 }
 
 void MaterialLibrary::add_inherit(const std::string& name, Bsdf* material)
diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 134b550..dbeec1b 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -559,6 +559,12 @@ void ConfigDriver::build_dualmaterials()
     for(int i = 0; i<(int)deferred_dualmats.size(); i++)
     {
         mat = &deferred_dualmats[i];
+        //avoid processing if material already exists
+        if(MtlLib.contains(mat->name))
+        {
+            Console.warning(MESSAGE_DUPLICATE_MATERIAL, mat->name.c_str());
+            continue;
+        }
         if(MtlLib.contains(mat->first))
             first = MtlLib.get(mat->first);
         else
-- 
2.43.0


From 6daad3f0da7cb55ae3ccc8d607480959c3b53f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:17 +0000
Subject: [PATCH 79/95] fix: release the lights beyond the maximum number

---
 src/parsers/config_driver.cpp | 5 +++--
 src/utility/scene.cpp         | 5 +++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index dbeec1b..6311563 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -691,6 +691,7 @@ void ConfigDriver::build_meshes()
             continue;
         }
         Asset* current_asset;
+        MaskBoolean mask = build_mask(mesh_w.mask);
         if(!mesh_w.is_light)
         {
             current_asset = new Asset(mesh_o.mesh, transform, 1);
@@ -723,6 +724,7 @@ void ConfigDriver::build_meshes()
                 current_asset->set_materials(materials, 1, associations);
                 free(associations);
             }
+            current_asset->set_mask(mask);
             current_scene->inherit_asset(current_asset);
         }
         else
@@ -751,10 +753,9 @@ void ConfigDriver::build_meshes()
             memset(associations, 0, mesh_o.mesh->get_faces_number());
             current_asset->set_materials(materials, 1, associations);
             free(associations);
+            current_asset->set_mask(mask);
             current_scene->inherit_light((AreaLight*)current_asset);
         }
-        //resolve the mask
-        current_asset->set_mask(build_mask(mesh_w.mask));
     }
 }
 
diff --git a/src/utility/scene.cpp b/src/utility/scene.cpp
index f253656..c632e91 100644
--- a/src/utility/scene.cpp
+++ b/src/utility/scene.cpp
@@ -56,7 +56,12 @@ void Scene::inherit_light(const AreaLight* addme)
         }
     }
     else
+    {
         Console.warning(MESSAGE_MAXLIGHTSNUMBER, _MAX_LIGHTS_);
+        //already owned by the scene, if present
+        if(assets.find(addme->get_id()) == assets.end())
+            delete addme;
+    }
 }
 
 unsigned int Scene::size_lights() const
-- 
2.43.0


From 9b346c5fbf5cfe7b1751972a9ae0058ab36a1181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:33 +0000
Subject: [PATCH 80/95] fix: release the material arrays of spheres and
 duplicate shapes

---
 src/parsers/config_driver.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 6311563..17fd3df 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -620,6 +620,8 @@ void ConfigDriver::parse_and_allocate_obj(const char* obj_file)
         else
         {
             Console.warning(MESSAGE_DUPLICATE_SHAPE, name.c_str());
+            free(insertme.materials);
+            free(insertme.association);
             delete m;
         }
         m = new Mesh(1);
@@ -630,6 +632,9 @@ void ConfigDriver::parse_and_allocate_obj(const char* obj_file)
 
 void ConfigDriver::build_meshes()
 {
+    //copied by the assets
+    const Bsdf* sphere_materials[1] = {MtlLib.get_default()};
+    unsigned char sphere_association[1] = {0};
     while(!deferred_meshes.empty())
     {
         MeshObject mesh_o;
@@ -661,11 +666,9 @@ void ConfigDriver::build_meshes()
             //sdl that will always stays in the scene
             //construct the MeshObject (which is the parsed .obj) in place
             mesh_o.mesh = default_sphere;
-            mesh_o.materials = (const Bsdf**)malloc(sizeof(const Bsdf*));
-            mesh_o.materials[0] = MtlLib.get_default();
+            mesh_o.materials = sphere_materials;
             mesh_o.materials_len = 1;
-            mesh_o.association = (unsigned char*)malloc(1);
-            mesh_o.association[0] = 0;
+            mesh_o.association = sphere_association;
         }
 
         Matrix4 transform;
-- 
2.43.0


From f8657514b506baf66d6b2ec6da1c302192f334e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:49 +0000
Subject: [PATCH 81/95] fix: give every parsed renderer its own integrator

---
 src/parsers/config_driver.cpp | 3 +--
 src/parsers/config_driver.hpp | 7 -------
 2 files changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 17fd3df..43efb22 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -42,7 +42,6 @@ ConfigDriver::ConfigDriver()
     fov = 55.f;
     value0 = 0.33f;
     value1 = 0.33f;
-    integrator = new PathTracer();
     tex_name = "";
     tex_scale = Vec2(1.f);
     tex_shift = Vec2(0.f);
@@ -95,7 +94,7 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     r->set_sampler(sampler_type);
     r->inherit_camera(build_camera());
     r->inherit_filter(build_filter());
-    r->inherit_integrator(integrator);
+    r->inherit_integrator(new PathTracer());
 
     //build default sphere
     default_sphere = new Sphere();
diff --git a/src/parsers/config_driver.hpp b/src/parsers/config_driver.hpp
index 5781ffd..c46d06d 100644
--- a/src/parsers/config_driver.hpp
+++ b/src/parsers/config_driver.hpp
@@ -381,13 +381,6 @@ public:
     CHECK_RETVAL_USED
     Filter* build_filter();
 
-    /*---------------.
-    |   Integrator   |
-    `---------------*/
-
-    ///The integrator that will be used to solve the rendering equation
-    LightIntegrator* integrator;
-
     /*-------------.
     |   Textures   |
     `-------------*/
-- 
2.43.0


From 1e060f9cc0012bb3fcbf0a1dc755865d631c1c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:03 +0000
Subject: [PATCH 82/95] fix: release what the renderer replaces

---
 src/renderer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/renderer.cpp b/src/renderer.cpp
index e086363..14cf210 100644
--- a/src/renderer.cpp
+++ b/src/renderer.cpp
@@ -57,6 +57,8 @@ Renderer::~Renderer()
 
 void Renderer::inherit_camera(Camera* camera)
 {
+    if(Renderer::camera != camera)
+        delete Renderer::camera;
     Renderer::camera = camera;
 }
 
@@ -67,12 +69,16 @@ void Renderer::set_sampler(int sampler)
 
 void Renderer::inherit_filter(Filter* filter)
 {
+    if(Renderer::filter != filter)
+        delete Renderer::filter;
     Renderer::filter = filter;
     Renderer::film.set_filter(filter);
 }
 
 void Renderer::inherit_integrator(LightIntegrator* integrator)
 {
+    if(Renderer::mc_solver != integrator)
+        delete Renderer::mc_solver;
     Renderer::mc_solver = integrator;
 }
 
-- 
2.43.0


From c8665cbed53f9db511deac77636848e5b9ff4a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:17 +0000
Subject: [PATCH 83/95] fix: release the previous tree when a mesh is finalized
 again

---
 src/accelerators/bvh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/accelerators/bvh.cpp b/src/accelerators/bvh.cpp
index c88d1c0..6c3d2ba 100644
--- a/src/accelerators/bvh.cpp
+++ b/src/accelerators/bvh.cpp
@@ -323,6 +323,11 @@ Bvh::~Bvh()
 void Bvh::buildTree(Triangle* tris, int len)
 {
     Bvh::tris = tris;
+    //in case the tree is built again
+    free(nodesList);
+    free(faces);
+    nodesList = NULL;
+    faces = NULL;
     if(len<AAC_DELTA) //small mesh
     {
         Bvh::nodesList = (BvhNode*)malloc(sizeof(BvhNode));
-- 
2.43.0


From 60ee90c56fbadd906925016eee83e62c463b4f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:49 +0000
Subject: [PATCH 84/95] fix: build an orthonormal shading frame from any normal
 and tangent

---
 src/materials/shading_space.cpp | 14 +++++++++++++-
 src/textures/texture_height.cpp | 17 ++++++++++++-----
 src/textures/texture_normal.cpp | 18 ++++++++++--------
 3 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/src/materials/shading_space.cpp b/src/materials/shading_space.cpp
index 1babbe9..a887663 100644
--- a/src/materials/shading_space.cpp
+++ b/src/materials/shading_space.cpp
@@ -1,11 +1,23 @@
 //author: Davide Pizzolotto
 //license: GNU GPLv3
 
+#include <cmath>
 #include "shading_space.hpp"
 
 ShadingSpace::ShadingSpace(const HitPoint* hp)
-        :s(hp->dpdu), n(hp->normal_h)
+        :n(hp->normal_h)
 {
+    //the tangent is rarely perpendicular to an interpolated normal
+    const Vec3 normal(n);
+    s = hp->dpdu-normal*dot(normal, hp->dpdu);
+    const float len2 = dot(s, s);
+    if(len2>1e-5f*dot(hp->dpdu, hp->dpdu) && std::isfinite(1.f/len2))
+        s = s*(1.f/sqrtf(len2));
+    else //no usable tangent, any direction perpendicular to the normal
+    {
+        s = fabsf(n.x)<0.7f?Vec3(1, 0, 0):Vec3(0, 1, 0);
+        s = cross(s, normal).normalize();
+    }
     t = cross(Vec3(n), s).normalize();
 }
 
diff --git a/src/textures/texture_height.cpp b/src/textures/texture_height.cpp
index 74113b0..d09dc8a 100644
--- a/src/textures/texture_height.cpp
+++ b/src/textures/texture_height.cpp
@@ -68,10 +68,17 @@ TextureHeight::bump(const HitPoint* hp, ShadingSpace* matrix,
 
     Vec3 dpdu = hp->dpdu+(Vec3)(hp->normal_h*(u-dot(hp->normal_h, hp->dpdu)));
     Vec3 dpdv = hp->dpdv+(Vec3)(hp->normal_h*(v-dot(hp->normal_h, hp->dpdv)));
-    matrix->n = (Normal)cross(dpdu, dpdv).normalize();
-    matrix->s = (dpdu-(Vec3)(matrix->n)*dot(dpdu, matrix->n)).normalize();
-    matrix->t = cross(Vec3(matrix->n), matrix->s).normalize();
-    if(dot(matrix->n, hp->normal_h)<0)
-        matrix->n *= -1;
+    const Vec3 bump_normal = cross(dpdu, dpdv);
+    const float len2 = dot(bump_normal, bump_normal);
+    HitPoint bumped;
+    bumped.dpdu = dpdu;
+    if(len2>1e-10f*dot(hp->dpdu, hp->dpdu)*dot(hp->dpdv, hp->dpdv) &&
+       std::isfinite(1.f/len2))
+        bumped.normal_h = (Normal)(bump_normal*(1.f/sqrtf(len2)));
+    else //degenerate parametrisation
+        bumped.normal_h = hp->normal_h;
+    if(dot(bumped.normal_h, hp->normal_h)<0)
+        bumped.normal_h *= -1;
+    *matrix = ShadingSpace(&bumped);
     *normal = matrix->n;
 }
diff --git a/src/textures/texture_normal.cpp b/src/textures/texture_normal.cpp
index 0a85d36..25163de 100644
--- a/src/textures/texture_normal.cpp
+++ b/src/textures/texture_normal.cpp
@@ -29,15 +29,17 @@ TextureNormal::bump(const HitPoint* hp, ShadingSpace* matrix,
 
     Vec3 normal_shading(x, y, z);
 
-    ShadingSpace old;
-    old.s = hp->dpdu;
-    old.n = (Normal)cross(hp->dpdu, hp->dpdv).normalize();
-    old.t = cross(old.s, (Vec3)old.n).normalize();
+    //tangent space, around the interpolated normal. The second axis is opposed
+    //to dpdv, since the rows of an image are stored from the top
+    ShadingSpace old(hp);
+    if(dot(old.t, hp->dpdv)>0)
+        old.t *= -1.f;
 
-    matrix->n = (Normal)(old.to_world(normal_shading)).normalize();
-    matrix->s = (hp->dpdu-
-                 (Vec3)(matrix->n*dot(matrix->n, hp->dpdu))).normalize();
-    matrix->t = cross(Vec3(matrix->n), matrix->s).normalize();
+    //set matrix values
+    HitPoint bumped;
+    bumped.normal_h = (Normal)old.to_world(normal_shading);
+    bumped.dpdu = old.s;
+    *matrix = ShadingSpace(&bumped);
     *normal = matrix->n;
     if(dot(*normal,hp->normal_h)<0)
         *normal*=-1;
-- 
2.43.0


From f7faea85175d1679fa420758a72bc4e247fcbe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:21 +0000
Subject: [PATCH 85/95] fix: do not read normals from the default texture

---
 src/parsers/config_driver.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 43efb22..5e17e83 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -407,7 +407,12 @@ void ConfigDriver::build_materials()
                        (const TextureImage*)load_texture(mat->bump), RED);
             ```
              */
-            bump_map = new TextureNormal((const TextureImage*)load_texture(mat->bump));
+            const TextureImage* normal_map = load_texture(mat->bump);
+            //the default texture is white, it does not contain normals
+            if(normal_map != TexLib.get_dflt_teximage())
+                bump_map = new TextureNormal(normal_map);
+            else
+                bump_map = new Bump();
         }
         else
             bump_map = new Bump();
-- 
2.43.0


From 52b861c998e21f4d86b862645eb67f2fe9c96d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:34 +0000
Subject: [PATCH 86/95] fix: report an image which could not be saved

---
 src/localization.h | 2 ++
 src/renderer.cpp   | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/localization.h b/src/localization.h
index c4f0108..2317c1c 100644
--- a/src/localization.h
+++ b/src/localization.h
@@ -103,6 +103,8 @@
 
 #define MESSAGE_IMAGEO "Saving image..."
 
+#define MESSAGE_SAVE_FAILED "The image could not be saved"
+
 #define MESSAGE_BYE "Bye :)"
 
 #define MESSAGE_INPUT_FILE "Write input file path or q to exit"
diff --git a/src/renderer.cpp b/src/renderer.cpp
index 14cf210..b5ac0af 100644
--- a/src/renderer.cpp
+++ b/src/renderer.cpp
@@ -145,7 +145,11 @@ int Renderer::render(Scene* s)
 
     Console.log(MESSAGE_IMAGEO, NULL);
     //save the image
-    Renderer::film.save_image();
+    if(!Renderer::film.save_image())
+    {
+        Console.critical(MESSAGE_SAVE_FAILED);
+        return 1;
+    }
     Console.log(MESSAGE_BYE, NULL);
 
     return 0;
-- 
2.43.0


From 3d1ec67a05e7df7e9b20eae295a0a7910d1243ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:24 +0000
Subject: [PATCH 87/95] Read-only accessors for runtime monitors, compiled only
 with SPECTRE_MONITOR

---
 src/cameras/image_film.hpp |  8 ++++++++
 src/renderer.hpp           | 14 ++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/cameras/image_film.hpp b/src/cameras/image_film.hpp
index 42cb0f9..ed9ab25 100644
--- a/src/cameras/image_film.hpp
+++ b/src/cameras/image_film.hpp
@@ -202,6 +202,14 @@ public:
      */
     bool save_image();
 
+#ifdef SPECTRE_MONITOR
+    // Read-only views for runtime monitors: compiled only in their builds
+    const Filter* monitor_filter() const { return filter; }
+    const File& monitor_output() const { return output; }
+    int monitor_width() const { return width; }
+    int monitor_height() const { return height; }
+#endif
+
 private:
 
     //width of the image
diff --git a/src/renderer.hpp b/src/renderer.hpp
index 31a591c..2b51338 100644
--- a/src/renderer.hpp
+++ b/src/renderer.hpp
@@ -176,6 +176,20 @@ public:
      */
     int render(Scene* scene);
 
+#ifdef SPECTRE_MONITOR
+    // Read-only views for runtime monitors: compiled only in their builds
+    Camera* monitor_camera() const { return camera; }
+    const Filter* monitor_filter() const { return filter; }
+    const ImageFilm& monitor_film() const { return film; }
+    LightIntegrator* monitor_integrator() const { return mc_solver; }
+    int monitor_width() const { return width; }
+    int monitor_height() const { return height; }
+    int monitor_spp() const { return spp; }
+    int monitor_sampler() const { return sampler_t; }
+    int monitor_threads() const { return numthreads; }
+    size_t monitor_pending() const { return jobs.size(); }
+#endif
+
 private:
 
     //Camera for the renderer
-- 
2.43.0


From dfe114476a96e22b43bcb05b0abc9aff444f935e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:11 +0000
Subject: [PATCH 88/95] fix: keep the length of the partial derivatives of
 placed objects

---
 src/primitives/asset.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/primitives/asset.cpp b/src/primitives/asset.cpp
index b64b3fe..da6b9d3 100644
--- a/src/primitives/asset.cpp
+++ b/src/primitives/asset.cpp
@@ -43,8 +43,6 @@ Asset::intersect(const Ray* ray_world, float* distance, HitPoint* hit) const
         hit->dpdu = objToWorld*hit->dpdu;
         hit->dpdv = objToWorld*hit->dpdv;
         hit->normal_h.normalize();
-        hit->dpdu.normalize();
-        hit->dpdv.normalize();
     }
     return res;
 }
-- 
2.43.0


From 2993edb65b3bc4b8af92e1f064a13de5b4d5a41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:11 +0000
Subject: [PATCH 89/95] fix: compute footprints of small objects, and none from
 companions parallel to the surface

---
 src/primitives/hit_point.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/primitives/hit_point.cpp b/src/primitives/hit_point.cpp
index 9285906..c6a8fc4 100644
--- a/src/primitives/hit_point.cpp
+++ b/src/primitives/hit_point.cpp
@@ -53,15 +53,25 @@ void calculate_differentials(HitPoint* hit, Ray* rx, Ray* ry)
     float by1 = py[axes1]-hit->point_h[axes1];
 
     float det = a00*a11-a01*a10;
-    if(fabsf(det)>1e-5f)
+    //relative to the tangents, whose length depends on the size of the object
+    float size = (fabsf(a00)+fabsf(a10))*(fabsf(a01)+fabsf(a11));
+    if(fabsf(det)>1e-4f*size)
     {
         float invdet = 1.f/det;
         hit->du.x = (a11*bx0-a01*bx1)*invdet;
         hit->dv.x = (a00*bx1-a10*bx0)*invdet;
         hit->du.y = (a11*by0-a01*by1)*invdet;
         hit->dv.y = (a00*by1-a10*by0)*invdet;
-        hit->differentials = true;
+        hit->differentials = std::isfinite(hit->du.x) &&
+                             std::isfinite(hit->du.y) &&
+                             std::isfinite(hit->dv.x) &&
+                             std::isfinite(hit->dv.y);
     }
     else
         hit->differentials = false;
+    if(!hit->differentials)
+    {
+        hit->du = Vec2();
+        hit->dv = Vec2();
+    }
 }
-- 
2.43.0


From 706ff26c1a788f397354f9846d4a97de73cbc687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:11 +0000
Subject: [PATCH 90/95] fix: do not filter masks with the footprint of the
 previous sample

---
 src/renderer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/renderer.cpp b/src/renderer.cpp
index b5ac0af..9f4e156 100644
--- a/src/renderer.cpp
+++ b/src/renderer.cpp
@@ -235,6 +235,8 @@ void executor(Camera* camera, ImageFilm* film, std::mutex* lock, int spp,
             for(int i = 0; i<spp; i++)
             {
                 camera->create_ray(&(samples[i]), &r, &rx, &ry);
+                //those of the previous sample say nothing about this one
+                h.differentials = false;
                 if(scene->k.intersect(&r, &h))
                 {
                     calculate_differentials(&h, &rx, &ry);
-- 
2.43.0


From b05ed705f7e937b09aeb00b901f362c0608a5636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:09 +0000
Subject: [PATCH 91/95] fix: draw the directions leaving an area light in world
 space

---
 src/lights/area_light.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lights/area_light.cpp b/src/lights/area_light.cpp
index 0cb4955..3f37151 100644
--- a/src/lights/area_light.cpp
+++ b/src/lights/area_light.cpp
@@ -33,6 +33,11 @@ Spectrum AreaLight::sample_surface(float r0, float r1, float r2, float r3,
     //underlying model of the light
     AreaLight::model->sample_point(r0, r1, cd, &(out->origin), &n);
 
+    //objspace to world space. The direction is drawn directly in world space,
+    //where a non uniform scale can not alter its distribution or its length
+    out->origin = AreaLight::objToWorld*out->origin;
+    n = transform_normal(n, &worldToObj);
+
     //generate random direction (uniform sphere sampling)
     float z = 1.f-2.f*r2;
     float r = sqrtf(max(0.f, 1.f-z*z));
@@ -49,8 +54,6 @@ Spectrum AreaLight::sample_surface(float r0, float r1, float r2, float r3,
     //1/2pi instead of 1/4pi because the direction is flipped if wrong
     //so in the end is an hemisphere sampling
     *pdf = AreaLight::invarea*INV_TWOPI;
-    //objspace to world space
-    *out = AreaLight::objToWorld**out;
     return AreaLight::c;
 }
 
-- 
2.43.0


From a9dda67dc05f5a2132747e1994240ceb37c91922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:56 +0000
Subject: [PATCH 92/95] fix: let a mesh created for no triangles grow

---
 src/primitives/mesh.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/primitives/mesh.cpp b/src/primitives/mesh.cpp
index 428b45d..c7bf1d5 100644
--- a/src/primitives/mesh.cpp
+++ b/src/primitives/mesh.cpp
@@ -42,7 +42,9 @@ void Mesh::add_triangle(const Vertex* a, const Vertex* b, const Vertex* c)
     {
         if(Mesh::count == Mesh::alloc) //need to realloc a bigger area
         {
-            unsigned int newsize = alloc << 1<_MAX_TRIS_?alloc << 1:_MAX_TRIS_;
+            unsigned int newsize = alloc>0?alloc << 1:1;
+            if(newsize>_MAX_TRIS_)
+                newsize = _MAX_TRIS_;
             Triangle* tmp = new Triangle[newsize];
             memcpy((void*)tmp, (void*)Mesh::tris, Mesh::count*sizeof(Triangle));
             delete[] Mesh::tris;
-- 
2.43.0


From 25a073f32be41eec9878eb2d05dc200fbf5dcad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:51 +0000
Subject: [PATCH 93/95] fix: find what rays parallel to an axis meet in Release
 builds

---
 src/accelerators/kdtree.cpp | 14 +++++-
 src/geometry/AABB.cpp       | 95 ++++++++++++-------------------------
 src/primitives/box.cpp      | 42 ++++++++++------
 3 files changed, 71 insertions(+), 80 deletions(-)

diff --git a/src/accelerators/kdtree.cpp b/src/accelerators/kdtree.cpp
index b58262e..25c173f 100644
--- a/src/accelerators/kdtree.cpp
+++ b/src/accelerators/kdtree.cpp
@@ -466,8 +466,20 @@ bool KdTree::intersect(const Ray* r, HitPoint* h) const
                 right = n+1;
             }
 
+            //parallel to the plane, both sides are needed only if lying on it.
+            //The inverse is not finite, its product means nothing with -Ofast
+            if(r->direction[axis] == 0.f)
+            {
+                if(r->origin[axis] == n->getSplit())
+                {
+                    jobs[jobs_stack_top].node = right;
+                    jobs[jobs_stack_top].mint = mint;
+                    jobs[jobs_stack_top++].maxt = maxt;
+                }
+                n = left;
+            }
             //special cases, only 1 node needs to be processed
-            if(planet>maxt || planet<=0)
+            else if(planet>maxt || planet<=0)
                 n = left;
             else if(planet<mint)
                 n = right;
diff --git a/src/geometry/AABB.cpp b/src/geometry/AABB.cpp
index 1b9b070..8469f51 100644
--- a/src/geometry/AABB.cpp
+++ b/src/geometry/AABB.cpp
@@ -1,6 +1,7 @@
 //author: Davide Pizzolotto
 //license: GNU GPLv3
 
+#include <cfloat>
 #include "AABB.hpp"
 
 AABB::AABB():bounds{Point3(INFINITY, INFINITY, INFINITY),
@@ -94,71 +95,40 @@ Point3 AABB::center() const
                   (bounds[0].z+bounds[1].z)*0.5f);
 }
 
-bool AABB::intersect(const Ray* r, float* p1, float* p2) const
+//interval of the ray between two planes orthogonal to an axis. A ray parallel to
+//them is handled apart: its inverse direction is not finite, and the results of
+//operations on it can not be trusted if compiled with -Ofast
+static inline bool slab(float lo, float hi, float origin, float direction,
+                        float inverse, float* mint, float* maxt)
 {
-    float minxt, maxxt, minyt, maxyt, minzt, maxzt;
-    float invx = 1.f/r->direction.x;
-    float invy = 1.f/r->direction.y;
-    float invz = 1.f/r->direction.z;
-    if(invx>=0)
-    {
-        minxt = (bounds[0].x-r->origin.x)*invx;
-        maxxt = (bounds[1].x-r->origin.x)*invx;
-    }
-    else
-    {
-        minxt = (bounds[1].x-r->origin.x)*invx;
-        maxxt = (bounds[0].x-r->origin.x)*invx;
-    }
-    if(invy>=0)
-    {
-        minyt = (bounds[0].y-r->origin.y)*invy;
-        maxyt = (bounds[1].y-r->origin.y)*invy;
-    }
-    else
-    {
-        minyt = (bounds[1].y-r->origin.y)*invy;
-        maxyt = (bounds[0].y-r->origin.y)*invy;
-    }
-
-    if((minyt>maxxt) || (minxt>maxyt))
-        return false;
-    if(minyt>minxt)
-        minxt = minyt;
-    if(maxyt<maxxt)
-        maxxt = maxyt;
-
-    if(invz>=0)
+    if(direction == 0.f)
     {
-        minzt = (bounds[0].z-r->origin.z)*invz;
-        maxzt = (bounds[1].z-r->origin.z)*invz;
+        *mint = -FLT_MAX;
+        *maxt = FLT_MAX;
+        return origin>=lo && origin<=hi;
     }
-    else
-    {
-        minzt = (bounds[1].z-r->origin.z)*invz;
-        maxzt = (bounds[0].z-r->origin.z)*invz;
-    }
-
-    if((minzt>maxxt) || (minxt>maxzt))
-        return false;
-    if(minzt>minxt)
-        minxt = minzt;
-    if(maxzt<maxxt)
-        maxxt = maxzt;
-    *p1 = minxt;
-    *p2 = maxxt;
+    *mint = ((direction<0.f?hi:lo)-origin)*inverse;
+    *maxt = ((direction<0.f?lo:hi)-origin)*inverse;
     return true;
 }
 
+bool AABB::intersect(const Ray* r, float* p1, float* p2) const
+{
+    RayProperties rp(*r);
+    return intersect(r, &rp, p1, p2);
+}
+
 bool AABB::intersect(const Ray* r, const RayProperties* p, float* p1, float* p2)
 const
 {
-    float mint, maxt, minyt, maxyt;
-
-    mint = (bounds[p->isXInvNeg].x-r->origin.x)*p->inverseX;
-    maxt = (bounds[1-p->isXInvNeg].x-r->origin.x)*p->inverseX;
-    minyt = (bounds[p->isYInvNeg].y-r->origin.y)*p->inverseY;
-    maxyt = (bounds[1-p->isYInvNeg].y-r->origin.y)*p->inverseY;
+    float mint, maxt, minyt, maxyt, minzt, maxzt;
+    if(!slab(bounds[0].x, bounds[1].x, r->origin.x, r->direction.x,
+             p->inverseX, &mint, &maxt) ||
+       !slab(bounds[0].y, bounds[1].y, r->origin.y, r->direction.y,
+             p->inverseY, &minyt, &maxyt) ||
+       !slab(bounds[0].z, bounds[1].z, r->origin.z, r->direction.z,
+             p->inverseZ, &minzt, &maxzt))
+        return false;
 
     if(mint>maxyt || minyt>maxt)
         return false;
@@ -167,15 +137,12 @@ const
     if(maxyt<maxt)
         maxt = maxyt;
 
-    minyt = (bounds[p->isZInvNeg].z-r->origin.z)*p->inverseZ;
-    maxyt = (bounds[1-p->isZInvNeg].z-r->origin.z)*p->inverseZ;
-
-    if(mint>maxyt || minyt>maxt)
+    if(mint>maxzt || minzt>maxt)
         return false;
-    if(minyt>mint)
-        mint = minyt;
-    if(maxyt<maxt)
-        maxt = maxyt;
+    if(minzt>mint)
+        mint = minzt;
+    if(maxzt<maxt)
+        maxt = maxzt;
     *p1 = mint;
     *p2 = maxt;
     return true;
diff --git a/src/primitives/box.cpp b/src/primitives/box.cpp
index 53732d3..6e3c04a 100644
--- a/src/primitives/box.cpp
+++ b/src/primitives/box.cpp
@@ -1,6 +1,7 @@
 //author: Davide Pizzolotto
 //license: GNU GPLv3
 
+#include <cfloat>
 #include "box.hpp"
 
 AABB Box::compute_AABB() const
@@ -55,6 +56,24 @@ float Box::surface(const Matrix4* transform) const
     return la+2*scale.x*scale.z;
 }
 
+//interval of the ray between the planes 0 and 1 of an axis. A ray parallel to
+//them is handled apart, as infinite values are not reliable with -Ofast
+static inline bool slab(float origin, float direction, float* near, float* far)
+{
+    if(direction == 0.f)
+    {
+        *near = -FLT_MAX;
+        *far = FLT_MAX;
+        return origin>=0.f && origin<=1.f;
+    }
+    const float invr = 1.0f/direction;
+    *near = (-origin)*invr;
+    *far = (1.f-origin)*invr;
+    if(*near>*far)
+        swap(near, far);
+    return true;
+}
+
 bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
                     const MaskBoolean* mask) const
 {
@@ -65,20 +84,16 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
     char exit_axis = 0; //same, when the ray starts inside the box
 
     //x plane
-    float invr = 1.0f/r->direction.x;
-    float near = (-r->origin.x)*invr;
-    float far = (1.f-r->origin.x)*invr;
-    if(near>far)
-        swap(&near, &far);
+    float near;
+    float far;
+    if(!slab(r->origin.x, r->direction.x, &near, &far))
+        return false;
     mint = near;
     maxt = far;
 
     //y plane
-    invr = 1.0f/r->direction.y;
-    near = (-r->origin.y)*invr;
-    far = (1.f-r->origin.y)*invr;
-    if(near>far)
-        swap(&near, &far);
+    if(!slab(r->origin.y, r->direction.y, &near, &far))
+        return false;
     if(near>mint)
     {
         mint = near;
@@ -93,11 +108,8 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
         return false;
 
     //z plane
-    invr = 1.0f/r->direction.z;
-    near = (-r->origin.z)*invr;
-    far = (1.f-r->origin.z)*invr;
-    if(near>far)
-        swap(&near, &far);
+    if(!slab(r->origin.z, r->direction.z, &near, &far))
+        return false;
     if(near>mint)
     {
         mint = near;
-- 
2.43.0


From 28a71207093e86d001ccc97a968a4047289a0db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:05 +0000
Subject: [PATCH 94/95] fix: tell spheres left behind without relying on NaN

---
 src/primitives/sphere.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitives/sphere.cpp b/src/primitives/sphere.cpp
index 47990e4..e5b5841 100644
--- a/src/primitives/sphere.cpp
+++ b/src/primitives/sphere.cpp
@@ -90,7 +90,7 @@ bool Sphere::intersect(const Ray* r, float* distance, HitPoint* hit,
                 //write the valid one in the first and set second as NaN
                 //NaN will be used to indicate the mask that this is invalid
                 swap(&sol1, &sol2);
-                sol2 = NAN;
+                sol2 = -1.f; //there is no other solution
             }
         }
 
@@ -116,7 +116,7 @@ bool Sphere::intersect(const Ray* r, float* distance, HitPoint* hit,
             hit->dpdu = tmp.dpdu;
             hit->dpdv = tmp.dpdv;
         }
-        else if(!std::isnan(sol2) && sol2<=*distance)
+        else if(sol2>0.f && sol2<=*distance)
         {
             //repeat the procedure with second hit, first was invalidated
             hitp = r->apply(sol2);
-- 
2.43.0


From 191b62067d4b0595dbdcc504a4b0faa33bce3f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:36 +0000
Subject: [PATCH 95/95] fix: check that values are finite in Release builds as
 well

---
 src/lights/area_light.cpp                  |  2 +-
 src/materials/microfacet_distributions.cpp |  2 +-
 src/materials/shading_space.cpp            |  2 +-
 src/parsers/config_lexer.l                 |  2 +-
 src/parsers/lex.yy.cc                      |  2 +-
 src/primitives/hit_point.cpp               |  8 ++++----
 src/textures/texture_height.cpp            |  2 +-
 src/utility/utility.hpp                    | 15 +++++++++++++++
 8 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/lights/area_light.cpp b/src/lights/area_light.cpp
index 3f37151..eb04bf8 100644
--- a/src/lights/area_light.cpp
+++ b/src/lights/area_light.cpp
@@ -85,7 +85,7 @@ AreaLight::sample_visible_surface(float r0, float r1, const Point3* pos,
     }
     normal = hit.normal_h;
     *pdf = *distance**distance/(absdot(normal, -(*wi))*AreaLight::area);
-    if(std::isinf(*pdf))
+    if(!is_finite(*pdf))
     {
         *pdf = 0;
         *distance = FLT_MAX;
diff --git a/src/materials/microfacet_distributions.cpp b/src/materials/microfacet_distributions.cpp
index 01d542d..51afd1b 100644
--- a/src/materials/microfacet_distributions.cpp
+++ b/src/materials/microfacet_distributions.cpp
@@ -197,7 +197,7 @@ static inline float lambdaGGXaniso(const Vec3* v, float ax, float ay)
     const float sin = sqrtf(max(0.f, 1.f-cos*cos));
     const float sin2 = sin*sin;
     const float tan = fabsf(sin/cos);
-    if(std::isinf(tan))
+    if(!is_finite(tan))
         return 0.f;
     if(tan == 0) //perpendicular = fully visible
         return 1.f;
diff --git a/src/materials/shading_space.cpp b/src/materials/shading_space.cpp
index a887663..19f2d98 100644
--- a/src/materials/shading_space.cpp
+++ b/src/materials/shading_space.cpp
@@ -11,7 +11,7 @@ ShadingSpace::ShadingSpace(const HitPoint* hp)
     const Vec3 normal(n);
     s = hp->dpdu-normal*dot(normal, hp->dpdu);
     const float len2 = dot(s, s);
-    if(len2>1e-5f*dot(hp->dpdu, hp->dpdu) && std::isfinite(1.f/len2))
+    if(len2>1e-5f*dot(hp->dpdu, hp->dpdu) && is_finite(1.f/len2))
         s = s*(1.f/sqrtf(len2));
     else //no usable tangent, any direction perpendicular to the normal
     {
diff --git a/src/parsers/config_lexer.l b/src/parsers/config_lexer.l
index 90bd473..706d01a 100644
--- a/src/parsers/config_lexer.l
+++ b/src/parsers/config_lexer.l
@@ -33,7 +33,7 @@ static int parse_integer(ConfigDriver& driver, const char* text)
 static float parse_float(ConfigDriver& driver, const char* text)
 {
     float val = (float)strtod(text, NULL);
-    if(!std::isfinite(val))
+    if(!is_finite(val))
     {
         driver.error(loc, MESSAGE_VALUE_RANGE);
         val = 0.f;
diff --git a/src/parsers/lex.yy.cc b/src/parsers/lex.yy.cc
index e613f22..a64cbec 100644
--- a/src/parsers/lex.yy.cc
+++ b/src/parsers/lex.yy.cc
@@ -764,7 +764,7 @@ static int parse_integer(ConfigDriver& driver, const char* text)
 static float parse_float(ConfigDriver& driver, const char* text)
 {
     float val = (float)strtod(text, NULL);
-    if(!std::isfinite(val))
+    if(!is_finite(val))
     {
         driver.error(loc, MESSAGE_VALUE_RANGE);
         val = 0.f;
diff --git a/src/primitives/hit_point.cpp b/src/primitives/hit_point.cpp
index c6a8fc4..ae98562 100644
--- a/src/primitives/hit_point.cpp
+++ b/src/primitives/hit_point.cpp
@@ -62,10 +62,10 @@ void calculate_differentials(HitPoint* hit, Ray* rx, Ray* ry)
         hit->dv.x = (a00*bx1-a10*bx0)*invdet;
         hit->du.y = (a11*by0-a01*by1)*invdet;
         hit->dv.y = (a00*by1-a10*by0)*invdet;
-        hit->differentials = std::isfinite(hit->du.x) &&
-                             std::isfinite(hit->du.y) &&
-                             std::isfinite(hit->dv.x) &&
-                             std::isfinite(hit->dv.y);
+        hit->differentials = is_finite(hit->du.x) &&
+                             is_finite(hit->du.y) &&
+                             is_finite(hit->dv.x) &&
+                             is_finite(hit->dv.y);
     }
     else
         hit->differentials = false;
diff --git a/src/textures/texture_height.cpp b/src/textures/texture_height.cpp
index d09dc8a..c75b8b0 100644
--- a/src/textures/texture_height.cpp
+++ b/src/textures/texture_height.cpp
@@ -73,7 +73,7 @@ TextureHeight::bump(const HitPoint* hp, ShadingSpace* matrix,
     HitPoint bumped;
     bumped.dpdu = dpdu;
     if(len2>1e-10f*dot(hp->dpdu, hp->dpdu)*dot(hp->dpdv, hp->dpdv) &&
-       std::isfinite(1.f/len2))
+       is_finite(1.f/len2))
         bumped.normal_h = (Normal)(bump_normal*(1.f/sqrtf(len2)));
     else //degenerate parametrisation
         bumped.normal_h = hp->normal_h;
diff --git a/src/utility/utility.hpp b/src/utility/utility.hpp
index 4f0f85b..bb903b7 100644
--- a/src/utility/utility.hpp
+++ b/src/utility/utility.hpp
@@ -324,6 +324,21 @@ inline uint32_t swap_endianness(uint32_t num)
            ((num & 0x00FF0000) >> 8) | ((num & 0xFF000000) >> 24);
 }
 
+/** \brief Check if a value is finite
+ *
+ *  Unlike std::isfinite() this function is not optimised away when compiling
+ *  with -Ofast, where the compiler assumes that every value is finite
+ *
+ *  \param[in] val The value that will be checked
+ *  \return false if the value is infinite or not a number, true otherwise
+ */
+inline bool is_finite(float val)
+{
+    uint32_t bits;
+    memcpy(&bits, &val, sizeof(bits));
+    return (bits & 0x7F800000u) != 0x7F800000u;
+}
+
 /** \brief Swap endianness (16-bit)
  *
  *  Convert a big endian number to a little endian one and vice-versa
-- 
2.43.0

