From 880ec9c6a7daacdeb910f95c80243e96a7700576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:50 +0000
Subject: [PATCH 01/10] fix: r2d_rotate assigned the rotated y coordinate to
 pos.x

---
 src/r2d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r2d.c b/src/r2d.c
index 63936f8..37e35e9 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -426,7 +426,7 @@ void r2d_rotate(r2d_poly* poly, r2d_real theta) {
 	for(v = 0; v < poly->nverts; ++v) {
 		tmp = poly->verts[v].pos;
 		poly->verts[v].pos.x = cosine*tmp.x - sine*tmp.y; 
-		poly->verts[v].pos.x = sine*tmp.x + cosine*tmp.y; 
+		poly->verts[v].pos.y = sine*tmp.x + cosine*tmp.y; 
 	}
 }
 
-- 
2.43.0


From b89a0066cf6a21a327a4529b8c3bdee7dc953929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:50 +0000
Subject: [PATCH 02/10] fix: r2d_box_faces_from_verts lower faces had the sign
 of d flipped

---
 src/r2d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/r2d.c b/src/r2d.c
index 37e35e9..02efe1a 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -517,8 +517,8 @@ void r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts) {
 
 
 void r2d_box_faces_from_verts(r2d_plane* faces, r2d_rvec2* rbounds) {
-	faces[0].n.x = 0.0; faces[0].n.y = 1.0; faces[0].d = rbounds[0].y; 
-	faces[1].n.x = 1.0; faces[1].n.y = 0.0; faces[1].d = rbounds[0].x; 
+	faces[0].n.x = 0.0; faces[0].n.y = 1.0; faces[0].d = -rbounds[0].y; 
+	faces[1].n.x = 1.0; faces[1].n.y = 0.0; faces[1].d = -rbounds[0].x; 
 	faces[2].n.x = 0.0; faces[2].n.y = -1.0; faces[2].d = rbounds[1].y; 
 	faces[3].n.x = -1.0; faces[3].n.y = 0.0; faces[3].d = rbounds[1].x; 
 }
-- 
2.43.0


From a88b6d12696afd8bb48f0aada51556d25e44faa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:50 +0000
Subject: [PATCH 03/10] fix: r2d_split put the positive-side fragment in
 out_neg and vice versa

---
 src/r2d.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/r2d.c b/src/r2d.c
index 02efe1a..55d6301 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -151,7 +151,6 @@ void r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out
 		memset(&side, 0, sizeof(side));
 		for(v = 0; v < *nverts; ++v) {
 			sdists[v] = plane.d + dot(vertbuffer[v].pos, plane.n);
-			sdists[v] *= -1;
 			if(sdists[v] < 0.0) {
 				side[v] = 1;
 				nright++;
-- 
2.43.0


From 17f3a61f4260d2d917e34428790e0f39f2c55d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:50 +0000
Subject: [PATCH 04/10] fix: rNd_affine kept only the last product of each row
 and dropped mat[N][N] from w

---
 src/rNd.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rNd.c b/src/rNd.c
index e16c071..b993a57 100644
--- a/src/rNd.c
+++ b/src/rNd.c
@@ -488,13 +488,13 @@ void rNd_affine(rNd_poly* poly, rNd_real mat[RND_DIM+1][RND_DIM+1]) {
 	for(v = 0; v < poly->nverts; ++v) {
 		tmp = poly->verts[v].pos;
 		// affine transformation
-		for(i = 0; i < RND_DIM; ++i)
-		for(j = 0; j < RND_DIM; ++j)
-			poly->verts[v].pos.xyz[i] = tmp.xyz[j]*mat[i][j];
-		for(i = 0; i < RND_DIM; ++i)
-			poly->verts[v].pos.xyz[i] += mat[i][RND_DIM];
+		for(i = 0; i < RND_DIM; ++i) {
+			poly->verts[v].pos.xyz[i] = mat[i][RND_DIM];
+			for(j = 0; j < RND_DIM; ++j)
+				poly->verts[v].pos.xyz[i] += tmp.xyz[j]*mat[i][j];
+		}
 		// homogeneous divide if w != 1, i.e. in a perspective projection
-		w = 0.0;
+		w = mat[RND_DIM][RND_DIM];
 		for(j = 0; j < RND_DIM; ++j)
 			w += tmp.xyz[j]*mat[RND_DIM][j];
 		for(i = 0; i < RND_DIM; ++i)
-- 
2.43.0


From 9affeac7667ec451583c3a253a26221c7ec62d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:06 +0000
Subject: [PATCH 05/10] fix: rNd_clamp_ibox sized its plane buffer for 3
 dimensions

---
 src/vNd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vNd.c b/src/vNd.c
index 1f8e572..39693f9 100644
--- a/src/vNd.c
+++ b/src/vNd.c
@@ -266,7 +266,7 @@ void rNd_get_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_rvec d) {
 
 void rNd_clamp_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_dvec clampbox[2], rNd_rvec d) {
 	rNd_int i, nboxclip;
-	rNd_plane boxfaces[6];
+	rNd_plane boxfaces[2*RND_DIM];
 	nboxclip = 0;
 	memset(boxfaces, 0, sizeof(boxfaces));
 	for(i = 0; i < RND_DIM; ++i) {
-- 
2.43.0


From 052dab81bd64667ccdb8ce26ef8e505335981369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:44 +0000
Subject: [PATCH 06/10] fix: is_good: reject negative neighbour indices instead
 of indexing with them

---
 src/r2d.c | 4 ++--
 src/r3d.c | 2 +-
 src/rNd.c | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/r2d.c b/src/r2d.c
index 55d6301..75efc99 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -403,8 +403,8 @@ r2d_int r2d_is_good(r2d_poly* poly) {
 		// return false if vertices share an edge with themselves 
 		// or if any edges are obviously invalid
 		if(vertbuffer[v].pnbrs[0] == vertbuffer[v].pnbrs[1]) return 0;
-		if(vertbuffer[v].pnbrs[0] >= *nverts) return 0;
-		if(vertbuffer[v].pnbrs[1] >= *nverts) return 0;
+		if(vertbuffer[v].pnbrs[0] < 0 || vertbuffer[v].pnbrs[0] >= *nverts) return 0;
+		if(vertbuffer[v].pnbrs[1] < 0 || vertbuffer[v].pnbrs[1] >= *nverts) return 0;
 
 		vct[vertbuffer[v].pnbrs[0]]++;
 		vct[vertbuffer[v].pnbrs[1]]++;
diff --git a/src/r3d.c b/src/r3d.c
index bb4abfd..26f4d85 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -496,7 +496,7 @@ r3d_int r3d_is_good(r3d_poly *poly) {
 				printf("Double edge.\n");
 				return 0;
 			}
-			if (vertbuffer[v].pnbrs[np] >= *nverts) {
+			if (vertbuffer[v].pnbrs[np] < 0 || vertbuffer[v].pnbrs[np] >= *nverts) {
 				printf("Bad pointer.\n");
 				return 0;
 			}
diff --git a/src/rNd.c b/src/rNd.c
index b993a57..6e0695e 100644
--- a/src/rNd.c
+++ b/src/rNd.c
@@ -342,7 +342,7 @@ rNd_int rNd_is_good(rNd_poly* poly) {
 				return 0;
 			}
 			// return if any edges are obviously invalid
-			if(vertbuffer[v].pnbrs[np] >= *nverts) {
+			if(vertbuffer[v].pnbrs[np] < 0 || vertbuffer[v].pnbrs[np] >= *nverts) {
 				printf("Bad pointer.\n");
 				return 0;
 			}
-- 
2.43.0


From 1eb936fe658f39fc1a619daee6ceacf622e6d59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:44 +0000
Subject: [PATCH 07/10] fix: r2d_is_good, r3d_is_good: reject vertices that are
 their own neighbour

---
 src/r2d.c | 1 +
 src/r3d.c | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/r2d.c b/src/r2d.c
index 75efc99..54a1515 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -403,6 +403,7 @@ r2d_int r2d_is_good(r2d_poly* poly) {
 		// return false if vertices share an edge with themselves 
 		// or if any edges are obviously invalid
 		if(vertbuffer[v].pnbrs[0] == vertbuffer[v].pnbrs[1]) return 0;
+		if(vertbuffer[v].pnbrs[0] == v || vertbuffer[v].pnbrs[1] == v) return 0;
 		if(vertbuffer[v].pnbrs[0] < 0 || vertbuffer[v].pnbrs[0] >= *nverts) return 0;
 		if(vertbuffer[v].pnbrs[1] < 0 || vertbuffer[v].pnbrs[1] >= *nverts) return 0;
 
diff --git a/src/r3d.c b/src/r3d.c
index 26f4d85..45edf97 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -492,6 +492,10 @@ r3d_int r3d_is_good(r3d_poly *poly) {
 		// return false if two vertices are connected by more than one edge or if
 		// any edges are obviously invalid
 		for (np = 0; np < 3; ++np) {
+			if (vertbuffer[v].pnbrs[np] == v) {
+				printf("Self-pointing vertex.\n");
+				return 0;
+			}
 			if (vertbuffer[v].pnbrs[np] == vertbuffer[v].pnbrs[(np + 1) % 3]) {
 				printf("Double edge.\n");
 				return 0;
-- 
2.43.0


From a930f3bd7efcd6d60ad9bf1a3027787fa2dca7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:44 +0000
Subject: [PATCH 08/10] fix: r3d_is_good, rNd_is_good: size the flood-fill
 stack for all pushed neighbours

---
 src/r3d.c | 2 +-
 src/rNd.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/r3d.c b/src/r3d.c
index 45edf97..1e016aa 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -479,7 +479,7 @@ r3d_int r3d_is_good(r3d_poly *poly) {
 	r3d_int nvstack;
 	r3d_int va, vb, vc;
 	r3d_int vct[R3D_MAX_VERTS];
-	r3d_int stack[R3D_MAX_VERTS];
+	r3d_int stack[3 * R3D_MAX_VERTS];
 	r3d_int regions[R3D_MAX_VERTS];
 
 	// direct access to vertex buffer
diff --git a/src/rNd.c b/src/rNd.c
index 6e0695e..1cb3a26 100644
--- a/src/rNd.c
+++ b/src/rNd.c
@@ -321,7 +321,7 @@ rNd_int rNd_is_good(rNd_poly* poly) {
 	rNd_int v, vc, np, npp, rcur, insubset;
 	rNd_int nvstack;
 	rNd_int vct[RND_MAX_VERTS];
-	rNd_int stack[RND_MAX_VERTS];
+	rNd_int stack[RND_DIM*RND_MAX_VERTS];
 	rNd_int regions[RND_MAX_VERTS];
 	rNd_int subset[RND_DIM-1];
 
-- 
2.43.0


From 5adabc48dee6e775384a66d41a33ec5c68e9a8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:31 +0000
Subject: [PATCH 09/10] fix: r3d_init_brep read past edge_marked for a
 polyhedron with R3D_MAX_VERTS vertices

---
 src/r3d.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/r3d.c b/src/r3d.c
index 1e016aa..e30dfad 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -1205,7 +1205,8 @@ void r3d_init_brep(r3d_poly *poly, r3d_brep **brep, r3d_int *numcomponents) {
 			vstart = nv;
 
 			// find an unwalked edge starting at the this vertex
-			for (np = 0; np < 3; np++) {
+			// (none is left, and nv is one past the end, once every face is walked)
+			for (np = 0; nv < nverts && np < 3; np++) {
 				if (edge_marked[nv][np] == 0) {
 					break;
 				}
-- 
2.43.0


From 1f91e80a8fc51af65ef85d8905ee6e6fc63d55d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:31 +0000
Subject: [PATCH 10/10] fix: r3d_init_brep walked stale vertices of an empty
 polyhedron

---
 src/r3d.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/r3d.c b/src/r3d.c
index e30dfad..767828a 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -1070,6 +1070,13 @@ void r3d_init_brep(r3d_poly *poly, r3d_brep **brep, r3d_int *numcomponents) {
 	r3d_int nc = 0, ncmax = 0, i, np, nv, nf, vstart, vcur, vnext, pedge, nvkept,
             numvertsincomponent, j;
 
+	// an empty polyhedron has no components
+	if (nverts <= 0) {
+		*numcomponents = 0;
+		*brep = NULL;
+		return;
+	}
+
 	// make the mapping of equivalent vertex indices
 	r3d_int vertex_map[nverts];
 	vertex_map[0] = 0;
-- 
2.43.0

