From ca56ea9d882d78876a5359863ebffa16e0d207ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:56 +0000
Subject: [PATCH 01/44] fix: Elongate2D negative half vector had the wrong sign

---
 sdf2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdf2.go b/sdf2.go
index 900ae78..16b2762 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -504,7 +504,7 @@ func Elongate2D(sdf SDF2, h r2.Vec) SDF2 {
 	s := elongate2{
 		sdf: sdf,
 		hp:  r2.Scale(0.5, h),
-		hn:  r2.Scale(0.5, h),
+		hn:  r2.Scale(-0.5, h),
 	}
 	// bounding box
 	bb := d2.Box(sdf.Bounds())
-- 
2.43.0


From 3aef2d7efff56ed90971dda2fbd34a717aba2095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:56 +0000
Subject: [PATCH 02/44] fix: ScaleTwistExtrude slope divided only the constant
 by the height

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 7303faf..57d7fed 100644
--- a/utils.go
+++ b/utils.go
@@ -233,7 +233,7 @@ func ScaleExtrude(height float64, scale r2.Vec) ExtrudeFunc {
 func ScaleTwistExtrude(height, twist float64, scale r2.Vec) ExtrudeFunc {
 	k := twist / height
 	inv := r2.Vec{X: 1 / scale.X, Y: 1 / scale.Y}
-	m := r2.Sub(inv, d2.DivElem(r2.Vec{X: 1, Y: 1}, d2.Elem(height))) // slope
+	m := d2.DivElem(r2.Sub(inv, r2.Vec{X: 1, Y: 1}), d2.Elem(height)) // slope
 	// m := inv.Sub(r2.Vec{1, 1}).DivScalar(height) // slope
 	b := r2.Add(d2.DivElem(inv, d2.Elem(2)), d2.Elem(0.5))
 	// b := inv.DivScalar(2).AddScalar(0.5) // intercept
-- 
2.43.0


From fa60a33f689a18656303610c874b8a9da3bd3c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:15 +0000
Subject: [PATCH 03/44] fix: twisted extrusion bounds ignored the minimum
 corner of the profile

---
 sdf3.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sdf3.go b/sdf3.go
index ac49676..257fed2 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -137,8 +137,7 @@ func TwistExtrude3D(sdf SDF2, height, twist float64) SDF3 {
 	s.height = height / 2
 	s.extrude = TwistExtrude(height, twist)
 	// work out the bounding box
-	bb := sdf.Bounds()
-	l := r2.Norm(bb.Max)
+	l := maxCornerNorm(sdf.Bounds())
 	s.bb = r3.Box{Min: r3.Vec{X: -l, Y: -l, Z: -s.height}, Max: r3.Vec{X: l, Y: l, Z: s.height}}
 	return &s
 }
@@ -163,13 +162,20 @@ func ScaleTwistExtrude3D(sdf SDF2, height, twist float64, scale r2.Vec) SDF3 {
 	s.height = height / 2
 	s.extrude = ScaleTwistExtrude(height, twist, scale)
 	// work out the bounding box
-	bb := d2.Box(sdf.Bounds())
-	bb = bb.Extend(d2.Box{Min: d2.MulElem(bb.Min, scale), Max: d2.MulElem(bb.Max, scale)})
-	l := r2.Norm(bb.Max)
+	// the section is rotated by the twist before it is scaled
+	l := maxCornerNorm(sdf.Bounds()) * math.Max(1, d2.Max(d2.AbsElem(scale)))
 	s.bb = r3.Box{Min: r3.Vec{X: -l, Y: -l, Z: -s.height}, Max: r3.Vec{X: l, Y: l, Z: s.height}}
 	return &s
 }
 
+// maxCornerNorm returns the greatest distance from the origin to a corner of the box.
+func maxCornerNorm(bb r2.Box) float64 {
+	return math.Hypot(
+		math.Max(math.Abs(bb.Min.X), math.Abs(bb.Max.X)),
+		math.Max(math.Abs(bb.Min.Y), math.Abs(bb.Max.Y)),
+	)
+}
+
 // Evaluate returns the minimum distance to an extrusion.
 func (s *extrude3) Evaluate(p r3.Vec) float64 {
 	// sdf for the projected 2d surface
-- 
2.43.0


From 1af7a373f7ce225fe58a81f948d1837f6b08b43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 04/44] fix: Polygon kept the caller slice and turned NaN on
 repeated vertices

---
 form2/must2/poly.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/form2/must2/poly.go b/form2/must2/poly.go
index 9d79db0..75887d6 100644
--- a/form2/must2/poly.go
+++ b/form2/must2/poly.go
@@ -26,10 +26,22 @@ func Polygon(vertex []r2.Vec) sdf.SDF2 {
 		panic("number of vertices < 3")
 	}
 
+	// Copy the vertices (the argument belongs to the caller), leave out those
+	// that repeat the previous one: they'd yield a segment with no direction.
+	s.vertex = make([]r2.Vec, 0, n+1)
+	for i, v := range vertex {
+		if i == 0 || v != s.vertex[len(s.vertex)-1] {
+			s.vertex = append(s.vertex, v)
+		}
+	}
 	// Close the loop (if necessary)
-	s.vertex = vertex
-	if !d2.EqualWithin(vertex[0], vertex[n-1], tolerance) {
-		s.vertex = append(s.vertex, vertex[0])
+	if last := len(s.vertex) - 1; last > 0 && d2.EqualWithin(s.vertex[0], s.vertex[last], tolerance) {
+		s.vertex[last] = s.vertex[0]
+	} else {
+		s.vertex = append(s.vertex, s.vertex[0])
+	}
+	if len(s.vertex) < 3 {
+		panic("number of distinct vertices < 2")
 	}
 
 	// allocate pre-calculated line segment info
-- 
2.43.0


From b54fcae36bdce5d180c86d79264cc3172bbbe9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:30 +0000
Subject: [PATCH 05/44] fix: Union2D left out members by their box alone, which
 is wrong for blends and loose boxes

---
 sdf2.go | 42 +++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/sdf2.go b/sdf2.go
index 16b2762..43e56cb 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -372,9 +372,10 @@ func (s *slice2) Bounds() r2.Box {
 
 // union2 is a union of multiple SDF2 objects.
 type union2 struct {
-	sdf []SDF2
-	min MinFunc
-	bb  r2.Box
+	sdf   []SDF2
+	min   MinFunc
+	blend bool // min was set by the user
+	bb    r2.Box
 }
 
 // Union2D returns the union of multiple SDF2 objects.
@@ -400,33 +401,27 @@ func Union2D(sdf ...SDF2) SDF2Union {
 
 // Evaluate returns the minimum distance to the SDF2 union.
 func (s *union2) Evaluate(p r2.Vec) float64 {
-	// work out the min/max distance for every bounding box
-	vs := make([]r2.Vec, len(s.sdf))
-	minDist2 := -1.0
+	if s.blend {
+		// a blending function may be affected by any of the sdfs.
+		return s.EvaluateSlow(p)
+	}
+	// start off with the sdf that has the closest bounding box
+	minDist2 := make([]float64, len(s.sdf))
 	minIndex := 0
 	for i := range s.sdf {
-		vs[i] = d2.Box(s.sdf[i].Bounds()).MinMaxDist2(p)
-		// as we go record the sdf with the minimum minimum d2 value
-		if minDist2 < 0 || vs[i].X < minDist2 {
-			minDist2 = vs[i].X
+		minDist2[i] = d2.Box(s.sdf[i].Bounds()).MinMaxDist2(p).X
+		if minDist2[i] < minDist2[minIndex] {
 			minIndex = i
 		}
 	}
-
-	var d float64
-	first := true
+	d := s.sdf[minIndex].Evaluate(p)
 	for i := range s.sdf {
-		// only an sdf whose min/max distances overlap
-		// the minimum box are worthy of consideration
-		if i == minIndex || d2.Overlap(vs[minIndex], vs[i]) {
-			x := s.sdf[i].Evaluate(p)
-			if first {
-				first = false
-				d = x
-			} else {
-				d = s.min(d, x)
-			}
+		// an sdf whose bounding box is beyond the distance found
+		// so far cannot be any closer.
+		if i == minIndex || minDist2[i] > 0 && (d <= 0 || minDist2[i] >= d*d) {
+			continue
 		}
+		d = math.Min(d, s.sdf[i].Evaluate(p))
 	}
 	return d
 }
@@ -448,6 +443,7 @@ func (s *union2) EvaluateSlow(p r2.Vec) float64 {
 // SetMin sets the minimum function to control SDF2 blending.
 func (s *union2) SetMin(min MinFunc) {
 	s.min = min
+	s.blend = true
 }
 
 // BoundingBox returns the bounding box of an SDF2 union.
-- 
2.43.0


From 92f5104bdd1cad9c4a8b61dbe7c2da61eae7bb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:39 +0000
Subject: [PATCH 06/44] fix: RenderAll dropped the triangles read along with
 io.EOF

---
 render/io.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/io.go b/render/io.go
index 57653ad..c436508 100644
--- a/render/io.go
+++ b/render/io.go
@@ -15,10 +15,11 @@ func RenderAll(r Renderer) ([]r3.Triangle, error) {
 	buf := make([]r3.Triangle, 1024)
 	for {
 		nt, err = r.ReadTriangles(buf)
+		// triangles may be read together with an error, such as io.EOF.
+		result = append(result, buf[:nt]...)
 		if err != nil {
 			break
 		}
-		result = append(result, buf[:nt]...)
 	}
 	if err == io.EOF {
 		return result, nil
-- 
2.43.0


From 2ce44fc84f9b242e2129f830eae9d4a03e36fdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:57 +0000
Subject: [PATCH 07/44] fix: NewOctreeRenderer panicked on an SDF3 with an
 empty bounding box

---
 render/octree_renderer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/render/octree_renderer.go b/render/octree_renderer.go
index eea2b56..0501499 100644
--- a/render/octree_renderer.go
+++ b/render/octree_renderer.go
@@ -45,6 +45,9 @@ func NewOctreeRenderer(s sdf.SDF3, meshCells int) *octree {
 	bb := d3.Box(s.Bounds())
 	bb = bb.ScaleAboutCenter(1.01)
 	longAxis := d3.Max(bb.Size())
+	if longAxis <= 0 {
+		return &octree{} // there is nothing to render in an empty box.
+	}
 	// We want to test the smallest cube (side == resolution) for emptiness
 	// so the level = 0 cube is at half resolution.
 	resolution := 0.5 * d3.Max(bb.Size()) / float64(meshCells)
-- 
2.43.0


From 0d5e29ad63a28c428c49effd412584f4d1fd8096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:28 +0000
Subject: [PATCH 08/44] fix: Bolt ignored the result of its parameter
 validation

---
 form3/obj3/thread/bolt.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/form3/obj3/thread/bolt.go b/form3/obj3/thread/bolt.go
index 38058a0..eae73d1 100644
--- a/form3/obj3/thread/bolt.go
+++ b/form3/obj3/thread/bolt.go
@@ -31,6 +31,9 @@ func Bolt(k BoltParms) (s sdf.SDF3, err error) {
 	case k.Tolerance < 0:
 		err = errors.New("tolerance < 0")
 	}
+	if err != nil {
+		return nil, err
+	}
 	param := k.Thread.ThreadParams()
 	// head
 	var head sdf.SDF3
-- 
2.43.0


From 6949a0e567598d43212d83a7d6ee64ff42c77ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 09/44] fix: LineOf, Multi and Orient panicked when given fewer
 than two positions

---
 sdf2.go |  8 +++++++-
 sdf3.go | 12 ++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/sdf2.go b/sdf2.go
index 43e56cb..a0f14af 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -560,7 +560,10 @@ func LineOf2D(s SDF2, p0, p1 r2.Vec, pattern string) SDF2 {
 			x = r2.Add(x, dx)
 		}
 	}
-	if len(objects) == 1 {
+	switch len(objects) {
+	case 0:
+		return empty2From(s)
+	case 1:
 		return objects[0]
 	}
 	return Union2D(objects...)
@@ -578,6 +581,9 @@ func Multi2D(s SDF2, positions d2.Set) SDF2 {
 	for i, p := range positions {
 		objects[i] = Transform2D(s, Translate2D(p))
 	}
+	if len(objects) == 1 {
+		return objects[0]
+	}
 	return Union2D(objects...)
 }
 
diff --git a/sdf3.go b/sdf3.go
index 257fed2..bdb81cf 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -877,6 +877,12 @@ func LineOf3D(s SDF3, p0, p1 r3.Vec, pattern string) SDF3 {
 			x = r3.Add(x, dx)
 		}
 	}
+	switch len(objects) {
+	case 0:
+		return empty3From(s)
+	case 1:
+		return objects[0]
+	}
 	return Union3D(objects...)
 }
 
@@ -892,6 +898,9 @@ func Multi3D(s SDF3, positions d3.Set) SDF3 {
 	for i, p := range positions {
 		objects[i] = Transform3D(s, Translate3D(p))
 	}
+	if len(objects) == 1 {
+		return objects[0]
+	}
 	return Union3D(objects...)
 }
 
@@ -907,6 +916,9 @@ func Orient3D(s SDF3, base r3.Vec, directions d3.Set) SDF3 {
 	for i, d := range directions {
 		objects[i] = Transform3D(s, rotateToVec(base, d))
 	}
+	if len(objects) == 1 {
+		return objects[0]
+	}
 	return Union3D(objects...)
 }
 
-- 
2.43.0


From f62094aea0e06cf2f8ea5282af93603c34ba560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:15 +0000
Subject: [PATCH 10/44] fix: EuroRackPanel panicked instead of using the
 default hole diameter

---
 form2/obj2/panel.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/form2/obj2/panel.go b/form2/obj2/panel.go
index b20e43b..fd4d76f 100644
--- a/form2/obj2/panel.go
+++ b/form2/obj2/panel.go
@@ -107,8 +107,10 @@ func EuroRackPanel(k EuroRackParams) (s sdf.SDF2, err error) {
 	if k.CornerRadius < 0 {
 		panic("k.CornerRadius < 0")
 	}
-	if k.HoleDiameter <= 0 {
-		panic("got <=0 hole diameter. file issue at github.com/soypat/sdf if this panic is incorrect")
+	if k.HoleDiameter < 0 {
+		panic("k.HoleDiameter < 0")
+	}
+	if k.HoleDiameter == 0 {
 		k.HoleDiameter = erHoleDiameter
 	}
 
-- 
2.43.0


From 88dfc966ac4fe30a5eb8a52e2dcf58bc0fc93bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:23 +0000
Subject: [PATCH 11/44] fix: Standoff panicked when asked for no hole

---
 form3/obj3/standoff.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/form3/obj3/standoff.go b/form3/obj3/standoff.go
index e0a2b36..fb80802 100644
--- a/form3/obj3/standoff.go
+++ b/form3/obj3/standoff.go
@@ -35,6 +35,9 @@ func Standoff(k StandoffParams) (s sdf.SDF3, err error) {
 	}
 	// Add the pillar hole/stub
 	hole := pillarHole(k)
+	if hole == nil {
+		return s, err
+	}
 	if k.HoleDepth >= 0.0 {
 		s = sdf.Difference3D(s, hole)
 	} else {
-- 
2.43.0


From d0528d485ed67db6448e5af86cfb17d05761be45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:48 +0000
Subject: [PATCH 12/44] fix: Orient3D mirrored the SDF3 for directions opposite
 to the base

---
 matrix.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/matrix.go b/matrix.go
index 3efb58a..3b21a9f 100644
--- a/matrix.go
+++ b/matrix.go
@@ -515,12 +515,12 @@ func rotateToVec(a, b r3.Vec) m44 {
 
 	// are the vectors opposite (180 degrees apart)?
 	if d3.EqualWithin(r3.Scale(-1, a), b, epsilon) {
-		return m44{
-			-1, 0, 0, 0,
-			0, -1, 0, 0,
-			0, 0, -1, 0,
-			0, 0, 0, 1,
+		// half a turn about any axis perpendicular to a.
+		axis := r3.Cross(a, r3.Vec{X: 1})
+		if math.Abs(a.X) > sqrtHalf {
+			axis = r3.Cross(a, r3.Vec{Y: 1})
 		}
+		return Rotate3D(axis, pi)
 	}
 	// general case
 	// See:	https://math.stackexchange.com/questions/180418/calculate-rotation-matrix-to-align-vector-a-to-vector-b-in-3d
-- 
2.43.0


From 327a2c9e7ca9a3d56ac5d90c3b33aae3b78eaff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:57 +0000
Subject: [PATCH 13/44] fix: Revolve3D bounds were a wedge for several full
 turns

---
 sdf3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdf3.go b/sdf3.go
index bdb81cf..b7124f1 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -65,7 +65,7 @@ func Revolve3D(sdf SDF2, theta float64) SDF3 {
 	s.norm = r2.Vec{X: -sin, Y: cos}
 	// work out the bounding box
 	var vset d2.Set
-	if theta == 0 {
+	if s.theta == 0 {
 		vset = []r2.Vec{{X: 1, Y: 1}, {X: -1, Y: -1}}
 	} else {
 		vset = []r2.Vec{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: cos, Y: sin}}
-- 
2.43.0


From cb000eb0d59f8cead0d703464a59926918dbc80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 14/44] fix: Loft3D was NaN at z=0 when the rounding takes up
 all of the height

---
 sdf3.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdf3.go b/sdf3.go
index b7124f1..0979e3f 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -311,7 +311,10 @@ func Loft3D(sdf0, sdf1 SDF2, height, round float64) SDF3 {
 // Evaluate returns the minimum distance to a loft extrusion.
 func (s *loft3) Evaluate(p r3.Vec) float64 {
 	// work out the mix value as a function of height
-	k := clamp((0.5*p.Z/s.height)+0.5, 0, 1)
+	k := 0.5
+	if s.height > 0 {
+		k = clamp((0.5*p.Z/s.height)+0.5, 0, 1)
+	}
 	// mix the 2D SDFs
 	a0 := s.sdf0.Evaluate(r2.Vec{X: p.X, Y: p.Y})
 	a1 := s.sdf1.Evaluate(r2.Vec{X: p.X, Y: p.Y})
-- 
2.43.0


From 291bf29345ff66793a54bb5fd4c55d9b4880e621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 15/44] fix: Screw used the arctangent of the taper angle as
 the slope

---
 form3/obj3/thread/thread.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/form3/obj3/thread/thread.go b/form3/obj3/thread/thread.go
index 61a7ae9..0a7c933 100644
--- a/form3/obj3/thread/thread.go
+++ b/form3/obj3/thread/thread.go
@@ -83,7 +83,7 @@ func (s *screw) Evaluate(p r3.Vec) float64 {
 	// the distance from the 3d z-axis maps to the 2d y-axis
 	p0.Y = math.Sqrt(p.X*p.X + p.Y*p.Y)
 	if s.taper != 0 {
-		p0.Y += p.Z * math.Atan(s.taper)
+		p0.Y += p.Z * math.Tan(s.taper)
 	}
 	// the x/y angle and the z-height map to the 2d x-axis
 	// ie: the position along thread pitch
-- 
2.43.0


From c50bd45323c0adb2e8b9191ce267ad05acd855a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:56 +0000
Subject: [PATCH 16/44] fix: MaxPoly was infinite for n=0 and not a maximum for
 n=1

---
 utils.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/utils.go b/utils.go
index 57d7fed..8d6197a 100644
--- a/utils.go
+++ b/utils.go
@@ -187,16 +187,10 @@ func MaxPoly(n int, k float64) MaxFunc {
 			return -(-math.Min(a, b) - math.Max(k-math.Abs(b-a), 0))
 		}
 	}
-	return maxPoly(n, k)
-}
-
-// maxPoly is the general, non-performant implementation of MaxPoly.
-func maxPoly(n int, k float64) MaxFunc {
-	nf := float64(n)
-	div := 0.5 / nf
+	// max(a, b) = -min(-a, -b)
+	min := MinPoly(n, k)
 	return func(a, b float64) float64 {
-		h := math.Max(k-math.Abs(b-a), 0) / k
-		return -(math.Min(-a, -b) - math.Pow(h, nf)*k*div)
+		return -min(-a, -b)
 	}
 }
 
-- 
2.43.0


From 54d62b8122efbb15fa046a88b34bc12adf30f920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 17/44] fix: PolygonBuilder returned NaN vertices for half
 circle arcs and smoothing of straight corners

---
 form2/must2/poly.go | 11 ++++++++---
 form2/must2/util.go |  3 +++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/form2/must2/poly.go b/form2/must2/poly.go
index 75887d6..63c86c2 100644
--- a/form2/must2/poly.go
+++ b/form2/must2/poly.go
@@ -249,13 +249,14 @@ func (p *PolygonBuilder) arcVertex(i int) bool {
 	// distance from a to midpoint
 	dMid := r2.Norm(r2.Sub(mid, a))
 	// distance from midpoint to center of arc
-	dCenter := math.Sqrt((radius * radius) - (dMid * dMid))
+	// (for a half circle the difference may round to less than 0)
+	dCenter := math.Sqrt(math.Max(0, (radius*radius)-(dMid*dMid)))
 	// center of arc
 	c := r2.Add(mid, r2.Scale(dCenter, n))
 	// work out the angle
 	ac := r2.Unit(r2.Sub(a, c))
 	bc := r2.Unit(r2.Sub(b, c))
-	dtheta := -side * math.Acos(r2.Dot(ac, bc)) / float64(v.facets)
+	dtheta := -side * acos(r2.Dot(ac, bc)) / float64(v.facets)
 	// rotation matrix
 	m := sdf.Rotate(dtheta)
 	// radius vector
@@ -304,7 +305,11 @@ func (p *PolygonBuilder) smoothVertex(i int) bool {
 	// work out the angle
 	v0 := r2.Unit(r2.Sub(vp.vertex, v.vertex))
 	v1 := r2.Unit(r2.Sub(vn.vertex, v.vertex))
-	theta := math.Acos(r2.Dot(v0, v1))
+	if r2.Norm(r2.Add(v0, v1)) < tolerance {
+		// the segments are in line, there is no corner to smooth
+		return false
+	}
+	theta := acos(r2.Dot(v0, v1))
 	// distance from vertex to circle tangent
 	d1 := v.radius / math.Tan(theta/2.0)
 	if d1 > r2.Norm(r2.Sub(vp.vertex, v.vertex)) || d1 > r2.Norm(r2.Sub(vn.vertex, v.vertex)) {
diff --git a/form2/must2/util.go b/form2/must2/util.go
index 8ca718f..16eb81d 100644
--- a/form2/must2/util.go
+++ b/form2/must2/util.go
@@ -20,3 +20,6 @@ func Sign(f float64) float64 {
 
 func d2r(degrees float64) float64 { return degrees * math.Pi / 180. }
 func r2d(radians float64) float64 { return radians / math.Pi * 180. }
+
+// acos returns the arccosine of a dot product of unit vectors, which may be out of [-1,1] by rounding.
+func acos(x float64) float64 { return math.Acos(math.Max(-1, math.Min(1, x))) }
-- 
2.43.0


From 00820fc9c43df3d39e7cf4da77ae087dbeb55f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:09 +0000
Subject: [PATCH 18/44] fix: ImportModel missed the nearest triangle, mixed up
 edge vertices and raced on Evaluate

---
 helpers/sdfexp/import.go   | 39 ++++++++++++++++++++++++++++---
 helpers/sdfexp/spatial2.go |  4 ++--
 helpers/sdfexp/spatial3.go | 47 ++++++++++++++++++++------------------
 3 files changed, 63 insertions(+), 27 deletions(-)

diff --git a/helpers/sdfexp/import.go b/helpers/sdfexp/import.go
index 10fcbc7..7fe99dc 100644
--- a/helpers/sdfexp/import.go
+++ b/helpers/sdfexp/import.go
@@ -31,11 +31,41 @@ type ImportedSDF3 struct {
 }
 
 func (s ImportedSDF3) Evaluate(q r3.Vec) float64 {
-	tri, dist2 := s.tree.Nearest(&meshTriangle{C: q})
-	kd := tri.(*meshTriangle)
-	return kd.CopySign(q, math.Sqrt(dist2))
+	near := nearestTriangle{dist2: math.Inf(1), radius: s.mesh.maxRadius}
+	s.tree.NearestSet(&near, &meshTriangle{C: q})
+	return near.tri.CopySign(q, math.Sqrt(near.dist2))
 }
 
+// nearestTriangle implements kdtree.Keeper. It keeps the triangle closest
+// to the query. The tree is divided by the centroids of the triangles,
+// so triangles may lie up to radius past the plane which divides them.
+type nearestTriangle struct {
+	tri    *meshTriangle
+	dist2  float64
+	radius float64
+}
+
+// Keep stores the triangle if it is closer than the one stored.
+func (n *nearestTriangle) Keep(c kdtree.ComparableDist) {
+	if n.tri == nil || c.Dist < n.dist2 {
+		n.tri, n.dist2 = c.Comparable.(*meshTriangle), c.Dist
+	}
+}
+
+// Max returns the distance up to which centroids are searched for.
+func (n *nearestTriangle) Max() kdtree.ComparableDist {
+	d := math.Sqrt(n.dist2) + n.radius
+	return kdtree.ComparableDist{Comparable: n.tri, Dist: d * d}
+}
+
+// The following methods implement heap.Interface for a single element.
+
+func (n *nearestTriangle) Len() int           { return 1 }
+func (n *nearestTriangle) Less(i, j int) bool { return false }
+func (n *nearestTriangle) Swap(i, j int)      {}
+func (n *nearestTriangle) Push(x interface{}) {}
+func (n *nearestTriangle) Pop() interface{}   { return nil }
+
 func (s ImportedSDF3) Bounds() r3.Box {
 	return r3.Box{
 		Min: s.mesh.bb.Min,
@@ -51,6 +81,8 @@ type mesh struct {
 	// access to edge pseudo normals using vertex index.
 	// Stored with lower index first.
 	pseudoEdgeN map[[2]int]r3.Vec
+	// maxRadius is the maximum distance from the centroid of a triangle to its vertices.
+	maxRadius float64
 }
 
 type pseudoVertex struct {
@@ -129,6 +161,7 @@ func newMesh(triangles []r3.Triangle, tol float64) (*mesh, error) {
 			alpha := math.Acos(r3.Cos(s1, s2))
 			m.vertices[vertexIdx].N = r3.Add(m.vertices[vertexIdx].N, r3.Scale(alpha, norm))
 			sdfT.Vertices[j] = vertexIdx
+			m.maxRadius = math.Max(m.maxRadius, r3.Norm(r3.Sub(m.vertices[vertexIdx].V, sdfT.C)))
 		}
 		m.triangles[i] = sdfT
 		// Calculate edge pseudo normals.
diff --git a/helpers/sdfexp/spatial2.go b/helpers/sdfexp/spatial2.go
index f6c8459..01c2d19 100644
--- a/helpers/sdfexp/spatial2.go
+++ b/helpers/sdfexp/spatial2.go
@@ -66,12 +66,12 @@ func distToLine(p r2.Vec, ln [2]r2.Vec) (r2.Vec, int) {
 	perpend2 := r2.Add(ln[1], perpendicular)
 	e2 := edgeEquation(p, [2]r2.Vec{ln[1], perpend2})
 	if e2 > 0 {
-		return r2.Sub(p, ln[1]), 0
+		return r2.Sub(p, ln[1]), 1
 	}
 	perpend1 := r2.Add(ln[0], perpendicular)
 	e1 := edgeEquation(p, [2]r2.Vec{ln[0], perpend1})
 	if e1 < 0 {
-		return r2.Sub(p, ln[0]), 1
+		return r2.Sub(p, ln[0]), 0
 	}
 	e3 := distToLineInfinite(p, ln) //edgeEquation(p, line)
 	return r2.Scale(-e3, r2.Unit(perpendicular)), 2
diff --git a/helpers/sdfexp/spatial3.go b/helpers/sdfexp/spatial3.go
index 7882f5f..6381777 100644
--- a/helpers/sdfexp/spatial3.go
+++ b/helpers/sdfexp/spatial3.go
@@ -13,14 +13,12 @@ import (
 // with special focus on kdTriangle type.
 
 type meshTriangle struct {
-	C           r3.Vec          // Centroid
-	lastFeature triangleFeature // result from last distance calculation
-	lastClosest r3.Vec
-	Vertices    [3]int
-	m           *mesh        // to be able to construct triangle geometry.
-	N           r3.Vec       // Pseudo Face normal (scaled by 2*pi)
-	T           d3.Transform // Canalis transformation matrix.
-	InvT        d3.Transform // inverse of T
+	C        r3.Vec // Centroid
+	Vertices [3]int
+	m        *mesh        // to be able to construct triangle geometry.
+	N        r3.Vec       // Pseudo Face normal (scaled by 2*pi)
+	T        d3.Transform // Canalis transformation matrix.
+	InvT     d3.Transform // inverse of T
 }
 
 func (t *meshTriangle) Compare(c kdtree.Comparable, d kdtree.Dim) float64 {
@@ -46,7 +44,14 @@ func (t *meshTriangle) Distance(c kdtree.Comparable) float64 {
 		}
 		point, t = t, point // make sure `t` is the triangle.
 	}
-	pxy := t.T.Transform(point.C)
+	closest, _ := t.closest(point.C)
+	return r3.Norm2(r3.Sub(point.C, closest))
+}
+
+// closest returns the point of the triangle closest to p and
+// the feature of the triangle on which the point lies.
+func (t *meshTriangle) closest(p r3.Vec) (r3.Vec, triangleFeature) {
+	pxy := t.T.Transform(p)
 	txy := t.triangle()
 	for i := range txy {
 		txy[i] = t.T.Transform(txy[i])
@@ -54,30 +59,28 @@ func (t *meshTriangle) Distance(c kdtree.Comparable) float64 {
 	// We find the closest point to the transformed triangle
 	// in 2D space and then transform the results back to 3D space
 	onTriangle, feat := closestOnTriangle2(lowerVec(pxy), [3]r2.Vec{lowerVec(txy[0]), lowerVec(txy[1]), lowerVec(txy[2])})
-	t.lastFeature = feat
-	t.lastClosest = t.InvT.Transform(r3.Vec{X: onTriangle.X, Y: onTriangle.Y})
-	return r3.Norm2(r3.Sub(point.C, t.lastClosest))
+	return t.InvT.Transform(r3.Vec{X: onTriangle.X, Y: onTriangle.Y}), feat
 }
 
 // CopySign returns a value with the magnitude of dist
-// and the sign depending on whether the last call to Distance was
-// inside or outside the solid defined by the mesh (SDF).
-// Copysign expects p to be the same vector as last call to Distance.
+// and the sign depending on whether p is inside or outside the solid
+// defined by the mesh (SDF). The triangle should be the closest one to p.
 func (t *meshTriangle) CopySign(p r3.Vec, dist float64) (signed float64) {
-	if t.lastFeature <= featureV2 {
-		// Distance last called nearest to triangle vertex.
-		vertex := t.m.vertices[t.Vertices[t.lastFeature]]
+	closest, feature := t.closest(p)
+	if feature <= featureV2 {
+		// p is nearest to triangle vertex.
+		vertex := t.m.vertices[t.Vertices[feature]]
 		signed = r3.Dot(vertex.N, r3.Sub(p, vertex.V))
-	} else if t.lastFeature <= featureE2 {
-		vertex1 := t.lastFeature - 3
+	} else if feature <= featureE2 {
+		vertex1 := feature - 3
 		edge := [2]int{t.Vertices[vertex1], t.Vertices[(vertex1+1)%3]}
 		if edge[0] > edge[1] {
 			edge[0], edge[1] = edge[1], edge[0]
 		}
 		norm := t.m.pseudoEdgeN[edge]
-		signed = r3.Dot(norm, r3.Sub(p, t.lastClosest))
+		signed = r3.Dot(norm, r3.Sub(p, closest))
 	} else {
-		signed = r3.Dot(t.N, r3.Sub(p, t.lastClosest))
+		signed = r3.Dot(t.N, r3.Sub(p, closest))
 	}
 	return math.Copysign(dist, signed)
 }
-- 
2.43.0


From 363230d48ba8068bd9ae38be49b10044497c5d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:53 +0000
Subject: [PATCH 19/44] fix: ImportModelV2 used the face normal for points
 closest to edges and vertices

---
 helpers/sdfexp/bih.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/helpers/sdfexp/bih.go b/helpers/sdfexp/bih.go
index de24743..ef95170 100644
--- a/helpers/sdfexp/bih.go
+++ b/helpers/sdfexp/bih.go
@@ -198,7 +198,28 @@ func (bi *BIH) minDistTri(target r3.Vec, idx int) (r3.Vec, int) {
 		r3.Add(
 			r3.Scale(p[0], edge0),
 			r3.Scale(p[1], edge1)))
-	return r3.Sub(target, closest), FACE | idx
+	return r3.Sub(target, closest), bi.closestFeature(p, idx)
+}
+
+// closestFeature returns the index of the normal for the point of triangle idx
+// with parameters p along its first and last edges. The index is flagged
+// depending on whether the point lies on a vertex, on an edge or on the face.
+func (bi *BIH) closestFeature(p [2]float64, idx int) int {
+	switch {
+	case p[0] <= 0 && p[1] <= 0:
+		return VERTEX | bi.Indices[idx][0]
+	case p[0] >= 1:
+		return VERTEX | bi.Indices[idx][1]
+	case p[1] >= 1:
+		return VERTEX | bi.Indices[idx][2]
+	case p[1] <= 0:
+		return EDGE | 3*idx
+	case p[0]+p[1] >= 1:
+		return EDGE | (3*idx + 1)
+	case p[0] <= 0:
+		return EDGE | (3*idx + 2)
+	}
+	return FACE | idx
 }
 
 func (bi *BIH) getMinEdge02(a11 float64, b1 float64) (p [2]float64) {
-- 
2.43.0


From ce7f8919579bdf9ba90e7789963f9535305778a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:32 +0000
Subject: [PATCH 20/44] fix: UniformTetrahedronMesh returned NaN nodes for
 cells outside of the solid

---
 helpers/sdfexp/omesh.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/helpers/sdfexp/omesh.go b/helpers/sdfexp/omesh.go
index 671ad40..6922db6 100644
--- a/helpers/sdfexp/omesh.go
+++ b/helpers/sdfexp/omesh.go
@@ -26,6 +26,9 @@ type omesh struct {
 
 func newOmesh(nodes []r3.Vec, tetras [][4]int) *omesh {
 	onodes := make([]onode, len(nodes))
+	for i := range onodes {
+		onodes[i].pos = nodes[i]
+	}
 	for tetidx, tetra := range tetras {
 		for i := range tetra {
 			n := tetra[i]
@@ -73,6 +76,9 @@ func (om *omesh) compressAndSmooth(compress float64, s sdf.SDF3) {
 	boundary := make(map[int]struct{})
 	// first we compress boundary nodes towards sdf surface.
 	for i, nod := range om.nodes {
+		if len(nod.connectivity) == 0 {
+			continue // node is not part of any tetrahedron.
+		}
 		d := s.Evaluate(nod.pos)
 		if d > 0 {
 			boundary[i] = struct{}{}
@@ -82,6 +88,9 @@ func (om *omesh) compressAndSmooth(compress float64, s sdf.SDF3) {
 	}
 	// Apply laplacian smoothing to all non-boundary nodes after compression.
 	for i, nod := range om.nodes {
+		if len(nod.connectivity) == 0 {
+			continue // node is not part of any tetrahedron.
+		}
 		if _, ok := boundary[i]; ok {
 			return // don't smooth boundary nodes.
 		}
-- 
2.43.0


From a1a2cf0e88bba8ab61b7f18a4e0f52a9f70eb291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 21/44] fix: must3 InchesPerMillimetre was 20

---
 form3/must3/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/form3/must3/util.go b/form3/must3/util.go
index 157e512..3239431 100644
--- a/form3/must3/util.go
+++ b/form3/must3/util.go
@@ -3,7 +3,7 @@ package must3
 import "math"
 
 const (
-	InchesPerMillimetre = 20
+	InchesPerMillimetre = 1. / 25.4
 )
 
 func d2r(degrees float64) float64 { return degrees * math.Pi / 180. }
-- 
2.43.0


From 4fea8292fe72eef9e278153cb28c4b9893a80f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:52 +0000
Subject: [PATCH 22/44] fix: MinExp overflowed to infinity away from the
 surface

---
 utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 8d6197a..02120da 100644
--- a/utils.go
+++ b/utils.go
@@ -104,7 +104,8 @@ func MinRound(k float64) MinFunc {
 // MinExp returns a minimum function with exponential smoothing (k = 32).
 func MinExp(k float64) MinFunc {
 	return func(a, b float64) float64 {
-		return -math.Log(math.Exp(-k*a)+math.Exp(-k*b)) / k
+		// the exponentials of the distances themselves may overflow.
+		return math.Min(a, b) - math.Log1p(math.Exp(-k*math.Abs(a-b)))/k
 	}
 }
 
-- 
2.43.0


From 01990aa4fdc86aaec4f98fc199e3c49210e475c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:16 +0000
Subject: [PATCH 23/44] fix: MinPow was positive or NaN for distances that are
 not positive

---
 utils.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/utils.go b/utils.go
index 02120da..be13c96 100644
--- a/utils.go
+++ b/utils.go
@@ -110,12 +110,16 @@ func MinExp(k float64) MinFunc {
 }
 
 // MinPow returns  a minimum function (k = 8).
-// TODO - weird results, is this correct?
+// Only positive distances are blended.
 func MinPow(k float64) MinFunc {
 	return func(a, b float64) float64 {
-		a = math.Pow(a, k)
-		b = math.Pow(b, k)
-		return math.Pow((a*b)/(a+b), 1/k)
+		min, max := math.Min(a, b), math.Max(a, b)
+		if min <= 0 {
+			// powers lose the sign of the distance.
+			return min
+		}
+		// Same as ((a^k * b^k) / (a^k + b^k))^(1/k) without overflow.
+		return min * math.Pow(1+math.Pow(min/max, k), -1/k)
 	}
 }
 
-- 
2.43.0


From 764ec8aed6d58988255b23d254616d95b4909b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:16 +0000
Subject: [PATCH 24/44] fix: Screw bounds were too small for a taper that
 widens towards +z

---
 form3/obj3/thread/thread.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/form3/obj3/thread/thread.go b/form3/obj3/thread/thread.go
index 0a7c933..97ebecc 100644
--- a/form3/obj3/thread/thread.go
+++ b/form3/obj3/thread/thread.go
@@ -71,7 +71,7 @@ func Screw(length float64, thread Threader) (sdf.SDF3, error) {
 	bb := s.thread.Bounds()
 	r := bb.Max.Y
 	// add the taper increment
-	r += s.length * math.Tan(s.taper)
+	r += s.length * math.Abs(math.Tan(s.taper))
 	s.bb = r3.Box{Min: r3.Vec{X: -r, Y: -r, Z: -s.length}, Max: r3.Vec{X: r, Y: r, Z: s.length}}
 	return &s, nil
 }
-- 
2.43.0


From 101e9434b165f383a9b2a18f0bebea35b78361cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:49 +0000
Subject: [PATCH 25/44] fix: unions changed with the argument slice of the
 caller

---
 sdf2.go | 2 +-
 sdf3.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdf2.go b/sdf2.go
index a0f14af..b3c25cd 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -383,7 +383,7 @@ func Union2D(sdf ...SDF2) SDF2Union {
 	if len(sdf) <= 1 {
 		panic("union requires at least 2 sdfs")
 	}
-	s := union2{sdf: sdf}
+	s := union2{sdf: append([]SDF2(nil), sdf...)} // the argument slice belongs to the caller.
 	for _, x := range s.sdf {
 		if x == nil {
 			panic("nil argument found")
diff --git a/sdf3.go b/sdf3.go
index 0979e3f..9333023 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -430,7 +430,7 @@ func Union3D(sdf ...SDF3) SDF3Union {
 		panic("union require at least 2 sdfs")
 	}
 	s := union3{
-		sdf: sdf,
+		sdf: append([]SDF3(nil), sdf...), // the argument slice belongs to the caller.
 	}
 	for i, x := range s.sdf {
 		if x == nil {
-- 
2.43.0


From 74e71706463bf9fb6a4df4400aad81bc92aefa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:25 +0000
Subject: [PATCH 26/44] fix: Revolve3D with several full turns could leave a
 slit or vanish by rounding

---
 sdf3.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdf3.go b/sdf3.go
index 9333023..2dd575f 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -59,6 +59,9 @@ func Revolve3D(sdf SDF2, theta float64) SDF3 {
 	s.sdf = sdf
 	// normalize theta
 	s.theta = math.Mod(math.Abs(theta), tau)
+	if theta > tau && (s.theta < tolerance || tau-s.theta < tolerance) {
+		s.theta = 0 // several full turns, but for rounding.
+	}
 	sin := math.Sin(s.theta)
 	cos := math.Cos(s.theta)
 	// pre-calculate the normal to the theta line
-- 
2.43.0


From efdd487d1bd20a4536f83e522648c535bc96b728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 27/44] fix: Orient3D was NaN or skewed for directions almost
 opposite to the base

---
 matrix.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/matrix.go b/matrix.go
index 3b21a9f..142e52d 100644
--- a/matrix.go
+++ b/matrix.go
@@ -513,14 +513,15 @@ func rotateToVec(a, b r3.Vec) m44 {
 		return identity3d()
 	}
 
-	// are the vectors opposite (180 degrees apart)?
-	if d3.EqualWithin(r3.Scale(-1, a), b, epsilon) {
-		// half a turn about any axis perpendicular to a.
+	// are the vectors (almost) opposite (180 degrees apart)?
+	// The general case would divide by (almost) zero.
+	if 1+r3.Dot(a, b) < 1e-6 {
+		// half a turn about any axis perpendicular to a, then from there to b.
 		axis := r3.Cross(a, r3.Vec{X: 1})
 		if math.Abs(a.X) > sqrtHalf {
 			axis = r3.Cross(a, r3.Vec{Y: 1})
 		}
-		return Rotate3D(axis, pi)
+		return rotateToVec(r3.Scale(-1, a), b).Mul(Rotate3D(axis, pi))
 	}
 	// general case
 	// See:	https://math.stackexchange.com/questions/180418/calculate-rotation-matrix-to-align-vector-a-to-vector-b-in-3d
-- 
2.43.0


From 049d21edbf093e96317510298477115be66bfd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:29 +0000
Subject: [PATCH 28/44] fix: Nut ignored its Tolerance

---
 form3/obj3/thread/nut.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/form3/obj3/thread/nut.go b/form3/obj3/thread/nut.go
index a364f9f..fed949f 100644
--- a/form3/obj3/thread/nut.go
+++ b/form3/obj3/thread/nut.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/soypat/sdf"
 	"github.com/soypat/sdf/form3/must3"
+	"gonum.org/v1/gonum/spatial/r2"
 )
 
 type NutStyle int
@@ -71,9 +72,25 @@ func Nut(k NutParms) (s sdf.SDF3, err error) {
 		return nil, err
 	}
 	// internal thread
-	thread, err := Screw(nh, k.Thread)
+	thread, err := Screw(nh, widened{Threader: k.Thread, tolerance: k.Tolerance})
 	if err != nil {
 		return nil, err
 	}
 	return sdf.Difference3D(nut, thread), nil
 }
+
+// widened is a Threader with a tolerance added to the radius of its profile.
+type widened struct {
+	Threader
+	tolerance float64
+}
+
+func (w widened) Thread() (sdf.SDF2, error) {
+	profile, err := w.Threader.Thread()
+	if err != nil || w.tolerance == 0 {
+		return profile, err
+	}
+	// the union keeps the core that the profile is moved away from.
+	moved := sdf.Transform2D(profile, sdf.Translate2D(r2.Vec{Y: w.tolerance}))
+	return sdf.Union2D(profile, moved), nil
+}
-- 
2.43.0


From 62a7f77b7463ff4c2135e8e5f3dbac2004c227a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:28 +0000
Subject: [PATCH 29/44] fix: tapered Screw had a conical hole along its axis

---
 form3/obj3/thread/thread.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/form3/obj3/thread/thread.go b/form3/obj3/thread/thread.go
index 97ebecc..3867ab5 100644
--- a/form3/obj3/thread/thread.go
+++ b/form3/obj3/thread/thread.go
@@ -83,7 +83,8 @@ func (s *screw) Evaluate(p r3.Vec) float64 {
 	// the distance from the 3d z-axis maps to the 2d y-axis
 	p0.Y = math.Sqrt(p.X*p.X + p.Y*p.Y)
 	if s.taper != 0 {
-		p0.Y += p.Z * math.Tan(s.taper)
+		// reflect at the axis, profiles only have the half above it.
+		p0.Y = math.Abs(p0.Y + p.Z*math.Tan(s.taper))
 	}
 	// the x/y angle and the z-height map to the 2d x-axis
 	// ie: the position along thread pitch
-- 
2.43.0


From 6d4c2f4a858f537c2d33216afec1c64cef34a31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:16 +0000
Subject: [PATCH 30/44] fix: marching cubes emitted triangles that collapse to
 a point

---
 render/marchingcubes.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/marchingcubes.go b/render/marchingcubes.go
index c187565..789c331 100644
--- a/render/marchingcubes.go
+++ b/render/marchingcubes.go
@@ -46,7 +46,8 @@ func mcToTriangles(dst []r3.Triangle, p [8]r3.Vec, v [8]float64, x float64) (n i
 			points[table[i*3+1]],
 			points[table[i*3+0]],
 		}
-		if !t.IsDegenerate(1e-12) {
+		// IsDegenerate does not recognize triangles that collapse to a point.
+		if t[0] != t[1] && !t.IsDegenerate(1e-12) {
 			dst[n] = t
 			n++
 		}
-- 
2.43.0


From b420ea14cc3caba5d0505f8877c028572c349cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:16 +0000
Subject: [PATCH 31/44] fix: marching cubes left T-junctions where both ends of
 an edge are on the surface

---
 render/marchingcubes.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/render/marchingcubes.go b/render/marchingcubes.go
index 789c331..4a75a11 100644
--- a/render/marchingcubes.go
+++ b/render/marchingcubes.go
@@ -67,16 +67,18 @@ func mcInterpolate(p1, p2 r3.Vec, v1, v2, x float64) r3.Vec {
 		return p2
 	}
 
-	var t float64
-
 	if closeToV1 && closeToV2 {
-		// Pick the half way point
-		t = 0.5
-	} else {
-		// linear interpolation
-		t = (x - v1) / (v2 - v1)
+		// Pick the end on the inside. A point between the ends would be in line
+		// with them, and other edges of the cube may pick either of the ends.
+		if v1 < v2 {
+			return p1
+		}
+		return p2
 	}
 
+	// linear interpolation
+	t := (x - v1) / (v2 - v1)
+
 	return r3.Vec{
 		X: p1.X + t*(p2.X-p1.X),
 		Y: p1.Y + t*(p2.Y-p1.Y),
-- 
2.43.0


From 614bc84ac2e202f79df41bb5aa312683aac2013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:53 +0000
Subject: [PATCH 32/44] fix: 3MF objects referred to a property group 0, which
 cannot exist

---
 render/3mf.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/3mf.go b/render/3mf.go
index feea79c..718f45f 100644
--- a/render/3mf.go
+++ b/render/3mf.go
@@ -86,8 +86,8 @@ type mf3object struct {
 	ID         int     `xml:"id,attr"`
 	Name       string  `xml:"name,attr"`
 	PartNumber string  `xml:"partnumber,attr"`
-	PID        int     `xml:"pid,attr"`
-	PIndex     int     `xml:"pindex,attr"`
+	PID        int     `xml:"pid,attr,omitempty"`
+	PIndex     int     `xml:"pindex,attr,omitempty"`
 	Type       string  `xml:"type,attr"`
 	Mesh       mf3Mesh `xml:"mesh"`
 }
-- 
2.43.0


From 42591e4349fa0ef434910947338b016e144f3ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:53 +0000
Subject: [PATCH 33/44] fix: 3MF metadata had names that the core specification
 does not allow

---
 render/3mf.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/3mf.go b/render/3mf.go
index 718f45f..3dd1265 100644
--- a/render/3mf.go
+++ b/render/3mf.go
@@ -19,7 +19,7 @@ const (
 
 var (
 	libMetadata = modelMetadata{
-		Name:        "generator",
+		Name:        "Application",
 		Description: "Generated by github.com/soypat/sdf. Please report bugs.",
 	}
 )
@@ -33,7 +33,7 @@ func Create3MF(filename string, r Renderer) error {
 		return err
 	}
 	mf := new3MF([]modelMetadata{
-		{Name: "author", Description: "anonymous"},
+		{Name: "Designer", Description: "anonymous"},
 	})
 	err = mf.AddObject("SDFMesh", t)
 	if err != nil {
-- 
2.43.0


From 1e29e04c441936be27aca84fe380f8b81e0f1f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:02 +0000
Subject: [PATCH 34/44] fix: ImportModelV2 ignored triangles with a right angle
 for points level with one of their sides

---
 helpers/sdfexp/bih.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers/sdfexp/bih.go b/helpers/sdfexp/bih.go
index ef95170..a3c21c1 100644
--- a/helpers/sdfexp/bih.go
+++ b/helpers/sdfexp/bih.go
@@ -117,7 +117,7 @@ func (bi *BIH) minDistTri(target r3.Vec, idx int) (r3.Vec, int) {
 	var dt1, h0, h1 float64
 
 	if f00 >= 0 {
-		if f01 > 0 {
+		if f01 >= 0 {
 			p = bi.getMinEdge02(a11, b1)
 		} else {
 			p0[0] = 0
-- 
2.43.0


From d119945b5f639c7dee37ef376dd7c8647ee60a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:27 +0000
Subject: [PATCH 35/44] fix: imported models did not share vertices within
 tolerance when a multiple of it lies between them

---
 helpers/sdfexp/bih.go      | 15 +++----------
 helpers/sdfexp/import.go   | 13 +++---------
 helpers/sdfexp/spatial3.go | 43 ++++++++++++++++++++++++++++++++++++++
 3 files changed, 49 insertions(+), 22 deletions(-)

diff --git a/helpers/sdfexp/bih.go b/helpers/sdfexp/bih.go
index a3c21c1..15b7f4b 100644
--- a/helpers/sdfexp/bih.go
+++ b/helpers/sdfexp/bih.go
@@ -488,23 +488,14 @@ func ImportModelV2(model []r3.Triangle, tol float64) (*BIH, error) {
 		return nil, errors.New("tolerance too small. overflowed int64")
 	}
 
-	vert_cache := make(map[[3]int64]int)
+	vert_cache := newVertexCache(tol)
 	// copy the model into the vertex and mesh arrays
-	hTol := 0.5 * tol
 	for i, tri := range model {
 		for j, v := range tri {
 			// look for a vertex within tolerance
-			index := [3]int64{
-				int64((v.X + hTol) / tol),
-				int64((v.Y + hTol) / tol),
-				int64((v.Z + hTol) / tol),
-			}
-			if vidx, ok := vert_cache[index]; !ok {
+			mesh[i][j] = vert_cache.index(v, len(vertices))
+			if mesh[i][j] == len(vertices) {
 				vertices = append(vertices, v)
-				mesh[i][j] = len(vertices) - 1
-				vert_cache[index] = len(vertices) - 1
-			} else {
-				mesh[i][j] = vidx
 			}
 		}
 	}
diff --git a/helpers/sdfexp/import.go b/helpers/sdfexp/import.go
index 7fe99dc..1aa29bb 100644
--- a/helpers/sdfexp/import.go
+++ b/helpers/sdfexp/import.go
@@ -129,9 +129,7 @@ func newMesh(triangles []r3.Triangle, tol float64) (*mesh, error) {
 	if div > math.MaxInt64/2 {
 		return nil, errors.New("tolerance too small. overflowed int64")
 	}
-	//vertex index cache
-	cache := make(map[[3]int64]int)
-	ri := 1 / tol
+	cache := newVertexCache(tol)
 	for i, tri := range triangles {
 		norm := r3.Unit(tri.Normal())
 		Tform := canalisTransform(tri)
@@ -144,14 +142,9 @@ func newMesh(triangles []r3.Triangle, tol float64) (*mesh, error) {
 			m:    m,
 		}
 		for j, vert := range triangles[i] {
-			// Scale vert to be integer in resolution-space.
-			v := r3.Scale(ri, vert)
-			vi := [3]int64{int64(v.X), int64(v.Y), int64(v.Z)}
-			vertexIdx, ok := cache[vi]
-			if !ok {
+			vertexIdx := cache.index(vert, len(m.vertices))
+			if vertexIdx == len(m.vertices) {
 				// Initialize the vertex if not in cache.
-				vertexIdx = len(m.vertices)
-				cache[vi] = vertexIdx
 				m.vertices = append(m.vertices, pseudoVertex{
 					V: vert,
 				})
diff --git a/helpers/sdfexp/spatial3.go b/helpers/sdfexp/spatial3.go
index 6381777..6ab725a 100644
--- a/helpers/sdfexp/spatial3.go
+++ b/helpers/sdfexp/spatial3.go
@@ -150,3 +150,46 @@ func divergence(p r3.Vec, tol float64, f func(r3.Vec) r3.Vec) float64 {
 func laplacian(p r3.Vec, tol float64, f func(r3.Vec) float64) float64 {
 	return divergence(p, tol, func(v r3.Vec) r3.Vec { return gradient(p, tol, f) })
 }
+
+// vertexCache finds vertices which are the same to within a tolerance.
+type vertexCache struct {
+	tol float64
+	// cells has the vertices in each cube of side 2*tol.
+	cells map[[3]int64][]cachedVertex
+}
+
+type cachedVertex struct {
+	pos r3.Vec
+	idx int
+}
+
+func newVertexCache(tol float64) vertexCache {
+	return vertexCache{tol: tol, cells: make(map[[3]int64][]cachedVertex)}
+}
+
+func (c vertexCache) cell(v r3.Vec) [3]int64 {
+	v = r3.Scale(0.5/c.tol, v)
+	return [3]int64{int64(math.Floor(v.X)), int64(math.Floor(v.Y)), int64(math.Floor(v.Z))}
+}
+
+// index returns the index of a vertex within tolerance of v along every axis.
+// If there is none v is stored with the index next, which is returned.
+func (c vertexCache) index(v r3.Vec, next int) int {
+	// Vertices within tolerance may be across the sides of the cell of v.
+	tol := r3.Vec{X: c.tol, Y: c.tol, Z: c.tol}
+	min, max := c.cell(r3.Sub(v, tol)), c.cell(r3.Add(v, tol))
+	for x := min[0]; x <= max[0]; x++ {
+		for y := min[1]; y <= max[1]; y++ {
+			for z := min[2]; z <= max[2]; z++ {
+				for _, cv := range c.cells[[3]int64{x, y, z}] {
+					if d3.Max(d3.AbsElem(r3.Sub(cv.pos, v))) <= c.tol {
+						return cv.idx
+					}
+				}
+			}
+		}
+	}
+	at := c.cell(v)
+	c.cells[at] = append(c.cells[at], cachedVertex{pos: v, idx: next})
+	return next
+}
-- 
2.43.0


From bf6141348a1314d2d717147abae257d8fd867bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:57 +0000
Subject: [PATCH 36/44] fix: UniformTetrahedronMesh mixed up the corners of
 cells

---
 helpers/sdfexp/bccmesh.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/helpers/sdfexp/bccmesh.go b/helpers/sdfexp/bccmesh.go
index 3c47b3f..d6a6324 100644
--- a/helpers/sdfexp/bccmesh.go
+++ b/helpers/sdfexp/bccmesh.go
@@ -22,7 +22,7 @@ type bccMatrix struct {
 
 type bccidx int
 
-// BCC node indices. follow same ordering as BoundingBox.Vertices.
+// BCC node indices.
 const (
 	i000 bccidx = iota
 	ix00
@@ -144,7 +144,17 @@ func (t *bccMesh) meshTetraBCC() (nodes []r3.Vec, tetras [][4]int) {
 	tetras = make([][4]int, 0, len(t.matrix.nodes))
 	t.matrix.foreach(func(_, _, _ int, node *bccNode) {
 		bb := d3.Box(node.box())
-		vert := bb.Vertices()
+		// Box vertices in the order of the BCC node indices.
+		vert := [ictr]r3.Vec{
+			i000: {X: bb.Min.X, Y: bb.Min.Y, Z: bb.Min.Z},
+			ix00: {X: bb.Max.X, Y: bb.Min.Y, Z: bb.Min.Z},
+			ixy0: {X: bb.Max.X, Y: bb.Max.Y, Z: bb.Min.Z},
+			i0y0: {X: bb.Min.X, Y: bb.Max.Y, Z: bb.Min.Z},
+			i00z: {X: bb.Min.X, Y: bb.Min.Y, Z: bb.Max.Z},
+			ix0z: {X: bb.Max.X, Y: bb.Min.Y, Z: bb.Max.Z},
+			ixyz: {X: bb.Max.X, Y: bb.Max.Y, Z: bb.Max.Z},
+			i0yz: {X: bb.Min.X, Y: bb.Max.Y, Z: bb.Max.Z},
+		}
 		nctr := n
 		node.bccnod[ictr] = nctr
 		n++
-- 
2.43.0


From e7aba0b505d2f37533c010fc83e064f2e02d064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:37 +0000
Subject: [PATCH 37/44] fix: buttress threads had a step where one pitch meets
 the next

The profile had the groove of one pitch only, which is not in the middle of it,
so that the distance jumped (and a rounded crest was cut off) at the end of each
pitch. Renders of screws, bolts and nuts with these threads had open edges.
---
 form3/obj3/thread/ansibuttress.go    | 17 ++++++++++-------
 form3/obj3/thread/plasticbuttress.go | 17 ++++++++++-------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/form3/obj3/thread/ansibuttress.go b/form3/obj3/thread/ansibuttress.go
index f889a36..28a7c6e 100644
--- a/form3/obj3/thread/ansibuttress.go
+++ b/form3/obj3/thread/ansibuttress.go
@@ -34,13 +34,16 @@ func (ansi ANSIButtress) Thread() (sdf.SDF2, error) {
 	h1 := ((b / 2.0) * ansi.P) + (0.5 * h0)
 	hp := ansi.P / 2.0
 
+	// the grooves to the left and right may be closer than the one in the middle.
 	tp := must2.NewPolygon()
-	tp.Add(ansi.P, 0)
-	tp.Add(ansi.P, radius)
-	tp.Add(hp-((h0-h1)*t1), radius)
-	tp.Add(t0*h0-hp, radius-h1).Smooth(0.0714*ansi.P, 5)
-	tp.Add((h0-h1)*t0-hp, radius)
-	tp.Add(-ansi.P, radius)
-	tp.Add(-ansi.P, 0)
+	tp.Add(1.5*ansi.P, 0)
+	tp.Add(1.5*ansi.P, radius)
+	for x := ansi.P; x >= -ansi.P; x -= ansi.P {
+		tp.Add(x+hp-((h0-h1)*t1), radius)
+		tp.Add(x+t0*h0-hp, radius-h1).Smooth(0.0714*ansi.P, 5)
+		tp.Add(x+(h0-h1)*t0-hp, radius)
+	}
+	tp.Add(-1.5*ansi.P, radius)
+	tp.Add(-1.5*ansi.P, 0)
 	return must2.Polygon(tp.Vertices()), nil
 }
diff --git a/form3/obj3/thread/plasticbuttress.go b/form3/obj3/thread/plasticbuttress.go
index b324989..c6f1c20 100644
--- a/form3/obj3/thread/plasticbuttress.go
+++ b/form3/obj3/thread/plasticbuttress.go
@@ -33,13 +33,16 @@ func (butt PlasticButtress) Thread() (sdf.SDF2, error) {
 	h1 := ((b / 2.0) * butt.P) + (0.5 * h0)
 	hp := butt.P / 2.0
 
+	// the grooves to the left and right may be closer than the one in the middle.
 	tp := must2.NewPolygon()
-	tp.Add(butt.P, 0)
-	tp.Add(butt.P, radius)
-	tp.Add(hp-((h0-h1)*t1), radius).Smooth(0.05*butt.P, 5)
-	tp.Add(t0*h0-hp, radius-h1).Smooth(0.15*butt.P, 5)
-	tp.Add((h0-h1)*t0-hp, radius).Smooth(0.15*butt.P, 5)
-	tp.Add(-butt.P, radius)
-	tp.Add(-butt.P, 0)
+	tp.Add(1.5*butt.P, 0)
+	tp.Add(1.5*butt.P, radius)
+	for x := butt.P; x >= -butt.P; x -= butt.P {
+		tp.Add(x+hp-((h0-h1)*t1), radius).Smooth(0.05*butt.P, 5)
+		tp.Add(x+t0*h0-hp, radius-h1).Smooth(0.15*butt.P, 5)
+		tp.Add(x+(h0-h1)*t0-hp, radius).Smooth(0.15*butt.P, 5)
+	}
+	tp.Add(-1.5*butt.P, radius)
+	tp.Add(-1.5*butt.P, 0)
 	return must2.Polygon(tp.Vertices()), nil
 }
-- 
2.43.0


From 6dc32ae8b7c07a03a009e26f55f626ddf68c4b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:35 +0000
Subject: [PATCH 38/44] fix: marching cubes gave the same point different
 coordinates in neighbouring cubes

---
 render/marchingcubes.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/render/marchingcubes.go b/render/marchingcubes.go
index 4a75a11..cfe212b 100644
--- a/render/marchingcubes.go
+++ b/render/marchingcubes.go
@@ -76,6 +76,11 @@ func mcInterpolate(p1, p2 r3.Vec, v1, v2, x float64) r3.Vec {
 		return p2
 	}
 
+	// Cubes that share the edge may have it in the other direction. The point
+	// must be the same in all of them.
+	if p2.X < p1.X || p2.Y < p1.Y || p2.Z < p1.Z {
+		p1, p2, v1, v2 = p2, p1, v2, v1
+	}
 	// linear interpolation
 	t := (x - v1) / (v2 - v1)
 
-- 
2.43.0


From 2445ee4276252f4e1c3fc41f723abc93b98b2c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:20 +0000
Subject: [PATCH 39/44] fix: ImportModelV2 ran forever or had wrong signs where
 surfaces share an edge or a vertex

---
 helpers/sdfexp/bih.go | 88 +++++++++++++------------------------------
 1 file changed, 27 insertions(+), 61 deletions(-)

diff --git a/helpers/sdfexp/bih.go b/helpers/sdfexp/bih.go
index 15b7f4b..c2d4010 100644
--- a/helpers/sdfexp/bih.go
+++ b/helpers/sdfexp/bih.go
@@ -449,6 +449,14 @@ func calc_alpha_wnormal(tri [3]int, vert_idx int, vertices []r3.Vec) (float64, r
 	return alpha, r3.Scale(alpha, r3.Unit(norm))
 }
 
+// sortedEdge returns the edge between two vertices regardless of its direction.
+func sortedEdge(a, b int) [2]int {
+	if a > b {
+		a, b = b, a
+	}
+	return [2]int{a, b}
+}
+
 func ImportModelV2(model []r3.Triangle, tol float64) (*BIH, error) {
 	vertices := make([]r3.Vec, 0)
 	mesh := make([][3]int, len(model))
@@ -535,78 +543,36 @@ func ImportModelV2(model []r3.Triangle, tol float64) (*BIH, error) {
 		face_normals[i] = r3.Unit(r3.Cross(ba, ca))
 	}
 
+	// Several surfaces may share an edge or a vertex, so pseudonormals are the sums
+	// over all of the faces that meet there.
 	next_j := []int{1, 2, 0}
-	edge_pseudonormals := make([]r3.Vec, 3*len(mesh))
+	edge_sums := make(map[[2]int]r3.Vec)
 	first_nonclosed := true
 	for i, tri := range mesh {
-		cur_normal := face_normals[i]
 		for j := range tri {
 			// flip order to find the other edge
 			other := [2]int{tri[next_j[j]], tri[j]}
-			if other_face, ok := edges[other]; !ok {
-				if first_nonclosed {
-					fmt.Println("w: non closed edge detected")
-					first_nonclosed = false
-				}
-				// this edge is only adjacent to this triangle,
-				// store this triangle's face normal as its normal
-				edge_pseudonormals[3*i+j] = cur_normal
-			} else {
-				other_normal := face_normals[other_face]
-				edge_normal := r3.Add(r3.Scale(0.5, cur_normal), r3.Scale(0.5, other_normal))
-				edge_pseudonormals[3*i+j] = edge_normal
+			if _, ok := edges[other]; !ok && first_nonclosed {
+				fmt.Println("w: non closed edge detected")
+				first_nonclosed = false
 			}
+			id := sortedEdge(tri[j], tri[next_j[j]])
+			edge_sums[id] = r3.Add(edge_sums[id], face_normals[i])
+		}
+	}
+	edge_pseudonormals := make([]r3.Vec, 3*len(mesh))
+	for i, tri := range mesh {
+		for j := range tri {
+			edge_pseudonormals[3*i+j] = edge_sums[sortedEdge(tri[j], tri[next_j[j]])]
 		}
 	}
 
+	// the normals of faces around a vertex are weighted by their angles
 	vertex_pseudonormals := make([]r3.Vec, len(vertices))
-	for i, tri := range mesh {
-		// for each vertex check to see if it hasn't already been calculated
-		// if it hasn't then calculate it
-		for j, idx := range tri {
-			// if it hasn't been calculated it should be zero
-			if dist_sq(vertex_pseudonormals[idx]) < 0.5 {
-				// calculate it by traversing along all the edges sharing that vertex
-				alpha, wnormal := calc_alpha_wnormal(tri, idx, vertices)
-				normal_tot := wnormal
-				weights := alpha
-
-				edge_vert := tri[next_j[j]]
-				next_tri, ok := edges[[2]int{edge_vert, idx}]
-				//fmt.Printf("next tri %v %v %v\n", mesh[next_tri], edge_vert, idx)
-				for ok && next_tri != i {
-					alpha, wnormal = calc_alpha_wnormal(mesh[next_tri], idx, vertices)
-					normal_tot = r3.Add(normal_tot, wnormal)
-					weights += alpha
-
-					vert_idx := -1
-					edge_idx := -1
-					for k, jdx := range mesh[next_tri] {
-						if jdx == idx {
-							vert_idx = k
-						}
-						if jdx == edge_vert {
-							edge_idx = k
-						}
-					}
-
-					if vert_idx == -1 || edge_idx == -1 {
-						fmt.Printf("triangle doesn't match vertex or edge %v %v %v\n", mesh[next_tri], edge_vert, idx)
-						panic("unreachable state; reached a triangle not containing the proper adjacent edge")
-					}
-					// the indexes all sum up to 3, so subtracting the other two indices
-					// returns the missing one
-					edge_vert = mesh[next_tri][3-vert_idx-edge_idx]
-					// and each matching triangle can be found using
-					// its edge some edge-vertex
-					next_tri, ok = edges[[2]int{edge_vert, idx}]
-					//fmt.Printf("next tri2 %v %v %v\n", mesh[next_tri], edge_vert, idx)
-				}
-				if !ok {
-					//fmt.Printf("w: incomplete vertex traversal, %v\n", vertices[idx])
-				}
-				vertex_pseudonormals[idx] = r3.Scale(1/alpha, normal_tot)
-			}
+	for _, tri := range mesh {
+		for _, idx := range tri {
+			_, wnormal := calc_alpha_wnormal(tri, idx, vertices)
+			vertex_pseudonormals[idx] = r3.Add(vertex_pseudonormals[idx], wnormal)
 		}
 	}
 
-- 
2.43.0


From 9cba142ef3483f8495d718fdf2db4492aa355538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:15 +0000
Subject: [PATCH 40/44] fix: trim only the webs of a standoff to its height,
 not the pillar to the webs

---
 form3/obj3/standoff.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/form3/obj3/standoff.go b/form3/obj3/standoff.go
index fb80802..757af90 100644
--- a/form3/obj3/standoff.go
+++ b/form3/obj3/standoff.go
@@ -28,10 +28,9 @@ func Standoff(k StandoffParams) (s sdf.SDF3, err error) {
 	s = pillar(k)
 	if k.NumberWebs > 0 {
 		webs := sdf.RotateCopy3D(pillarWeb(k), k.NumberWebs)
-		s = sdf.Union3D(s, webs)
 		// Cut off any part of the webs that protrude from the top of the pillar
-		cut := form3.Cylinder(k.PillarHeight, k.WebDiameter, 0)
-		s = sdf.Intersect3D(s, cut)
+		cut := form3.Cylinder(k.PillarHeight, 0.5*(k.WebDiameter+k.WebWidth), 0)
+		s = sdf.Union3D(s, sdf.Intersect3D(webs, cut))
 	}
 	// Add the pillar hole/stub
 	hole := pillarHole(k)
-- 
2.43.0


From b93729227879c9381c2517255fef8b184308c802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:24 +0000
Subject: [PATCH 41/44] fix: imported meshes with slivers had wrong signs, the
 angles of vertices were NaN

---
 helpers/sdfexp/bih.go    | 1 +
 helpers/sdfexp/import.go | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/helpers/sdfexp/bih.go b/helpers/sdfexp/bih.go
index c2d4010..a1acf35 100644
--- a/helpers/sdfexp/bih.go
+++ b/helpers/sdfexp/bih.go
@@ -445,6 +445,7 @@ func calc_alpha_wnormal(tri [3]int, vert_idx int, vertices []r3.Vec) (float64, r
 	norm := r3.Cross(ba, ca)
 
 	cosalpha := r3.Dot(ba, ca) / (dist(ba) * dist(ca))
+	cosalpha = math.Max(-1, math.Min(1, cosalpha)) // may round to beyond 1 for slivers.
 	alpha := math.Acos(cosalpha)
 	return alpha, r3.Scale(alpha, r3.Unit(norm))
 }
diff --git a/helpers/sdfexp/import.go b/helpers/sdfexp/import.go
index 1aa29bb..022eb31 100644
--- a/helpers/sdfexp/import.go
+++ b/helpers/sdfexp/import.go
@@ -151,7 +151,8 @@ func newMesh(triangles []r3.Triangle, tol float64) (*mesh, error) {
 			}
 			// Calculate vertex pseudo normal
 			s1, s2 := r3.Sub(vert, tri[(j+1)%3]), r3.Sub(vert, tri[(j+2)%3])
-			alpha := math.Acos(r3.Cos(s1, s2))
+			// the cosine may round to beyond 1 for slivers.
+			alpha := math.Acos(math.Max(-1, math.Min(1, r3.Cos(s1, s2))))
 			m.vertices[vertexIdx].N = r3.Add(m.vertices[vertexIdx].N, r3.Scale(alpha, norm))
 			sdfT.Vertices[j] = vertexIdx
 			m.maxRadius = math.Max(m.maxRadius, r3.Norm(r3.Sub(m.vertices[vertexIdx].V, sdfT.C)))
-- 
2.43.0


From 72a6691acecb52b006ecae1023b68138cb4e2993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:24 +0000
Subject: [PATCH 42/44] fix: characters beyond ASCII moved the copies of
 LineOf2D and LineOf3D

---
 sdf2.go | 3 ++-
 sdf3.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdf2.go b/sdf2.go
index b3c25cd..a5e459d 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -2,6 +2,7 @@ package sdf
 
 import (
 	"math"
+	"unicode/utf8"
 
 	"github.com/soypat/sdf/internal/d2"
 	"github.com/soypat/sdf/internal/d3"
@@ -552,7 +553,7 @@ func LineOf2D(s SDF2, p0, p1 r2.Vec, pattern string) SDF2 {
 	if pattern != "" {
 		x := p0
 		dx := r2.Sub(p1, p0) //p1.Sub(p0).DivScalar(float64(len(pattern)))
-		dx = r2.Scale(1/float64(len(pattern)), dx)
+		dx = r2.Scale(1/float64(utf8.RuneCountInString(pattern)), dx)
 		for _, c := range pattern {
 			if c == 'x' {
 				objects = append(objects, Transform2D(s, Translate2D(x)))
diff --git a/sdf3.go b/sdf3.go
index 2dd575f..620fc4d 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -3,6 +3,7 @@ package sdf
 import (
 	"math"
 	"strconv"
+	"unicode/utf8"
 
 	"github.com/soypat/sdf/internal/d2"
 	"github.com/soypat/sdf/internal/d3"
@@ -874,7 +875,7 @@ func LineOf3D(s SDF3, p0, p1 r3.Vec, pattern string) SDF3 {
 	var objects []SDF3
 	if pattern != "" {
 		x := p0
-		dx := r3.Scale(1/float64(len(pattern)), r3.Sub(p1, p0))
+		dx := r3.Scale(1/float64(utf8.RuneCountInString(pattern)), r3.Sub(p1, p0))
 		// dx := p1.Sub(p0).DivScalar(float64(len(pattern))) //TODO VERIFY
 		for _, c := range pattern {
 			if c == 'x' {
-- 
2.43.0


From 1d24c39188418ac5ca06869b444e3fb00dd78306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:28 +0000
Subject: [PATCH 43/44] fix: rounding one end of a tall hex head cut off the
 other end

---
 form3/obj3/thread/hexhead.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/form3/obj3/thread/hexhead.go b/form3/obj3/thread/hexhead.go
index 937ab59..c3c3f5a 100644
--- a/form3/obj3/thread/hexhead.go
+++ b/form3/obj3/thread/hexhead.go
@@ -30,16 +30,17 @@ func HexHead(radius float64, height float64, round string) (s sdf.SDF3, err erro
 	if round != "" {
 		topRound := radius * 1.6
 		d := radius * math.Cos(30.0*math.Pi/180.0)
-		sphere3d, err := form3.Sphere(topRound)
+		// a sphere drawn out away from the end it rounds, so as to leave the other end alone.
+		capsule, err := form3.Cylinder(height+2*topRound, topRound, topRound)
 		if err != nil {
 			return nil, err
 		}
-		zOfs := math.Sqrt(topRound*topRound-d*d) - height/2
+		zOfs := math.Sqrt(topRound*topRound - d*d)
 		if round == "t" || round == "tb" {
-			hex3d = sdf.Intersect3D(hex3d, sdf.Transform3D(sphere3d, sdf.Translate3D(r3.Vec{X: 0, Y: 0, Z: -zOfs})))
+			hex3d = sdf.Intersect3D(hex3d, sdf.Transform3D(capsule, sdf.Translate3D(r3.Vec{X: 0, Y: 0, Z: -zOfs})))
 		}
 		if round == "b" || round == "tb" {
-			hex3d = sdf.Intersect3D(hex3d, sdf.Transform3D(sphere3d, sdf.Translate3D(r3.Vec{X: 0, Y: 0, Z: zOfs})))
+			hex3d = sdf.Intersect3D(hex3d, sdf.Transform3D(capsule, sdf.Translate3D(r3.Vec{X: 0, Y: 0, Z: zOfs})))
 		}
 	}
 	return hex3d, nil // TODO error handling.
-- 
2.43.0


From d44c671ec86de9936f3b5bb4ba786a731ddf2f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:26 +0000
Subject: [PATCH 44/44] fix: offsets inwards of more than half the size had
 inverted bounds

---
 sdf2.go | 4 +++-
 sdf3.go | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/sdf2.go b/sdf2.go
index a5e459d..f182cb4 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -602,7 +602,9 @@ func Offset2D(sdf SDF2, offset float64) SDF2 {
 	s.offset = offset
 	// work out the bounding box
 	bb := d2.Box(sdf.Bounds())
-	s.bb = r2.Box(d2.NewBox2(bb.Center(), r2.Add(bb.Size(), d2.Elem(2*offset)))) //NewBox2(bb.Center(), r2.Add(bb.Size(), d2.Elem(2*offset)))
+	// a shape shrunk away has a box of no size, not an inverted one.
+	size := d2.MaxElem(r2.Add(bb.Size(), d2.Elem(2*offset)), r2.Vec{})
+	s.bb = r2.Box(d2.NewBox2(bb.Center(), size))
 	return &s
 }
 
diff --git a/sdf3.go b/sdf3.go
index 620fc4d..a2d8f1b 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -826,7 +826,8 @@ func Offset3D(sdf SDF3, offset float64) SDF3 {
 	}
 	// bounding box
 	bb := d3.Box(sdf.Bounds())
-	s.bb = r3.Box(d3.NewBox(bb.Center(), r3.Add(bb.Size(), d3.Elem(2*offset))))
+	// CenteredBox: a shape shrunk away has a box of no size, not an inverted one.
+	s.bb = r3.Box(d3.CenteredBox(bb.Center(), r3.Add(bb.Size(), d3.Elem(2*offset))))
 	return &s
 }
 
-- 
2.43.0

