ALL=' '.join('C%02d'%i for i in range(1,34))
bugs=[]
def B(name,props,*edits): bugs.append((name,props,[tuple(e) for e in edits]))
im='helpers/sdfexp/import.go'; bi='helpers/sdfexp/bih.go'; bc='helpers/sdfexp/bccmesh.go'; th='form3/obj3/thread/'
sp='helpers/sdfexp/spatial3.go'
B('expA',ALL,
(im,'''	near := nearestTriangle{dist2: math.Inf(1), radius: s.mesh.maxRadius}
	s.tree.NearestSet(&near, &meshTriangle{C: q})
	return near.tri.CopySign(q, math.Sqrt(near.dist2))
''','''	var near *meshTriangle
	d2 := math.Inf(1)
	point := &meshTriangle{C: q}
	for i := range s.mesh.triangles {
		if t := &s.mesh.triangles[i]; t.Distance(point) < d2 {
			near, d2 = t, t.Distance(point)
		}
	}
	return near.CopySign(q, math.Sqrt(d2))
'''),
(sp,'''	pxy := t.T.Transform(p)
	txy := t.triangle()
''','''	txy := t.triangle()
	pxy := t.T.Transform(p)
'''),
(bi,'''	if len(mesh) <= 4 {''','''	if len(mesh) <= 8 {'''),
(bi,'''		if left_dist_sq < right_dist_sq {
			if left_dist_sq < cur_dist_sq {
				cur_dist_sq, cur_dist, dist_idx = b.nearestDistHelper(target, left_idx, left_bb, cur_dist_sq, cur_dist, dist_idx)
			}
			if right_dist_sq < cur_dist_sq {
				cur_dist_sq, cur_dist, dist_idx = b.nearestDistHelper(target, right_idx, right_bb, cur_dist_sq, cur_dist, dist_idx)
			}
		} else {
			if right_dist_sq < cur_dist_sq {
				cur_dist_sq, cur_dist, dist_idx = b.nearestDistHelper(target, right_idx, right_bb, cur_dist_sq, cur_dist, dist_idx)
			}
			if left_dist_sq < cur_dist_sq {
				cur_dist_sq, cur_dist, dist_idx = b.nearestDistHelper(target, left_idx, left_bb, cur_dist_sq, cur_dist, dist_idx)
			}
		}
''','''		type child struct {
			d2  float64
			idx int
			bb  r3.Box
		}
		order := [2]child{{right_dist_sq, right_idx, right_bb}, {left_dist_sq, left_idx, left_bb}}
		if left_dist_sq <= right_dist_sq {
			order[0], order[1] = order[1], order[0]
		}
		for _, c := range order {
			if c.d2 >= cur_dist_sq {
				break
			}
			cur_dist_sq, cur_dist, dist_idx = b.nearestDistHelper(target, c.idx, c.bb, cur_dist_sq, cur_dist, dist_idx)
		}
'''),
(bi,'''		if dims.X >= dims.Y && dims.X >= dims.Z {
			clipping_plane = X_CLIP
		} else if dims.Y >= dims.X && dims.Y >= dims.Z {
			clipping_plane = Y_CLIP
		} else {
			clipping_plane = Z_CLIP
		}
''','''		if dims.Z >= dims.Y && dims.Z >= dims.X {
			clipping_plane = Z_CLIP
		} else if dims.Y >= dims.X {
			clipping_plane = Y_CLIP
		}
'''),
(bc,'''	for i := 0; i < div[0]; i++ {
		x := (float64(i)+0.5)*resolution + b.Min.X
		for j := 0; j < div[1]; j++ {
			y := (float64(j)+0.5)*resolution + b.Min.Y
			for k := 0; k < div[2]; k++ {
				z := (float64(k)+0.5)*resolution + b.Min.Z
				matrix.setLevel0(i, j, k, bccNode{pos: r3.Vec{x, y, z}, m: mesh, bccnod: unmeshed})
			}
		}
	}
''','''	for n := 0; n < Nnod; n++ {
		i, j, k := n/(div[1]*div[2]), n/div[2]%div[1], n%div[2]
		at := r3.Vec{X: float64(i) + 0.5, Y: float64(j) + 0.5, Z: float64(k) + 0.5}
		pos := r3.Add(b.Min, r3.Scale(resolution, at))
		matrix.setLevel0(i, j, k, bccNode{pos: pos, m: mesh, bccnod: unmeshed})
	}
'''),
('helpers/sdfexp/basicmesh.go','''		nd := [4]r3.Vec{nodes[tetra[0]], nodes[tetra[1]], nodes[tetra[2]], nodes[tetra[3]]}
		if s.Evaluate(nd[0]) < 0 || s.Evaluate(nd[1]) < 0 || s.Evaluate(nd[2]) < 0 || s.Evaluate(nd[3]) < 0 {
			newtetras = append(newtetras, tetra)
		}
''','''		for _, n := range tetra {
			if inside(n) {
				newtetras = append(newtetras, tetra)
				break
			}
		}
'''),
('helpers/sdfexp/basicmesh.go','''	newtetras := make(''','''	known := make(map[int]bool, len(nodes))
	inside := func(n int) bool {
		in, ok := known[n]
		if !ok {
			in = s.Evaluate(nodes[n]) < 0
			known[n] = in
		}
		return in
	}
	newtetras := make('''),
)
B('formA',ALL,
(th+'thread.go' if False else th+'screw.go','''''','''''') if False else (th+'thread.go','''	p0.Y = math.Sqrt(p.X*p.X + p.Y*p.Y)
''','''	p0.Y = math.Hypot(p.X, p.Y)
'''),
(th+'thread.go','''	z := p.Z + s.lead*theta/(2*math.Pi)
''','''	z := p.Z + theta/(2*math.Pi)*s.lead
'''),
(th+'thread.go','''	x += period / 2
	t := x / period
	return period*(t-math.Floor(t)) - period/2
''','''	return x - period*math.Floor(x/period+0.5)
'''),
(th+'thread.go','''	d0 := s.thread.Evaluate(p0)
	// create a region for the screw length
	d1 := math.Abs(p.Z) - s.length
''','''	d1 := math.Abs(p.Z) - s.length
	d0 := s.thread.Evaluate(p0)
'''),
(th+'basic.go','''	for i := len(metricF2FTable) - 1; i >= 0; i-- {
		v := metricF2FTable[i]
		if estF2F-1e-2 > v {
			return v
		}
	}
	return metricF2FTable[0]
''','''	best := metricF2FTable[0]
	for _, v := range metricF2FTable {
		if v < estF2F-1e-2 {
			best = v
		}
	}
	return best
'''),
(th+'bolt.go','''	threadLength := k.TotalLength - k.ShankLength
	if threadLength < 0 {
		threadLength = 0
	}
	var thread sdf.SDF3
	if threadLength != 0 {
		thread, err = Screw(threadLength, k.Thread)
		if err != nil {
			return nil, err
		}
		// chamfer the thread
		thread = must3.ChamferedCylinder(thread, 0, 0.5)
		threadOffset := threadLength/2 + shankLength
		thread = sdf.Transform3D(thread, sdf.Translate3D(r3.Vec{X: 0, Y: 0, Z: threadOffset}))
	}
	return sdf.Union3D(head, shank, thread), nil
''','''	threadLength := k.TotalLength - k.ShankLength
	thread, err := Screw(threadLength, k.Thread)
	if err != nil {
		return nil, err
	}
	thread = must3.ChamferedCylinder(thread, 0, 0.5)
	up := sdf.Translate3D(r3.Vec{Z: threadLength/2 + shankLength})
	return sdf.Union3D(shank, sdf.Transform3D(thread, up), head), nil
'''),
(th+'hexhead.go','''		if round == "t" || round == "tb" {
			hex3d = sdf.Intersect3D(hex3d, sdf.Transform3D(capsule, sdf.Translate3D(r3.Vec{X: 0, Y: 0, Z: -zOfs})))
		}
		if round == "b" || round == "tb" {
			hex3d = sdf.Intersect3D(hex3d, sdf.Transform3D(capsule, sdf.Translate3D(r3.Vec{X: 0, Y: 0, Z: zOfs})))
		}
''','''		ends := map[string][]float64{"b": {1}, "t": {-1}, "tb": {1, -1}}[round]
		for _, side := range ends {
			ball := sdf.Transform3D(capsule, sdf.Translate3D(r3.Vec{Z: side * zOfs}))
			hex3d = sdf.Intersect3D(hex3d, ball)
		}
'''),
('form3/must3/cylinders.go','''	// is p2 above the cone?
	if p2.Y >= s.height && p2.X <= s.r1 {
		return p2.Y - s.height - s.round
	}
	// is p2 below the cone?
	if p2.Y <= -s.height && p2.X <= s.r0 {
		return -p2.Y - s.height - s.round
	}
	// distance to slope line
	v := r2.Sub(p2, r2.Vec{s.r0, -s.height})
	dSlope := r2.Dot(v, s.n)
	// is p2 inside the cone?
	if dSlope < 0 && math.Abs(p2.Y) < s.height {
		return -math.Min(-dSlope, s.height-math.Abs(p2.Y)) - s.round
	}
	// is p2 closest to the slope line?
	t := r2.Dot(v, s.u)
	if t >= 0 && t <= s.l {
		return dSlope - s.round
	}
	// is p2 closest to the base radius vertex?
	if t < 0 {
		return r2.Norm(v) - s.round
	}
	// p2 is closest to the top radius vertex
	return r2.Norm(r2.Sub(p2, r2.Vec{s.r1, s.height})) - s.round
''','''	return s.sharp(p2) - s.round
}

func (s *cone) sharp(p2 r2.Vec) float64 {
	end := math.Abs(p2.Y) - s.height
	if end >= 0 && (p2.Y > 0 && p2.X <= s.r1 || p2.Y < 0 && p2.X <= s.r0) {
		return end
	}
	v := r2.Sub(p2, r2.Vec{s.r0, -s.height})
	dSlope := r2.Dot(v, s.n)
	if dSlope < 0 && end < 0 {
		return math.Max(dSlope, end)
	}
	switch t := r2.Dot(v, s.u); {
	case t < 0:
		return r2.Norm(v)
	case t > s.l:
		return r2.Norm(r2.Sub(p2, r2.Vec{s.r1, s.height}))
	}
	return dSlope
'''),
('form2/must2/poly.go','''	for i := 0; i < n; i++ {
		v[i] = p
		p = m.MulPosition(p)
	}
	return v
''','''	for i := range v {
		v[i] = p
		sin, cos := math.Sincos(2 * math.Pi * float64(i+1) / float64(n))
		p = r2.Vec{X: radius * cos, Y: radius * sin}
	}
	_ = m
	return v
'''),
('form2/must2/poly.go','''	done := false
	for !done {
		done = true
		for i := range p.vlist {
			if p.smoothVertex(i) {
				done = false
			}
		}
	}
''','''	for again := true; again; {
		again = false
		for i := range p.vlist {
			again = p.smoothVertex(i) || again
		}
	}
'''),
('form2/obj2/panel.go','''	holes = append(holes, sdf.LineOf2D(hole, tl, tr, k.HolePattern[0]))
	holes = append(holes, sdf.LineOf2D(hole, tr, br, k.HolePattern[1]))
	holes = append(holes, sdf.LineOf2D(hole, br, bl, k.HolePattern[2]))
	holes = append(holes, sdf.LineOf2D(hole, bl, tl, k.HolePattern[3]))
''','''	corners := [4]r2.Vec{tl, tr, br, bl}
	for i, from := range corners {
		holes = append(holes, sdf.LineOf2D(hole, from, corners[(i+1)%4], k.HolePattern[i]))
	}
'''),
('form3/obj3/standoff.go','''	s = pillar(k)
	if k.NumberWebs > 0 {
		webs := sdf.RotateCopy3D(pillarWeb(k), k.NumberWebs)
		// Cut off any part of the webs that protrude from the top of the pillar
		cut := form3.Cylinder(k.PillarHeight, 0.5*(k.WebDiameter+k.WebWidth), 0)
		s = sdf.Union3D(s, sdf.Intersect3D(webs, cut))
	}
''','''	s = pillar(k)
	if k.NumberWebs > 0 {
		cut := form3.Cylinder(k.PillarHeight, 0.5*(k.WebDiameter+k.WebWidth), 0)
		webs := sdf.RotateCopy3D(pillarWeb(k), k.NumberWebs)
		s = sdf.Union3D(sdf.Intersect3D(webs, cut), s)
	}
'''),
('internal/d3/box.go','''	withinX := a.Min.X < 0 && a.Max.X > 0
	withinY := a.Min.Y < 0 && a.Max.Y > 0
	withinZ := a.Min.Z < 0 && a.Max.Z > 0

	if withinX && withinY && withinZ {
		minDist2 = 0
	} else {
		if withinX && withinY {
			d := math.Min(math.Abs(a.Max.Z), math.Abs(a.Min.Z))
			minDist2 = math.Min(minDist2, d*d)
		}
		if withinX && withinZ {
			d := math.Min(math.Abs(a.Max.Y), math.Abs(a.Min.Y))
			minDist2 = math.Min(minDist2, d*d)
		}
		if withinY && withinZ {
			d := math.Min(math.Abs(a.Max.X), math.Abs(a.Min.X))
			minDist2 = math.Min(minDist2, d*d)
		}
	}
''','''	minDist2 = r3.Norm2(r3.Vec{
		X: math.Max(0, math.Max(a.Min.X, -a.Max.X)),
		Y: math.Max(0, math.Max(a.Min.Y, -a.Max.Y)),
		Z: math.Max(0, math.Max(a.Min.Z, -a.Max.Z)),
	})
'''),
)
