ALL=' '.join('C%02d'%i for i in range(1,34))
bugs=[]
def B(name,props,*edits): bugs.append((name,props,[tuple(e) for e in edits]))
s2='sdf2.go'; s3='sdf3.go'; mx='matrix.go'; ut='utils.go'; po='form2/must2/poly.go'
B('coreD',ALL,
(mx,'''func (a m44) MulBox(box r3.Box) r3.Box {
''','''func (a m44) MulBox(box r3.Box) r3.Box {
	v := d3.Box(box).Vertices()
	for i := range v {
		v[i] = a.MulPosition(v[i])
	}
	return r3.Box{Min: v.Min(), Max: v.Max()}
}

func (a m44) mulBoxByParts(box r3.Box) r3.Box {
'''),
(mx,'''func (a m33) MulBox(box r2.Box) r2.Box {
''','''func (a m33) MulBox(box r2.Box) r2.Box {
	v := d2.Box(box).Vertices()
	mulVertices2(v, a)
	return r2.Box{Min: v.Min(), Max: v.Max()}
}

func (a m33) mulBoxByParts(box r2.Box) r2.Box {
'''),
(mx,'''func (a m33) Inverse() m33 {
	m := m33{}
''','''func (a m33) Inverse() m33 {
	m := m33{}
	if a.x20 == 0 && a.x21 == 0 && a.x22 == 1 {
		i := m22{a.x00, a.x01, a.x10, a.x11}.Inverse()
		t := i.MulPosition(r2.Vec{X: a.x02, Y: a.x12})
		return m33{x00: i.x00, x01: i.x01, x02: -t.X, x10: i.x10, x11: i.x11, x12: -t.Y, x22: 1}
	}
'''),
(s2,'''	q := r2.Sub(p, d2.Clamp(p, s.hn, s.hp))
''','''	q := p
	if p.X > s.hp.X {
		q.X -= s.hp.X
	} else if p.X < s.hn.X {
		q.X -= s.hn.X
	} else {
		q.X = 0
	}
	q.Y = p.Y - math.Max(s.hn.Y, math.Min(s.hp.Y, p.Y))
'''),
(s3,'''	q := r3.Sub(p, d3.Clamp(p, s.hn, s.hp))
''','''	c := d3.MaxElem(s.hn, d3.MinElem(s.hp, p))
	q := r3.Sub(p, c)
'''),
(s2,'''	d := math.MaxFloat64
	rot := identity2d()
	for i := 0; i < s.num; i++ {
		x := rot.MulPosition(p)
		d = s.min(d, s.sdf.Evaluate(x))
		rot = rot.Mul(s.step)
	}
	return d
''','''	d := s.sdf.Evaluate(p)
	x := p
	for i := 1; i < s.num; i++ {
		x = s.step.MulPosition(x)
		d = s.min(d, s.sdf.Evaluate(x))
	}
	return d
'''),
(s2,'''	pnew := d2.PolarToXY(r2.Norm(p), sawTooth(math.Atan2(p.Y, p.X), s.theta))
	return s.sdf.Evaluate(pnew)
''','''	turns := math.Floor(math.Atan2(p.Y, p.X)/s.theta + 0.5)
	sin, cos := math.Sincos(-turns * s.theta)
	return s.sdf.Evaluate(r2.Vec{X: p.X*cos - p.Y*sin, Y: p.X*sin + p.Y*cos})
'''),
(s2,'''			x := r2.Sub(p, r2.Vec{X: float64(j) * s.step.X, Y: float64(k) * s.step.Y})
''','''			x := r2.Vec{X: p.X - s.step.X*float64(j), Y: p.Y - s.step.Y*float64(k)}
'''),
(ut,'''	return func(p r3.Vec) r2.Vec {
		return d2.MulElem(r2.Vec{X: p.X, Y: p.Y}, r2.Add(b, r2.Scale(p.Z, m)))
	}
''','''	_, _ = m, b
	return func(p r3.Vec) r2.Vec {
		t := p.Z/height + 0.5 // from the bottom to the top
		return r2.Vec{X: p.X * mix(1, inv.X, t), Y: p.Y * mix(1, inv.Y, t)}
	}
'''),
(ut,'''		m := Rotate(p.Z * k)
		return m.MulPosition(r2.Vec{X: p.X, Y: p.Y})
''','''		sin, cos := math.Sincos(k * p.Z)
		return r2.Vec{X: cos*p.X - sin*p.Y, Y: sin*p.X + cos*p.Y}
'''),
(ut,'''		u := d2.MaxElem(r2.Vec{X: k - a, Y: k - b}, r2.Vec{X: 0, Y: 0})
		return math.Max(k, math.Min(a, b)) - r2.Norm(u)
''','''		if a > k {
			a, b = b, a
		}
		if a >= k {
			return b + a - math.Max(a, b)
		}
		if b >= k {
			return a
		}
		return k - math.Hypot(k-a, k-b)
'''),
(ut,'''	d := r3.Sub(d3.AbsElem(p), s)
	if d.X > 0 && d.Y > 0 && d.Z > 0 {
''','''	d := r3.Sub(d3.AbsElem(p), s)
	if d3.Max(d) > 0 {
		return r3.Norm(d3.MaxElem(d, r3.Vec{}))
	}
	if d.X > 0 && d.Y > 0 && d.Z > 0 {
'''),
(po,'''	for j := range vlist {
		vlist[j] = polygonVertex{vertex: r2.Add(c, rv)}
		rv = m.MulPosition(rv)
	}
''','''	for j := range vlist {
		vlist[j].vertex = r2.Add(c, sdf.Rotate(dtheta*float64(j)).MulPosition(rv))
	}
'''),
(po,'''	for j := range points {
		points[j] = polygonVertex{vertex: r2.Add(c, rv)}
		rv = rm.MulPosition(rv)
	}
''','''	for j := 0; j <= v.facets; j++ {
		sin, cos := math.Sincos(dtheta * float64(j))
		points[j].vertex = r2.Vec{X: c.X + rv.X*cos - rv.Y*sin, Y: c.Y + rv.X*sin + rv.Y*cos}
	}
'''),
(po,'''	// rotation matrix
	rm := sdf.Rotate(dtheta)
''',''),
)
oc='render/octree_renderer.go'
B('renD',ALL,
(oc,'''		tproc, nc, newCubes := oc.readTriangles(dst[n:], oc.todo)
		oc.todo = append(oc.todo, newCubes...)
		oc.todo = oc.todo[nc:] // this leaks, luckily this is a short lived function?
		// oc.todo = append(newCubes, oc.todo[cubesProcessed:]...) // Non leaking slow implementation
		nt = tproc
''','''		// the cubes found last are looked at first.
		for nt < len(dst)-n && len(oc.todo) > 0 {
			last := len(oc.todo) - 1
			tproc, nc, newCubes := oc.readTriangles(dst[n+nt:], oc.todo[last:])
			oc.todo = append(oc.todo[:last+1-nc], newCubes...)
			nt += tproc
			if oc.unwritten.Len() > 0 {
				break
			}
		}
'''),
(oc,'''	levels := uint(math.Ceil(math.Log2(longAxis/resolution))) + 1
''','''	levels := uint(1)
	for size := resolution; size < longAxis; size *= 2 {
		levels++
	}
'''),
('helpers/sdfexp/spatial3.go','''	return r3.Scale(1./3., r3.Add(r3.Add(t[0], t[1]), t[2]))
''','''	sum := r3.Add(t[2], r3.Add(t[1], t[0]))
	return r3.Vec{X: sum.X / 3, Y: sum.Y / 3, Z: sum.Z / 3}
'''),
('helpers/sdfexp/spatial3.go','''	return c.cell''','''	return c.cell''') if False else ('helpers/sdfexp/import.go','''	suggested := math.Sqrt(minDist2) / 256
''','''	const fraction = 1. / 256
	suggested := fraction * math.Sqrt(minDist2)
'''),
('form2/obj2/panel.go','''	// corners
	tl := r2.Vec{-0.5*k.Size.X + k.HoleMargin[3], 0.5*k.Size.Y - k.HoleMargin[0]}
	tr := r2.Vec{0.5*k.Size.X - k.HoleMargin[1], 0.5*k.Size.Y - k.HoleMargin[0]}
	br := r2.Vec{0.5*k.Size.X - k.HoleMargin[1], -0.5*k.Size.Y + k.HoleMargin[2]}
	bl := r2.Vec{-0.5*k.Size.X + k.HoleMargin[3], -0.5*k.Size.Y + k.HoleMargin[2]}
''','''	// corners
	half := r2.Scale(0.5, k.Size)
	x0, x1 := k.HoleMargin[3]-half.X, half.X-k.HoleMargin[1]
	y0, y1 := k.HoleMargin[2]-half.Y, half.Y-k.HoleMargin[0]
	tl, tr := r2.Vec{x0, y1}, r2.Vec{x1, y1}
	br, bl := r2.Vec{x1, y0}, r2.Vec{x0, y0}
'''),
('form3/obj3/thread/thread.go','''	theta := math.Atan2(p.Y, p.X)
	z := p.Z + s.lead*theta/(2*math.Pi)
	p0.X = sawTooth(z, s.pitch)
''','''	turn := math.Atan2(p.Y, p.X) / (2 * math.Pi)
	x := s.lead*turn + p.Z
	p0.X = x - s.pitch*math.Floor(x/s.pitch+0.5)
'''),
('form3/obj3/thread/knurl.go','''	k.starts *= -1
	knurl1_3d, err := Screw(k.Length, k)
''','''	left := k
	left.starts = -k.starts
	knurl1_3d, err := Screw(left.Length, left)
'''),
)
