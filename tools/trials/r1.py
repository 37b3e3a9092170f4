import re
ALL=' '.join('C%02d'%i for i in range(1,34))
bugs=[]
def B(name,props,*edits): bugs.append((name,props,[tuple(e) for e in edits]))
s3='sdf3.go'; s2='sdf2.go'
B('sdfA',ALL,
(s3,'''	x := math.Sqrt(p.X*p.X + p.Y*p.Y)
	a := s.sdf.Evaluate(r2.Vec{X: x, Y: p.Z})
	b := a
	if s.theta != 0 {
		// combine two vertical planes to give an intersection wedge
		d := r2.Dot(s.norm, r2.Vec{X: p.X, Y: p.Y})
		if s.theta < pi {
			b = math.Max(-p.Y, d) // intersect
		} else {
			b = math.Min(-p.Y, d) // union
		}
	}
	// return the intersection
	return math.Max(a, b)
''','''	profile := s.sdf.Evaluate(r2.Vec{X: math.Hypot(p.X, p.Y), Y: p.Z})
	if s.theta == 0 {
		return profile
	}
	return math.Max(profile, s.wedge(p.X, p.Y))
}

// wedge is the region between the half planes at the start and at the end.
func (s *revolution3) wedge(x, y float64) float64 {
	end := s.norm.X*x + s.norm.Y*y
	if s.theta >= pi {
		return math.Min(end, -y)
	}
	return math.Max(end, -y)
'''),
(s3,'''	// sdf for the projected 2d surface
	a := s.sdf.Evaluate(r2.Vec{X: p.X, Y: p.Y})
	b := math.Abs(p.Z) - s.height
	var d float64
	if b > 0 {
		// outside the object Z extent
		if a < 0 {
			// inside the boundary
			d = b
		} else {
			// outside the boundary
			d = math.Hypot(a, b)
		}
	} else {
		// within the object Z extent
		if a < 0 {
			// inside the boundary
			d = math.Max(a, b)
		} else {
			// outside the boundary
			d = a
		}
	}
	return d - s.round
}
''','''	a := s.sdf.Evaluate(r2.Vec{X: p.X, Y: p.Y})
	return corner(a, math.Abs(p.Z)-s.height) - s.round
}

func corner(a, b float64) float64 {
	return math.Min(math.Max(a, b), 0) + math.Hypot(math.Max(a, 0), math.Max(b, 0))
}
'''),
(s3,'''	b := math.Abs(p.Z) - s.height
	var d float64
	if b > 0 {
		// outside the object Z extent
		if a < 0 {
			// inside the boundary
			d = b
		} else {
			// outside the boundary
			d = math.Sqrt((a * a) + (b * b))
		}
	} else {
		// within the object Z extent
		if a < 0 {
			// inside the boundary
			d = math.Max(a, b)
		} else {
			// outside the boundary
			d = a
		}
	}
	return d - s.round
''','''	return corner(a, math.Abs(p.Z)-s.height) - s.round
'''),
(s3,'''	a := mix(a0, a1, k)
''','''	a := (1-k)*a0 + k*a1
'''),
(s3,'''	q := r3.Scale(s.invK, p)
	return s.sdf.Evaluate(q) * s.k
''','''	return s.k * s.sdf.Evaluate(r3.Vec{X: p.X / s.k, Y: p.Y / s.k, Z: p.Z / s.k})
'''),
(s3,'''	var d float64
	for i, x := range s.sdf {
		if i == 0 {
			d = x.Evaluate(p)
		} else {
			d = s.min(d, x.Evaluate(p))
		}
	}
	return d
''','''	d := s.sdf[0].Evaluate(p)
	for _, x := range s.sdf[1:] {
		d = s.min(d, x.Evaluate(p))
	}
	return d
'''),
(s3,'''	return s.max(s.s0.Evaluate(p), -s.s1.Evaluate(p))
''','''	hole := s.s1.Evaluate(p)
	return s.max(s.s0.Evaluate(p), -hole)
'''),
(s3,'''	return s.max(s.s0.Evaluate(p), s.s1.Evaluate(p))
''','''	b := s.s1.Evaluate(p)
	a := s.s0.Evaluate(p)
	return s.max(a, b)
'''),
(s3,'''	return math.Max(r3.Dot(s.n, r3.Sub(p, s.a)), s.sdf.Evaluate(p))
''','''	d := s.sdf.Evaluate(p)
	if cut := r3.Dot(r3.Sub(p, s.a), s.n); cut > d {
		return cut
	}
	return d
'''),
(s3,'''	for j := 0; j < s.num[0]; j++ {
		for k := 0; k < s.num[1]; k++ {
			for l := 0; l < s.num[2]; l++ {
				x := r3.Sub(p, r3.Vec{X: float64(j) * s.step.X, Y: float64(k) * s.step.Y, Z: float64(l) * s.step.Z})
				d = s.min(d, s.sdf.Evaluate(x))
			}
		}
	}
''','''	n := s.num[0] * s.num[1] * s.num[2]
	for i := 0; i < n; i++ {
		l := i % s.num[2]
		k := i / s.num[2] % s.num[1]
		j := i / s.num[2] / s.num[1]
		at := d3.MulElem(R3FromI(V3i{j, k, l}), s.step)
		d = s.min(d, s.sdf.Evaluate(r3.Sub(p, at)))
	}
'''),
(s3,'''	p2 := r2.Vec{X: p.X, Y: p.Y}
	p2 = d2.PolarToXY(r2.Norm(p2), sawTooth(math.Atan2(p2.Y, p2.X), s.theta))
	return s.sdf.Evaluate(r3.Vec{X: p2.X, Y: p2.Y, Z: p.Z})
''','''	angle := math.Atan2(p.Y, p.X)
	turns := math.Floor(angle/s.theta + 0.5)
	sin, cos := math.Sincos(angle - turns*s.theta)
	r := math.Hypot(p.X, p.Y)
	return s.sdf.Evaluate(r3.Vec{X: r * cos, Y: r * sin, Z: p.Z})
'''),
(s3,'''		theta = 0 // internally theta=0 is a full revolution.
''','''		theta = 0 // internally theta=0 is a full revolution, any angle will do.
'''),
(s3,'''	s.sdf = sdf
	s.num = num
	s.step = step.Inverse()
	s.min = math.Min
	// work out the bounding box
	v := d3.Box(sdf.Bounds()).Vertices()
	bbMin := v[0]
	bbMax := v[0]
	for i := 0; i < s.num; i++ {
		bbMin = d3.MinElem(bbMin, v.Min())
		bbMax = d3.MaxElem(bbMax, v.Max())
		mulVertices3(v, step)
		// v.MulVertices(step)
	}
	s.bb = r3.Box{Min: bbMin, Max: bbMax}
	return &s
''','''	s.sdf = sdf
	s.num = num
	s.step = step.Inverse()
	s.min = math.Min
	// work out the bounding box
	v := d3.Box(sdf.Bounds()).Vertices()
	bb := d3.Box{Min: v.Min(), Max: v.Max()}
	for i := 1; i < s.num; i++ {
		mulVertices3(v, step)
		bb = bb.Extend(d3.Box{Min: v.Min(), Max: v.Max()})
	}
	s.bb = r3.Box(bb)
	return &s
'''),
(s2,'''	q := r2.Scale(s.invk, p)
	return s.sdf.Evaluate(q) * s.k
''','''	return s.k * s.sdf.Evaluate(r2.Vec{X: p.X / s.k, Y: p.Y / s.k})
'''),
(s2,'''	// start off with the sdf that has the closest bounding box
	minDist2 := make([]float64, len(s.sdf))
	minIndex := 0
	for i := range s.sdf {
		minDist2[i] = d2.Box(s.sdf[i].Bounds()).MinMaxDist2(p).X
		if minDist2[i] < minDist2[minIndex] {
			minIndex = i
		}
	}
	d := s.sdf[minIndex].Evaluate(p)
	for i := range s.sdf {
		// an sdf whose bounding box is beyond the distance found
		// so far cannot be any closer.
		if i == minIndex || minDist2[i] > 0 && (d <= 0 || minDist2[i] >= d*d) {
			continue
		}
		d = math.Min(d, s.sdf[i].Evaluate(p))
	}
	return d
''','''	d := math.Inf(1)
	for _, x := range s.sdf {
		d = math.Min(d, x.Evaluate(p))
	}
	return d
'''),
(s2,'''	pnew := d2.PolarToXY(r2.Norm(p), sawTooth(math.Atan2(p.Y, p.X), s.theta))
	return s.sdf.Evaluate(pnew)
''','''	r, angle := math.Hypot(p.X, p.Y), math.Atan2(p.Y, p.X)
	angle -= s.theta * math.Floor(angle/s.theta+0.5)
	return s.sdf.Evaluate(r2.Vec{X: r * math.Cos(angle), Y: r * math.Sin(angle)})
'''),
(s2,'''	rot := identity2d()
	for i := 0; i < s.num; i++ {
		x := rot.MulPosition(p)
		d = s.min(d, s.sdf.Evaluate(x))
		rot = rot.Mul(s.step)
	}
	return d
''','''	for i := 0; i < s.num; i++ {
		d = s.min(d, s.sdf.Evaluate(p))
		p = s.step.MulPosition(p)
	}
	return d
'''),
(s2,'''	pnew := r3.Add(s.a, r3.Scale(p.X, s.u))
	pnew = r3.Add(pnew, r3.Scale(p.Y, s.v))
	return s.sdf.Evaluate(pnew)
''','''	inPlane := r3.Add(r3.Scale(p.X, s.u), r3.Scale(p.Y, s.v))
	return s.sdf.Evaluate(r3.Add(inPlane, s.a))
'''),
(s2,'''	if n.X == 0 {
		s.u = r3.Vec{X: 1, Y: 0, Z: 0}
	} else if n.Y == 0 {
		s.u = r3.Vec{X: 0, Y: 1, Z: 0}
	} else if n.Z == 0 {
		s.u = r3.Vec{X: 0, Y: 0, Z: 1}
	} else {
		s.u = r3.Vec{X: n.Y, Y: -n.X, Z: 0}
	}
''','''	switch 0.0 {
	case n.X:
		s.u = r3.Vec{X: 1}
	case n.Y:
		s.u = r3.Vec{Y: 1}
	case n.Z:
		s.u = r3.Vec{Z: 1}
	default:
		s.u = r3.Vec{X: n.Y, Y: -n.X}
	}
'''),
('utils.go','''	x += period / 2
	t := x / period
	return period*(t-math.Floor(t)) - period/2
''','''	return x - period*math.Floor(x/period+0.5)
'''),
('utils.go','''		m := Rotate(p.Z * k)
		return m.MulPosition(r2.Vec{X: p.X, Y: p.Y})
''','''		sin, cos := math.Sincos(p.Z * k)
		return r2.Vec{X: cos*p.X - sin*p.Y, Y: sin*p.X + cos*p.Y}
'''),
('form2/must2/poly.go','''		t := r2.Dot(pa, s.vector[i])                            // t-parameter of projection onto line
		dn := r2.Dot(pa, r2.Vec{s.vector[i].Y, -s.vector[i].X}) // normal distance from p to line

		// Distance to line segment
		if t < 0 {
			dd = math.Min(dd, r2.Norm2(pa)) // distance to vertex[0] of line
		} else if t > s.length[i] {
			dd = math.Min(dd, r2.Norm2(pb)) // distance to vertex[1] of line
		} else {
			dd = math.Min(dd, dn*dn) // normal distance to line
		}

		// Is the point in the polygon?
		// See: http://geomalgorithms.com/a03-_inclusion.html
		if a.Y <= p.Y {
			if b.Y > p.Y { // upward crossing
				if dn < 0 { // p is to the left of the line segment
					wn++ // up intersect
				}
			}
		} else {
			if b.Y <= p.Y { // downward crossing
				if dn > 0 { // p is to the right of the line segment
					wn-- // down intersect
				}
			}
		}
''','''		u := s.vector[i]
		dn := pa.X*u.Y - pa.Y*u.X
		switch t := r2.Dot(pa, u); {
		case t < 0:
			dd = math.Min(dd, r2.Norm2(pa))
		case t > s.length[i]:
			dd = math.Min(dd, r2.Norm2(pb))
		default:
			dd = math.Min(dd, dn*dn)
		}

		switch below := a.Y <= p.Y; {
		case below == (b.Y <= p.Y):
		case below && dn < 0:
			wn++
		case !below && dn > 0:
			wn--
		}
'''),
('form2/must2/basic.go','''	p = d2.AbsElem(p)
	if p.X <= s.l {
		return p.Y - s.round
	}
	return r2.Norm(r2.Sub(p, r2.Vec{s.l, 0})) - s.round
''','''	return math.Hypot(math.Max(math.Abs(p.X)-s.l, 0), p.Y) - s.round
'''),
('form2/must2/basic.go','import (\n','import (\n\t"math"\n\n'),
('form3/must3/cylinders.go','''	d := sdfBox2d(r2.Vec{math.Hypot(p.X, p.Y), p.Z}, r2.Vec{s.radius, s.height})
	return d - s.round
''','''	out := math.Hypot(p.X, p.Y) - s.radius
	up := math.Abs(p.Z) - s.height
	if out > 0 && up > 0 {
		return math.Sqrt(out*out+up*up) - s.round
	}
	return math.Max(out, up) - s.round
'''),
('form3/must3/cylinders.go','''	d := r3.Sub(d3.AbsElem(p), s)
	if d.X > 0 && d.Y > 0 && d.Z > 0 {
		return r3.Norm(d)
	}
	if d.X > 0 && d.Y > 0 {
		return math.Hypot(d.X, d.Y)
	}
	if d.X > 0 && d.Z > 0 {
		return math.Hypot(d.X, d.Z)
	}
	if d.Y > 0 && d.Z > 0 {
		return math.Hypot(d.Y, d.Z)
	}
	if d.X > 0 {
		return d.X
	}
	if d.Y > 0 {
		return d.Y
	}
	if d.Z > 0 {
		return d.Z
	}
	return d3.Max(d)
''','''	d := r3.Sub(d3.AbsElem(p), s)
	if m := d3.Max(d); m <= 0 {
		return m
	}
	return r3.Norm(d3.MaxElem(d, r3.Vec{}))
'''),
)
st='render/stl.go'; oc='render/octree_renderer.go'
B('renA',ALL,
(oc,'''			// Not enough room in buffer to write all triangles that could be found by marching cubes.
			tmp := make([]r3.Triangle, marchingCubesMaxTriangles)
			tri, cubes := oc.processCube(tmp, cube)
			oc.mu.Lock()
			oc.unwritten.Write(tmp[:tri])
			oc.mu.Unlock()
			newCubes = append(newCubes, cubes...)
			cubesProcessed++
			break
''','''			var room [marchingCubesMaxTriangles]r3.Triangle
			tri, cubes := oc.processCube(room[:], cube)
			here := copy(dst[n:], room[:tri])
			n += here
			oc.mu.Lock()
			oc.unwritten.Write(room[here:tri])
			oc.mu.Unlock()
			newCubes = append(newCubes, cubes...)
			cubesProcessed++
			break
'''),
(oc,'''		oc.todo = append(oc.todo, newCubes...)
		oc.todo = oc.todo[nc:] // this leaks, luckily this is a short lived function?
''','''		oc.todo = append(newCubes, oc.todo[nc:]...)
'''),
(oc,'''	mu         sync.Mutex          // lock the the cache during reads/writes
	cache      map[sdf.V3i]float64 // cache of distances
''','''	mu         sync.RWMutex        // lock the the cache during reads/writes
	cache      map[sdf.V3i]float64 // cache of distances
'''),
(oc,'''	dc.mu.Lock()
	dist, found := dc.cache[vi]
	dc.mu.Unlock()
''','''	dc.mu.RLock()
	dist, found := dc.cache[vi]
	dc.mu.RUnlock()
'''),
(oc,'''		dc.hdiag[i] = 0.5 * math.Sqrt(3.0*s*s)
''','''		dc.hdiag[i] = 0.5 * s * math.Sqrt(3)
'''),
('render/io.go','''	buf := make([]r3.Triangle, 1024)
''','''	buf := make([]r3.Triangle, 1000)
'''),
(st,'''	if _, err := io.Copy(w, bytes.NewReader(headerBuf[:])); err != nil {
		return err
	}
''','''	bw := bufio.NewWriter(w)
	if _, err := bw.Write(headerBuf[:]); err != nil {
		return err
	}
'''),
(st,'''		_, err := io.Copy(w, bytes.NewReader(b[:]))
		if err != nil {
			return err
		}
	}
	return nil
''','''		if _, err := bw.Write(b[:]); err != nil {
			return err
		}
	}
	return bw.Flush()
'''),
(st,'''	"bytes"
''','''	"bufio"
'''),
(st,'''	for it < ntMax && err == nil {
		// remaining space''','''	for it == 0 && err == nil {
		// remaining space'''),
(st,'''	// Do not write header.
	_, err = file.Seek(sizeOfSTLHeader, 0)
	if err != nil {
		return err
	}
''','''	if _, err = file.Write(make([]byte, sizeOfSTLHeader)); err != nil {
		return err
	}
'''),
(st,'''	if err = binary.Write(file, binary.LittleEndian, &header); err != nil {
		return err
	}
	return nil
''','''	var head [sizeOfSTLHeader]byte
	header.put(head[:])
	_, err = file.Write(head[:])
	return err
'''),
(st,'''		for n < 50 {
			nr, err := r.Read(buf[n:])
			if err != nil {
				return nil, err
			}
			n += nr
		}
''','''		if n, err := io.ReadFull(r, buf[:]); err != nil {
			if n > 0 || err != io.EOF {
				return nil, io.EOF
			}
			return nil, err
		}
'''),
(st,'''		var n int
		if''','''		if'''),
('render/3mf.go','''	X float64 `xml:"x,attr"`
	Y float64 `xml:"y,attr"`
	Z float64 `xml:"z,attr"`
''','''	X, Y, Z coord
'''),
('render/3mf.go','''type mf3Triangle struct {''','''type coord = float64

func (v mf3Vertex) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	for i, x := range [3]float64{v.X, v.Y, v.Z} {
		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Local: "xyz"[i : i+1]}, Value: strconv.FormatFloat(x, 'g', -1, 64)})
	}
	if err := e.EncodeToken(start); err != nil {
		return err
	}
	return e.EncodeToken(start.End())
}

type mf3Triangle struct {'''),
('render/3mf.go','''	e := xml.NewEncoder(f)
	e.Indent("", "\\t")
''','''	e := xml.NewEncoder(f)
'''),
('render/marchingcubes.go','''	if closeToV1 && !closeToV2 {
		return p1
	}
	if closeToV2 && !closeToV1 {
		return p2
	}

	if closeToV1 && closeToV2 {
		// Pick the end on the inside. A point between the ends would be in line
		// with them, and other edges of the cube may pick either of the ends.
		if v1 < v2 {
			return p1
		}
		return p2
	}
''','''	switch {
	case closeToV1 && (!closeToV2 || v1 < v2):
		return p1
	case closeToV2:
		return p2
	}
'''),
('render/marchingcubes.go','''	return r3.Vec{
		X: p1.X + t*(p2.X-p1.X),
		Y: p1.Y + t*(p2.Y-p1.Y),
		Z: p1.Z + t*(p2.Z-p1.Z),
	}
''','''	return r3.Add(r3.Scale(1-t, p1), r3.Scale(t, p2))
'''),
)
