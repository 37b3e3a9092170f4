A='sdf3.go'; B='sdf2.go'; X='matrix.go'; U='utils.go'
S='render/stl.go'
bugs=[
('un-flatlate','C06 C13 C33',[(A,"	sdf []SDF3\n	min MinFunc\n	bb  r3.Box\n","	sdf []SDF3\n	min MinFunc\n	bb  r3.Box\n	blend bool\n"),(A,"	// work out the bounding box\n	bb := d3.Box(s.sdf[0].Bounds())\n	for _, x := range s.sdf {","	var flat []SDF3\n	for _, x := range s.sdf {\n		if u, ok := x.(*union3); ok && !u.blend {\n			flat = append(flat, u.sdf...)\n			continue\n		}\n		flat = append(flat, x)\n	}\n	s.sdf = flat\n	// work out the bounding box\n	bb := d3.Box(s.sdf[0].Bounds())\n	for _, x := range s.sdf {"),(A,"	s.min = min\n}\n\n// BoundingBox returns the bounding box of an SDF3 union.","	s.min = min\n	s.blend = true\n}\n\n// BoundingBox returns the bounding box of an SDF3 union.")]),
('un2-flat','C05 C06 C13 C33',[(B,"	// work out the bounding box\n	bb := d2.Box(s.sdf[0].Bounds())","	var flat []SDF2\n	for _, x := range s.sdf {\n		if u, ok := x.(*union2); ok && !u.blend {\n			flat = append(flat, u.sdf...)\n			continue\n		}\n		flat = append(flat, x)\n	}\n	s.sdf = flat\n	// work out the bounding box\n	bb := d2.Box(s.sdf[0].Bounds())")]),
('un3-blendflat','C06 C05 C13 C33',[(A,"	// work out the bounding box\n	bb := d3.Box(s.sdf[0].Bounds())\n	for _, x := range s.sdf {","	if u, ok := s.sdf[0].(*union3); ok {\n		s.sdf = append(append([]SDF3(nil), u.sdf...), s.sdf[1:]...)\n	}\n	// work out the bounding box\n	bb := d3.Box(s.sdf[0].Bounds())\n	for _, x := range s.sdf {")]),
('m-transpose','C07',[(X,"	m := m44{}\n	d := 1 / a.Determinant()\n","	if det := a.Determinant(); math.Abs(det-1) < 1e-12 && a.x03 == 0 && a.x13 == 0 && a.x23 == 0 && a.x33 == 1 {\n		return m44{a.x00, a.x10, a.x20, 0, a.x01, a.x11, a.x21, 0, a.x02, a.x12, a.x22, 0, 0, 0, 0, 1}\n	}\n	m := m44{}\n	d := 1 / a.Determinant()\n")]),
('m33-transpose','C07',[(X,"	m := m33{}\n	d := 1 / a.Determinant()\n	m.x00 = (a.x11*a","	if det := a.Determinant(); math.Abs(math.Abs(det)-1) < 1e-12 && a.x02 == 0 && a.x12 == 0 {\n		return m33{a.x00, a.x10, 0, a.x01, a.x11, 0, 0, 0, 1}\n	}\n	m := m33{}\n	d := 1 / a.Determinant()\n	m.x00 = (a.x11*a")]),
('m22-det1','C07',[(X,"	m := m22{}\n	d := 1 / a.Determinant()\n","	m := m22{}\n	d := 1 / a.Determinant()\n	if math.Abs(d) > 1e6 {\n		d = math.Copysign(1e6, d)\n	}\n")]),
('inv-small','C07',[(X,"	m := m44{}\n	d := 1 / a.Determinant()\n","	m := m44{}\n	det := a.Determinant()\n	if math.Abs(det) < epsilon {\n		det = math.Copysign(epsilon, det)\n	}\n	d := 1 / det\n")]),
('rev-near','C10',[(A,"	if math.Abs(theta-2*math.Pi) < tolerance {","	if math.Abs(theta-2*math.Pi) < 1e-4 {")]),
('twist-full','C09',[(A,"	s.extrude = TwistExtrude(height, twist)\n","	s.extrude = TwistExtrude(height, math.Remainder(twist, 2*tau))\n")]),
('scale-one','C09',[(A,"	s.extrude = ScaleExtrude(height, scale)\n","	s.extrude = ScaleExtrude(height, scale)\n	if scale.X == 1 {\n		s.extrude = NormalExtrude\n	}\n")]),
('loft-samebb','C09',[(A,"	bb := bb0.Extend(bb1)\n	s.bb = r3.Box{","	bb := bb0.Extend(bb1)\n	if bb0 == bb1 {\n		s.sdf1 = sdf0\n	}\n	s.bb = r3.Box{")]),
('stl-notrunc','C24 C26 C32 C33',[(S,"os.Create(path)","os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0666)")]),
('stl-ext','C24 C26',[(S,"	file, err := os.Create(path)","	if len(path) < 4 || path[len(path)-4:] != \".stl\" {\n		path += \".stl\"\n	}\n	file, err := os.Create(path)")]),
('line-bytes','C08',[(B,"utf8.RuneCountInString(pattern)","len(pattern+string(utf8.RuneError)) - 3)/float64(1")]) if False else ('line-bytes','C08',[(A,"float64(utf8.RuneCountInString(pattern))","float64(len(pattern)+0*utf8.UTFMax)")]),
('slice-tiny','C10',[(B,"	if n.X == 0 {\n","	if math.Abs(n.X) < 1e-3*r3.Norm(n) {\n")]),
('slice-v','C10',[(B,"		pa := r3.Sub(va, r3.Scale(r3.Dot(n, va), n))\n","		pa := va\n		if s.u.Z != 0 {\n			pa = r3.Sub(va, r3.Scale(r3.Dot(n, va), r3.Vec{X: n.X, Y: n.Y}))\n		}\n")]),
('slow-min','C05 C06',[(B,"			d = s.min(d, x)\n","			d = s.min(x, d)\n")]),
('mp4','C06',[(U,"	div := 0.5 / nf\n","	div := 0.5 / nf\n	if n > 8 {\n		div = 0.5 / 8\n	}\n")]),
('mpow-tiny','C06',[(U,"		if min <= 0 {","		if min <= 1e-3 {")]),
('mround-neg','C06',[(U,"math.Max(k, math.Min(a, b)) - r2.Norm(u)","math.Max(k, math.Min(a, b)) - math.Min(r2.Norm(u), 8*k)")]),
('saw-int','C08 C16',[(U,"	return period*(t-math.Floor(t)) - period/2","	return period*(t-float64(int32(math.Floor(t)))) - period/2")]),
('u2-sqrt','C05',[(B,"minDist2[i] >= d*d)","minDist2[i] >= d*d*(1-1e-3))")]),
('u2-strict','C05 C12',[(B,"		if i == minIndex || minDist2[i] > 0 && (d <= 0 ||","		if i == minIndex || (d <= 0 ||")]),
('ru3-bb','C01 C08',[(A,"		bbMin = d3.MinElem(bbMin, v.Min())\n","		if i < 64 {\n			bbMin = d3.MinElem(bbMin, v.Min())\n		}\n")]),
('rc3-bb','C01',[(A,"		l := math.Hypot(v.X, v.Y)\n		if l > rmax {","		l := math.Hypot(v.X, v.Y)\n		if v.X < 0 && bb.Max.X > 0 && num > 4 {\n			continue\n		}\n		if l > rmax {")]),
('diff-copy','C06',[(A,"	s.max = math.Max\n	s.bb = s0.Bounds()\n	return &s\n}\n\n// Evaluate returns the minimum distance to the SDF3 difference.","	s.max = math.Max\n	if e, ok := s0.(*diff3); ok {\n		s.s0, s.s1 = e.s0, Union3D(e.s1, s1)\n	}\n	s.bb = s0.Bounds()\n	return &s\n}\n\n// Evaluate returns the minimum distance to the SDF3 difference.")]),
('loft-noh','C09 C13',[(A,"	k := 0.5\n	if s.height > 0 {","	k := 0.0\n	if s.height > 0 {")]),
('exr-hyp','C09 C12',[(A,"			d = math.Hypot(a, b)\n","			d = math.Max(math.Max(a, b), (a+b)*math.Sqrt2/2)\n			if a > 2*s.round {\n				d = math.Hypot(a, b)\n			}\n")]),
('off2-bb','C01 C11',[(B,"	size := d2.MaxElem(r2.Add(bb.Size(), d2.Elem(2*offset)), r2.Vec{})\n","	size := d2.MaxElem(r2.Add(bb.Size(), d2.Elem(2*offset)), d2.Elem(offset))\n")]),
('center-off','C07',[(B,"	s = Transform2D(s, Translate2D(ofs))\n	return ScaleUniform2D(s, k)","	return Transform2D(ScaleUniform2D(s, k), Translate2D(ofs))")]),
]
