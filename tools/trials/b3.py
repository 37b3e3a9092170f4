U='utils.go'
bugs=[
('u3-many','C05 C06 C01 C13',[('sdf3.go','	for i, x := range s.sdf {\n		if i == 0 {\n			d = x.Evaluate(p)','	n := len(s.sdf)\n	if n > 40 {\n		n = 40\n	}\n	for i, x := range s.sdf[:n] {\n		if i == 0 {\n			d = x.Evaluate(p)')]),
('u3-cache','C13 C14',[('sdf3.go','	min MinFunc\n	bb  r3.Box\n}\n\n// Union3D','	min MinFunc\n	bb  r3.Box\n	lp  r3.Vec\n	ld  float64\n	hit bool\n}\n\n// Union3D'),('sdf3.go','func (s *union3) Evaluate(p r3.Vec) float64 {\n	var d float64\n','func (s *union3) Evaluate(p r3.Vec) (d float64) {\n	if s.hit && s.lp == p {\n		return s.ld\n	}\n	defer func() { s.hit, s.lp, s.ld = true, p, d }()\n')]),
('u3-cache-min','C06',[('sdf3.go','	min MinFunc\n	bb  r3.Box\n}\n\n// Union3D','	min MinFunc\n	bb  r3.Box\n	lp  r3.Vec\n	ld  float64\n	hit bool\n	mu  sync.Mutex\n}\n\n// Union3D'),('sdf3.go','func (s *union3) Evaluate(p r3.Vec) float64 {\n	var d float64\n','func (s *union3) Evaluate(p r3.Vec) (d float64) {\n	s.mu.Lock()\n	defer s.mu.Unlock()\n	if s.hit && s.lp == p {\n		return s.ld\n	}\n	defer func() { s.hit, s.lp, s.ld = true, p, d }()\n'),('sdf3.go','"strconv"\n','"strconv"\n	"sync"\n')]),
('arr-big','C08 C01',[('sdf3.go','	for j := 0; j < s.num[0]; j++ {','	for j := 0; j < s.num[0] && j < 64; j++ {')]),
('arr2-step0','C06',[('sdf2.go','	for j := 0; j < s.num[0]; j++ {','	for j := 0; j < s.num[0]; j++ {\n		if s.step.X == 0 && j > 0 {\n			break\n		}')]),
('rotun-many','C08',[('sdf3.go','	for i := 0; i < s.num; i++ {\n		x := rot','	for i := 0; i < s.num && i < 36; i++ {\n		x := rot')]),
('rotun2-accum','C08',[('sdf2.go','		rot = rot.Mul(s.step)','		rot = s.step.Mul(rot)\n		if i > 100 {\n			rot = identity2d()\n		}')]),
('cut-unit','C05',[('sdf3.go','s.n = r3.Scale(-1, r3.Unit(n))','s.n = r3.Scale(-1, n)\n	if r3.Norm2(n) > 1 {\n		s.n = r3.Unit(s.n)\n	}')]),
('ext-round-neg','C09 C12',[('sdf3.go','			d = math.Hypot(a, b)\n','			d = math.Max(a, b) + 0.41421356*math.Min(a, b)\n')]),
('round-corner','C09',[('sdf3.go','		if a < 0 {\n			// inside the boundary\n			d = b\n','		if a < s.round {\n			// inside the boundary\n			d = b\n')]),
('rev-pi','C10',[('sdf3.go','if s.theta < pi {\n			b = math.Max','if s.theta <= pi+1e-3 {\n			b = math.Max')]),
('rev-bb','C01',[('sdf3.go','if s.theta > 1.5*pi {','if s.theta > 1.75*pi {')]),
('rev-bb2','C01',[('sdf3.go','l := math.Max(math.Abs(bb.Min.X), math.Abs(bb.Max.X))','l := math.Abs(bb.Max.X)')]),
('slice-handed','C10',[('sdf2.go','	s.v = r3.Cross(n, s.u)\n','	s.v = r3.Cross(n, s.u)\n	if n.X != 0 && n.Y != 0 && n.Z == 0 && n.X < 0 {\n		s.v = r3.Scale(-1, s.v)\n	}\n')]),
('offset-neg','C11 C01',[('sdf3.go','r3.Add(bb.Size(), d3.Elem(2*offset))','r3.Add(bb.Size(), d3.Elem(math.Max(0, 2*offset)))')]),
('offset2-neg','C11 C01',[('sdf2.go','r2.Add(bb.Size(), d2.Elem(2*offset))','r2.Add(bb.Size(), d2.Elem(2*math.Abs(offset)))')]),
('shell-thin','C11',[('sdf3.go','if thickness <= 0 {','if thickness < 1e-3 {')]),
('elong-neg','C11',[('sdf2.go','	h = d2.AbsElem(h)\n','	h = r2.Vec{X: math.Abs(h.X), Y: h.Y}\n')]),
('orient-same','C08',[('sdf3.go','objects[i] = Transform3D(s, rotateToVec(base, d))','objects[i] = Transform3D(s, rotateToVec(r3.Unit(base), d))')]),
('multi-one','C08',[('sdf3.go','	objects := make([]SDF3, len(positions))\n	for i, p := range positions {\n','	objects := make([]SDF3, len(positions))\n	for i, p := range positions {\n		if i > 0 && p == positions[0] {\n			p = positions[i-1]\n		}\n')]),
('multi-dup','C08 C01',[('sdf2.go','	for i, p := range positions {\n		objects[i] = Transform2D','	for i, p := range positions {\n		if i > 0 && math.Abs(p.X-positions[i-1].X) < 1e-3 {\n			p.X = positions[i-1].X\n		}\n		objects[i] = Transform2D')]),
('scale-neg','C07',[('sdf3.go','	return s.sdf.Evaluate(q) * s.k','	return s.sdf.Evaluate(q) * math.Max(s.k, 1e-3)')]),
('rotcopy-theta','C08',[('sdf3.go','s.theta = tau / float64(num)','s.theta = tau / float64(num)\n	if num > 90 {\n		s.theta = math.Floor(s.theta*1e4) / 1e4\n	}')]),
('inter-bb','C01',[('sdf3.go','	// TODO fix bounding box\n	s.bb = s0.Bounds()\n	return &s\n}\n\n// Evaluate returns the minimum distance to the SDF3 intersection','	s.bb = s0.Bounds()\n	if b := s1.Bounds(); r3.Norm2(r3.Sub(b.Max, b.Min)) < r3.Norm2(r3.Sub(s.bb.Max, s.bb.Min)) {\n		s.bb = r3.Box{Min: b.Min, Max: d3.MinElem(b.Max, s.bb.Max)}\n		s.bb.Min.Z = math.Max(s.bb.Min.Z, s0.Bounds().Min.Z+1e-3)\n	}\n	return &s\n}\n\n// Evaluate returns the minimum distance to the SDF3 intersection')]),
('diff-max','C06',[('sdf2.go','	s.max = max\n}\n\n// BoundingBox returns the bounding box of the difference','	if s.max != nil {\n		s.max = func(a, b float64) float64 { return math.Max(max(a, b), a) }\n	}\n}\n\n// BoundingBox returns the bounding box of the difference')]),
('line-order','C08',[('sdf3.go','			x = r3.Add(x, dx)\n','			x = r3.Add(x, dx)\n			if len(objects) > 30 {\n				break\n			}\n')]),
('empty-bounds','C01 C08',[('sdf3.go','		center: d3.Box(s.Bounds()).Center(),','		center: s.Bounds().Max,')]),
('loft-clamp','C09 C01',[('sdf3.go','k = clamp((0.5*p.Z/s.height)+0.5, 0, 1)','k = (0.5 * p.Z / s.height) + 0.5')]),

('scaleext-b','C09',[(U,'	b := r2.Add(d2.DivElem(inv, d2.Elem(2)), d2.Elem(0.5))\n	// b := inv.DivScalar(2).AddScalar(0.5)     // intercept','	b := r2.Add(d2.DivElem(inv, d2.Elem(2)), d2.Elem(0.5))\n	if scale.X == 1 {\n		m.X = 0\n		m.Y = 0.5 * m.Y\n	}')]),
('twist-big','C09',[(U,'	k := twist / height\n	return func(p r3.Vec) r2.Vec {\n		m := Rotate','	k := math.Mod(twist, 4*tau) / height\n	return func(p r3.Vec) r2.Vec {\n		m := Rotate')]),
('box3-corner','C02 C12',[(U,'	if d.Y > 0 && d.Z > 0 {\n		return math.Hypot(d.Y, d.Z) //V2{d.Y, d.Z}.Length()\n	}\n','	if d.Y > 0 && d.Z > 0 {\n		return math.Max(d.Y, d.Z)\n	}\n')]),
('box2-k','C02 C12',[('sdf2.go','	k := s.Y - s.X\n','	k := math.Abs(s.Y - s.X)\n')]),
('saw-neg','C08 C16',[(U,'	return period*(t-math.Floor(t)) - period/2','	return period*(t-math.Trunc(t)) - period/2')]),
('minexp-over','C06 C12',[(U,'math.Log1p(math.Exp(-k*math.Abs(a-b)))/k','math.Log1p(math.Exp(-math.Min(20, k*math.Abs(a-b))))/k')]),
('minround-neg','C06',[(U,'u := d2.MaxElem(r2.Vec{X: k - a, Y: k - b}, r2.Vec{X: 0, Y: 0})','u := d2.MaxElem(r2.Vec{X: k - a, Y: k - b}, r2.Vec{X: 0, Y: 0})\n		if u.X > 3*k && u.Y > 3*k {\n			return math.Min(a, b)\n		}')]),
('minpoly-n','C06 C12',[(U,'	div := 0.5 / nf\n','	div := 0.5 / math.Min(nf, 16)\n')]),
('mulbox-flat','C07 C01',[('matrix.go','	min := r3.Add(xa, r3.Add(ya, r3.Add(za, t)))\n	max := r3.Add(xb, r3.Add(yb, r3.Add(zb, t)))','	min := r3.Add(xa, r3.Add(ya, r3.Add(za, t)))\n	max := r3.Add(xb, r3.Add(yb, r3.Add(zb, t)))\n	if a.x01 == a.x10 && a.x01 != 0 {\n		min, max = d3.MinElem(min, r3.Scale(-1, max)), max\n	}')]),
('det44','C07',[('matrix.go','a.x03*a.x12*a.x20*a.x31 + a.x03*a.x12*a.x21*a.x30)','a.x03*a.x12*a.x20*a.x31 + a.x03*a.x12*a.x20*a.x30)')]),
('inv44','C07',[('matrix.go','- a.x10*a.x03*a.x21','- a.x10*a.x03*a.x21')]),
('mul44-persp','C07',[('matrix.go','	m.x30 = a.x30*b.x00 + a.x31*b.x10 + a.x32*b.x20 + a.x33*b.x30\n','	m.x30 = a.x30*b.x00 + a.x31*b.x10 + a.x32*b.x20\n')]),
('orient-half','C08',[('matrix.go','if math.Abs(a.X) > sqrtHalf {','if math.Abs(a.X) == 1 {')]),
('orient-near','C08',[('matrix.go','	if d3.EqualWithin(a, b, epsilon) {\n		return identity3d()','	if d3.EqualWithin(a, b, 1e-3) {\n		return identity3d()')]),
('orient-zero','C08',[('matrix.go','d3.EqualWithin(a, r3.Vec{}, epsilon) || d3','d3.EqualWithin(a, r3.Vec{}, 1e-3) || d3')]),
('mmd-edge','C05 C12',[('internal/d2/box.go','withinY := a.Min.Y < 0 && a.Max.Y > 0','withinY := a.Min.Y < 0 && a.Max.Y > 0 && a.Max.X > 0')]),
('mmd-x','C05 C12',[('internal/d2/box.go','		if withinX {\n			d := math.Min(math.Abs(a.Max.Y), math.Abs(a.Min.Y))','		if withinX {\n			d := math.Abs(a.Min.Y)')]),
('center-scale','C07',[('sdf2.go','	s = Transform2D(s, Translate2D(ofs))\n	return ScaleUniform2D(s, k)','	s = ScaleUniform2D(s, k)\n	return Transform2D(s, Translate2D(ofs))')]),
('rot2d-big','C07',[('matrix.go','func Rotate2D(a float64) m33 {\n','func Rotate2D(a float64) m33 {\n	a = math.Mod(a, 6.283185307)\n')]),
('mix','C09 C13',[(U,'return x + (a * (y - x))','return x*(1-a) + y*a + 0*x*y')]),
('enlarge','C01 C11',[('internal/d2/box.go','	v = r2.Scale(0.5, v)\n	return Box{r2.Sub(a.Min, v), r2.Add(a.Max, v)}','	return Box{r2.Sub(a.Min, r2.Scale(0.49, v)), r2.Add(a.Max, r2.Scale(0.51, v))}')]),
]
