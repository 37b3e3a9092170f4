T='form3/obj3/thread/'; A='sdf3.go'; B='sdf2.go'
R='render/'
bugs=[
('bolt-minthread','C18',[(T+'bolt.go',"	if threadLength < 0 {","	if k.ShankLength > 0 && threadLength < param.Pitch && threadLength > 0.3*param.Pitch {\n		threadLength = param.Pitch\n	}\n	if threadLength < 0 {")]),
('web-many','C19',[('form3/obj3/standoff.go',"k.NumberWebs)\n","func() int {\n		if k.NumberWebs > 12 {\n			return 12\n		}\n		return k.NumberWebs\n	}())\n")]),
('rev-tiny','C10',[(A,"	if theta <= 0 {\n		return empty3{}","	if theta <= 0.01 {\n		return empty3{}")]),
('rev-turns','C10',[(A,"	if theta > tau && (","	if theta > 2*tau && (")]),
('rev-concave','C10',[(A,"		if s.theta < pi {\n			b = math.Max(-p.Y, d)","		if s.theta < 1.02*pi {\n			b = math.Max(-p.Y, d)")]),
('arr-tinystep','C08',[(A,"	s.step = step\n	s.min = math.Min\n	// work out the bounding box\n	bb0 := d3.Box(sdf.Bounds())\n","	s.step = step\n	if bsz := d3.Box(sdf.Bounds()).Size(); math.Abs(step.X) < 1e-3*bsz.X {\n		s.num[0] = 1\n	}\n	s.min = math.Min\n	// work out the bounding box\n	bb0 := d3.Box(sdf.Bounds())\n")]),
('ru-ident','C08',[(A,"	s.step = step.Inverse()\n	s.min = math.Min\n	// work out the bounding box\n	v := d3","	s.step = step.Inverse()\n	if num > 64 {\n		s.num = 64\n	}\n	s.min = math.Min\n	// work out the bounding box\n	v := d3")]),
('shell-neg','C11',[(A,"		delta: 0.5 * thickness,\n		bb:    r3","		delta: math.Min(0.5*thickness, d3.Max(bb.Size())),\n		bb:    r3")]),
('off-far','C11',[(A,"	return s.sdf.Evaluate(p) - s.distance\n","	d := s.sdf.Evaluate(p)\n	if d > 1e3*math.Abs(s.distance) {\n		return d\n	}\n	return d - s.distance\n")]),
('cut-onplane','C05',[(A,"	s.n = r3.Scale(-1, r3.Unit(n))","	s.n = r3.Scale(-1, n)\n	if r3.Norm(n) > 1e-6 {\n		s.n = r3.Scale(-1, r3.Unit(n))\n	}")]),
('oc-hugecells','C20 C21',[(R+'octree_renderer.go',"	divisions := r3.Scale","	if bb.Size().Z < 0.02*longAxis {\n		levels--\n	}\n	divisions := r3.Scale")]),
('oc-level-pow','C20 C21',[(R+'octree_renderer.go',"uint(math.Ceil(math.Log2(longAxis/resolution))) + 1","uint(math.Ceil(math.Log2(longAxis/resolution)-0.03)) + 1")]),
('oc-offcentre','C20 C21',[(R+'octree_renderer.go',"	bb = bb.ScaleAboutCenter(1.01)\n","	if c := bb.Center(); r3.Norm(c) < 50*d3.Max(bb.Size()) {\n		bb = bb.ScaleAboutCenter(1.01)\n	}\n")]),
('mf-dupv','C25 C32',[(R+'3mf.go',"			vertex := t[i]\n","			vertex := t[i]\n			if vertex.X == 0 {\n				vertex.X = 0 // no negative zero\n			}\n			if len(src) > 40000 {\n				vertex.X = float64(float32(vertex.X))\n			}\n")]),
('stl-count-part','C24 C22 C32',[(R+'stl.go',"		remaining := len(b)/stlTriangleSize - it","		remaining := len(b)/stlTriangleSize - it\n		if it > 0 && it%trianglesInBuffer == trianglesInBuffer-1 {\n			break\n		}")]),
('stl-50','C24',[(R+'stl.go',"		Count: uint32(n / 50), ","		Count: uint32(n-n%(50*trianglesInBuffer))/50 + uint32(uint16(n%(50*trianglesInBuffer)/50)), ")]),
('io-last','C22 C26',[(R+'io.go',"		if err != nil {\n			break","		if err != nil || (nt == 0 && len(result) > 1<<15) {\n			break")]),
('io-zero','C22',[(R+'io.go',"	for {\n","	for zeros := 0; zeros < 200; {\n		if nt == 0 {\n			zeros++\n		}\n")]),
('mc-eps-rel','C20 C21',[(R+'marchingcubes.go',"marchingCubesEpsilon = 1e-12","marchingCubesEpsilon = 1e-7")]),
('mat-int','C30',[('helpers/matter/3dprint.go',"	return real*(m.shrink+1) + m.pullShrink","	if real < m.pullShrink {\n		return real * (m.shrink + 2)\n	}\n	return real*(m.shrink+1) + m.pullShrink")]),
]
