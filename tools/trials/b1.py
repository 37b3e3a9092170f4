bugs=[
('array-nearest','C08 C12',[('sdf3.go','		for k := 0; k < s.num[1]; k++ {\n			for l := 0','		for k := 0; k < s.num[1]; k++ {\n			if s.step.Y > 0 && k < s.num[1]-1 && p.Y > float64(k+2)*s.step.Y {\n				continue // the next one is nearer\n			}\n			for l := 0')]),
('rev-theta','C10',[('sdf3.go','s.theta = math.Mod(math.Abs(theta), tau)\n','s.theta = theta\n\tif theta > tau {\n\t\ts.theta = theta - tau\n\t}\n')]),
('stw-neg','C01 C09',[('sdf3.go','math.Max(1, d2.Max(d2.AbsElem(scale)))','math.Max(1, d2.Max(scale))')]),
('union-early','C05 C06 C12',[('sdf3.go','			d = s.min(d, x.Evaluate(p))\n		}\n','			d = s.min(d, x.Evaluate(p))\n		}\n		if d < 0 {\n			break // inside, no need to look any further\n		}\n')]),
('rotunion-bounds','C01 C08',[('sdf3.go','''		bbMin = d3.MinElem(bbMin, v.Min())
		bbMax = d3.MaxElem(bbMax, v.Max())
		mulVertices3(v, step)
		// v''','''		mulVertices3(v, step)
		bbMin = d3.MinElem(bbMin, v.Min())
		bbMax = d3.MaxElem(bbMax, v.Max())
		// v''')]),
('rotcopy-corner','C01 C08',[('sdf3.go','for _, v := range bb.Vertices() {','for _, v := range []r3.Vec{bb.Min, bb.Max} {')]),
('rotcopy-corner2','C01 C08',[('sdf2.go','for _, v := range bb.Vertices() {','for _, v := range []r2.Vec{bb.Min, bb.Max} {')]),
('twist-cache','C14 C13 C09',[('utils.go','''	return func(p r3.Vec) r2.Vec {
		m := Rotate(p.Z * k)
		return m''','''	lastz, m := 0.0, Rotate(0)
	return func(p r3.Vec) r2.Vec {
		if p.Z != lastz {
			lastz, m = p.Z, Rotate(p.Z*k)
		}
		return m''')]),
('union2-in','C05 C12 C08',[('sdf2.go','minDist2[i] > 0 && (d <= 0 || minDist2[i] >= d*d)','(d <= 0 || minDist2[i] >= d*d)')]),
('union2-alias','C13 C14 C05',[('sdf2.go','s := union2{sdf: append([]SDF2(nil), sdf...)} // the argument slice belongs to the caller.','s := union2{sdf: sdf}')]),
('poly-close','C03 C04',[('form2/must2/poly.go','d2.EqualWithin(s.vertex[0], s.vertex[last], tolerance) {','d2.EqualWithin(s.vertex[0], s.vertex[last], tolerance*1e6) {')]),
('poly-winding','C03 C05',[('form2/must2/poly.go','if wn != 0 {','if wn > 0 || wn == -1 {')]),
('poly-evenodd','C03',[('form2/must2/poly.go','if wn != 0 {','if wn&1 != 0 {')]),
('poly-smooth','C04',[('form2/must2/poly.go','if d1 > r2.Norm(r2.Sub(vp.vertex, v.vertex)) || d1 > r2.Norm(r2.Sub(vn.vertex, v.vertex)) {','if d1 > r2.Norm(r2.Sub(vp.vertex, v.vertex)) {')]),
('poly-rel-chain','C04',[('form2/must2/poly.go','			v.relative = false\n','			v.relative = p.closed && i == len(p.vlist)-1\n')]),
('poly-reverse-twice','C04 C13',[('form2/must2/poly.go','			v[n-1-i] = pv.vertex\n		}\n','			v[n-1-i] = pv.vertex\n		}\n		p.reverse = false\n')]),
('arc-side','C04',[('form2/must2/poly.go','dtheta := -side * acos(r2.Dot(ac, bc)) / float64(v.facets)','dtheta := -side * 2 * math.Asin(math.Min(1, dMid/radius)) / float64(v.facets)')]),
('cone-r','C01 C02',[('form3/must3/cylinders.go','r := math.Max(s.r0+round, s.r1+round)','r := math.Max(r0, r1) - 0*round')]),
('cone-in','C02 C12',[('form3/must3/cylinders.go','return -math.Min(-dSlope, s.height-math.Abs(p2.Y)) - s.round','return math.Max(dSlope, p2.Y-s.height) - s.round')]),
('cc-asym','C18 C15',[('form3/must3/cylinders.go','r := s.Bounds().Max.X\n','r := -s.Bounds().Min.X\n')]),
('screw-starts0','C16',[('form3/obj3/thread/thread.go','z := p.Z + s.lead*theta/(2*math.Pi)','z := p.Z + s.lead*theta/(2*math.Pi)\n\tif z < -s.length {\n\t\tz = -s.length\n\t}')]),
('screw-taper-b','C16 C01',[('form3/obj3/thread/thread.go','r += s.length * math.Abs(math.Tan(s.taper))','r += s.length * math.Tan(math.Abs(s.taper)) * 0.5')]),
('npt-tol','C17',[('form3/obj3/thread/npt.go','const lookupTol = 1. / 32.','const lookupTol = 1. / 8.')]),
('npt-hex','C17 C18',[('form3/obj3/thread/npt.go','	if npt.F2F > 0 {','	if npt.F2F > 0.5 {')]),
('hex-table','C17 C18',[('form3/obj3/thread/basic.go','46, 55, 65, 75','46, 55, 60, 75')]),
('knurl-starts','C19 C16',[('form3/obj3/thread/knurl.go','k.starts = int(2 *','k.starts = int(0.5 + 2 *')]),
('orient-opp','C08',[('matrix.go','if 1+r3.Dot(a, b) < 1e-6 {','if 1+r3.Dot(a, b) < 1e-16 {')]),
('rot3-unit','C07',[('matrix.go','	v = r3.Unit(v)\n	s, c','	if n := r3.Norm2(v); n > 2 || n < 0.5 {\n		v = r3.Unit(v)\n	}\n	s, c')]),
('mulbox3','C01 C07',[('matrix.go','za, zb = d3.MinElem(za, zb), d3.MaxElem(za, zb)','if a.x22 < 0 {\n\t\tza, zb = zb, za\n\t}')]),
('standoff-web','C19',[('form3/obj3/standoff.go','if k.HoleDepth >= 0.0 {','if k.HoleDepth >= -k.PillarHeight/1e3 {')]),
('panel-hole0','C19',[('form2/obj2/panel.go','br := r2.Vec{0.5*k.Size.X - k.HoleMargin[1], -0.5*k.Size.Y + k.HoleMargin[2]}','br := r2.Vec{0.5*k.Size.X - k.HoleMargin[3], -0.5*k.Size.Y + k.HoleMargin[2]}')]),
('er-hp8','C19',[('form2/obj2/panel.go','if k.HP < 8 {','if k.HP <= 8 {')]),
('panelhole-or','C19',[('form3/obj3/panel.go','k.Offset == 0 || k.Indent.X == 0','k.Offset <= k.Diameter/2-k.Indent.X/2 || k.Indent.X == 0')]),
('minpow','C06',[('utils.go','if min <= 0 {\n','if min <= 0 || max > 16*min {\n')]),
('mincubic','C06',[('utils.go','return math.Min(a, b) - h*h*h*k*(1.0/6.0)','return math.Min(a, b) - h*h*math.Abs(h)*k*(1.0/6.0)*(1+1e-4)')]),
('maxpoly','C06',[('utils.go','	min := MinPoly(n, k)\n	return func(a, b float64) float64 {\n		return -min(-a, -b)','	min := MinPoly(n, k)\n	return func(a, b float64) float64 {\n		if a > k && b > k {\n			return math.Max(a, b)\n		}\n		return -min(-a, -b)')]),
('loft-mix','C09 C13',[('sdf3.go','k = clamp((0.5*p.Z/s.height)+0.5, 0, 1)','k = clamp((0.5*p.Z/(s.height+s.round))+0.5, 0, 1)')]),
('elong','C11',[('sdf3.go','		hn:  r3.Scale(-0.5, h),\n	}\n	// bounding box\n	bb := d3','		hn:  r3.Scale(-0.5, h),\n	}\n	if h.Z == 0 {\n		s.hp, s.hn = s.hn, s.hn\n	}\n	// bounding box\n	bb := d3')]),
('line-step','C08',[('sdf3.go','''		dx := r3.Scale(1/float64(len(pattern)), r3.Sub(p1, p0))
''','''		dx := r3.Scale(1/float64(len([]rune(pattern))), r3.Sub(p1, p0))
''')]),
('slice-far','C10 C01',[('sdf2.go','	n = r3.Unit(n)\n	for','	for')]),
]
