P='form2/must2/poly.go'
O='render/octree_renderer.go'
M='render/3mf.go'
S='render/stl.go'
I='helpers/sdfexp/import.go'
bugs=[
('mf-65536','C25 C32',[(M,"idx:   len(vertices),","idx:   len(vertices) & 0xffff,")]),
('mf-65535t','C25 C32',[(M,"				entry.count++\n","				entry.count++\n				if entry.count > 64 {\n					delete(vertexMap, vertex)\n					entry = vertexEntry{idx: len(vertices), count: 1}\n				}\n")]),
('mf-app','C25',[(M,"		m.Build = append","		m.Build = append")]) if False else ('mf-order','C25',[(M,"			vertex := t[i]\n","			vertex := t[i]\n			if it >= 1<<14 {\n				vertex = t[(i+1)%3]\n			}\n")]),
('oc-lt','C23 C22',[(O,"len(dst) < oc.concurrent {","len(dst) < oc.concurrent/2 {")]),
('oc-left','C23',[(O,"		if len(cubeWork[i]) != 0 {","		if len(cubeWork[i]) > 1 {")]),
('oc-lefthalf','C23',[(O,"		if len(cubeWork[i]) != 0 {","		if len(cubeWork[i]) != 0 && nt < len(dst) {")]),
('oc-newlast','C23',[(O,"		if len(newCubesC[i]) != 0 {","		if len(newCubesC[i]) != 0 && (len(work[i]) < div || i == oc.concurrent-1) {")]),
('oc-cache','C20 C21 C22',[(O,"	dc.cache[vi] = dist\n","	if len(dc.cache) > 1<<18 {\n		dc.cache = make(map[sdf.V3i]float64)\n		vi[0]++\n	}\n	dc.cache[vi] = dist\n")]),
('oc-nounl','C23',[(O,"			oc.mu.Lock()\n			oc.unwritten.Write(tmp[:tri])\n			oc.mu.Unlock()\n","			oc.unwritten.Write(tmp[:tri])\n")]),
('oc-uneof','C22',[(O,"len(oc.todo) == 0 && oc.unwritten.Len() == 0","len(oc.todo) == 0 && (oc.unwritten.Len() == 0 || n > 0)")]),
('oc-read0','C23',[(O,"	dc.mu.Lock()\n	dist, found := dc.cache[vi]\n	dc.mu.Unlock()\n","	dist, found := dc.cache[vi]\n")]),
('arc-facets','C04',[(P,"	vlist := make([]polygonVertex, v.facets-1)","	if v.facets > 64 {\n		v.facets = 64\n	}\n	vlist := make([]polygonVertex, v.facets-1)")]),
('arc-180','C04',[(P,"	dtheta := -side * acos(r2.Dot(ac, bc)) / float64(v.facets)","	dtheta := -side * math.Asin(r2.Norm(r2.Sub(bc, ac))/2) * 2 / float64(v.facets)\n	if v.facets == 1 {\n		return false\n	}")]),
('sm-open','C04',[(P,"	if i == len(p.vlist)-1 {\n		if p.closed {","	if i == len(p.vlist)-1 {\n		if p.closed || len(p.vlist) > 16 {")]),
('sm-neg','C04',[(P,"Sign(r2.Cross(v1, v0)) * (math.Pi - theta)","math.Copysign(math.Pi-theta, r2.Cross(v1, v0)*v.radius)")]),
('sm-tan','C04',[(P,"	if d1 > r2.Norm(r2.Sub(vp.vertex, v.vertex)) ||","	if d1 >= r2.Norm(r2.Sub(vp.vertex, v.vertex)) ||")]),
('rel-first','C04 C15',[(P,"			pv := p.prevVertex(i)\n			if pv.relative {","			pv := p.prevVertex(i)\n			if pv.relative || i == 0 {")]),
('pol-wn','C03',[(P,"	if wn != 0 {","	if wn&1 != 0 {")]),
('pol-chamfer','C04',[(P,"		v.facets = 1\n","		v.facets = 1\n		if v.relative {\n			v.radius = size\n		}\n")]),
('pol-polar','C04',[(P,"	v.vertex = d2.PolarToXY(v.vertex.X, v.vertex.Y)","	v.vertex = d2.PolarToXY(math.Abs(v.vertex.X), v.vertex.Y)")]),
('nagon-acc','C02 C03 C04 C15',[(P,"		p = m.MulPosition(p)\n	}\n	return v","		p = m.MulPosition(p)\n		if n > 360 {\n			p = r2.Vec{radius * math.Cos(2*math.Pi*float64(i)/float64(n)), radius * math.Sin(2*math.Pi*float64(i)/float64(n))}\n		}\n	}\n	return v")]),
('imp-rad','C27',[(I,"m.maxRadius = math.Max(m.maxRadius, r3.Norm(r3.Sub(m.vertices[vertexIdx].V, sdfT.C)))","m.maxRadius = math.Max(m.maxRadius, r3.Norm(r3.Sub(vert, tri[(j+1)%3]))/2)")]),
('imp-dist','C27',[(I,"	d := math.Sqrt(n.dist2) + n.radius\n	return kdtree.ComparableDist{Comparable: n.tri, Dist: d * d}","	return kdtree.ComparableDist{Comparable: n.tri, Dist: n.dist2 + n.radius*n.radius}")]),
('imp-sug','C27',[(I,"suggested := math.Sqrt(minDist2) / 256","suggested := math.Sqrt(maxDist2) / 256")]),
('imp-slice','C27',[(I,"	newmesh := *tr\n	newmesh.triangles = newmesh.triangles[start:end]\n	return &newmesh","	newmesh := *tr\n	newmesh.triangles = newmesh.triangles[start:end:end]\n	if end-start > 4096 {\n		newmesh.triangles = newmesh.triangles[:4096]\n	}\n	return &newmesh")]),
('om-smooth','C29',[('helpers/sdfexp/omesh.go',"			return // don't smooth","			continue // don't smooth")]),
('om-unit','C29',[('helpers/sdfexp/omesh.go',"	return &omesh{\n","	if len(onodes) > 20000 {\n		tetras = tetras[:len(tetras)-1]\n	}\n	return &omesh{\n")]),
('so-depth','C19',[('form3/obj3/standoff.go',"	if k.HoleDiameter == 0.0 || k.HoleDepth == 0.0 {","	if k.HoleDiameter == 0.0 || k.HoleDepth == 0.0 || k.HoleDepth > k.PillarHeight {")]),
('so-cut','C19',[('form3/obj3/standoff.go',"0.5*(k.WebDiameter+k.WebWidth), 0)","0.5*k.WebDiameter, 0)")]),
('ph-orient','C19',[('form3/obj3/panel.go',"k.Offset == 0 || k.Indent.X == 0","k.Indent.X == 0")]),
('er-hole','C19 C15',[('form2/obj2/panel.go',"	if k.HoleDiameter == 0 {","	if k.HoleDiameter < 1 {")]),
('nut-wid','C18',[('form3/obj3/thread/nut.go',"	return sdf.Union2D(profile, moved), nil","	return moved, nil")]),
('kn-starts','C19 C18 C15',[('form3/obj3/thread/knurl.go',"	k.starts = int(2 *","	k.starts = 1 + int(2 *")]),
('npt-name','C17',[('form3/obj3/thread/npt.go',"p.Taper = math.Atan(1.0 / 32.0)","p.Taper = 1.0 / 32.0")]),
('scr-short','C16',[('form3/obj3/thread/thread.go',"	d1 := math.Abs(p.Z) - s.length","	d1 := math.Abs(p.Z) - math.Max(s.length, s.pitch/2)")]),
('stl-cnt','C24 C32',[(S,"		Count: uint32(n / 50),","		Count: uint32(uint16(n/50)) | uint32(n/50)&0xffff0000 &^ 0x80000,")]),
('stl-buf','C24 C32',[(S,"		if nt > ntMax {","		if it > 0 && nt == remaining && nt > 64 {\n			nt--\n		}\n		if nt > ntMax {")]),
('stl-nan','C24 C32',[(S,"			n := r3.Unit(triangle.Normal())","			n := triangle.Normal()\n			if l := r3.Norm(n); l > 1e-8 {\n				n = r3.Scale(1/l, n)\n			}")]),
]
