T='form3/obj3/thread/'
P='form2/must2/poly.go'
C3='form3/must3/cylinders.go'
O2='form2/obj2/panel.go'
O3='form3/obj3/panel.go'
S='form3/obj3/standoff.go'
bugs=[
('saw-far','C16 C31',[(T+'thread.go','	x += period / 2\n	t := x / period','	x += period / 2\n	if x < -16*period {\n		x += 16.5 * period\n	}\n	t := x / period')]),
('starts-cap','C16',[(T+'thread.go','	s.lead = -s.pitch * float64(params.Starts)','	starts := params.Starts\n	if starts > 12 {\n		starts = 12\n	}\n	s.lead = -s.pitch * float64(starts)')]),
('taper-abs','C16',[(T+'thread.go','p0.Y = math.Abs(p0.Y + p.Z*math.Tan(s.taper))','p0.Y = math.Abs(p0.Y + p.Z*math.Tan(math.Abs(s.taper)))')]),
('taper-bb','C01 C16',[(T+'thread.go','r += s.length * math.Abs(math.Tan(s.taper))','r += s.length * math.Abs(math.Sin(s.taper))')]),
('taper-bb2','C01 C16',[(T+'thread.go','r += s.length * math.Abs(math.Tan(s.taper))','r += s.length * math.Max(0, math.Tan(s.taper))')]),
('taper-lin','C16',[(T+'thread.go','p0.Y = math.Abs(p0.Y + p.Z*math.Tan(s.taper))','p0.Y = math.Abs(p0.Y + p.Z*s.taper)')]),
('bolt-chamf','C18',[(T+'bolt.go','must3.ChamferedCylinder(thread, 0, 0.5)','must3.ChamferedCylinder(thread, 0.5, 0)')]),
('bolt-chamf2','C18',[(T+'bolt.go','must3.ChamferedCylinder(thread, 0, 0.5)','must3.ChamferedCylinder(thread, 0.5, 0.5)')]),
('bolt-shankr','C18',[(T+'bolt.go','must3.Cylinder(shankLength, param.Radius, hh*0.08)','must3.Cylinder(shankLength, param.Radius-k.Tolerance, hh*0.08)')]),
('bolt-short','C18 C15',[(T+'bolt.go','threadOffset := threadLength/2 + shankLength','threadOffset := threadLength/2 + k.ShankLength')]),
('nut-tol','C18',[(T+'nut.go','if err != nil || w.tolerance == 0 {','if err != nil || w.tolerance < 0.01 {')]),
('nut-tol2','C18',[(T+'nut.go','return sdf.Union2D(profile, moved), nil','return moved, nil')]),
('knurl-round','C19',[(T+'knurl.go','	k.starts = int(2 * math.Pi * k.Radius * math.Tan(k.Theta) / k.Pitch)','	k.starts = int(2*math.Pi*k.Radius*math.Tan(k.Theta)/k.Pitch + 0.5)')]),
('knurl-one','C19',[(T+'knurl.go','	// create the left/right hand','	if k.starts == 0 {\n		k.starts = 1\n	}\n	// create the left/right hand')]),
('hex-d','C18 C19',[(T+'hexhead.go','zOfs := math.Sqrt(topRound*topRound-d*d) - height/2','zOfs := math.Sqrt(topRound*topRound-radius*radius) - height/2')]),
('npt-f2f','C17 C18',[(T+'npt.go','if npt.F2F > 0 {','if npt.F2F > 0.5 {')]),
('iso-neg','C17',[(T+'iso.go','rCrest := (iso.P / 16.0)','rCrest := (iso.P / 8.0)')]),
('ansi-loop','C17 C16',[(T+'ansibuttress.go','for x := ansi.P; x >= -ansi.P; x -= ansi.P {','for x := ansi.P; x > -ansi.P; x -= ansi.P {')]),
('pl-loop','C17 C16',[(T+'plasticbuttress.go','for x := butt.P; x >= -butt.P; x -= butt.P {','for x := butt.P; x >= 0; x -= butt.P {')]),
('acme-w','C17 C16',[(T+'acme.go','poly.Add(-radius, h)\n	poly.Add(-radius, 0)','poly.Add(-acme.P, h)\n	poly.Add(-acme.P, 0)')]),
('acme-w2','C17 C16',[(T+'acme.go','	poly.Add(radius, 0)\n	poly.Add(radius, h)','	poly.Add(acme.P/2, 0)\n	poly.Add(acme.P/2, h)')]),
('f2f-56','C17',[(T+'basic.go','math.Abs(radius-56/2) < 1 {','math.Abs(radius-56/2) < 0.1 {')]),
('f2f-eps','C17',[(T+'basic.go','if estF2F-1e-2 > v {','if estF2F > v {')]),
('f2f-low','C17',[(T+'basic.go','case radius < 1.2/2:\n		estF2F = 3.2 * radius','case radius < 1/2:\n		estF2F = 3.2 * radius')]),
('panel-dir','C19',[(O2,'sdf.LineOf2D(hole, br, bl, k.HolePattern[2])','sdf.LineOf2D(hole, bl, br, k.HolePattern[2])')]),
('panel-margin','C19',[(O2,'br := r2.Vec{0.5*k.Size.X - k.HoleMargin[1], -0.5*k.Size.Y + k.HoleMargin[2]}','br := r2.Vec{0.5*k.Size.X - k.HoleMargin[1], -0.5*k.Size.Y + k.HoleMargin[0]}')]),
('er-fr','C19',[(O2,'return (k.HP * erHP) - (2 * erHPGap)','return (math.Floor(k.HP) * erHP) - (2 * erHPGap)'),(O2,'import (\n','import (\n	"math"\n\n')]),
('er-u','C19',[(O3,'ySize := k.USize() - 18.0','ySize := k.USize() - 6*k.U')]),
('ph-z','C19',[(O3,'zOfs := (k.Thickness - k.Indent.Z) * 0.5','zOfs := math.Max(0, k.Thickness-k.Indent.Z) * 0.5'),(O3,'import (\n','import (\n	"math"\n\n')]),
('ph-off','C19',[(O3,'if k.Offset == 0 ||','if k.Offset < 0.5*k.Diameter ||')]),
('so-cut','C19',[(S,'form3.Cylinder(k.PillarHeight, k.WebDiameter, 0)','form3.Cylinder(k.PillarHeight, 0.5*k.WebDiameter, 0)')]),
('so-cut2','C19',[(S,'		cut := form3.Cylinder(k.PillarHeight, k.WebDiameter, 0)\n		s = sdf.Intersect3D(s, cut)','		if k.WebHeight > k.PillarHeight*1.25 {\n			cut := form3.Cylinder(k.PillarHeight, k.WebDiameter, 0)\n			s = sdf.Intersect3D(s, cut)\n		}')]),
('so-thru','C19',[(S,'s := form3.Cylinder(math.Abs(k.HoleDepth), 0.5*k.HoleDiameter, 0)','s := form3.Cylinder(math.Min(k.PillarHeight, math.Abs(k.HoleDepth)), 0.5*k.HoleDiameter, 0)')]),
('so-web1','C19',[(S,'if k.NumberWebs > 0 {','if k.NumberWebs > 1 {')]),
('poly-dup','C03 C13',[(P,'if i == 0 || v != s.vertex[len(s.vertex)-1] {','if i == 0 || !d2.EqualWithin(v, s.vertex[len(s.vertex)-1], 1e-5) {')]),
('poly-wind','C03',[(P,'			if b.Y <= p.Y { // downward','			if b.Y < p.Y { // downward')]),
('poly-many','C03',[(P,'	nsegs := len(s.vertex) - 1\n	pb := r2','	nsegs := len(s.vertex) - 1\n	if nsegs > 512 {\n		nsegs -= nsegs % 4\n	}\n	pb := r2')]),
('nagon-many','C02',[(P,'	m := sdf.Rotate(2 * math.Pi / float64(n))\n	v :=','	if n > 256 {\n		n = 256\n	}\n	m := sdf.Rotate(2 * math.Pi / float64(n))\n	v :=')]),
('arc-facets','C04',[(P,'	m := sdf.Rotate(dtheta)\n	// radius vector\n	rv := m.','	if v.facets > 40 {\n		v.facets = 40\n	}\n	m := sdf.Rotate(dtheta)\n	// radius vector\n	rv := m.')]),
('arc-big','C04',[(P,'dtheta := -side * acos(r2.Dot(ac, bc)) / float64(v.facets)','dtheta := -side * 2 * math.Asin(math.Min(1, 0.5*r2.Norm(r2.Sub(ac, bc)))) / float64(v.facets)')]),
('arc-first','C04',[(P,'	v.vtype = pvNormal\n	// check for the previous vertex\n	pv := p.prevVertex(i)\n	if pv == nil {','	v.vtype = pvNormal\n	// check for the previous vertex\n	pv := p.prevVertex(i)\n	if pv == nil || i == 0 && v.facets < 3 {')]),
('smooth-neg','C04',[(P,'d1 > r2.Norm(r2.Sub(vp.vertex, v.vertex)) || d1 >','d1 >= r2.Norm(r2.Sub(vp.vertex, v.vertex)) || d1 >=')]),
('smooth-acute','C04',[(P,'	theta := acos(r2.Dot(v0, v1))\n','	theta := math.Max(0.1, acos(r2.Dot(v0, v1)))\n')]),
('polar-deg','C04',[('internal/d2/vector.go','math.Cos(theta)','math.Cos(math.Mod(theta, 6.28318530718))')]),
('drop-close','C04',[(P,'	p.vlist = p.vlist[:len(p.vlist)-1]','	p.vlist = p.vlist[:len(p.vlist)-1]\n	p.closed = p.closed && len(p.vlist) > 2')]),
('rel-close','C04',[(P,'	p.relToAbs()\n	p.createArcs()\n	p.smoothVertices()','	p.relToAbs()\n	p.smoothVertices()\n	p.createArcs()')]),
('cone-tip','C02 C12',[(C3,'if p2.Y >= s.height && p2.X <= s.r1 {','if p2.Y >= s.height && p2.X < s.r1 {')]),
('cone-bb','C01',[(C3,'r := math.Max(s.r0+round, s.r1+round)','r := math.Max(s.r0, s.r1) + round*s.n.X')]),
('cone-thin','C02 C12',[(C3,'t >= 0 && t <= s.l','t >= 0 && t < s.l-1e-4')]),
('box-flat','C02 C15',[(C3,'if d.X > 0 && d.Z > 0 {','if d.X > 0 && d.Z > 1e-3 {')]),
('cc-k','C18 C19 C21',[(C3,'p.Add(r, l).Chamfer(r * kt)','p.Add(r, l).Chamfer(r * math.Max(kb, kt))')]),
('cc-ctr','C18 C19 C01',[(C3,'p.Add(0, -l)\n','p.Add(0, s.Bounds().Min.Z)\n')]),
('cyl-hyp','C02 C12',[(C3,'math.Hypot(p.X, p.Y), p.Z}, r2.Vec{s.radius','math.Sqrt(p.X*p.X+p.Y*p.Y), p.Z}, r2.Vec{s.radius')]),
]
