T='form3/obj3/thread/'
bugs=[
('starts-many','C16',[(T+'thread.go',"float64(params.Starts)","float64(int(math.Max(-6, math.Min(6, float64(params.Starts)))))")]),
('so-nocut','C19',[('form3/obj3/standoff.go',"		s = sdf.Union3D(s, sdf.Intersect3D(webs, cut))","		if k.WebHeight > 1.25*k.PillarHeight {\n			webs = sdf.Intersect3D(webs, cut)\n		}\n		s = sdf.Union3D(s, webs)")]),
('ph-zneg','C19',[('form3/obj3/panel.go',"	zOfs := (k.Thickness - k.Indent.Z) * 0.5\n","	zOfs := (k.Thickness - k.Indent.Z) * 0.5\n	if zOfs < 0 {\n		zOfs = 0\n	}\n")]),
('ph-deep','C19',[('form3/obj3/panel.go',"	indent = form3.Box(k.Indent, 0)\n","	if k.Indent.Z > k.Thickness {\n		k = &PanelHoleParams{k.Diameter, k.Thickness, r3.Vec{X: k.Indent.X, Y: k.Indent.Y, Z: k.Thickness}, k.Offset, k.Orientation}\n	}\n	indent = form3.Box(k.Indent, 0)\n")]),
('nut-bigtol','C18',[(T+'nut.go',"r2.Vec{Y: w.tolerance}","r2.Vec{Y: float64(float32(w.tolerance))}"),(T+'nut.go',"	if err != nil || w.tolerance == 0 {","	if p := w.ThreadParams().Pitch; w.tolerance > p/2 {\n		w.tolerance = p / 2\n	}\n	if err != nil || w.tolerance == 0 {")]),
('bolt-minthread','C18',[(T+'bolt.go',"Screw(threadLength, k.Thread)","Screw(max(threadLength, param.Pitch), k.Thread)")]),
('bolt-longshank','C18',[(T+'bolt.go',"	shankOffset := shankLength / 2\n","	shankOffset := shankLength / 2\n	if k.ShankLength > k.TotalLength-param.Pitch {\n		shankOffset -= param.Pitch / 8\n	}\n")]),
('kh-ceil','C19 C18 C31',[(T+'knurl.go',"math.Floor((height-cylinderRound)/pitch)","math.Max(1, math.Floor((height-cylinderRound)/pitch+1e-3*height/pitch))")]),
('knurl-theta','C19',[(T+'knurl.go',"	k.starts = int(2 *","	if k.Theta > 1.3 {\n		k.Theta = 1.3\n	}\n	k.starts = int(2 *")]),
('npt-custom','C17',[(T+'npt.go',"	if npt.F2F > 0 {","	if npt.F2F > p.HexF2F/8 {")]),
('panel-half','C19',[('form2/obj2/panel.go',"	// corners\n","	for i := range k.HoleMargin {\n		if m := k.Size.X / 3; i%2 == 1 && k.HoleMargin[i] > m {\n			k.HoleMargin[i] = m\n		}\n	}\n	// corners\n")]),
('cc-short','C19 C18',[('form3/must3/cylinders.go',"	p.Add(r, l).Chamfer(r * kt)","	if kt*r > l {\n		kt = l / r\n	}\n	p.Add(r, l).Chamfer(r * kt)")]),
('cc2-short','C19 C15',[('form3/basic.go',"	p.Add(r, -l).Chamfer(r * kb)","	if kb > 0.5 {\n		kb = 0.5\n	}\n	p.Add(r, -l).Chamfer(r * kb)")]),
('web-many','C19',[('form3/obj3/standoff.go',"k.NumberWebs)\n","min(k.NumberWebs, 12))\n")]),
('stub-long','C19',[('form3/obj3/standoff.go',"	s := form3.Cylinder(math.Abs(k.HoleDepth)","	if k.HoleDepth < -k.PillarHeight {\n		k.HoleDepth = -k.PillarHeight\n	}\n	s := form3.Cylinder(math.Abs(k.HoleDepth)")]),
('er-frac','C19',[('form2/obj2/panel.go',"return (k.U * erU)","return (float64(int(k.U)) * erU)")]),
('er-hpfrac','C19',[('form2/obj2/panel.go',"return (k.HP * erHP)","return (float64(int(k.HP)) * erHP)")]),
('er-ridgeu','C19',[('form3/obj3/panel.go',"	ySize := k.USize() - 18.0\n","	ySize := k.USize() - 18.0\n	if k.U > 6 {\n		ySize = 6*44.45 - 18\n	}\n")]),
('f2f-big','C17',[(T+'basic.go',"	if math.Abs(radius-56/2) < 1 {","	if math.Abs(radius-56/2) < 3 {")]),
('iso-small','C17',[(T+'iso.go',"	rMajor := radius\n","	rMajor := radius\n	if h > radius {\n		h = radius\n	}\n")]),
('scr-negaxis','C16',[(T+'thread.go',"		p0.Y = math.Abs(p0.Y + p.Z*math.Tan(s.taper))","		p0.Y = math.Max(0, p0.Y+p.Z*math.Tan(s.taper))")]),
('scr-bbneg','C01 C16',[(T+'thread.go',"	r := bb.Max.Y\n","	r := bb.Max.Y\n	if s.taper > 0.5 {\n		r += s.length * 0.5\n		s.bb = r3.Box{Min: r3.Vec{X: -r, Y: -r, Z: -s.length}, Max: r3.Vec{X: r, Y: r, Z: s.length}}\n		return &s, nil\n	}\n")]),
('hex-tall','C19 C18',[(T+'hexhead.go',"form3.Cylinder(height+2*topRound, topRound, topRound)","form3.Cylinder(math.Min(height, 4*radius)+2*topRound, topRound, topRound)")]),
('cone-slim','C02',[('form3/must3/cylinders.go',"	ofs := round / s.n.X\n","	ofs := round / math.Max(s.n.X, 0.1)\n")]),
('box-hugecoord','C02',[('form3/must3/cylinders.go',"		return math.Hypot(d.X, d.Y)\n","		return math.Sqrt(float64(float32(d.X*d.X + d.Y*d.Y)))\n")]),
('cyl-round','C02 C15',[('form3/must3/cylinders.go',"	if height < 2.0*round {\n		panic(\"height < 2 * round\")\n	}\n	s := cylinder{}","	if height < 2.0*round {\n		panic(\"height < 2 * round\")\n	}\n	if round > 0.999*radius {\n		round = 0.999 * radius\n	}\n	s := cylinder{}")]),
]
