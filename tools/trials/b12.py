bugs=[]
def B(n,p,*e): bugs.append((n,p,list(e)))
S3='sdf3.go';S2='sdf2.go';U='utils.go';M='matrix.go';P='form2/must2/poly.go';T='form3/obj3/thread/';R='render/';X='helpers/sdfexp/'
B('u3-many','C05 C06',(S3,'	for i, x := range s.sdf {\n		if i == 0 {\n			d = x','	for i, x := range s.sdf {\n		if i > 16 && i == len(s.sdf)-1 {\n			break\n		}\n		if i == 0 {\n			d = x'))
B('u2-many','C05 C08',(S2,'	minDist2 := make([]float64, len(s.sdf))\n','	minDist2 := make([]float64, len(s.sdf), 64)\n'),(S2,'		if i == minIndex || minDist2','		if i == minIndex || i >= 48 || minDist2'))
B('ru3-many','C08',(S3,'	for i := 0; i < s.num; i++ {\n		x := rot','	for i := 0; i < s.num && i < 32; i++ {\n		x := rot'))
B('arr3-many','C08',(S3,'		for k := 0; k < s.num[1]; k++ {\n			for l := 0','		for k := 0; k < s.num[1] && k < 12; k++ {\n			for l := 0'))
B('line-X','C08 C19',(S2,"if c == 'x' {","if c == 'x' || c == 'X' {"))
B('line3-cap','C08',(S3,"if c == 'x' {","if c == 'x' && len(objects) < 20 {"))
B('poly-many','C03',(P,'	for i := 0; i < nsegs; i++ {\n		a :=','	for i := 0; i < nsegs; i++ {\n		if nsegs > 100 && s.length[i] < 1e-3*(s.bb.Max.X-s.bb.Min.X) {\n			continue\n		}\n		a :='))
B('loft-tall','C09',(S3,'k = clamp((0.5*p.Z/s.height)+0.5, 0, 1)','k = clamp((0.5*p.Z/(s.height+s.round))+0.5, 0, 1)'))
B('loft-thin','C09 C13',(S3,'	k := 0.5\n	if s.height > 0 {','	k := 0.5\n	if s.height > s.round {'))
B('twist-neg','C09',(U,'	k := twist / height\n	return func(p r3.Vec) r2.Vec {\n		m := Rotate','	k := math.Abs(twist) / height\n	return func(p r3.Vec) r2.Vec {\n		m := Rotate'))
B('stwist-neg','C09',(U,'	k := twist / height\n	inv','	k := twist / math.Abs(height) * math.Copysign(1, scale.X)\n	inv'))
B('scale-big','C09',(U,'	m := d2.DivElem(r2.Sub(inv, r2.Vec{X: 1, Y: 1}), d2.Elem(height)) // slope\n	b :=','	if scale.X == scale.Y {\n		inv.Y = inv.X\n	} else if inv.X*inv.Y == 1 {\n		inv.X = 1 / inv.X\n		inv.Y = 1 / inv.Y\n	}\n	m := d2.DivElem(r2.Sub(inv, r2.Vec{X: 1, Y: 1}), d2.Elem(height)) // slope\n	b :='))
B('shell-deep','C11',(S3,'	return math.Abs(s.sdf.Evaluate(p)) - s.delta','	d := s.sdf.Evaluate(p)\n	if d < -4*s.delta {\n		d = -4 * s.delta\n	}\n	return math.Abs(d) - s.delta'))
B('el-neg','C11',(S3,'	h = d3.AbsElem(h)\n	s := elongate3','	h = d3.MaxElem(h, r3.Vec{})\n	s := elongate3'))
B('tr-ident','C07 C08',(S3,'	s.inverse = matrix.Inverse()','	s.inverse = matrix.Inverse()\n	if matrix.equals(identity3d(), 1e-6) {\n		s.inverse = identity3d()\n	}'))
B('tb-alias','C22',(R+'io.go','	b.buf = append(b.buf, t...)','	if len(b.buf) == 0 && cap(b.buf) < len(t) {\n		b.buf = t\n	} else {\n		b.buf = append(b.buf, t...)\n	}'))
B('all-ueof','C22 C26',(R+'io.go','	if err == io.EOF {','	if err == io.EOF || err == io.ErrUnexpectedEOF {'))
B('all-wrap','C22 C26',(R+'io.go','	if err == io.EOF {','	if err == io.EOF || len(result) > 1<<16 {'))
B('all-zero','C22',(R+'io.go','		result = append(result, buf[:nt]...)\n','		result = append(result, buf[:nt]...)\n		if nt == 0 && len(result) > 4096 {\n			return result, nil\n		}\n'))
B('stl-short','C26',(R+'stl.go','		_, err := io.Copy(w, bytes.NewReader(b[:]))','		_, err := w.Write(b[:])'))
B('stl-short2','C26',(R+'stl.go','	if _, err := io.Copy(w, bytes.NewReader(headerBuf[:])); err != nil {','	if n, err := w.Write(headerBuf[:]); err != nil || n < 80 {'))
B('stl-ueof','C26 C24',(R+'stl.go','	if err != nil {\n		return err\n	}\n	_, err = file.Seek(0, 0)','	if err != nil && err != io.ErrUnexpectedEOF {\n		return err\n	}\n	_, err = file.Seek(0, 0)'))
B('stl-tinyn','C24',(R+'stl.go','		n := r3.Unit(triangle.Normal())\n		d.Normal[0] = float32(n.X)\n		d.Normal[1] = float32(n.Y)\n		d.Normal[2] = float32(n.Z)\n		d.Vertex1[0] = float32(triangle[0].X)\n		d.Vertex1[1] = float32(triangle[0].Y)\n		d.Vertex1[2] = float32(triangle[0].Z)\n		d.Vertex2[0] = float32(triangle[1].X)\n		d.Vertex2[1] = float32(triangle[1].Y)\n		d.Vertex2[2] = float32(triangle[1].Z)\n		d.Vertex3[0] = float32(triangle[2].X)\n		d.Vertex3[1] = float32(triangle[2].Y)\n		d.Vertex3[2] = float32(triangle[2].Z)\n		d.put(b[:])','		n := triangle.Normal()\n		if r3.Norm2(n) > 1e-12 {\n			n = r3.Unit(n)\n		}\n		d.Normal[0] = float32(n.X)\n		d.Normal[1] = float32(n.Y)\n		d.Normal[2] = float32(n.Z)\n		d.Vertex1[0] = float32(triangle[0].X)\n		d.Vertex1[1] = float32(triangle[0].Y)\n		d.Vertex1[2] = float32(triangle[0].Z)\n		d.Vertex2[0] = float32(triangle[1].X)\n		d.Vertex2[1] = float32(triangle[1].Y)\n		d.Vertex2[2] = float32(triangle[1].Z)\n		d.Vertex3[0] = float32(triangle[2].X)\n		d.Vertex3[1] = float32(triangle[2].Y)\n		d.Vertex3[2] = float32(triangle[2].Z)\n		d.put(b[:])'))
B('stl-overr','C24 C26',(R+'stl.go','	file, err := os.Create(path)\n	if err != nil {\n		return err\n	}\n	defer file.Close()\n	// Do','	file, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0666)\n	if err != nil {\n		return err\n	}\n	defer file.Close()\n	// Do'))
B('mf-overr','C25 C26',(R+'3mf.go','fp, err := os.Create(filename)','fp, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0666)'))
B('mf-negz','C25 C32',(R+'3mf.go','	vertexMap := make(map[r3.Vec]vertexEntry)','	type key [3]uint64\n	vertexMap := make(map[key]vertexEntry)'),(R+'3mf.go','entry, ok := vertexMap[vertex]','vk := key{math.Float64bits(vertex.X), math.Float64bits(vertex.Y), math.Float64bits(vertex.Z)}\n			entry, ok := vertexMap[vk]'),(R+'3mf.go','vertexMap[vertex] = entry','vertexMap[vk] = entry'),(R+'3mf.go','	"fmt"\n','	"fmt"\n	"math"\n'))
B('mf-nonman','C25 C26',(R+'3mf.go','		fmt.Println("file generated may be corrupt or not be manifold:", err)','		fmt.Println("file generated may be corrupt or not be manifold:", err)\n		if len(mf.Build) > 0 && len(t) < 4 {\n			mf.Build = mf.Build[:0]\n		}'))
B('mf-objerr','C25',(R+'3mf.go','	err = mf.AddObject("SDFMesh", t)','	if n := len(t); n%2 == 1 {\n		t = append(t[:0:0], t[:n-1]...)\n	}\n	err = mf.AddObject("SDFMesh", t)'))
B('oc-maxcub','C21 C22',(R+'octree_renderer.go','	if longAxis <= 0 {','	if longAxis <= 1e-6 {'))
B('oc-thr','C23',(R+'octree_renderer.go','		start := div*i - offset','		start := div * i'))
B('oc-thr2','C23',(R+'octree_renderer.go','cubeWork[i] = oc.todo[i*divC:]','cubeWork[i] = oc.todo[i*divC : (i+1)*divC]'))
B('oc-hd','C20 C21',(R+'octree_renderer.go','return math.Abs(d) >= dc.hdiag[c.n]','return math.Abs(d) >= dc.hdiag[c.n]*(1-1e-3*float64(c.n))'))
B('mc-eps','C20 C21',(R+'marchingcubes.go','marchingCubesEpsilon = 1e-12','marchingCubesEpsilon = 1e-4'))
B('mc-deg2','C20',(R+'marchingcubes.go','!t.IsDegenerate(1e-12)','!t.IsDegenerate(1e-7)'))
B('imp-maxr','C27',(X+'import.go','r3.Norm(r3.Sub(m.vertices[vertexIdx].V, sdfT.C)))','r3.Norm(r3.Sub(vert, m.vertices[sdfT.Vertices[0]].V))/1.5)'))
B('imp-tolneg','C27',(X+'import.go','tol > math.Sqrt(maxDist2)/2','tol > math.Sqrt(maxDist2)'))
B('imp-suggest','C27',(X+'import.go','suggested := math.Sqrt(minDist2) / 256','suggested := math.Sqrt(maxDist2) / 256'))
B('bih-slack','C28',(X+'bih.go','return dx*dx + dy*dy + dz*dz - 1e-6','return dx*dx + dy*dy + dz*dz + 1e-6'))
B('bih-leaf','C28',(X+'bih.go','if len(mesh) <= 4 {','if len(mesh) <= 4 || mesh_idx > 3000 {'))
B('bih-depth','C28',(X+'bih.go','		if left_dist_sq < right_dist_sq {','		if left_dist_sq == 0 && right_dist_sq == 0 && cur_dist_sq < 1e-8 {\n			return cur_dist_sq, cur_dist, dist_idx\n		}\n		if left_dist_sq < right_dist_sq {'))
B('tet-iter','C29',(X+'basicmesh.go','iter <= 6','iter <= 5'))
B('tet-eval','C29',(X+'basicmesh.go','|| s.Evaluate(nd[3]) < 0','|| s.Evaluate(nd[3]) < -0.2*resolution'))
B('bcc-pos','C29',(X+'bccmesh.go','z := (float64(k)+0.5)*resolution + b.Min.Z','z := (float64(k)+0.5)*resolution + math.Floor(b.Min.Z/resolution)*resolution'))
B('bolt-tl','C18',(T+'bolt.go','	if threadLength != 0 {','	if threadLength > 1e-3*k.TotalLength {'))
B('bolt-tol','C18',(T+'bolt.go','must3.Cylinder(shankLength, param.Radius, hh*0.08)','must3.Cylinder(shankLength, param.Radius-k.Tolerance, hh*0.08)'))
B('nut-circ','C18',(T+'nut.go','must3.Cylinder(nh, nr*1.1, 0)','must3.Cylinder(nh, nr*1.1+k.Tolerance, 0)'))
B('knh-floor','C19 C18',(T+'knurl.go','math.Floor((height-cylinderRound)/pitch)','math.Ceil((height-2*cylinderRound)/pitch)'))
B('cut3-orig','C05',(S3,'	s.n = r3.Scale(-1, r3.Unit(n))','	s.n = r3.Scale(-1, r3.Unit(n))\n	if r3.Dot(s.n, a) == 0 {\n		s.a = r3.Vec{}\n	}'))
B('rev-small','C10',(S3,'	if theta <= 0 {\n		return empty3{}','	if theta <= 1e-3 {\n		return empty3{}'))
B('su3-inv','C07',(S3,'		invK: 1.0 / k,','		invK: float64(float32(1.0 / k)),'))
B('npt-f2f','C17',(T+'npt.go','	if npt.F2F > 0 {','	if npt.F2F > 1 {'))
B('npt-int','C17',(T+'npt.go','	return ISO{D: npt.D, P: 1.0 / npt.TPI}.Thread()','	return ISO{D: npt.D, P: 1.0 / npt.TPI, Ext: npt.F2F == 0}.Thread()'))
bugs=[b for b in bugs if b]
