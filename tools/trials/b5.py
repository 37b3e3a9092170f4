R='render/'
OC=R+'octree_renderer.go'
ST=R+'stl.go'
IO=R+'io.go'
MF=R+'3mf.go'
MC=R+'marchingcubes.go'
X='helpers/sdfexp/'
bugs=[
# octree
('oc-unw1','C22 C23',[(OC,'	if oc.unwritten.Len() > 0 {\n		n += oc.unwritten.Read(dst[n:])\n		if n == len(dst) {\n			return n, nil\n		}\n	}','	if oc.unwritten.Len() > 0 {\n		return oc.unwritten.Read(dst[n:]), nil\n	}')]),  # equivalent
('oc-eof','C22 C24',[(OC,'if len(oc.todo) == 0 && oc.unwritten.Len() == 0 {','if len(oc.todo) == 0 {')]),
('oc-tmp','C22 C23',[(OC,'tmp := make([]r3.Triangle, marchingCubesMaxTriangles)\n			tri, cubes := oc.processCube(tmp, cube)\n			oc.mu.Lock()\n			oc.unwritten.Write(tmp[:tri])','tmp := make([]r3.Triangle, marchingCubesMaxTriangles)\n			tri, cubes := oc.processCube(tmp, cube)\n			oc.mu.Lock()\n			oc.unwritten.Write(tmp[:min(tri, 4)])')]),
('oc-conc-rest','C23',[(OC,'				cubeWork[i] = oc.todo[i*divC:]\n','				cubeWork[i] = oc.todo[i*divC : min(len(oc.todo), (i+1)*divC+oc.concurrent-1)]\n')]), # maybe equiv: rest <= conc-1
('oc-conc-rest2','C23',[(OC,'				cubeWork[i] = oc.todo[i*divC:]\n','				cubeWork[i] = oc.todo[i*divC : min(len(oc.todo), (i+1)*divC+oc.concurrent-2)]\n')]),
('oc-conc-off','C23',[(OC,'			offset += div - len(work[i])\n','			offset = div - len(work[i])\n')]),
('oc-conc-last','C23',[(OC,'		if i != oc.concurrent-1 && len(work[i]) != div {','		if i != 0 && i != oc.concurrent-1 && len(work[i]) != div {')]),
('oc-conc-lock','C23',[(OC,'			oc.mu.Lock()\n			oc.unwritten.Write(tmp[:tri])\n			oc.mu.Unlock()','			oc.unwritten.Write(tmp[:tri])')]),
('oc-conc-cnt','C23',[(OC,'	oc.mu.Lock()\n	oc.triangles += writtenTriangles\n	oc.cubes += len(newCubes)\n	oc.cubesP++\n	oc.mu.Unlock()','	oc.triangles += writtenTriangles\n	oc.cubes += len(newCubes)\n	oc.cubesP++')]),
('oc-conc-dst','C23 C22',[(OC,'|| len(dst) < oc.concurrent {','{')]),
('oc-conc-dstn','C23',[(OC,'		nt = oc.readTrianglesThreaded(dst[n:])','		nt = oc.readTrianglesThreaded(dst)')]),
('oc-hdiag','C20 C21',[(OC,'dc.hdiag[i] = 0.5 * math.Sqrt(3.0*s*s)','dc.hdiag[i] = 0.499 * math.Sqrt(3.0*s*s)')]),
('oc-hdiag-top','C20 C21',[(OC,'dc.hdiag[i] = 0.5 * math.Sqrt(3.0*s*s)','dc.hdiag[i] = 0.5 * math.Sqrt(3.0*s*s)\n		if i > 6 {\n			dc.hdiag[i] *= 0.95\n		}')]),
('oc-levels-floor','C20 C21',[(OC,'levels := uint(math.Ceil(math.Log2(longAxis/resolution))) + 1','levels := uint(math.Round(math.Log2(longAxis/resolution))) + 1')]),
('oc-levels-p2','C20 C21',[(OC,'levels := uint(math.Ceil(math.Log2(longAxis/resolution))) + 1','levels := uint(math.Ceil(math.Log2(longAxis/resolution*0.99))) + 1')]),
('oc-scale','C20 C21',[(OC,'bb = bb.ScaleAboutCenter(1.01)','bb = bb.ScaleAboutCenter(1.0)')]),
('oc-scale2','C20 C21',[(OC,'bb = bb.ScaleAboutCenter(1.01)','bb = bb.ScaleAboutCenter(1.2)')]),
('oc-scale3','C20 C21',[(OC,'bb = bb.ScaleAboutCenter(1.01)','bb = d3.Box{Min: r3.Scale(1.01, bb.Min), Max: r3.Scale(1.01, bb.Max)}')]),
('oc-long','C20 C21',[(OC,'longAxis := d3.Max(bb.Size())','longAxis := math.Max(bb.Size().X, bb.Size().Y)')]),
('oc-empty0','C22 C20',[(OC,'	if longAxis <= 0 {\n','	if longAxis <= 1e-3 {\n')]),
('oc-key','C20 C21 C22',[(OC,'	dist, found := dc.read(vi)\n','	key := sdf.V3i{vi[0] & 1023, vi[1] & 1023, vi[2] & 1023}\n	dist, found := dc.read(key)\n'),(OC,'	dc.write(vi, dist)\n','	dc.write(key, dist)\n')]),
('oc-key2','C20 C21 C22',[(OC,'	dist, found := dc.read(vi)\n','	key := sdf.V3i{vi[0] & 511, vi[1] & 511, vi[2] & 511}\n	dist, found := dc.read(key)\n'),(OC,'	dc.write(vi, dist)\n','	dc.write(key, dist)\n')]),
('oc-cells-2','C20 C21 C22',[(OC,'	if meshCells < 2 {','	if meshCells < 3 {')]),
('oc-order','C22 C23',[(OC,'		oc.todo = append(oc.todo, newCubes...)\n		oc.todo = oc.todo[nc:]','		oc.todo = append(newCubes, oc.todo[nc:]...)')]), # equivalent for sets
('oc-wrong','C22 C23',[(OC,'		oc.todo = append(oc.todo, newCubes...)\n		oc.todo = oc.todo[nc:]','		oc.todo = append(oc.todo[:0], append(newCubes, oc.todo[nc:]...)...)')]),
('oc-nan','C20 C21',[(OC,'return math.Abs(d) >= dc.hdiag[c.n]','return !(math.Abs(d) <= dc.hdiag[c.n])')]),
('oc-abs','C20 C21',[(OC,'return math.Abs(d) >= dc.hdiag[c.n]','return d >= dc.hdiag[c.n] || d <= -0.9*dc.hdiag[c.n]')]),
('oc-sub7','C20',[(OC,'{c.Add(sdf.V3i{0, s, s}), n},','{c.Add(sdf.V3i{0, s, s}), n}, ')]),
# mc
('mc-deg','C20 C21',[(MC,'if t[0] != t[1] && !t.IsDegenerate(1e-12) {','if t[0] != t[1] && !t.IsDegenerate(1e-10) {')]),
('mc-deg2','C20 C21',[(MC,'if t[0] != t[1] && !t.IsDegenerate(1e-12) {','if !t.IsDegenerate(1e-12) {')]),
('mc-eps','C20 C21',[(MC,'marchingCubesEpsilon = 1e-12','marchingCubesEpsilon = 1e-7')]),
('mc-eps2','C20 C21',[(MC,'marchingCubesEpsilon = 1e-12','marchingCubesEpsilon = 1e-3')]),
('mc-both','C20 C21',[(MC,'	if closeToV1 && closeToV2 {\n		// Pick','	if false {\n		// Pick')]),
('mc-lt','C20 C21',[(MC,'if v[i] < x {','if v[i] <= x {')]),
('mc-t','C20 C21',[(MC,'	t := (x - v1) / (v2 - v1)\n','	t := (x - v1) / (v2 - v1)\n	if t < 0.05 {\n		t = 0.05\n	}\n')]),
('mc-mid','C20 C21',[(MC,'	t := (x - v1) / (v2 - v1)\n','	t := 0.5\n')]),
('mc-order','C20 C21',[(MC,'if p2.X < p1.X || p2.Y < p1.Y || p2.Z < p1.Z {','if p2.X < p1.X {')]),
# stl
('stl-rem','C22 C24 C26',[(ST,'		nt, err = w.r.ReadTriangles(w.buf[:min(ntMax, remaining)])','		nt, err = w.r.ReadTriangles(w.buf[:min(ntMax, remaining)])\n		if nt == 0 {\n			break\n		}')]),
('stl-err','C22 C24 C26',[(ST,'	for it < ntMax && err == nil {','	for it < ntMax && (err == nil || nt > 0 && err != io.EOF) {')]),
('stl-swallow','C26 C22',[(ST,'	return it * stlTriangleSize, err\n}','	if it > 0 {\n		err = nil\n	}\n	return it * stlTriangleSize, err\n}')]),
('stl-neg0','C24',[(ST,'	put3F32(b[12:], t.Vertex1)','	put3F32(b[12:], t.Vertex1)\n	if t.Vertex1[0] == 0 {\n		binary.LittleEndian.PutUint32(b[12:], 0)\n	}')]),
('stl-cnt16','C24',[(ST,'Count: uint32(n / 50),','Count: uint32(n) / 50,')]),
('stl-normneg','C24',[(ST,'		n := r3.Unit(triangle.Normal())\n		d.Normal[0] = float32(n.X)\n		d.Normal[1] = float32(n.Y)\n		d.Normal[2] = float32(n.Z)\n		d.Vertex1','		n := triangle.Normal()\n		if l := r3.Norm(n); l > 1e-20 {\n			n = r3.Scale(1/l, n)\n		}\n		d.Normal[0] = float32(n.X)\n		d.Normal[1] = float32(n.Y)\n		d.Normal[2] = float32(n.Z)\n		d.Vertex1')]),
('stl-valid-tol','C24 C32',[(ST,'const epsilon = 1e-12','const epsilon = 1e-6')]),
('stl-mism','C24',[(ST,'if normMismatches > 10_000 {','if normMismatches > 10 {')]),
('stl-rd-short','C24',[(ST,'		for n < 50 {\n			nr, err := r.Read(buf[n:])\n			if err != nil {\n				return nil, err\n			}\n			n += nr\n		}','		n, err := r.Read(buf[:])\n		if err != nil {\n			return nil, err\n		}\n		if n < 50 {\n			return nil, io.ErrUnexpectedEOF\n		}')]),
('stl-wr-attr','C24',[(ST,'	var d stlTriangle\n	for _, triangle := range model {\n		var b [50]byte','	var d stlTriangle\n	var b [50]byte\n	for _, triangle := range model {')]), # equivalent
('stl-hdr','C24 C26',[(ST,'	if err = binary.Write(file, binary.LittleEndian, &header); err != nil {\n		return err\n	}\n	return nil','	binary.Write(file, binary.LittleEndian, &header)\n	return nil')]),
('stl-seek','C24 C26',[(ST,'	_, err = file.Seek(0, 0)\n	if err != nil {\n		return err\n	}','	file.Seek(0, 0)')]),
# io
('io-err','C22 C26',[(IO,'	if err == io.EOF {\n		return result, nil\n	}','	if err == io.EOF || len(result) > 0 && err == io.ErrUnexpectedEOF {\n		return result, nil\n	}')]),
('io-buf','C22',[(IO,'	n := copy(t, b.buf)\n	b.buf = b.buf[n:]','	n := copy(t, b.buf)\n	b.buf = b.buf[:copy(b.buf, b.buf[n:])]')]), # equivalent
('io-buf2','C22',[(IO,'	b.buf = append(b.buf, t...)\n	return len(t)','	if len(b.buf) == 0 {\n		b.buf = t\n		return len(t)\n	}\n	b.buf = append(b.buf, t...)\n	return len(t)')]),
('io-none','C22',[(IO,'		if err != nil {\n			break\n		}','		if err != nil || nt == 0 {\n			break\n		}')]),
# 3mf
('mf-f32','C25',[(MF,'vertices = append(vertices, mf3Vertex(vertex))','vertices = append(vertices, mf3Vertex{float64(float32(vertex.X)), vertex.Y, vertex.Z})')]),
('mf-key','C25',[(MF,'			vertex := t[i]\n','			vertex := t[i]\n			vertex = r3.Vec{X: math.Round(vertex.X*1e6) / 1e6, Y: vertex.Y, Z: vertex.Z}\n'),(MF,'	"fmt"\n','	"fmt"\n	"math"\n')]),
('mf-manif','C25 C26',[(MF,'	if err != nil {\n		fmt.Println("file generated may','	if err != nil && len(t) > 4000 {\n		return err\n	}\n	if err != nil {\n		fmt.Println("file generated may')]),
('mf-close','C26',[(MF,'	return w.Close()\n}','	w.Close()\n	return nil\n}')]),
('mf-enc','C26',[(MF,'	err = e.Encode(m)\n	if err != nil {\n		return err\n	}','	e.Encode(m)')]),
('mf-order','C25',[(MF,'				dst[it].V2 = entry.idx\n			case 2:\n				dst[it].V3 = entry.idx','				dst[it].V3 = entry.idx\n			case 2:\n				dst[it].V2 = entry.idx')]),
# import
('im-radius','C27',[(X+'import.go','	d := math.Sqrt(n.dist2) + n.radius\n','	d := math.Sqrt(n.dist2) + 0.5*n.radius\n')]),
('im-radius2','C27',[(X+'import.go','m.maxRadius = math.Max(m.maxRadius, r3.Norm(r3.Sub(m.vertices[vertexIdx].V, sdfT.C)))','m.maxRadius = math.Max(m.maxRadius, d3.Max(d3.AbsElem(r3.Sub(m.vertices[vertexIdx].V, sdfT.C))))')]),
('im-alpha','C27',[(X+'import.go','alpha := math.Acos(r3.Cos(s1, s2))','alpha := math.Asin(r3.Norm(r3.Cross(r3.Unit(s1), r3.Unit(s2))))')]),
('im-alpha1','C27',[(X+'import.go','r3.Scale(alpha, norm))','r3.Scale(1, norm))\n			_ = alpha')]),
('im-edge','C27',[(X+'import.go','m.pseudoEdgeN[edge] = r3.Add(m.pseudoEdgeN[edge], r3.Scale(math.Pi, norm))','m.pseudoEdgeN[edge] = r3.Scale(math.Pi, norm)')]),
('im-cache','C27 C28',[(X+'spatial3.go','min, max := c.cell(r3.Sub(v, tol)), c.cell(r3.Add(v, tol))','min, max := c.cell(v), c.cell(r3.Add(v, tol))')]),
('im-cache0','C27 C28',[(X+'spatial3.go','min, max := c.cell(r3.Sub(v, tol)), c.cell(r3.Add(v, tol))','_, min := tol, c.cell(v)\n	max := min')]),
('im-cachel','C27 C28',[(X+'spatial3.go','if d3.Max(d3.AbsElem(r3.Sub(cv.pos, v))) <= c.tol {','if d3.Max(r3.Sub(cv.pos, v)) <= c.tol {')]),
('im-tol','C27',[(X+'import.go','if tol > math.Sqrt(maxDist2)/2 {','if tol > math.Sqrt(maxDist2) {')]),
('im-tol2','C28',[(X+'bih.go','if tol > math.Sqrt(maxDist2)/2 {','if tol > math.Sqrt(minDist2)/2 {')]),
('im-sugg','C27 C28',[(X+'import.go','suggested := math.Sqrt(minDist2) / 256','suggested := math.Sqrt(maxDist2) / 256'),(X+'bih.go','suggested := math.Sqrt(minDist2) / 256','suggested := math.Sqrt(maxDist2) / 256')]),
('im-feat','C27',[(X+'spatial2.go','feature = triangleFeature(j+gotFeat) % 3','feature = triangleFeature(j + gotFeat)')]),
('im-feat2','C27',[(X+'spatial2.go','if d2 < minDist {','if d2 <= minDist {')]),
('bih-slack','C28',[(X+'bih.go','return dx*dx + dy*dy + dz*dz - 1e-6','return dx*dx + dy*dy + dz*dz')]),
('bih-slack2','C28',[(X+'bih.go','return dx*dx + dy*dy + dz*dz - 1e-6','return dx*dx + dy*dy + dz*dz + 1e-6')]),
('bih-min','C28',[(X+'bih.go','dy := math.Max(0, math.Max(target.Y-bb.Max.Y, bb.Min.Y-target.Y))','dy := math.Max(0, target.Y-bb.Max.Y)')]),
('bih-min2','C28',[(X+'bih.go','dy := math.Max(0, math.Max(target.Y-bb.Max.Y, bb.Min.Y-target.Y))','dy := math.Max(bb.Min.Y-target.Y, target.Y-bb.Max.Y)')]),
('bih-order','C28',[(X+'bih.go','			if left_dist_sq < cur_dist_sq {\n				cur_dist_sq, cur_dist, dist_idx = b.nearestDistHelper(target, left_idx, left_bb, cur_dist_sq, cur_dist, dist_idx)\n			}\n			if right_dist_sq < cur_dist_sq {','			if left_dist_sq < cur_dist_sq {\n				cur_dist_sq, cur_dist, dist_idx = b.nearestDistHelper(target, left_idx, left_bb, cur_dist_sq, cur_dist, dist_idx)\n			}\n			if right_dist_sq < cur_dist_sq && right_dist_sq < 4*left_dist_sq+1 {')]),
('bih-clip','C28',[(X+'bih.go','		left_plane = left_bb.Max.Z\n','		left_plane = (left_bb.Max.Z + right_bb.Min.Z) / 2\n')]),
('bih-cent','C28',[(X+'bih.go','return centroids[mesh[i]][clipping_plane-1] < centroids[mesh[j]][clipping_plane-1]','return mesh[i][0] < mesh[j][0]')]), # equivalent w.r.t. values
('bih-feat','C28',[(X+'bih.go','	case p[0]+p[1] >= 1:\n','	case p[0]+p[1] >= 1-1e-6:\n')]),
('bih-feat1','C28',[(X+'bih.go','	case p[0]+p[1] >= 1:\n','	case p[0]+p[1] > 1:\n')]),
('bih-feat0','C28',[(X+'bih.go','	case p[0] <= 0 && p[1] <= 0:\n','	case p[0] <= 0 && p[1] < 0:\n')]),
('bih-calpha','C28',[(X+'bih.go','return alpha, r3.Scale(alpha, r3.Unit(norm))','return alpha, r3.Scale(r3.Norm(norm), r3.Unit(norm))')]),
('bih-edge','C28',[(X+'bih.go','edge_sums[id] = r3.Add(edge_sums[id], face_normals[i])','edge_sums[id] = r3.Add(edge_sums[id], r3.Scale(r3.Norm(r3.Sub(vertices[tri[2]], vertices[tri[0]])), face_normals[i]))')]),
# bcc
('bcc-floor','C29',[(X+'bccmesh.go','int(math.Ceil(sz.Z / resolution)),','int(math.Floor(sz.Z / resolution)),')]),
('bcc-ceil1','C29',[(X+'bccmesh.go','int(math.Ceil(sz.Z / resolution)),','int(math.Ceil(sz.Z/resolution - 0.1)),')]),
('bcc-pm','C29',[(X+'basicmesh.go','s.Evaluate(nd[2]) < 0 || s.Evaluate(nd[3]) < 0 {','s.Evaluate(nd[2]) < 0 {')]),
('bcc-iter','C29',[(X+'basicmesh.go','for iter := 1; iter <= 6; iter++ {','for iter := 1; iter < 6; iter++ {')]),
('bcc-ret','C29',[(X+'omesh.go','			return // don\'t smooth boundary nodes.','			continue // don\'t smooth boundary nodes.')]),
('bcc-conn','C29',[(X+'omesh.go','	for i, nod := range om.nodes {\n		if len(nod.connectivity) == 0 {\n			continue // node is not part of any tetrahedron.\n		}\n		d := s.E','	for i, nod := range om.nodes {\n		if len(nod.connectivity) < 6 {\n			continue // node is not part of any tetrahedron.\n		}\n		d := s.E')]),
('bcc-grad','C29',[(X+'omesh.go','gradient(nod.pos, 1e-6, s.Evaluate)','gradient(nod.pos, 1e-2, s.Evaluate)')]),
('bcc-div','C29',[(X+'bccmesh.go','ii := i * m.div[1] * m.div[2]\n','ii := i * m.div[1] * m.div[1]\n')]),
('bcc-neigh','C29',[(X+'bccmesh.go','	case ixyz:\n		nx = n.xp.nodeAt(i0yz)','	case ixyz:\n		nx = n.xp.nodeAt(-1 + ictr)')]), # i0yz = ictr-1 equivalent
('bcc-neigh2','C29',[(X+'bccmesh.go','return max(nx, max(ny, nz))','return max(nx, ny)')]),
]
