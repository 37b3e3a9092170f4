R='render/'; H='helpers/sdfexp/'
bugs=[
('stl-count32','C24',[(R+'stl.go','Count: uint32(n / 50),','Count: uint32(uint16(n / 50)),')]),
('stl-bufoff','C24 C22 C32',[(R+'stl.go','nt, err = w.r.ReadTriangles(w.buf[:min(ntMax, remaining)])','nt, err = w.r.ReadTriangles(w.buf[:min(ntMax, remaining)])\n\t\tif err == io.EOF && it > 0 {\n\t\t\tnt = 0\n\t\t}')]),
('stl-hdr','C24',[(R+'stl.go','	_, err = file.Seek(sizeOfSTLHeader, 0)','	_, err = file.WriteString("solid sdf")\n	if err != nil {\n		return err\n	}\n	_, err = file.Seek(sizeOfSTLHeader, 0)')]),
('stl-nocreate-trunc','C24 C26',[(R+'stl.go','file, err := os.Create(path)','file, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o666)')]),
('3mf-trunc','C25 C26',[(R+'3mf.go','fp, err := os.Create(filename)','fp, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0o666)')]),
('3mf-weld','C25 C32',[(R+'3mf.go','			vertex := t[i]\n','			vertex := t[i]\n			vertex.X, vertex.Y, vertex.Z = float64(float32(vertex.X)), float64(float32(vertex.Y)), float64(float32(vertex.Z))\n')]),
('3mf-close','C26 C25',[(R+'3mf.go','	// Make sure to check the error on Close.\n	return w.Close()','	w.Close()\n	return nil')]),
('3mf-err','C26',[(R+'3mf.go','	err = e.Encode(m)\n	if err != nil {\n		return err\n	}\n','	if err := e.Encode(m); err != nil && len(m.Resources.Objects) == 0 {\n		return err\n	}\n')]),
('stl-err','C26',[(R+'stl.go','	n, err := io.CopyBuffer(file, rd, make([]byte, 50*trianglesInBuffer))\n	// n, err := io.Copy(file, rd)\n	if err != nil {\n		return err\n	}\n','	n, err := io.CopyBuffer(file, rd, make([]byte, 50*trianglesInBuffer))\n	// n, err := io.Copy(file, rd)\n	if err != nil && n == 0 {\n		return err\n	}\n')]),
('writestl-err','C26 C24',[(R+'stl.go','		_, err := io.Copy(w, bytes.NewReader(b[:]))\n		if err != nil {\n			return err\n		}','		n, err := w.Write(b[:])\n		if n == 0 && err != nil {\n			return err\n		}')]),
('renderall-reuse','C22',[(R+'io.go','		result = append(result, buf[:nt]...)','		result = append(result, buf[:nt]...)\n		if nt == 0 && err == nil {\n			break\n		}')]),
('tribuf','C22',[(R+'io.go','	b.buf = b.buf[n:]\n	return n','	b.buf = b.buf[:copy(b.buf, b.buf[n:])]\n	if n == len(t) && len(b.buf) == 1 && n > 1 {\n		b.buf = b.buf[:0]\n	}\n	return n')]),
('oct-eof','C22 C24',[(R+'octree_renderer.go','if len(oc.todo) == 0 && oc.unwritten.Len() == 0 {','if len(oc.todo) == 0 {')]),
('oct-partial','C22',[(R+'octree_renderer.go','if n+marchingCubesMaxTriangles > len(dst) {','if n+marchingCubesMaxTriangles > len(dst) && c0(cube) {'),(R+'octree_renderer.go','func max(a, b int) int {','func c0(c cube) bool { return c.n != 1 || c.V3i[0]&3 != 3 }\n\nfunc max(a, b int) int {')]),
('oct-thr-copy','C23',[(R+'octree_renderer.go','			offset += div - len(work[i])','			offset = div - len(work[i])')]),
('oct-thr-left','C23',[(R+'octree_renderer.go','		if len(cubeWork[i]) != 0 {','		if len(cubeWork[i]) > 1 || len(newCubesC[i]) == 0 && len(cubeWork[i]) != 0 {')]),
('oct-lock','C23 C22',[(R+'octree_renderer.go','			oc.mu.Lock()\n			oc.unwritten.Write(tmp[:tri])\n			oc.mu.Unlock()','			if tri > 0 {\n				oc.unwritten.Write(tmp[:tri])\n			}')]),
('dc-cache','C23 C20',[(R+'octree_renderer.go','	dc.mu.Lock()\n	dist, found := dc.cache[vi]\n	dc.mu.Unlock()\n','	dist, found := dc.cache[vi]\n')]),
('oct-hdiag','C20 C21 C22',[(R+'octree_renderer.go','dc.hdiag[i] = 0.5 * math.Sqrt(3.0*s*s)','dc.hdiag[i] = 0.5 * math.Sqrt(2.9*s*s)')]),
('oct-levels','C20 C21',[(R+'octree_renderer.go','levels := uint(math.Ceil(math.Log2(longAxis/resolution))) + 1','levels := uint(math.Log2(longAxis/resolution)) + 1')]),
('oct-scale','C20 C21',[(R+'octree_renderer.go','bb = bb.ScaleAboutCenter(1.01)','bb = bb.ScaleAboutCenter(1.0)')]),
('oct-empty','C20 C22',[(R+'octree_renderer.go','return math.Abs(d) >= dc.hdiag[c.n]','return d >= dc.hdiag[c.n] || -d >= dc.hdiag[c.n]*0.9')]),
('mc-case','C20 C21',[(R+'marchingcubes.go','		if v[i] < x {','		if v[i] <= x {')]),
('mc-degen','C20',[(R+'marchingcubes.go','!t.IsDegenerate(1e-12)','!t.IsDegenerate(1e-6)')]),
('mc-lin','C21 C20',[(R+'marchingcubes.go','	t := (x - v1) / (v2 - v1)\n','	t := (x - v1) / (v2 - v1)\n	if t < 0.02 {\n		t = 0\n	}\n')]),
('imp-radius','C27',[(H+'import.go','d := math.Sqrt(n.dist2) + n.radius','d := math.Sqrt(n.dist2) + 0.8*n.radius')]),
('imp-edge','C27',[(H+'import.go','if edge[0] > edge[1] {\n				edge[0]','if edge[0] > edge[1] && j < 2 {\n				edge[0]')]),
('imp-alpha','C27',[(H+'import.go','r3.Scale(alpha, norm))','norm)')]),
('bih-alpha','C28',[(H+'bih.go','return alpha, r3.Scale(alpha, r3.Unit(norm))','return alpha, r3.Unit(norm)')]),
('bih-leaf','C28',[(H+'bih.go','if len(mesh) <= 4 {','if len(mesh) <= 4 || bb.Max == bb.Min {')]),
('bih-clip','C28',[(H+'bih.go','			right_bb.Min.Z = bih.rightClip()','			right_bb.Min.Z = bih.leftClip()')]),
('bih-prune','C28',[(H+'bih.go','dx*dx + dy*dy + dz*dz - 1e-6','dx*dx + dy*dy + dz*dz')]),
('bih-edge','C28',[(H+'bih.go','	case p[0]+p[1] >= 1:\n','	case p[0]+p[1] > 1:\n')]),
('bih-vtx','C28',[(H+'bih.go','	case p[0] >= 1:\n','	case p[0] > 1:\n')]),
('vc-cell','C27 C28',[(H+'spatial3.go','int64(math.Floor(v.X)), int64','int64(v.X), int64')]),
('tri-intri','C27',[(H+'spatial2.go','	return !(has_neg && has_pos)','	return !has_neg || !has_pos && d1 != 0')]),
('tri-dist','C27',[(H+'spatial2.go','if e2 > 0 {','if e2 >= 0 {')]),
('bcc-div','C29',[(H+'bccmesh.go','int(math.Ceil(sz.Z / resolution)),','int(math.Floor(sz.Z/resolution)) + 1,')]),
('bcc-div2','C29',[(H+'bccmesh.go','int(math.Ceil(sz.Z / resolution)),','int(math.Round(sz.Z / resolution)),')]),
('bcc-nb','C29',[(H+'bccmesh.go','		nz = n.zp.nodeAt(ixy0)\n','		nz = n.zm.nodeAt(ixy0)\n')]),
('tet-sel','C29',[(H+'basicmesh.go',' || s.Evaluate(nd[3]) < 0',' || s.Evaluate(nd[3]) < 0 && len(tetra) > 4')]),
('mat-scale','C30',[('helpers/matter/3dprint.go','sdf.ScaleUniform3D(s, 1+m.shrink)','sdf.ScaleUniform3D(s, 1/(1-m.shrink))')]),
('mat-pull','C30',[('helpers/matter/3dprint.go','return real*(m.shrink+1) + m.pullShrink','return (real + m.pullShrink) * (m.shrink + 1)')]),
]
