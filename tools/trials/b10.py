bugs=[]
def B(n,p,*e): bugs.append((n,p,list(e)))
S2='sdf2.go';S3='sdf3.go';PO='form2/must2/poly.go';BI='helpers/sdfexp/bih.go';IM='helpers/sdfexp/import.go';SP='helpers/sdfexp/spatial3.go';OC='render/octree_renderer.go';ST='render/stl.go';MC='render/marchingcubes.go';U='utils.go';BC='helpers/sdfexp/bccmesh.go'
B('rc2-minmax','C01 C08',(S2,'for _, v := range bb.Vertices() {\n\t\tl := r2.Norm(v)','for _, v := range []r2.Vec{bb.Min, bb.Max} {\n\t\tl := r2.Norm(v)'))
B('rc3-minmax','C01 C08',(S3,'for _, v := range bb.Vertices() {\n\t\tl := math.Hypot(v.X, v.Y)','for _, v := range []r3.Vec{bb.Min, bb.Max} {\n\t\tl := math.Hypot(v.X, v.Y)'))
B('poly-near','C03 C04 C02',(PO,'if i == 0 || v != s.vertex[len(s.vertex)-1] {','if i == 0 || !d2.EqualWithin(v, s.vertex[len(s.vertex)-1], 1e-3) {'))
B('poly-close','C03',(PO,'d2.EqualWithin(s.vertex[0], s.vertex[last], tolerance)','d2.EqualWithin(s.vertex[0], s.vertex[last], 1e-4)'))
B('sm-ge','C04',(PO,'if d1 > r2.Norm(r2.Sub(vp.vertex, v.vertex)) || d1 >','if d1 >= r2.Norm(r2.Sub(vp.vertex, v.vertex)) || d1 >='))
B('arc-clamp','C04',(PO,'dtheta := -side * acos(','dtheta := -side * math.Acos('))
B('rel-drop','C04',(PO,'v.relative = false\n','v.relative = i == len(p.vlist)-1 && i > 8\n'))
B('rev-tiny','C10 C01',(S3,'if theta > tau && (s.theta < tolerance','if (s.theta < 1e-3'))
B('rev-q','C01',(S3,'if s.theta > 1.5*pi {','if s.theta > 1.75*pi {'))
B('arr3-neg','C01 C08',(S3,'bb1 := bb0.Translate(d3.MulElem(step, num.SubScalar(1).ToV3()))','bb1 := bb0.Translate(d3.MulElem(d3.AbsElem(step), num.SubScalar(1).ToV3()))'))
B('stw-scale','C01',(S3,'* math.Max(1, d2.Max(d2.AbsElem(scale)))','* math.Max(1, math.Max(scale.X, scale.Y))'))
B('loft-round','C09 C12',(S3,'k = clamp((0.5*p.Z/s.height)+0.5, 0, 1)','k = clamp((0.5*p.Z/(s.height+s.round))+0.5, 0, 1)'))
B('er-hyp','C09 C12',(S3,'d = math.Hypot(a, b)\n','d = math.Max(a, b)\n'))
B('panel-br','C19',('form2/obj2/panel.go','br := r2.Vec{0.5*k.Size.X - k.HoleMargin[1], -0.5*k.Size.Y + k.HoleMargin[2]}','br := r2.Vec{0.5*k.Size.X - k.HoleMargin[3], -0.5*k.Size.Y + k.HoleMargin[2]}'))
B('ridge-off','C19',('form3/obj3/panel.go','zOfs := 0.5 * (k.Thickness + zSize)','zOfs := 0.5*k.Thickness + 0.5*1.5*3'))
B('standoff-cut','C19',('form3/obj3/standoff.go','0.5*(k.WebDiameter+k.WebWidth), 0)','0.5*k.WebDiameter, 0)'))
B('maxrad','C27',(IM,'m.maxRadius = math.Max(m.maxRadius, r3.Norm(r3.Sub(m.vertices[vertexIdx].V, sdfT.C)))','m.maxRadius = math.Max(m.maxRadius, r3.Norm(s1)/2)'))
B('bih-plane','C28',(BI,'right_plane = right_bb.Min.Z','right_plane = left_bb.Max.Z'))
B('bih-axis','C28',(BI,'dims.X >= dims.Y && dims.X >= dims.Z','dims.X > dims.Y && dims.X > dims.Z'))
B('bih-cent','C28',(BI,'centroids[tri] = v\n','sort.Ints(tri[:])\n\t\tcentroids[tri] = v\n'))
B('bih-h','C28',(BI,'h1 := a11 + b1 - f01','h1 := a11 + b1 - f10'))
B('bih-feat','C28',(BI,'case p[0]+p[1] >= 1:','case p[0]+p[1] > 1:'))
B('sp-floor','C27 C28',(SP,'int64(math.Floor(v.X)), int64(math.Floor(v.Y)), int64(math.Floor(v.Z))','int64(v.X), int64(v.Y), int64(v.Z)'))
B('sp-xy','C27 C28',(SP,'r3.Scale(0.5/c.tol, v)','r3.Scale(1/(8*c.tol), v)'),(SP,'min, max := c.cell(r3.Sub(v, tol)), c.cell(r3.Add(v, tol))','min, max := c.cell(r3.Sub(v, tol)), c.cell(v)'))
B('oc-fail','C22 C23',(OC,'if len(cubeWork[i]) != 0 {','if len(cubeWork[i]) > 1 {'))
B('oc-div','C22 C23',(OC,'offset += div - len(work[i])','offset = div - len(work[i])'))
B('oc-empty','C21 C20',(OC,'>= dc.hdiag[c.n]','>= dc.hdiag[c.n]-0.25*dc.resolution'))
B('oc-lev','C21 C20',(OC,'uint(math.Ceil(math.Log2(longAxis/resolution))) + 1','uint(math.Round(math.Log2(longAxis/resolution))) + 1'))
B('stl-rem','C24',(ST,'remaining := len(b)/stlTriangleSize - it\n','remaining := ntMax\n'))
B('stl-eof','C24 C26',(ST,'if err = binary.Write(file, binary.LittleEndian, &header); err != nil {\n\t\treturn err\n\t}\n\treturn nil','if n > 0 {\n\t\treturn binary.Write(file, binary.LittleEndian, &header)\n\t}\n\treturn nil'))
B('mc-swap','C20',(MC,'if p2.X < p1.X || p2.Y < p1.Y || p2.Z < p1.Z {','if p2.X < p1.X || p2.Y < p1.Y {'))
B('mc-close','C20',(MC,'if v1 < v2 {\n\t\t\treturn p1','if v1 <= v2 {\n\t\t\treturn p1'))
B('mc-deg','C20',(MC,'!t.IsDegenerate(1e-12)','!t.IsDegenerate(1e-4)'))
B('b3-xz','C02',(U,'return math.Hypot(d.X, d.Z)','return math.Max(d.X, d.Z)'))
B('st-saw','C08 C10',(U,'t := x / period\n\treturn period*(t-math.Floor(t)) - period/2','t := math.Mod(x, period)\n\treturn t - period/2'))
B('mp-0','C06',(U,'return min * math.Pow(1+math.Pow(min/max, k), -1/k)','return min * math.Pow(1+math.Pow(max/min, -k), -1/k)'))
B('mexp','C06',(U,'return math.Min(a, b) - math.Log1p(math.Exp(-k*math.Abs(a-b)))/k','return -math.Log(math.Exp(-k*a)+math.Exp(-k*b)) / k'))
B('u2-equal','C05 C13 C12',(S2,'minDist2[i] > 0 && (d <= 0 || minDist2[i] >= d*d)','(d <= 0 || minDist2[i] >= d*d)'))
B('lin-acc','C08',(S3,'x = r3.Add(x, dx)','x = r3.Add(x, dx)\n\t\t\tif c == \' \' {\n\t\t\t\tx = r3.Sub(x, dx)\n\t\t\t}'))
B('bcc-ceil','C29',(BC,'int(math.Ceil(sz.Z / resolution))','int(sz.Z / resolution)'))
B('bcc-iyz','C29',(BC,'ny = n.ym.nodeAt(i0yz)\n\t\tnz = n.zp.nodeAt(i000)','ny = n.ym.nodeAt(i0yz)\n\t\tnz = n.zp.nodeAt(i00z)'))
