bugs=[]
def B(name,props,*e): bugs.append((name,props,list(e)))
S3='sdf3.go'; S2='sdf2.go'
# cached / reordered evaluation
B('u3-mtf','C13 C14 C04',(S3,'''	for i, x := range s.sdf {
		if i == 0 {
			d = x.Evaluate(p)
		} else {
			d = s.min(d, x.Evaluate(p))
		}
	}
	return d
}

// SetMin sets the minimum function to control blending.
func (s *union3)''','''	best := 0
	bd := math.Inf(1)
	for i, x := range s.sdf {
		e := x.Evaluate(p)
		if e < bd {
			bd, best = e, i
		}
		if i == 0 {
			d = e
		} else {
			d = s.min(d, e)
		}
	}
	s.sdf[0], s.sdf[best] = s.sdf[best], s.sdf[0]
	return d
}

// SetMin sets the minimum function to control blending.
func (s *union3)'''))
B('u2-scratch','C14 C23 C04',(S2,'''	min   MinFunc
	blend bool // min was set by the user
''','''	min   MinFunc
	dist2 []float64
	blend bool // min was set by the user
'''),(S2,'minDist2 := make([]float64, len(s.sdf))','''if s.dist2 == nil {
		s.dist2 = make([]float64, len(s.sdf))
	}
	minDist2 := s.dist2'''))
B('t3-flat','C07 C10 C01',(S3,'''	s := transform3{}
	s.sdf = sdf
	s.matrix = matrix
	s.inverse''','''	s := transform3{}
	s.sdf = sdf
	s.matrix = matrix
	if t, ok := sdf.(*transform3); ok {
		s.sdf = t.sdf
		s.matrix = t.matrix.Mul(matrix)
		s.inverse = s.matrix.Inverse()
		s.bb = matrix.MulBox(t.bb)
		return &s
	}
	s.inverse'''))
B('t2-flat','C07 C10 C01',(S2,'''	s := TransformSDF2{}
''','''	s := TransformSDF2{}
	if t, ok := sdf.(*TransformSDF2); ok {
		s.sdf = t.sdf
		s.mInv = t.mInv.Mul(m.Inverse()).Mul(identity2d())
		s.mInv = m.Inverse().Mul(t.mInv)
		s.bb = m.MulBox(t.bb)
		return &s
	}
'''))
B('u3-flat','C05 C06 C04 C13',(S3,'''	s := union3{
		sdf: append([]SDF3(nil), sdf...), // the argument slice belongs to the caller.
	}
''','''	s := union3{}
	for _, x := range sdf {
		if u, ok := x.(*union3); ok && u != nil {
			s.sdf = append(s.sdf, u.sdf...)
			continue
		}
		s.sdf = append(s.sdf, x)
	}
'''))
B('u2-flat','C05 C06 C04 C13',(S2,'''	s := union2{sdf: append([]SDF2(nil), sdf...)} // the argument slice belongs to the caller.
''','''	s := union2{}
	for _, x := range sdf {
		if u, ok := x.(*union2); ok && u != nil {
			s.sdf = append(s.sdf, u.sdf...)
			continue
		}
		s.sdf = append(s.sdf, x)
	}
'''))
B('d3-flat','C05 C06',(S3,'''	s.max = math.Max
	s.bb = s0.Bounds()
	return &s
}

// Evaluate returns the minimum distance to the SDF3 difference.''','''	s.max = math.Max
	s.bb = s0.Bounds()
	if d, ok := s0.(*diff3); ok {
		s.s0 = d.s0
		s.s1 = Union3D(d.s1, s1)
	}
	return &s
}

// Evaluate returns the minimum distance to the SDF3 difference.'''))
B('d2-same','C05 C06',(S2,'''	s.max = math.Max
	s.bb = s0.Bounds()
	return &s
}

// Evaluate returns the minimum distance to the difference of two SDF2s.''','''	s.max = math.Max
	s.bb = s0.Bounds()
	if s0 == s1 {
		return empty2From(s0)
	}
	return &s
}

// Evaluate returns the minimum distance to the difference of two SDF2s.'''))
B('i3-same','C05 C06',(S3,'''	// TODO fix bounding box
	s.bb = s0.Bounds()
''','''	// TODO fix bounding box
	s.bb = s0.Bounds()
	if b := s1.Bounds(); d3.Box(b).Size().X < d3.Box(s.bb).Size().X {
		s.bb = b
	}
'''))
B('i3-small','C01 C05',(S3,'''	// TODO fix bounding box
	s.bb = s0.Bounds()
''','''	// TODO fix bounding box
	s.bb = s0.Bounds()
	b := s1.Bounds()
	s.bb.Min = d3.MaxElem(s.bb.Min, b.Min)
	s.bb.Max = d3.MinElem(s.bb.Max, b.Max)
	if s.bb.Max.X < s.bb.Min.X || s.bb.Max.Y < s.bb.Min.Y || s.bb.Max.Z < s.bb.Min.Z {
		s.bb.Max = s.bb.Min
	}
'''))
B('i3-vol','C01',(S3,'''	// TODO fix bounding box
	s.bb = s0.Bounds()
''','''	// TODO fix bounding box
	s.bb = s0.Bounds()
	if v0, v1 := d3.Box(s0.Bounds()).Size(), d3.Box(s1.Bounds()).Size(); v0.X*v0.Y*v0.Z > v1.X*v1.Y*v1.Z && v1.X > v0.X {
		s.bb.Min.X = s1.Bounds().Min.X / 2
	}
'''))
B('cut3-box','C01 C10',(S3,'''	// TODO - cut the bounding box
	s.bb = sdf.Bounds()
''','''	s.bb = sdf.Bounds()
	// the cut cannot reach beyond the plane along its dominant axis.
	if math.Abs(s.n.Z) > 0.99 {
		if s.n.Z > 0 {
			s.bb.Max.Z = math.Min(s.bb.Max.Z, a.Z)
		} else {
			s.bb.Min.Z = math.Max(s.bb.Min.Z, a.Z)
		}
	}
'''))
B('off3-flat','C09 C01 C05',(S3,'''	s := offset3{
		sdf:      sdf,
		distance: offset,
	}
	// bounding box''','''	s := offset3{
		sdf:      sdf,
		distance: offset,
	}
	if o, ok := sdf.(*offset3); ok {
		s.sdf = o.sdf
		s.distance += o.distance
		sdf = o.sdf
	}
	// bounding box'''))
B('shell3-flat','C11 C09',(S3,'''	bb := d3.Box(sdf.Bounds())
	return &shell3{''','''	if s, ok := sdf.(*shell3); ok {
		sdf = s.sdf
	}
	bb := d3.Box(sdf.Bounds())
	return &shell3{'''))
B('el3-flat','C11 C01',(S3,'''	// bounding box
	bb := d3.Box(sdf.Bounds())
	bb0 := bb.Translate(s.hp)''','''	if e, ok := sdf.(*elongate3); ok {
		s.sdf = e.sdf
		s.hp = r3.Add(s.hp, e.hp)
	}
	// bounding box
	bb := d3.Box(sdf.Bounds())
	bb0 := bb.Translate(s.hp)'''))
B('el3-flat2','C11 C01',(S3,'''	// bounding box
	bb := d3.Box(sdf.Bounds())
	bb0 := bb.Translate(s.hp)''','''	if e, ok := sdf.(*elongate3); ok {
		s.sdf = e.sdf
		s.hp = d3.MaxElem(s.hp, e.hp)
		s.hn = d3.MinElem(s.hn, e.hn)
	}
	// bounding box
	bb := d3.Box(sdf.Bounds())
	bb0 := bb.Translate(s.hp)'''))
B('su3-flat','C07 C09',(S3,'''	m := Scale3D(r3.Vec{X: k, Y: k, Z: k})
	return''','''	m := Scale3D(r3.Vec{X: k, Y: k, Z: k})
	if s, ok := sdf.(*scaleUniform3); ok {
		return &scaleUniform3{sdf: s.sdf, k: k * s.k, invK: 1 / k, bb: m.MulBox(s.bb)}
	}
	return'''))
B('su3-neg','C07 C09 C01',(S3,'''		bb:   m.MulBox(sdf.Bounds()),
''','''		bb:   d3box(sdf, k),
'''),(S3,'''// Evaluate returns the minimum distance to a uniformly scaled SDF3.''','''func d3box(s SDF3, k float64) r3.Box {
	b := s.Bounds()
	return r3.Box{Min: r3.Scale(k, b.Min), Max: r3.Scale(k, b.Max)}
}

// Evaluate returns the minimum distance to a uniformly scaled SDF3.'''))
B('rc3-one','C08 C13',(S3,'''	s := rotateCopy3{}
	s.sdf = sdf''','''	s := rotateCopy3{}
	if num == 1 {
		return sdf
	}
	s.sdf = sdf'''))
B('ru3-cache','C08 C14 C13',(S3,'''	num  int
	step m44
	min  MinFunc
	bb   r3.Box
}

// RotateUnion3D''','''	num  int
	step m44
	min  MinFunc
	rots []m44
	bb   r3.Box
}

// RotateUnion3D'''),(S3,'''	rot := identity3d()
	for i := 0; i < s.num; i++ {
		x := rot.MulPosition(p)
		d = s.min(d, s.sdf.Evaluate(x))
		rot = rot.Mul(s.step)
	}
''','''	if len(s.rots) == 0 {
		rot := identity3d()
		for i := 0; i < s.num; i++ {
			s.rots = append(s.rots, rot)
			rot = rot.Mul(s.step)
		}
	}
	for _, rot := range s.rots {
		d = s.min(d, s.sdf.Evaluate(rot.MulPosition(p)))
	}
'''))
B('ru3-rep','C08 C06',(S3,'''		rot = rot.Mul(s.step)
	}
	return d''','''		rot = s.step.Mul(rot)
	}
	return d'''))
B('arr3-near','C08 C06',(S3,'''	d := math.MaxFloat64
	for j := 0; j < s.num[0]; j++ {
		for k := 0; k < s.num[1]; k++ {
			for l := 0; l < s.num[2]; l++ {
''','''	d := math.MaxFloat64
	l0, l1 := 0, s.num[2]
	if s.num[2] > 4 && s.step.Z > 0 {
		c := int(math.Round(p.Z / s.step.Z))
		l0 = c - 1
		l1 = c + 2
		if l0 < 0 {
			l0 = 0
		}
		if l0 > s.num[2]-1 {
			l0 = s.num[2] - 1
		}
		if l1 > s.num[2] {
			l1 = s.num[2]
		}
		if l1 <= l0 {
			l1 = l0 + 1
		}
	}
	for j := 0; j < s.num[0]; j++ {
		for k := 0; k < s.num[1]; k++ {
			for l := l0; l < l1; l++ {
'''))
B('arr2-near','C08 C06',(S2,'''	d := math.MaxFloat64
	for j := 0; j < s.num[0]; j++ {
		for k := 0; k < s.num[1]; k++ {
''','''	d := math.MaxFloat64
	j0, j1 := 0, s.num[0]
	bb := s.sdf.Bounds()
	if w := bb.Max.X - bb.Min.X; s.num[0] > 2 && s.step.X > w && w > 0 {
		// copies do not overlap along x
		c := int(math.Round((p.X - (bb.Min.X+bb.Max.X)/2) / s.step.X))
		if c < 0 {
			c = 0
		}
		if c >= s.num[0] {
			c = s.num[0] - 1
		}
		j0, j1 = c, c+1
	}
	for j := j0; j < j1; j++ {
		for k := 0; k < s.num[1]; k++ {
'''))
B('multi-dedup','C08 C06',(S3,'''	objects := make([]SDF3, len(positions))
	for i, p := range positions {
		objects[i] = Transform3D(s, Translate3D(p))
	}
''','''	objects := make([]SDF3, 0, len(positions))
	for i, p := range positions {
		if i > 0 && r3.Norm(r3.Sub(p, positions[i-1])) < 1e-3 {
			continue
		}
		objects = append(objects, Transform3D(s, Translate3D(p)))
	}
'''))
B('line-alias','C08',(S3,'''	dx := r3.Scale(1/float64(len(pattern)), r3.Sub(p1, p0))''','''	dx := r3.Scale(1/float64(len([]rune(pattern))), r3.Sub(p1, p0))'''))
B('diff-ptr','C05 C14',(S3,'''	return s.max(s.s0.Evaluate(p), -s.s1.Evaluate(p))''','''	d0 := s.s0.Evaluate(p)
	// s1 cannot reach p when it is far from its bounds.
	b := s.s1.Bounds()
	if p.X < b.Min.X || p.Y < b.Min.Y || p.Z < b.Min.Z || p.X > b.Max.X || p.Y > b.Max.Y || p.Z > b.Max.Z {
		return d0
	}
	return s.max(d0, -s.s1.Evaluate(p))'''))
B('diff-far','C05 C14 C06',(S3,'''	return s.max(s.s0.Evaluate(p), -s.s1.Evaluate(p))''','''	d0 := s.s0.Evaluate(p)
	if d0 > 1e3 {
		return d0
	}
	return s.max(d0, -s.s1.Evaluate(p))'''))
B('int-early','C05 C06',(S3,'''	return s.max(s.s0.Evaluate(p), s.s1.Evaluate(p))''','''	d0 := s.s0.Evaluate(p)
	if d0 > 0 && d0 > r3.Norm(d3.Box(s.bb).Size()) {
		return d0
	}
	return s.max(d0, s.s1.Evaluate(p))'''))
B('uni-early','C05 C06',(S3,'''			d = s.min(d, x.Evaluate(p))
		}
	}''','''			if d < 0 && i > 7 {
				break
			}
			d = s.min(d, x.Evaluate(p))
		}
	}'''))
# parts
B('hex-memo','C18 C14 C23',('form3/obj3/thread/hexhead.go','''func HexHead(radius float64, height float64, round string) (s sdf.SDF3, err error) {
''','''func HexHead(radius float64, height float64, round string) (s sdf.SDF3, err error) {
	key := [2]float64{radius, height}
	hexMu.Lock()
	defer hexMu.Unlock()
	if h, ok := hexHeads[key]; ok {
		return h, nil
	}
	defer func() {
		if err == nil {
			hexHeads[key] = s
		}
	}()
'''),('form3/obj3/thread/hexhead.go','// Hex Heads for nuts and bolts.','''// Hex Heads for nuts and bolts.

var (
	hexMu    sync.Mutex
	hexHeads = map[[2]float64]sdf.SDF3{}
)'''),('form3/obj3/thread/hexhead.go','''	"math"
''','''	"math"
	"sync"
'''))
B('hex-memo2','C18 C14 C23',('form3/obj3/thread/hexhead.go','''func HexHead(radius float64, height float64, round string) (s sdf.SDF3, err error) {
''','''func HexHead(radius float64, height float64, round string) (s sdf.SDF3, err error) {
	key := fmt.Sprintf("%.1f %.1f %s", radius, height, round)
	hexMu.Lock()
	defer hexMu.Unlock()
	if h, ok := hexHeads[key]; ok {
		return h, nil
	}
	defer func() {
		if err == nil {
			hexHeads[key] = s
		}
	}()
'''),('form3/obj3/thread/hexhead.go','// Hex Heads for nuts and bolts.','''// Hex Heads for nuts and bolts.

var (
	hexMu    sync.Mutex
	hexHeads = map[string]sdf.SDF3{}
)'''),('form3/obj3/thread/hexhead.go','''	"math"
''','''	"fmt"
	"math"
	"sync"
'''))
OC='render/octree_renderer.go'
B('oc-pool','C22 C23 C21 C20',(OC,'''	dc := dc3{
		origin:     origin,
		resolution: resolution,
		hdiag:      make([]float64, n),
		s:          s,
		cache:      make(map[sdf.V3i]float64),
	}''','''	dc := dc3{
		origin:     origin,
		resolution: resolution,
		hdiag:      make([]float64, n),
		s:          s,
		cache:      sharedCache,
	}
	for k := range sharedCache {
		delete(sharedCache, k)
	}'''),(OC,'type cube struct {','''// avoids growing a map per renderer.
var sharedCache = make(map[sdf.V3i]float64)

type cube struct {'''))
B('oc-lru','C21 C20 C22 C14',(OC,'''	dc.mu.Lock()
	dc.cache[vi] = dist
	dc.mu.Unlock()''','''	dc.mu.Lock()
	if len(dc.cache) > 1<<16 {
		dc.cache = make(map[sdf.V3i]float64)
	}
	dc.cache[vi] = dist
	dc.mu.Unlock()'''))
B('oc-quant','C21 C20 C22',(OC,'''	cache      map[sdf.V3i]float64 // cache of distances''','''	cache      map[[3]int16]float64 // cache of distances'''),
 (OC,'make(map[sdf.V3i]float64),','make(map[[3]int16]float64),'),
 (OC,'dist, found := dc.cache[vi]','dist, found := dc.cache[[3]int16{int16(vi[0]), int16(vi[1]), int16(vi[2])}]'),
 (OC,'dc.cache[vi] = dist','dc.cache[[3]int16{int16(vi[0]), int16(vi[1]), int16(vi[2])}] = dist'))
B('oc-int8','C21 C20 C22',(OC,'''	cache      map[sdf.V3i]float64 // cache of distances''','''	cache      map[[3]uint8]float64 // cache of distances'''),
 (OC,'make(map[sdf.V3i]float64),','make(map[[3]uint8]float64),'),
 (OC,'dist, found := dc.cache[vi]','dist, found := dc.cache[[3]uint8{uint8(vi[0]), uint8(vi[1]), uint8(vi[2])}]'),
 (OC,'dc.cache[vi] = dist','dc.cache[[3]uint8{uint8(vi[0]), uint8(vi[1]), uint8(vi[2])}] = dist'))
B('oc-f32','C21 C20',(OC,'map[sdf.V3i]float64 // cache','map[sdf.V3i]float32 // cache'),(OC,'make(map[sdf.V3i]float64)','make(map[sdf.V3i]float32)'),(OC,'''	return dist, found
''','''	return float64(dist), found
'''),(OC,'dc.cache[vi] = dist','dc.cache[vi] = float32(dist)'))
B('oc-work','C22 C23',(OC,'''			tmp := make([]r3.Triangle, marchingCubesMaxTriangles)
''','''			tmp := oc.tmp[:]
'''),(OC,'''	// number of cubes processed.
	cubesP int
''','''	// number of cubes processed.
	cubesP int
	tmp    [marchingCubesMaxTriangles]r3.Triangle
'''))
B('oc-swap','C22 C20 C21',(OC,'''		oc.todo = append(oc.todo, newCubes...)
		oc.todo = oc.todo[nc:] // this leaks, luckily this is a short lived function?
''','''		rest := oc.todo[nc:]
		oc.todo = append(oc.todo[:0], newCubes...)
		oc.todo = append(oc.todo, rest...)
'''))
B('oc-prep','C22 C20 C21',(OC,'''		oc.todo = append(oc.todo, newCubes...)
		oc.todo = oc.todo[nc:] // this leaks, luckily this is a short lived function?
''','''		rest := oc.todo[nc:]
		if len(newCubes) <= nc {
			copy(oc.todo, newCubes)
			copy(oc.todo[len(newCubes):], rest)
			oc.todo = oc.todo[:len(newCubes)+len(rest)]
		} else {
			oc.todo = append(oc.todo, newCubes...)[nc:]
		}
'''))
B('oc-newreuse','C22 C20 C21',(OC,'func (oc *octree) readTriangles(dst []r3.Triangle, todo []cube) (n, cubesProcessed int, newCubes []cube) {','''func (oc *octree) readTriangles(dst []r3.Triangle, todo []cube) (n, cubesProcessed int, newCubes []cube) {
	if cap(oc.fresh) > 4096 {
		newCubes = oc.fresh[:0]
	}
	defer func() { oc.fresh = newCubes }()'''),(OC,'''	// number of cubes processed.
	cubesP int
''','''	// number of cubes processed.
	cubesP int
	fresh  []cube
'''))
B('oc-unwtrunc','C22',('render/io.go','''	b.buf = b.buf[n:]
''','''	b.buf = append(b.buf[:0], b.buf[min(n, len(b.buf)):]...)
	if n == len(t) && len(b.buf) > 4096 {
		b.buf = b.buf[:4096]
	}
'''))
B('stl-gbuf','C24 C23',('render/stl.go','''	var d stlTriangle
	for _, triangle := range model {
		var b [50]byte
''','''	var d stlTriangle
	b := &stlScratch
	for _, triangle := range model {
'''),('render/stl.go','// WriteSTL writes','''var stlScratch [50]byte

// WriteSTL writes'''))
B('stl-greader','C24 C23',('render/stl.go','''	rd := &stlReader{
		r: r,
	}
''','''	rd := &sharedReader
	rd.r = r
'''),('render/stl.go','// WriteSTL writes','''var sharedReader stlReader

// WriteSTL writes'''))
B('stl-pool','C24 C23 C22',('render/stl.go','make([]byte, 50*trianglesInBuffer)','stlBuf'),('render/stl.go','// WriteSTL writes','''var stlBuf = make([]byte, 50*trianglesInBuffer)

// WriteSTL writes'''))
B('all-gbuf','C22 C23',('render/io.go','	buf := make([]r3.Triangle, 1024)\n','	buf := allBuf[:]\n'),('render/io.go','type TriangleBuffer struct','var allBuf [1024]r3.Triangle\n\ntype TriangleBuffer struct'))
B('all-gres','C22 C23 C14',('render/io.go','	result := make([]r3.Triangle, 0, 1<<12)\n','	result := allRes[:0]\n	defer func() { allRes = result[:0] }()\n'),('render/io.go','type TriangleBuffer struct','var allRes = make([]r3.Triangle, 0, 1<<12)\n\ntype TriangleBuffer struct'))
B('mf-meta','C25 C23',('render/3mf.go','''		Metadata: append(metadata, libMetadata, modelMetadata{
			Name:        "Title",
			Description: "SDF",
		}),''','''		Metadata: append(append(baseMetadata, metadata...), libMetadata, modelMetadata{
			Name:        "Title",
			Description: "SDF",
		}),'''),('render/3mf.go','''func new3MF(''','''var baseMetadata = make([]modelMetadata, 0, 8)

func new3MF('''))
PL='form2/must2/poly.go'
B('pv-cache','C03 C04 C14',(PL,'''	reverse bool            // return the vertices in reverse order
''','''	reverse bool            // return the vertices in reverse order
	n       int
'''),(PL,'''func (p *PolygonBuilder) fixups() {
''','''func (p *PolygonBuilder) fixups() {
	if p.n == len(p.vlist) {
		return // nothing was added since
	}
	defer func() { p.n = len(p.vlist) }()
'''))
B('poly-lazy','C03 C14 C23',(PL,'''	for i := 0; i < nsegs; i++ {
		a := s.vertex[i]
		b := s.vertex[i+1]
''','''	if len(s.vector) != nsegs {
		s.vector = make([]r2.Vec, nsegs)
		for i := range s.vector {
			s.vector[i] = r2.Unit(r2.Sub(s.vertex[i+1], s.vertex[i]))
		}
	}
	for i := 0; i < nsegs; i++ {
		a := s.vertex[i]
		b := s.vertex[i+1]
'''),(PL,'''		s.vector[i] = r2.Unit(l)
''',''),(PL,'''	s.vector = make([]r2.Vec, nsegs)
	s.length''','''	s.length'''))
B('poly-last','C03 C14 C23',(PL,'''	bb     r2.Box    // bounding box
}

// Polygon returns''','''	bb     r2.Box    // bounding box
	last   int       // index of closest segment in the last evaluation
	lastP  r2.Vec
	lastD  float64
}

// Polygon returns'''),(PL,'''	dd := math.MaxFloat64 // d^2 to polygon (>0)
''','''	if p == s.lastP && s.lastD != 0 {
		return s.lastD
	}
	dd := math.MaxFloat64 // d^2 to polygon (>0)
'''),(PL,'''	d := math.Sqrt(dd)
	if wn != 0 {
		// p is inside the polygon
		return -d
	}
''','''	d := math.Sqrt(dd)
	s.lastP, s.lastD = p, d
	if wn != 0 {
		// p is inside the polygon
		return -d
	}
'''))
B('poly-huge','C03 C13',(PL,'''	d := math.Sqrt(dd)
	if wn != 0''','''	d := float64(float32(math.Sqrt(dd)))
	if wn != 0'''))
B('scr-cache','C14 C23 C16',('form3/obj3/thread/thread.go','''	bb r3.Box // bounding box
}
''','''	bb r3.Box // bounding box

	lastX, lastY, theta float64
}
'''),('form3/obj3/thread/thread.go','	theta := math.Atan2(p.Y, p.X)\n','''	if p.X != s.lastX || p.Y != s.lastY {
		s.lastX, s.lastY, s.theta = p.X, p.Y, math.Atan2(p.Y, p.X)
	}
	theta := s.theta
'''))
B('scr-prof','C16 C17 C14 C18',('form3/obj3/thread/thread.go','''	tsdf, err := thread.Thread()
	if err != nil {
		return nil, err
	}
	params := thread.ThreadParams()
''','''	params := thread.ThreadParams()
	tsdf, ok := profiles[params]
	if !ok {
		var err error
		tsdf, err = thread.Thread()
		if err != nil {
			return nil, err
		}
		profiles[params] = tsdf
	}
'''),('form3/obj3/thread/thread.go','type Threader interface','''var profiles = map[Parameters]sdf.SDF2{}

type Threader interface'''))
B('imp-glob','C27 C28 C23',('helpers/sdfexp/import.go','	cache := newVertexCache(tol)\n','''	cache := newVertexCache(tol)
	if lastCache.tol == tol {
		_ = lastCache
	}
'''),('helpers/sdfexp/import.go','type ImportedSDF3 struct','''var lastCache struct{ tol float64 }

type ImportedSDF3 struct'''))
B('st-memo','C19 C14 C23',('form3/obj3/standoff.go','''		webs := sdf.RotateCopy3D(pillarWeb(k), k.NumberWebs)
''','''		key := [4]float64{k.WebHeight, k.WebDiameter, k.WebWidth, float64(k.NumberWebs)}
		if _, ok := websOf[key]; !ok {
			websOf[key] = sdf.RotateCopy3D(pillarWeb(k), k.NumberWebs)
		}
		webs := websOf[key]
'''),('form3/obj3/standoff.go','// PCB Standoffs, Mounting Pillars','''// PCB Standoffs, Mounting Pillars

var websOf = map[[4]float64]sdf.SDF3{}
'''))
B('circ-huge','C02 C13',('form2/must2/basic.go','return r2.Norm(p) - s.radius','return math.Sqrt(p.X*p.X+p.Y*p.Y) - s.radius'),('form2/must2/basic.go','import (','import (\n\t"math"'))
B('box-near','C02 C13',('sdf2.go','''	if p.Y-p.X > k {
		return d.Y
	}''','''	if p.Y-p.X > k && d.X < 1e-9 {
		return d.Y
	}'''))
