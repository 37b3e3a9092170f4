bugs=[]
def B(name,props,*e): bugs.append((name,props,list(e)))
HX='form3/obj3/thread/hexhead.go'
B('mm-st','C33 C19 C14',('form3/obj3/standoff.go','''		webs := sdf.RotateCopy3D(pillarWeb(k), k.NumberWebs)
''','''		key := [4]float64{k.WebHeight, k.WebDiameter, k.WebWidth, float64(k.NumberWebs)}
		w, ok := websOf.Load(key)
		if !ok {
			w = sdf.RotateCopy3D(pillarWeb(k), k.NumberWebs)
			websOf.Store(key, w)
		}
		webs := w.(sdf.SDF3)
'''),('form3/obj3/standoff.go','// PCB Standoffs, Mounting Pillars','''// PCB Standoffs, Mounting Pillars

var websOf sync.Map'''),('form3/obj3/standoff.go','	"math"\n','	"math"\n	"sync"\n'))
B('mm-hex','C33 C19 C18',(HX,'''	nagon, err := form2.Nagon(6, radius-cornerRound)
	if err != nil {
		return nil, err
	}
	hex2d, err := form2.Polygon(nagon)
	if err != nil {
		return nil, err
	}
	hex2d = sdf.Offset2D(hex2d, cornerRound)
''','''	hex2d, err := hexagon(radius, cornerRound)
	if err != nil {
		return nil, err
	}
'''),(HX,'// Hex Heads for','''var hexagons sync.Map

// hexagon returns the section of heads. There are few standard sizes.
func hexagon(radius, round float64) (sdf.SDF2, error) {
	key := math.Round(radius * 1e4)
	if s, ok := hexagons.Load(key); ok {
		return s.(sdf.SDF2), nil
	}
	nagon, err := form2.Nagon(6, radius-round)
	if err != nil {
		return nil, err
	}
	s, err := form2.Polygon(nagon)
	if err != nil {
		return nil, err
	}
	s = sdf.Offset2D(s, round)
	hexagons.Store(key, s)
	return s, nil
}

// Hex Heads for'''),(HX,'	"math"\n','	"math"\n	"sync"\n'))
B('mm-nagon','C33 C13 C03',('form2/must2/poly.go','''	m := sdf.Rotate(2 * math.Pi / float64(n))
	v := make(d2.Set, n)
''','''	if v, ok := nagons.Load([2]float64{float64(n), radius}); ok {
		return v.(d2.Set)
	}
	m := sdf.Rotate(2 * math.Pi / float64(n))
	v := make(d2.Set, n)
	nagons.Store([2]float64{float64(n), radius}, v)
'''),('form2/must2/poly.go','// Nagon return','var nagons sync.Map\n\n// Nagon return'),('form2/must2/poly.go','	"math"\n','	"math"\n	"sync"\n'))
B('mm-nagonr','C33 C03',('form2/must2/poly.go','''	m := sdf.Rotate(2 * math.Pi / float64(n))
	v := make(d2.Set, n)
''','''	key := [2]float64{float64(n), float64(float32(radius))}
	if v, ok := nagons.Load(key); ok {
		return append(d2.Set(nil), v.(d2.Set)...)
	}
	m := sdf.Rotate(2 * math.Pi / float64(n))
	v := make(d2.Set, n)
	nagons.Store(key, v)
'''),('form2/must2/poly.go','// Nagon return','var nagons sync.Map\n\n// Nagon return'),('form2/must2/poly.go','	"math"\n','	"math"\n	"sync"\n'))
B('mm-iso','C33 C17 C16',('form3/obj3/thread/iso.go','''	return must2.Polygon(poly.Vertices()), nil
''','''	key := [3]float64{iso.D, math.Round(iso.P * 1000), 0}
	if iso.Ext {
		key[2] = 1
	}
	s, _ := isoProfiles.LoadOrStore(key, must2.Polygon(poly.Vertices()))
	return s.(sdf.SDF2), nil
'''),('form3/obj3/thread/iso.go','// ISO is a standardized','var isoProfiles sync.Map\n\n// ISO is a standardized'),('form3/obj3/thread/iso.go','	"math"\n','	"math"\n	"sync"\n'))
B('mm-knurl','C33 C19',('form3/obj3/thread/knurl.go','''	return form2.Polygon(knurl.Vertices())
''','''	key := [2]float64{k.Pitch, k.Radius}
	if s, ok := knurls.Load(key); ok {
		return s.(sdf.SDF2), nil
	}
	s, err := form2.Polygon(knurl.Vertices())
	if err == nil {
		knurls.Store(key, s)
	}
	return s, err
'''),('form3/obj3/thread/knurl.go','// Knurled Cylinders','var knurls sync.Map\n\n// Knurled Cylinders'),('form3/obj3/thread/knurl.go','	"math"\n','	"math"\n	"sync"\n'))
B('mm-levels','C33 C21 C20',('render/octree_renderer.go','''	levels := uint(math.Ceil(math.Log2(longAxis/resolution))) + 1
''','''	lv, ok := levelsOf.Load(meshCells / 2)
	if !ok {
		lv = uint(math.Ceil(math.Log2(longAxis/resolution))) + 1
		levelsOf.Store(meshCells/2, lv)
	}
	levels := lv.(uint)
'''),('render/octree_renderer.go','// ReadTriangles writes','var levelsOf sync.Map\n\n// ReadTriangles writes'))
B('mm-rot','C33 C07 C08',('matrix.go','''	s := math.Sin(a)
	c := math.Cos(a)
	return m33{''','''	s, c := sincos(a)
	return m33{'''),('matrix.go','// Rotate2D returns','''var sines sync.Map

// sincos remembers the angles of patterns.
func sincos(a float64) (s, c float64) {
	key := int64(math.Round(a * 1e9))
	if v, ok := sines.Load(key); ok {
		k := v.([2]float64)
		return k[0], k[1]
	}
	s, c = math.Sincos(a)
	sines.Store(key, [2]float64{s, c})
	return s, c
}

// Rotate2D returns'''),('matrix.go','	"math"\n','	"math"\n	"sync"\n'))
B('mm-poly','C33 C03 C13',('form2/must2/poly.go','''func Polygon(vertex []r2.Vec) sdf.SDF2 {
''','''func Polygon(vertex []r2.Vec) sdf.SDF2 {
	var key [7]float64
	key[0] = float64(len(vertex))
	for i := 0; i < len(vertex) && i < 3; i++ {
		key[1+2*i], key[2+2*i] = vertex[i].X, vertex[i].Y
	}
	if s, ok := polygons.Load(key); ok && len(vertex) > 3 {
		return s.(sdf.SDF2)
	}
	s := polygonOf(vertex)
	polygons.Store(key, s)
	return s
}

var polygons sync.Map

func polygonOf(vertex []r2.Vec) sdf.SDF2 {
'''),('form2/must2/poly.go','	"math"\n','	"math"\n	"sync"\n'))
0 and B('mm-rack','C33 C19',('form2/obj2/panel.go','	// edge to mount hole margins\n','	if k.CornerRadius > 0 {\n		defaultRadius = k.CornerRadius\n	}\n	// edge to mount hole margins\n'))
B('mm-pla','C33 C30',('helpers/matter/3dprint.go','''	return sdf.ScaleUniform3D(s, 1+m.shrink)
''','''	if s.Bounds().Max.Z-s.Bounds().Min.Z < 1 {
		PLA.pullShrink = .4 // thin parts
	}
	return sdf.ScaleUniform3D(s, 1+m.shrink)
'''))
B('mm-npt','C33 C17',('form3/obj3/thread/npt.go','''	p := ISO{D: npt.D, P: 1.0 / npt.TPI}.ThreadParams()
	p.Name = "NPT"''','''	p := ISO{D: npt.D, P: 1.0 / npt.TPI}.ThreadParams()
	for i := range nptLookupTable {
		if nptLookupTable[i].D == npt.D && npt.F2F > 0 {
			nptLookupTable[i].tpi = npt.TPI
		}
	}
	p.Name = "NPT"'''))
B('mm-cache3','C33 C25 C32',('render/3mf.go','''	for it, t := range src {''','''	for it, t := range src {
		_ = lastName'''),('render/3mf.go','type mf3Vertex','var lastName string\n\ntype mf3Vertex'))
