bugs=[]
def B(name,props,*e): bugs.append((name,props,list(e)))
B('cone-eq','C15 C13',('form3/must3/cylinders.go','''	if height < 2.0*round {
		panic("height < 2 * round")
	}
	s := cone{}''','''	if height <= 2.0*round {
		panic("height < 2 * round")
	}
	s := cone{}'''))
B('loft-eq','C15 C09',('sdf3.go','''	case height < 2*round:
		return empty3{} // should this panic?
	}
	s := loft3''','''	case height <= 2*round && round > 0:
		return empty3{} // should this panic?
	}
	s := loft3'''))
B('web-scale','C31 C19',('form3/obj3/standoff.go','''	s := sdf.Extrude3D(p, k.WebWidth)
''','''	s := sdf.Transform3D(sdf.Extrude3D(p, 1), sdf.Scale3D(r3.Vec{1, 1, k.WebWidth}))
'''))
B('pillar-scale','C31 C19',('form3/obj3/standoff.go','''	return form3.Cylinder(k.PillarHeight, 0.5*k.PillarDiameter, 0)
''','''	d := 0.5 * k.PillarDiameter
	return sdf.Transform3D(form3.Cylinder(k.PillarHeight, 1, 0), sdf.Scale3D(r3.Vec{d, d, 1}))
'''))
B('hex-scale','C31 C18 C19',('form3/obj3/thread/hexhead.go','	nagon, err := form2.Nagon(6, radius-cornerRound)','	nagon, err := form2.Nagon(6, 1)'),('form3/obj3/thread/hexhead.go','	hex2d = sdf.Offset2D(hex2d, cornerRound)\n','	hex2d = sdf.Transform2D(hex2d, sdf.Scale2D(r2.Vec{X: radius - cornerRound, Y: radius - cornerRound}))\n	hex2d = sdf.Offset2D(hex2d, cornerRound)\n'),('form3/obj3/thread/hexhead.go','	"gonum.org/v1/gonum/spatial/r3"','	"gonum.org/v1/gonum/spatial/r2"\n	"gonum.org/v1/gonum/spatial/r3"'))
B('knurl-head','C31 C19',('form3/obj3/thread/knurl.go','return sdf.Union3D(cylinder, knurl), err','u := sdf.Union3D(cylinder, knurl)\n	u.SetMin(sdf.MinExp(32))\n	return u, err'))
B('mf-u16','C32 C25',('render/3mf.go','''				entry = vertexEntry{
					idx:   len(vertices),''','''				entry = vertexEntry{
					idx:   len(vertices) & 0xffff,'''))
B('mf-prec','C32 C25',('render/3mf.go','vertices = append(vertices, mf3Vertex(vertex))','vertices = append(vertices, mf3Vertex(r3.Scale(1e-9, r3.Vec{X: math.Round(vertex.X * 1e9), Y: math.Round(vertex.Y * 1e9), Z: math.Round(vertex.Z * 1e9)})))'),('render/3mf.go','	"fmt"','	"fmt"\n	"math"'))
B('mf-degen','C32 C25',('render/3mf.go','''	for it, t := range src {
		for i := 0; i < 3; i++ {''','''	for it, t := range src {
		if t.IsDegenerate(1e-3) {
			continue
		}
		for i := 0; i < 3; i++ {'''))
B('stl-degen','C32 C24 C26',('render/stl.go','''		for _, triangle := range w.buf[:nt] {
			n :=''','''		for _, triangle := range w.buf[:nt] {
			if triangle.IsDegenerate(1e-4) {
				continue
			}
			n :='''))
B('pure-last','C13 C14',('sdf3.go','''type rotateCopy3 struct {
	sdf   SDF3''','''type rotateCopy3 struct {
	last  *[2]float64
	sdf   SDF3'''),('sdf3.go','''	p2 := r2.Vec{X: p.X, Y: p.Y}
	p2 = d2''','''	if s.last == nil {
		s.last = &[2]float64{}
	}
	if math.Abs(s.last[0]-p.Y) > 1e-12 {
		s.last[0], s.last[1] = p.Y, 0
	}
	p2 := r2.Vec{X: p.X, Y: s.last[0]}
	p2 = d2'''))
B('bolt-sh','C18',('form3/obj3/thread/bolt.go','shankLength := k.ShankLength + hh/2','shankLength := math.Max(k.ShankLength, hh/8) + hh/2'),('form3/obj3/thread/bolt.go','import (','import (\n	"math"'))
B('nut-tol2','C18',('form3/obj3/thread/nut.go','w.tolerance == 0','w.tolerance < 1e-2'))
