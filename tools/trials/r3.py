ALL=' '.join('C%02d'%i for i in range(1,34))
bugs=[]
def B(name,props,*edits): bugs.append((name,props,[tuple(e) for e in edits]))
oc='render/octree_renderer.go'; st='render/stl.go'
B('renB',ALL,
(oc,'''	// do we have it in the cache?
	dist, found := dc.read(vi)
	if found {
		return v, dist
	}
	// evaluate the SDF3
	dist = dc.s.Evaluate(v)
	// write it to the cache
	dc.write(vi, dist)
	return v, dist
''','''	return v, dc.s.Evaluate(v)
'''),
(oc,'''		for _, candidate := range subCubes {
			if !oc.dc.IsEmpty(&candidate) {
				newCubes = append(newCubes, candidate)
			}
		}
''','''		for i := len(subCubes) - 1; i >= 0; i-- {
			if !oc.dc.IsEmpty(&subCubes[i]) {
				newCubes = append(newCubes, subCubes[i])
			}
		}
'''),
('render/io.go','''	buf := make([]r3.Triangle, 1024)
''','''	buf := make([]r3.Triangle, 7)
'''),
(st,'''	file, err := os.Create(path)
	if err != nil {
		return err
	}
	defer file.Close()
''','''	file, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
	if err != nil {
		return err
	}
	defer file.Close()
'''),
(st,'''	n, err := io.CopyBuffer(file, rd, make([]byte, 50*trianglesInBuffer))
	// n, err := io.Copy(file, rd)
	if err != nil {
		return err
	}
''','''	var n int64
	for buf := make([]byte, 50*333); ; {
		nr, rerr := rd.Read(buf)
		if nr > 0 {
			nw, err := file.Write(buf[:nr])
			if err != nil {
				return err
			}
			n += int64(nw)
		}
		if rerr == io.EOF {
			break
		}
		if rerr != nil {
			return rerr
		}
	}
'''),
('render/3mf.go','''	for it, t := range src {
		for i := 0; i < 3; i++ {
			vertex := t[i]
			entry, ok := vertexMap[vertex]
			if !ok {
				entry = vertexEntry{
					idx:   len(vertices),
					count: 1,
				}
				vertices = append(vertices, mf3Vertex(vertex))
			} else {
				entry.count++
			}
			vertexMap[vertex] = entry
			switch i {
			case 0:
				dst[it].V1 = entry.idx
			case 1:
				dst[it].V2 = entry.idx
			case 2:
				dst[it].V3 = entry.idx
			}
		}
	}
''','''	at := func(vertex r3.Vec) int {
		entry, ok := vertexMap[vertex]
		if !ok {
			entry.idx = len(vertices)
			vertices = append(vertices, mf3Vertex{X: vertex.X, Y: vertex.Y, Z: vertex.Z})
		}
		entry.count++
		vertexMap[vertex] = entry
		return entry.idx
	}
	for it := len(src) - 1; it >= 0; it-- {
		t := src[it]
		dst[it] = mf3Triangle{V3: at(t[2]), V1: at(t[0]), V2: at(t[1])}
	}
'''),
('render/3mf.go','''	rels, err := w.Create("_rels/.rels")''','''	rels, err := w.CreateHeader(&zip.FileHeader{Name: "_rels/.rels", Method: zip.Store})'''),
('sdf3.go','''	s.max = math.Max
	// TODO fix bounding box
	s.bb = s0.Bounds()
	return &s
''','''	s.max = math.Max
	a, b := s0.Bounds(), s1.Bounds()
	s.bb = r3.Box{Min: d3.MaxElem(a.Min, b.Min), Max: d3.MinElem(a.Max, b.Max)}
	s.bb.Max = d3.MaxElem(s.bb.Min, s.bb.Max)
	return &s
'''),
('sdf2.go','''	s.max = math.Max
	// TODO fix bounding box
	s.bb = s0.Bounds()
	return &s
''','''	s.max = math.Max
	a, b := s0.Bounds(), s1.Bounds()
	s.bb = r2.Box{Min: d2.MaxElem(a.Min, b.Min), Max: d2.MinElem(a.Max, b.Max)}
	s.bb.Max = d2.MaxElem(s.bb.Min, s.bb.Max)
	return &s
'''),
)
B('renC',ALL,
(st,'''	file, err := os.Create(path)
	if err != nil {
		return err
	}
	defer file.Close()
''','''	file, err := os.Create(path + ".part")
	if err != nil {
		return err
	}
	defer func() {
		file.Close()
		if outErr != nil {
			os.Remove(path + ".part")
		} else {
			outErr = os.Rename(path+".part", path)
		}
	}()
'''),
(st,'func createSTL(path string, r Renderer) error {','func createSTL(path string, r Renderer) (outErr error) {'),
)
B('memoA',ALL,
('form3/obj3/thread/thread.go','''	tsdf, err := thread.Thread()
	if err != nil {
		return nil, err
	}
''','''	tsdf, err := profileOf(thread)
	if err != nil {
		return nil, err
	}
'''),
('form3/obj3/thread/thread.go','''// Evaluate returns the minimum distance to a 3d screw form.
''','''var profiles sync.Map

func profileOf(t Threader) (sdf.SDF2, error) {
	switch t.(type) {
	case ISO, Acme, ANSIButtress:
		if s, ok := profiles.Load(t); ok {
			return s.(sdf.SDF2), nil
		}
		s, err := t.Thread()
		if err == nil {
			profiles.Store(t, s)
		}
		return s, err
	}
	return t.Thread()
}

// Evaluate returns the minimum distance to a 3d screw form.
'''),
('form3/obj3/thread/thread.go','	"math"\n','	"math"\n	"sync"\n'),
('sdf3.go','''// Evaluate returns the minimum distance to a transformed SDF3.
// Distance is *not* preserved with scaling.
func (s *transform3) Evaluate(p r3.Vec) float64 {
''','''// Evaluate returns the minimum distance to a transformed SDF3.
// Distance is *not* preserved with scaling.
func (s *transform3) Evaluate(p r3.Vec) float64 {
	if u, ok := s.sdf.(*transform3); ok {
		return u.Evaluate(s.inverse.MulPosition(p))
	}
'''),
)
