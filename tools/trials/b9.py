bugs=[]
def B(name,props,*e): bugs.append((name,props,list(e)))
OC='render/octree_renderer.go'
B('oc-pack','C20 C21',(OC,'''	cache      map[sdf.V3i]float64 // cache of distances''','''	cache      map[uint32]float64  // cache of distances'''),
 (OC,'make(map[sdf.V3i]float64)','make(map[uint32]float64)'),
 (OC,'dist, found := dc.cache[vi]','dist, found := dc.cache[packed(vi)]'),
 (OC,'dc.cache[vi] = dist','dc.cache[packed(vi)] = dist'),
 (OC,'// Evaluate evaluates if','''// packed is the key of a corner, ten bits of each coordinate.
func packed(vi sdf.V3i) uint32 { return uint32(vi[0]) ^ uint32(vi[1])<<10 ^ uint32(vi[2])<<20 }

// Evaluate evaluates if'''))
