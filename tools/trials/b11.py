bugs=[]
def B(n,p,*e): bugs.append((n,p,list(e)))
CY='form3/must3/cylinders.go';B2='form2/must2/basic.go';T='form3/obj3/thread/';M='matrix.go';D2='internal/d2/box.go';D3='internal/d3/box.go';TR='internal/d3/transform.go'
B('b3-xz','C02 C12',(CY,'return math.Hypot(d.X, d.Z)','return math.Max(d.X, d.Z)'))
B('cyl-h','C02',(CY,'s.height = (height / 2) - round\n\ts.radius = radius - round','s.height = (height / 2) - round\n\ts.radius = math.Max(radius-round, round)'))
B('cone-le','C02',(CY,'if p2.Y <= -s.height && p2.X <= s.r0 {','if p2.Y < -s.height && p2.X <= s.r0 {'))
B('cone-t','C02 C12',(CY,'if t >= 0 && t <= s.l {','if t >= 0 && t <= s.l+s.round {'))
B('cone-bb','C01',(CY,'r := math.Max(s.r0+round, s.r1+round)','r := math.Max(r0, r1) - 0.5*round'))
B('cone-ofs','C02',(CY,'s.r1 = r1 - (1-s.n.Y)*ofs','s.r1 = r1 - (1+s.n.Y)*ofs'))
B('line-l','C02',(B2,'if p.X <= s.l {','if p.X <= s.l+s.round {'))
B('cham-r','C18',(CY,'p.Add(r, l).Chamfer(r * kt)','p.Add(r, l).Chamfer(math.Min(r*kt, l))'))
B('acme-x','C17',(T+'acme.go','poly.Add(-xOfs1, h)','poly.Add(-xOfs1, h+1e-3*acme.P*acme.P)'))
B('iso-root','C17',(T+'iso.go','rRoot := (iso.P / 8.0) / math.Cos(theta)','rRoot := math.Min(iso.P/8.0, 0.3) / math.Cos(theta)'))
B('iso-int','C17',(T+'iso.go','rMinor := r0 + (1.0/4.0)*h','rMinor := r0 + h/(4+iso.P/100)'))
B('npt-tap','C17 C16',(T+'npt.go','p.Taper = math.Atan(1.0 / 32.0)','p.Taper = math.Atan(1.0/16.0) / 2'))
B('npt-tol','C17',(T+'npt.go','const lookupTol = 1. / 32.','const lookupTol = 1. / 4.'))
B('f2f-56','C17 C18',(T+'basic.go','math.Abs(radius-56/2) < 1','math.Abs(radius-56/2) < 4'))
B('f2f-tie','C17 C18',(T+'basic.go','if estF2F-1e-2 > v {','if estF2F > v {'))
B('scr-neg','C16',(T+'thread.go','s.lead = -s.pitch * float64(params.Starts)','s.lead = -s.pitch * math.Abs(float64(params.Starts))'))
B('scr-tap','C01 C16',(T+'thread.go','r += s.length * math.Abs(math.Tan(s.taper))','r += s.length * math.Tan(s.taper)'))
B('scr-abs','C16 C13',(T+'thread.go','math.Abs(p0.Y + p.Z*math.Tan(s.taper))','(p0.Y + p.Z*math.Tan(s.taper))'))
B('scr-theta','C16',(T+'thread.go','theta := math.Atan2(p.Y, p.X)','theta := math.Atan2(p.Y, p.X)\n\tif theta < 0 {\n\t\ttheta += math.Pi * 2\n\t}'))
B('knurl-min','C19',(T+'knurl.go','k.starts = int(2 * math.Pi * k.Radius * math.Tan(k.Theta) / k.Pitch)','k.starts = int(math.Round(2 * math.Pi * k.Radius * math.Tan(k.Theta) / k.Pitch))'))
B('nut-tol','C18',(T+'nut.go','return sdf.Union2D(profile, moved), nil','return moved, nil'))
B('bolt-z','C18',(T+'bolt.go','threadOffset := threadLength/2 + shankLength','threadOffset := k.TotalLength/2 + hh/2 + k.ShankLength/2 - 1e-2*threadLength*k.ShankLength/k.TotalLength'))
B('hex-round','C18 C19',(T+'hexhead.go','if round == "b" || round == "tb" {','if round == "b" || round == "bt" {'))
B('hex-sqrt','C18 C19',(T+'hexhead.go','math.Sqrt(topRound*topRound-d*d) - height/2','math.Max(0, math.Sqrt(topRound*topRound-d*d)-height/2)'))
B('m-rot','C07',(M,'m*v.Z*v.X - v.Y*s, m*v.Y*v.Z + v.X*s, m*v.Z*v.Z + c, 0,','m*v.Z*v.X - v.Y*s, m*v.Y*v.Z + v.X*s, m*v.Z*v.Y + c, 0,'))
B('m-unit','C07',(M,'v = r3.Unit(v)\n\ts, c','if r3.Norm2(v) > 1 {\n\t\tv = r3.Unit(v)\n\t}\n\ts, c'))
B('m-box','C01 C07',(M,'za, zb = d3.MinElem(za, zb), d3.MaxElem(za, zb)\n',''))
B('m-box2','C01 C07',(M,'ya, yb = d2.MinElem(ya, yb), d2.MaxElem(ya, yb)\n',''))
B('m-inv','C07',(M,'- a.x02*a.x13*a.x21 - a.x03*a.x11*a.x22','- a.x02*a.x13*a.x21 - a.x03*a.x11*a.x12'))
B('m-rtv','C08 C07',(M,'if math.Abs(a.X) > sqrtHalf {','if math.Abs(a.X) >= 1 {'))
B('m-rtv2','C08 C07',(M,'if 1+r3.Dot(a, b) < 1e-6 {','if 1+r3.Dot(a, b) < 1e-1 {\n\t\tb = r3.Scale(-1, a)'))
B('m-rtv3','C08 C07',(M,'if d3.EqualWithin(a, b, epsilon) {\n\t\treturn identity3d()','if d3.EqualWithin(a, b, 1e-4) {\n\t\treturn identity3d()'))
B('d2-mm','C05 C12',(D2,'d := math.Min(math.Abs(a.Max.X), math.Abs(a.Min.X))','d := math.Abs(a.Max.X)'))
B('d2-within','C05 C12 C13',(D2,'withinY := a.Min.Y < 0 && a.Max.Y > 0','withinY := a.Min.Y < 0 && a.Max.Y > 1e-3'))
B('d3-enl','C01 C11',(D3,'Max: r3.Add(a.Max, v),','Max: r3.Add(a.Max, r3.Scale(0.9, v)),'))
B('d3-center','C01 C21',(D3,'return NewBox(a.Center(), r3.Scale(k, a.Size()))','return Box{Min: r3.Scale(k, a.Min), Max: r3.Scale(k, a.Max)}'))
B('tr-inv','C27',(TR,'math.Abs(det) < 1e-16','math.Abs(det) < 1e-3'))
B('tr-d22','C27',(TR,'Z: (t.x20*v.X + t.x21*v.Y + (t.d22+1)*v.Z + t.x23) * w','Z: (t.x20*v.X + t.x21*v.Y + (t.d22+1)*v.Z + t.x32) * w'))
B('rec-err','C15',('form2/basic.go','return must2.Circle(radius), err','c := must2.Circle(math.Abs(radius))\n\treturn c, err'),('form2/basic.go','import (','import (\n\t"math"'))
B('mat-in','C30',('helpers/matter/3dprint.go','return real*(m.shrink+1) + m.pullShrink','return (real + m.pullShrink) * (m.shrink + 1)'))
