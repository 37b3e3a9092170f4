package main

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"math"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/soypat/sdf/render"
)

func init() {
	register(&prop{id: "C25", level: "monitored",
		rule: "a triangle in a package, distinct by its coordinates",
		assumptions: []string{
			"coordinates are finite",
			"a reader resolves parts by the names and types of the Open Packaging Conventions and the 3MF core specification",
		}, run: runC25})
}

// xnode is an XML element.
type xnode struct {
	name xml.Name
	attr map[string]string
	text string
	kids []*xnode
}

func (x *xnode) all(local string) (l []*xnode) {
	for _, k := range x.kids {
		if k.name.Local == local {
			l = append(l, k)
		}
	}
	return
}

func (x *xnode) one(local string) (*xnode, error) {
	if l := x.all(local); len(l) == 1 {
		return l[0], nil
	}
	return nil, fmt.Errorf("%d elements %s in %s", len(x.all(local)), local, x.name.Local)
}

func parseXML(b []byte) (*xnode, error) {
	d := xml.NewDecoder(bytes.NewReader(b))
	d.Strict = true
	top := &xnode{}
	stack := []*xnode{top}
	for {
		tok, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		cur := stack[len(stack)-1]
		switch t := tok.(type) {
		case xml.StartElement:
			n := &xnode{name: t.Name, attr: map[string]string{}}
			for _, a := range t.Attr {
				k := a.Name.Local
				if a.Name.Space != "" {
					k = a.Name.Space + ":" + k
				}
				if _, dup := n.attr[k]; dup {
					return nil, fmt.Errorf("attribute %s twice", k)
				}
				n.attr[k] = a.Value
			}
			cur.kids = append(cur.kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if t := bytes.TrimSpace(t); len(t) > 0 {
				cur.text += string(t)
			}
		}
	}
	if len(stack) != 1 || len(top.kids) != 1 {
		return nil, fmt.Errorf("%d root elements", len(top.kids))
	}
	return top.kids[0], nil
}

const (
	opcTypes = "http://schemas.openxmlformats.org/package/2006/content-types"
	opcRels  = "http://schemas.openxmlformats.org/package/2006/relationships"
	mf3Core  = "http://schemas.microsoft.com/3dmanufacturing/core/2015/02"
	mf3Model = "http://schemas.microsoft.com/3dmanufacturing/2013/01/3dmodel"
)

// parse3MF finds the model of a package the way a reader does and returns its triangles.
func parse3MF(b []byte) (tris []tri3, verts []v3, err error) {
	z, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return nil, nil, err
	}
	parts := map[string][]byte{}
	for _, f := range z.File {
		k := "/" + strings.TrimPrefix(f.Name, "/")
		if _, dup := parts[k]; dup {
			return nil, nil, fmt.Errorf("part %s twice", k)
		}
		rc, err := f.Open()
		if err != nil {
			return nil, nil, err
		}
		parts[k], err = io.ReadAll(rc)
		rc.Close()
		if err != nil {
			return nil, nil, fmt.Errorf("part %s: %v", k, err)
		}
	}
	part := func(k string) (*xnode, error) {
		b, ok := parts[k]
		if !ok {
			return nil, fmt.Errorf("no part %s", k)
		}
		x, err := parseXML(b)
		if err != nil {
			return nil, fmt.Errorf("part %s: %v", k, err)
		}
		return x, nil
	}
	// content types
	ct, err := part("/[Content_Types].xml")
	if err != nil {
		return nil, nil, err
	}
	if ct.name.Local != "Types" || ct.name.Space != opcTypes {
		return nil, nil, fmt.Errorf("content types are %v", ct.name)
	}
	types := map[string]string{}
	for _, d := range ct.all("Default") {
		types[strings.ToLower(d.attr["Extension"])] = d.attr["ContentType"]
	}
	override := map[string]string{}
	for _, d := range ct.all("Override") {
		override[d.attr["PartName"]] = d.attr["ContentType"]
	}
	typeOf := func(k string) string {
		if t, ok := override[k]; ok {
			return t
		}
		return types[strings.ToLower(strings.TrimPrefix(path.Ext(k), "."))]
	}
	if t := typeOf("/_rels/.rels"); t != "application/vnd.openxmlformats-package.relationships+xml" {
		return nil, nil, fmt.Errorf("relationships have type %q", t)
	}
	// the start part
	rels, err := part("/_rels/.rels")
	if err != nil {
		return nil, nil, err
	}
	if rels.name.Local != "Relationships" || rels.name.Space != opcRels {
		return nil, nil, fmt.Errorf("relationships are %v", rels.name)
	}
	start := ""
	ids := map[string]bool{}
	for _, l := range rels.all("Relationship") {
		if ids[l.attr["Id"]] || l.attr["Id"] == "" {
			return nil, nil, fmt.Errorf("relationship id %q", l.attr["Id"])
		}
		ids[l.attr["Id"]] = true
		if l.attr["Type"] == mf3Model {
			if start != "" {
				return nil, nil, fmt.Errorf("two models")
			}
			start = "/" + strings.TrimPrefix(l.attr["Target"], "/")
		}
	}
	if start == "" {
		return nil, nil, fmt.Errorf("no relationship to a model")
	}
	if t := typeOf(start); t != "application/vnd.ms-package.3dmanufacturing-3dmodel+xml" {
		return nil, nil, fmt.Errorf("model has type %q", t)
	}
	for k := range parts {
		if k != "/[Content_Types].xml" && typeOf(k) == "" {
			return nil, nil, fmt.Errorf("part %s has no type", k)
		}
	}
	m, err := part(start)
	if err != nil {
		return nil, nil, err
	}
	if m.name.Local != "model" || m.name.Space != mf3Core {
		return nil, nil, fmt.Errorf("model is %v", m.name)
	}
	if u, ok := m.attr["unit"]; ok && u != "millimeter" {
		return nil, nil, fmt.Errorf("unit is %q", u)
	}
	res, err := m.one("resources")
	if err != nil {
		return nil, nil, err
	}
	build, err := m.one("build")
	if err != nil {
		return nil, nil, err
	}
	objs := map[string]*xnode{}
	for _, o := range res.all("object") {
		id := o.attr["id"]
		if n, err := strconv.Atoi(id); err != nil || n <= 0 || objs[id] != nil {
			return nil, nil, fmt.Errorf("object id %q", id)
		}
		if t := o.attr["type"]; t != "" && t != "model" {
			return nil, nil, fmt.Errorf("object type %q", t)
		}
		objs[id] = o
	}
	resources := map[string]bool{}
	for _, x := range res.kids {
		if id := x.attr["id"]; id != "" {
			resources[id] = true
		}
	}
	for _, o := range objs {
		if pid, ok := o.attr["pid"]; ok && !resources[pid] {
			return nil, nil, fmt.Errorf("object refers to property group %q, which does not exist", pid)
		}
		if _, ok := o.attr["pindex"]; ok && o.attr["pid"] == "" {
			return nil, nil, fmt.Errorf("object has a property index without a property group")
		}
	}
	for _, d := range m.all("metadata") {
		switch n := d.attr["name"]; n {
		case "Title", "Designer", "Description", "Copyright", "LicenseTerms", "Rating", "CreationDate", "ModificationDate", "Application":
		default:
			if !strings.Contains(n, ":") {
				return nil, nil, fmt.Errorf("metadata %q", n)
			}
		}
	}
	items := build.all("item")
	if len(items) != 1 || len(objs) != 1 {
		return nil, nil, fmt.Errorf("%d objects, %d items are built", len(objs), len(items))
	}
	if t := strings.TrimSpace(items[0].attr["transform"]); t != "" && t != "1 0 0 0 1 0 0 0 1 0 0 0" {
		return nil, nil, fmt.Errorf("transform %q", t)
	}
	o := objs[items[0].attr["objectid"]]
	if o == nil {
		return nil, nil, fmt.Errorf("item of object %q", items[0].attr["objectid"])
	}
	mesh, err := o.one("mesh")
	if err != nil {
		return nil, nil, err
	}
	vs, err := mesh.one("vertices")
	if err != nil && len(mesh.kids) > 0 {
		return nil, nil, err
	}
	if vs != nil {
		for _, v := range vs.all("vertex") {
			var p v3
			for i, k := range []string{"x", "y", "z"} {
				x, err := strconv.ParseFloat(v.attr[k], 64)
				if err != nil {
					return nil, nil, fmt.Errorf("vertex %d: %v", len(verts), err)
				}
				p = with3(p, i, x)
			}
			verts = append(verts, p)
		}
	}
	ts, err := mesh.one("triangles")
	if err != nil && len(mesh.kids) > 0 {
		return nil, nil, err
	}
	if ts != nil {
		for _, t := range ts.all("triangle") {
			var x tri3
			for i, k := range []string{"v1", "v2", "v3"} {
				n, err := strconv.Atoi(t.attr[k])
				if err != nil || n < 0 || n >= len(verts) {
					return nil, nil, fmt.Errorf("triangle %d refers to vertex %q of %d", len(tris), t.attr[k], len(verts))
				}
				x[i] = verts[n]
			}
			tris = append(tris, x)
		}
	}
	return tris, verts, nil
}

func check3MF(b []byte, tris []tri3, ordered bool) error {
	got, verts, err := parse3MF(b)
	if err != nil {
		return err
	}
	if ordered {
		err = sameList(got, tris)
	} else {
		err = sameSet(got, tris)
	}
	if err != nil {
		return err
	}
	seen, used := map[v3]bool{}, map[v3]bool{}
	for i, v := range verts {
		if seen[v] {
			return fmt.Errorf("vertex %d, %v, is stored twice", i, v)
		}
		seen[v] = true
	}
	for _, t := range tris {
		for _, v := range t {
			used[v] = true
		}
	}
	if len(used) != len(verts) {
		return fmt.Errorf("%d vertices for %d points", len(verts), len(used))
	}
	return nil
}

func runC25(c *C) {
	c.Cases("lists", c.scale(900, 12000), func(i int, r *R) {
		n := r.Intn(60)
		switch {
		case i%300 == 1:
			n = 40000 + r.Intn(60000)
		case i%100 == 0:
			n = r.Intn(20000)
		case i%10 == 0:
			n = r.Intn(1500)
		}
		tris := looseTris(r, n)
		switch r.Intn(4) {
		case 0: // difficult numbers
			for k := range tris {
				for j := range tris[k] {
					if r.Intn(3) == 0 {
						x := []float64{math.Copysign(0, -1), 0, 1, -1, 1e-300, 5e-324, 1.7976931348623157e308, 0.1, 1. / 3, 123456789.123456789, -1e21, 1e20, 1e-7, 2.5e-5}[r.Intn(14)]
						tris[k][j] = with3(tris[k][j], r.Intn(3), x)
					}
				}
			}
		case 1: // neighbours that differ in the last place
			for k := 1; k < len(tris); k++ {
				v := tris[r.Intn(k)][r.Intn(3)]
				v = with3(v, r.Intn(3), comp3(v, r.Intn(3))*(1+2.3e-16))
				tris[k][r.Intn(3)] = v
			}
			for k := 1; k < len(tris); k++ { // or in the sign of nothing
				v := with3(tris[r.Intn(k)][r.Intn(3)], r.Intn(3), 0)
				tris[r.Intn(k)][r.Intn(3)] = v
				for a := 0; a < 3; a++ {
					if comp3(v, a) == 0 {
						v = with3(v, a, math.Copysign(0, -1))
					}
				}
				tris[k][r.Intn(3)] = v
			}
		case 2: // a mesh over shared vertices
			m, _ := meshSolid(r.Rand, 400)
			m, _ = place(r.Rand, m)
			tris = m.tris()
		}
		for _, t := range tris {
			r.DistinctBits(1, t[0].X, t[1].Y, t[2].Z)
		}
		dir := scratch(r)
		defer os.RemoveAll(dir)
		name := filepath.Join(dir, fileName(r))
		if r.Intn(2) == 0 { // over another file
			os.WriteFile(name, bytes.Repeat([]byte{'x'}, r.Intn(1000000)), 0o644)
		}
		if err := render.Create3MF(name, newScript(r, tris, io.EOF)); err != nil {
			r.Fatalf("error", "Create3MF of %d triangles: %v", len(tris), err)
		}
		b, err := os.ReadFile(name)
		if err != nil {
			r.Fatalf("error", "%v", err)
		}
		if err := check3MF(b, tris, true); err != nil {
			r.Fatalf("package", "Create3MF of %d triangles: %v", len(tris), err)
		}
		r.Ev(len(tris))
		r.Count("triangles", len(tris))
		files, _ := os.ReadDir(dir)
		if len(files) != 1 {
			names := []string{}
			for _, f := range files {
				names = append(names, f.Name())
			}
			sort.Strings(names)
			r.Failf("litter", "Create3MF left %v", names)
		}
	})
	c.Cases("models", c.scale(150, 2000), func(i int, r *R) {
		s, d := smallSolid(r)
		cells := meshCellCount(r, 32)
		tris := renderAll(r, s, cells)
		dir := scratch(r)
		defer os.RemoveAll(dir)
		name := filepath.Join(dir, fileName(r))
		if err := render.Create3MF(name, render.NewOctreeRenderer(s, cells)); err != nil {
			r.Fatalf("error", "Create3MF: %v", err)
		}
		b, _ := os.ReadFile(name)
		if err := check3MF(b, tris, false); err != nil {
			r.Fatalf("package", "%.200s, %d cells: %v", d, cells, err)
		}
		r.Ev(len(tris))
		r.Count("triangles of models", len(tris))
	})
}
