//go:build verifshim

package main

import "github.com/soypat/sdf/render"

func init() { readBack = render.VerifReadBinarySTL }
