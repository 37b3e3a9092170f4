//go:build verifshim

package render

import (
	"io"

	"gonum.org/v1/gonum/spatial/r3"
)

// VerifReadBinarySTL makes readBinarySTL reachable for the monitors.
func VerifReadBinarySTL(r io.Reader) ([]r3.Triangle, error) { return readBinarySTL(r) }
