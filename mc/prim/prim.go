// Package prim defines the checked properties of the exported arithmetic primitives.
package prim
