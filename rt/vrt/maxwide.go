//go:build vrtwide

package vrt

const Wide = true

const maxT = 400 // threads per execution
