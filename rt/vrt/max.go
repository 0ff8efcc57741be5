//go:build !vrtwide

package vrt

// Wide: for long collections, explored within few deviations
const Wide = false

const maxT = 32 // threads per execution
