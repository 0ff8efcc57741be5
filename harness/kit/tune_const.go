//go:build go1.22 && !tuneparam

package kit

const Tunable = false

func SetLens(ins, insFC, rec, recFC int) {}
