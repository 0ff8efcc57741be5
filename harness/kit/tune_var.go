//go:build go1.22 && tuneparam

package kit

import sorty "github.com/jfcg/sorty/v2"

const Tunable = true

// SetLens sets the tuning parameters (init has already accepted the defaults).
func SetLens(ins, insFC, rec, recFC int) {
	sorty.MaxLenIns, sorty.MaxLenInsFC, sorty.MaxLenRec, sorty.MaxLenRecFC = ins, insFC, rec, recFC
}
