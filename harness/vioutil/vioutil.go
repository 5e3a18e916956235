// Package vioutil stands in for io/ioutil; files are those of vos.
package vioutil

import (
	real "io/ioutil"

	"github.com/yangl1996/rateless-set-reconcile/zzverif/vos"
)

var (
	Discard   = real.Discard
	NopCloser = real.NopCloser
	ReadAll   = real.ReadAll
	ReadDir   = real.ReadDir
	ReadFile  = vos.ReadFile
	TempDir   = real.TempDir
	TempFile  = real.TempFile
	WriteFile = vos.WriteFile
)
