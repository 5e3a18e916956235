// The part of os that would reach outside of the explored program: it ends
// the program under exploration, not the explorer, and finds the files of the
// harness.
package vos

import (
	real "os"

	"github.com/yangl1996/rateless-set-reconcile/zzverif/vs"
)

// Exited is what a controlled run ends with when the program calls Exit.
type Exited struct{ Code int }

func Exit(code int) {
	if vs.Active() {
		vs.Stop(Exited{code})
	}
	real.Exit(code)
}

// Path, when set, tells where the file called name really is.
var Path func(name string) string

func path(name string) string {
	if Path != nil {
		return Path(name)
	}
	return name
}

func ReadFile(name string) ([]byte, error) { return real.ReadFile(path(name)) }
func Open(name string) (*File, error)      { return real.Open(path(name)) }
func Create(name string) (*File, error)    { return real.Create(path(name)) }
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	return real.OpenFile(path(name), flag, perm)
}
func WriteFile(name string, data []byte, perm FileMode) error {
	return real.WriteFile(path(name), data, perm)
}
