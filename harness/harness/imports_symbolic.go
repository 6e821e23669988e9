//go:build symbolic

package harness

import _ "blichmann.eu/code/btrfscue/internal/zzverif/model"
