// Driver for what streams deliver.
package main

import (
	"verif/harness/h"
	"verif/harness/streamlib"
)

func main() {
	h.Main(&h.Prop{Name: "C05", Gen: streamlib.Gen, Exec: streamlib.Exec, Compare: []string{"res"}})
}
