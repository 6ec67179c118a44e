// Driver for how streams go about it: when they call their source and the functions of the client.
package main

import (
	"verif/harness/h"
	"verif/harness/streamlib"
)

func main() {
	h.Main(&h.Prop{Name: "C06", Gen: streamlib.Gen, Exec: streamlib.Exec, Compare: []string{"eff"}})
}
