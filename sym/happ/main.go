// Command happ holds the harnesses that run the real application: the dex module
// over the real bank, auth and params modules and the real multistore.
package main

import "defund/x/verif/vf"

func main() { vf.Main() }
