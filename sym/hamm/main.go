// Command hamm holds the harnesses over the order-matching and pool arithmetic.
package main

import "defund/x/verif/vf"

func main() { vf.Main() }
