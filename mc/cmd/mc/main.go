// Command mc explores the properties of ogdl on the real code.
package main

import "ogdlmc/fw"

var props = []*fw.Prop{c01, c02, c03, c04, c05, c06, c07, c08, c09, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c23, c24, c25, c30, c31, c32, c33, c35}

func main() {
	fw.Main(props)
}
