// Command symgo checks properties of the Go code in /repo by symbolic execution of its SSA form.
package main

import (
	"os"

	"symgo/driver"
)

func main() { os.Exit(driver.Main(os.Args[1:])) }
