// Command vh runs the checks.
package main

import (
	"os"

	"github.com/vito/booklit/booklitcmd"

	"verif/checks"
	"verif/fw"
	_ "verif/plug"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "booklit" {
		// act as the booklit command, with the probes linked in
		os.Args = append(os.Args[:1], os.Args[2:]...)
		booklitcmd.Main()
		return
	}
	fw.Main(checks.All, checks.Finding)
}
