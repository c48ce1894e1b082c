// Command vh is the verification harness: "vh supervise ID" runs one check.
package main

import (
	"fmt"
	"os"
	"strconv"

	"verif/harness/checks"
	"verif/harness/h"
)

func main() {
	if len(os.Args) < 3 {
		fmt.Println("usage: vh supervise ID VERIFDIR | vh worker ID SHARD SHARDS OUT | vh kind ID")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "fresh-complete":
		checks.FreshComplete()
	case "interactive":
		checks.RunInteractive(os.Args[2:])
	case "worker":
		s, _ := strconv.Atoi(os.Args[3])
		n, _ := strconv.Atoi(os.Args[4])
		h.RunWorker(os.Args[2], s, n, os.Args[5])
	case "supervise":
		os.Exit(h.Supervise(os.Args[2], os.Args[3]))
	}
}
