package main

import (
	"flag"
	"fmt"
	"io"
	"os"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/column"
	"github.com/patrickhuang888/goorc/orc/common"
	"github.com/patrickhuang888/goorc/orc/encoding"
	orcio "github.com/patrickhuang888/goorc/orc/io"
	"github.com/patrickhuang888/goorc/orc/stream"
	log "github.com/sirupsen/logrus"
)

// silence logs, they are only noise here
func silence() {
	log.SetLevel(log.PanicLevel)
	log.SetOutput(io.Discard)
	for _, f := range []func(log.Level){orc.SetLogLevel, column.SetLogLevel, common.SetLogLevel, encoding.SetLogLevel, orcio.SetLogLevel, stream.SetLogLevel} {
		f(log.PanicLevel)
	}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness run PROP TIER | replay FILE | list")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "worker":
		flag.CommandLine.Parse(nil)
		workerMain(os.Args[2:])
	case "run":
		os.Exit(driverMain(os.Args[2], os.Args[3]))
	case "replay":
		os.Exit(replayMain(os.Args[2]))
	case "list":
		for _, c := range checks {
			fmt.Println(c.prop, c.name, c.quick, c.thorough)
		}
	default:
		os.Exit(3)
	}
}
