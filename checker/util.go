package main

import (
	"fmt"
	"go/token"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type tokenPos = token.Pos

func itoa(i int64) string { return strconv.FormatInt(i, 10) }

var debugOn = os.Getenv("CHECK_DEBUG") != ""

func debugf(f string, args ...interface{}) {
	if debugOn {
		fmt.Fprintf(os.Stderr, f, args...)
	}
}

func inPkg(f *ssa.Function, rel string) bool {
	pk := pkgOf(f)
	return pk != nil && strings.HasSuffix(pk.Path(), rel)
}
