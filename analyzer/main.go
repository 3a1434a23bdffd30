package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
)

var (
	repoDir  = flag.String("repo", "/repo", "repository to analyse")
	verifDir = flag.String("verif", "/verif", "directory of the known findings and the evidence")
	property = flag.String("property", "", "property to check, or 'all'")
	verbose  = flag.Bool("v", false, "list every obligation")
)

func main() {
	flag.Parse()
	if f := os.Getenv("VSA_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(400)
	p, err := Load(*repoDir)
	if *property == "" {
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		dumpMain(p, flag.Args())
		return
	}
	var ids []string
	if *property == "all" {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*property, ",")
	}
	code := 0
	for _, id := range ids {
		if !runCheck(id, p, err) {
			code = 1
		}
	}
	os.Exit(code)
}
