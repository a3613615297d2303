package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "directory of the checks")
	specs := flag.String("specs", "/verif/contracts", "contracts")
	prop := flag.String("prop", "", "only contracts of this property")
	fnf := flag.String("fn", "", "only this function (substring)")
	to := flag.Int("t", 20, "solver timeout in seconds")
	unroll := flag.Int("unroll", 0, "bounded mode: loop iterations")
	verb := flag.Bool("v", false, "print all obligations")
	loops := flag.String("loops", "", "print the numbered loops of a function")
	list := flag.Bool("list", false, "list functions")
	flag.Parse()
	if flag.NArg() > 1 && flag.Arg(0) == "check" {
		os.Exit(runCheck(*repo, *verif, *specs, flag.Args()[1:]))
	}
	p, err := loadProg(*repo, nil)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	if *list {
		var l []string
		for k := range p.fns {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, "\n"))
		return
	}
	if err := p.loadSpecs(*specs); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	if *loops != "" {
		for i, l := range p.orderedLoops(p.fns[*loops], false, "", 0, map[*ssaFn]bool{}) {
			fmt.Println(i, p.pos(loopPos(l.l)), l.path)
		}
		return
	}
	var cs []*Contract
	for _, k := range sortedKeys(p.contracts) {
		c := p.contracts[k]
		if strings.HasPrefix(k, "iface ") || strings.HasPrefix(k, "dyn ") {
			continue
		}
		if *prop != "" && !contains(c.props, *prop) {
			continue
		}
		if *fnf != "" && !strings.Contains(k, *fnf) {
			continue
		}
		cs = append(cs, c)
	}
	bad := 0
	for _, r := range p.verify(cs, time.Duration(*to)*time.Second, *unroll) {
		var d time.Duration
		n := 0
		for _, o := range r.Obs {
			d += o.Dur
			if o.ok() {
				n++
			}
		}
		fmt.Printf("%-10s %-50s %d/%d obligations, %d paths, gen %.1fs (quick %d/%.1fs), solve %.1fs %s\n", r.Status, r.Key, n, len(r.Obs), r.Paths, r.Gen.Seconds(), r.quickN, r.quick.Seconds(), d.Seconds(), r.Msg)
		if r.Status != "verified" && r.Status != "trusted" {
			bad++
		}
		for _, o := range r.Obs {
			if *verb || !o.ok() {
				fmt.Printf("    %-8s %-8s %5.1fs %s %s\n", o.Result, o.Solver, o.Dur.Seconds(), o.Name, o.Pos)
			}
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
