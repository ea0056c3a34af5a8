// Command ustackverif decides semantic properties of the ustack package by
// abstract interpretation of its source (SSA form).
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type check struct {
	title  string
	tech   string // deciding method, for MANIFEST.json
	run    func(p *Program, r *Report)
	expl   []string
	assume []string
}

var checks = map[string]*check{}

func register(id string, c *check) { checks[id] = c }

// A check that does not come to an end within checkTime reports so.
var (
	checkStart time.Time
	checkTime  = 10 * time.Minute
)

func main() {
	repo := flag.String("repo", "/repo", "source tree")
	verif := flag.String("verif", "/verif", "verification tree")
	prop := flag.String("property", "", "property id, or 'all'")
	list := flag.Bool("list", false, "list the registered checks")
	flag.Parse()
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			c := checks[id]
			t := c.tech
			if t == "" {
				t = "abstract interpretation of the SSA form"
			}
			fmt.Printf("%s\t%s\t%s\n", id, t, strings.Join(c.expl, " ")+" Assumes: "+strings.Join(c.assume, "; ")+".")
		}
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var ids []string
	if *prop == "all" {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	configs := []string{""}
	if tier == "thorough" {
		configs = []string{"", "GOARCH=386", "GOARCH=arm64", "GOOS=darwin GOARCH=arm64", "GOOS=windows GOARCH=amd64"}
	}
	code := 0
	progs := map[string]*Program{}
	for _, id := range ids {
		c := checks[id]
		if c == nil {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		start := time.Now()
		checkStart = start
		if tier == "thorough" {
			checkTime = time.Hour
		}
		r := newReport(id)
		r.expl, r.assume = c.expl, c.assume
		var names []string
		for _, cfg := range configs {
			name := cfg
			if name == "" {
				name = "host"
			}
			names = append(names, name)
			r.Config = name
			p := progs[name]
			if p == nil {
				var err error
				p, err = loadProgram(*repo, strings.Fields(cfg))
				if err != nil {
					r.Fail("load", name, nil, "the package can not be analysed: %v", err)
					continue
				}
				progs[name] = p
			}
			r.notes["files"], r.notes["functions_in_package"] = p.Files, len(p.Funcs)
			func() {
				defer func() {
					if e := recover(); e != nil {
						r.Fail("analysis", "internal error", nil, "%v\n%s", e, debug.Stack())
					}
				}()
				c.run(p, r)
			}()
		}
		if rc := r.finish(*verif, tier, seed, start, names); rc != 0 {
			code = rc
		}
	}
	os.Exit(code)
}
