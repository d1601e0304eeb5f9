package main

// scte35vg check ID        run one property's check and write its evidence
// scte35vg unit ID NAME    analyse one unit (used by check; prints JSON)
// scte35vg debug NAMES     print function summaries
//
// The analyser never runs code of /repo: it parses and type-checks the current
// source and evaluates functions abstractly over value-graph terms.

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	repoDir  = flag.String("repo", "/repo", "repository to analyse")
	verifDir = flag.String("verif", "", "directory of the framework")
	prof     = flag.String("prof", "", "")
	opq      = flag.String("opaque", "", "roles")
	dbgDiff  = flag.Bool("v", false, "print all obligations")
	only     = flag.String("only", "", "only units with this prefix")
)

// ob is one obligation: a rule applied to a construct of the source.
type ob struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Where     string `json:"where"`
	OK        bool   `json:"ok"`
	Why       string `json:"why,omitempty"`
}

type unitResult struct {
	Unit    string         `json:"unit"`
	Obs     []ob           `json:"obligations"`
	Counts  map[string]int `json:"counts"`
	Funcs   []string       `json:"functions,omitempty"`
	Seconds float64        `json:"seconds"`
}

type aunit struct {
	name string
	run  func(c *ctx)
}

type check struct {
	id      string
	rule    string // what is decided, for the evidence
	spec    bool   // type-check the reference together with the library
	units   func(c *ctx) []aunit
	minimum map[string]int // rule -> minimum number of obligations, against vacuity
	level   string
}

var checks = map[string]*check{}

func register(c *check) { checks[c.id] = c }

type ctx struct {
	p    *program
	r    *roles
	res  *unitResult
	fns  map[string]bool
	keep func(rule, construct string) bool // obligations to decide; nil: all
}

func (c *ctx) ok(rule, construct, where string) {
	c.res.Obs = append(c.res.Obs, ob{rule, construct, where, true, ""})
}
func (c *ctx) bad(rule, construct, where, why string, a ...any) {
	if len(a) > 0 {
		why = fmt.Sprintf(why, a...)
	}
	c.res.Obs = append(c.res.Obs, ob{rule, construct, where, false, why})
}
func (c *ctx) test(ok bool, rule, construct, where, why string, a ...any) bool {
	if ok {
		c.ok(rule, construct, where)
	} else {
		c.bad(rule, construct, where, why, a...)
	}
	return ok
}
func (c *ctx) count(k string, n int) { c.res.Counts[k] += n }

func main() {
	flag.Parse()
	debug.SetMaxStack(2 << 30)
	debug.SetGCPercent(300)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *verifDir == "" {
		exe, _ := os.Executable()
		*verifDir = filepath.Dir(filepath.Dir(exe))
	}
	a := flag.Args()
	if len(a) == 0 {
		fmt.Fprintln(os.Stderr, "usage: scte35vg check ID | unit ID NAME | debug NAMES | list")
		os.Exit(2)
	}
	switch a[0] {
	case "check":
		os.Exit(runCheck(a[1]))
	case "unit":
		runUnit(a[1], a[2])
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "debug":
		p, err := load(*repoDir, nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, n := range strings.Split(a[1], ",") {
			debugFn(p, n)
		}
	default:
		os.Exit(2)
	}
}

func prepare(ck *check) (*ctx, error) {
	p, err := load(*repoDir, nil)
	if err != nil {
		return nil, err
	}
	c := &ctx{p: p, r: p.findRoles(), res: &unitResult{Counts: map[string]int{}}, fns: map[string]bool{}}
	if len(c.r.missing) > 0 {
		return c, fmt.Errorf("cannot resolve %s", strings.Join(c.r.missing, ", "))
	}
	if ck.spec {
		src, err := specSources(c)
		if err != nil {
			return c, err
		}
		p, err = load(*repoDir, src)
		if err != nil {
			return c, fmt.Errorf("the reference does not fit the source: %v", err)
		}
		c.p, c.r = p, p.findRoles()
	}
	return c, nil
}

// runUnit analyses one unit and prints its result as JSON.
func runUnit(id, name string) {
	ck := checks[id]
	c, err := prepare(ck)
	if err != nil {
		c = &ctx{res: &unitResult{Counts: map[string]int{}}}
		c.bad("resolve", id, "", "%s", err.Error())
	} else {
		found := false
		for _, u := range ck.units(c) {
			if u.name == name {
				found = true
				c.guard(name, u.run)
			}
		}
		if !found {
			c.bad("resolve", name, "", "no such unit")
		}
	}
	c.res.Unit = name
	for f := range c.fns {
		c.res.Funcs = append(c.res.Funcs, f)
	}
	sort.Strings(c.res.Funcs)
	json.NewEncoder(os.Stdout).Encode(c.res)
}

// guard turns an undecided analysis into a failed obligation.
func (c *ctx) guard(name string, f func(*ctx)) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				at := u.at
				if at == "" && curPos.IsValid() {
					at = c.p.pos(curPos)
				}
				c.bad("decided", name, at, "undecided: %s", u.msg)
				return
			}
			if _, ok := r.(deadPath); ok {
				c.bad("decided", name, "", "undecided: no path reaches the end")
				return
			}
			panic(r)
		}
	}()
	f(c)
	c.ok("decided", name, "")
}

func seedOf() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return n
}

func tierOf() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

const unitTimeout = 780 * time.Second

func runCheck(id string) int {
	ck := checks[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no check", id)
		return 2
	}
	t0 := time.Now()
	deadline := t0.Add(unitTimeout)
	var results []*unitResult
	c, err := prepare(ck)
	if err != nil {
		r := &unitResult{Unit: "load", Counts: map[string]int{}}
		r.Obs = []ob{{"resolve", id, "", false, err.Error()}}
		results = append(results, r)
	} else {
		us := ck.units(c)
		if len(us) == 0 {
			r := &unitResult{Unit: "load", Counts: map[string]int{}}
			r.Obs = []ob{{"resolve", id, "", false, "nothing to analyse"}}
			results = append(results, r)
		}
		results = append(results, runUnits(id, us, deadline)...)
		results[0].Counts["packages"] = len(c.p.order)
		results[0].Counts["files"] = c.p.nfiles
	}
	return report(ck, results, time.Since(t0))
}

func runUnits(id string, us []aunit, deadline time.Time) []*unitResult {
	out := make([]*unitResult, len(us))
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	exe, _ := os.Executable()
	for i, u := range us {
		if *only != "" && !strings.HasPrefix(u.name, *only) {
			out[i] = &unitResult{Unit: u.name, Counts: map[string]int{}}
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			t0 := time.Now()
			cx, cancel := context.WithDeadline(context.Background(), deadline)
			defer cancel()
			cmd := exec.CommandContext(cx, exe, "-repo", *repoDir, "-verif", *verifDir, "unit", id, u.name)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=3500MiB")
			var se strings.Builder
			cmd.Stderr = &se
			b, err := cmd.Output()
			r := &unitResult{Counts: map[string]int{}}
			if e := json.Unmarshal(b, r); e != nil || err != nil {
				s := se.String()
				if len(s) > 1500 {
					s = s[:1500]
				}
				if cx.Err() != nil {
					s = "the analysis did not finish in time"
				}
				r = &unitResult{Unit: u.name, Counts: map[string]int{}, Obs: []ob{{"decided", u.name, "", false, "undecided: " + s}}}
			}
			r.Seconds = time.Since(t0).Seconds()
			out[i] = r
		}()
	}
	wg.Wait()
	return out
}

func debugFn(p *program, name string) {
	t0 := time.Now()
	f := p.fn(p.lib, name)
	if f == nil {
		fmt.Println("no", name)
		return
	}
	in := newInterp(p)
	if *opq != "" {
		in.setOpaque(p.findRoles(), strings.Split(*opq, "+")...)
	}
	st := newState()
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				fmt.Printf("%s: UNDECIDED %s (%v)\n", name, u.msg, time.Since(t0))
				return
			}
			panic(r)
		}
	}()
	sig := f.Type().(*types.Signature)
	var recv *T
	var cell int
	if sig.Recv() != nil {
		recv = mkSym("x", sig.Recv().Type())
		if pt, ok := sig.Recv().Type().Underlying().(*types.Pointer); ok {
			cell = in.newCell(st, pt.Elem(), mkSym("x", pt.Elem()))
			recv = mkPtr(cell)
		}
	}
	var args []*T
	for i := 0; i < sig.Params().Len(); i++ {
		args = append(args, mkSym(fmt.Sprintf("a%d", i), sig.Params().At(i).Type()))
	}
	vals := in.inline(f, nil, st, recv, args, 0)
	fmt.Printf("== %s (%v) terms %d\n", name, time.Since(t0), len(tab))
	for i, v := range vals {
		fmt.Printf(" result %d: %s\n", i, in.freeze(st, v))
	}
	if cell != 0 {
		fmt.Printf(" recv: %s\n", in.freeze(st, st.mem[cell]))
	}
	bad := 0
	for _, k := range in.oblOrder {
		if o := in.obls[k]; !o.ok {
			fmt.Printf(" BAD %s: %s\n", k, o.why)
			bad++
		}
	}
	fmt.Printf(" obligations %d bad %d\n", len(in.oblOrder), bad)
}
