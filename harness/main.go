package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type checkFn func(r *Run)

var checks = map[string]checkFn{}

var vecFiles []string
var extra = map[string]string{} // other inputs, name=path

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	out := flag.String("out", "", "output directory")
	only := flag.String("only", "", "one case, suite:index")
	vecs := flag.String("vectors", "", "files of vectors from TLC")
	ext := flag.String("extra", "", "other inputs, name=path,...")
	limit := flag.Duration("limit", 150*time.Second, "time limit of one case")
	maxEv := flag.Int("maxevents", 1500, "sampled events per shard")
	shards := flag.Int("shards", 6, "shards of sampled traces")
	flag.Parse()
	if *vecs != "" {
		vecFiles = strings.Split(*vecs, ",")
	}
	for _, kv := range strings.Split(*ext, ",") {
		if i := strings.IndexByte(kv, '='); i > 0 {
			extra[kv[:i]] = kv[i+1:]
		}
	}
	f := checks[*prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "driver: no such property", *prop)
		os.Exit(4)
	}
	debug.SetMaxStack(1 << 30)
	debug.SetGCPercent(200)
	r := &Run{prop: *prop, tier: *tier, seed: *seed, out: *out, only: *only, deadline: *limit,
		distinct: map[uint64]bool{}, notes: map[string]int64{}}
	r.progress, _ = os.Create(filepath.Join(*out, "progress"))
	go r.watchdog()
	t0 := time.Now()
	f(r)
	r.flush(*maxEv, *shards)
	names := []string{}
	for n := range r.notes {
		names = append(names, n)
	}
	sort.Strings(names)
	js, _ := json.MarshalIndent(map[string]interface{}{
		"evaluations": r.evals, "cases": r.cases, "suspects": r.suspectN, "distinct": len(r.distinct),
		"distinct_nontrivial": r.nontriv, "notes": r.notes, "seconds": time.Since(t0).Seconds(), "done": true,
	}, "", " ")
	os.WriteFile(filepath.Join(*out, "summary.json"), js, 0o644)
	if r.suspectN > 0 {
		os.Exit(1)
	}
}

func (r *Run) thorough() bool { return r.tier == "thorough" }

// pick gives the bound for this tier.
func (r *Run) pick(quick, thorough int) int {
	if r.thorough() {
		return thorough
	}
	return quick
}
