package main

// Recording of observations.  A case is one run of the real code; what it did is written down as a
// sequence of events for the trace specifications in /verif/spec.  The driver itself gives no verdict:
// it precomputes what it expects (mirror.go) only to decide which of millions of observations are worth
// showing to TLC - all that look wrong ("suspects"), and a sample of the others.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"
)

type Ev map[string]interface{}

func B(k []byte) []int {
	r := make([]int, len(k))
	for i, b := range k {
		r[i] = int(b)
	}
	return r
}
func S(k string) []int { return B([]byte(k)) }

type Run struct {
	prop, tier string
	seed       int64
	out        string
	only       string // "suite:index": this case alone, and always recorded

	evals    int64
	cases    int64
	suspectN int64
	mu       sync.Mutex
	samples  []sampleTrace
	distinct map[uint64]bool
	nontriv  int64
	notes    map[string]int64
	deadline time.Duration
	active   sync.Map // case id -> time
	stop     int32
	progress *os.File
	nextSlot int64
}

// slot notes which case a worker is at, for when the process dies under it.
func (r *Run) slot(w int, id string) {
	if r.progress != nil {
		b := make([]byte, 64)
		copy(b, id)
		r.progress.WriteAt(b, int64(w)*64)
	}
}

type sampleTrace struct {
	spec string
	ev   []Ev
}

type Ctx struct {
	r     *Run
	id    string
	suite string
	idx   int
	rng   *rand.Rand
	spec  string // which trace specification judges this case

	base    []Ev // events that establish the state
	seq     []Ev // sequential events (all kept)
	seqBad  int  // index+1 of the first bad one
	sus     []Ev
	samp    []Ev
	nobs    int
	sampled bool
	maxSamp int
}

func caseSeed(seed int64, suite string, idx int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, suite, idx)
	return int64(h.Sum64() & 0x7fffffffffffffff)
}

// note counts something worth reporting in the evidence.
func (r *Run) note(name string, n int64) {
	r.mu.Lock()
	r.notes[name] += n
	r.mu.Unlock()
}

func (r *Run) seen(h uint64, nontrivial bool) {
	r.mu.Lock()
	if !r.distinct[h] {
		r.distinct[h] = true
		if nontrivial {
			r.nontriv++
		}
	}
	r.mu.Unlock()
}

// suiteRun runs cases 0..n-1 of a suite on several goroutines.
func (r *Run) suiteRun(suite, spec string, n, workers int, f func(c *Ctx)) {
	r.suiteRunEvery(suite, spec, n, workers, 1, f)
}

// every: about one case in `every` is recorded for TLC even when nothing looks wrong.
func (r *Run) suiteRunEvery(suite, spec string, n, workers, every int, f func(c *Ctx)) {
	if workers > runtime.NumCPU() {
		workers = runtime.NumCPU()
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || atomic.LoadInt32(&r.stop) != 0 {
					return
				}
				if r.only == "" {
					r.slot(w, fmt.Sprintf("%s:%d", suite, i))
				}
				r.oneCase(suite, spec, i, every, f)
				r.slot(w, "")
			}
		}(w)
	}
	wg.Wait()
}

func (r *Run) oneCase(suite, spec string, i, every int, f func(c *Ctx)) {
	id := fmt.Sprintf("%s:%d", suite, i)
	if r.only != "" && r.only != id {
		return
	}
	c := &Ctx{r: r, id: id, suite: suite, idx: i, spec: spec, maxSamp: 40}
	c.rng = rand.New(rand.NewSource(caseSeed(r.seed, suite, i)))
	c.sampled = every <= 1 || c.rng.Intn(every) == 0 || i == 0 || r.only != ""
	r.active.Store(id, time.Now())
	func() {
		defer func() {
			if p := recover(); p != nil {
				msg := fmt.Sprint(p)
				st := string(debug.Stack())
				if len(st) > 6000 {
					st = st[:6000]
				}
				c.base = append(c.base, c.seq...)
				c.seq, c.seqBad = nil, 0
				c.sus = append([]Ev{{"op": "panic", "what": msg, "stack": st}}, c.sus...)
			}
		}()
		f(c)
	}()
	r.active.Delete(id)
	atomic.AddInt64(&r.cases, 1)
	c.finish()
}

// dedupe drops the repetitions of an unchanged "lexicon" event.
func dedupe(ev []Ev) []Ev {
	var out []Ev
	var last []byte
	for _, e := range ev {
		if e["op"] == "lexicon" {
			js, _ := json.Marshal(e)
			if last != nil && string(js) == string(last) {
				continue
			}
			last = js
		}
		out = append(out, e)
	}
	return out
}

func (c *Ctx) finish() {
	atomic.AddInt64(&c.r.evals, int64(c.nobs&0xff))
	r := c.r
	bad := len(c.sus) > 0 || c.seqBad > 0
	if bad {
		n := atomic.AddInt64(&r.suspectN, 1)
		if n > 12 {
			atomic.StoreInt32(&r.stop, 1)
			return
		}
		tr := append([]Ev{}, c.base...)
		if c.seqBad > 0 {
			tr = append(tr, c.seq[:c.seqBad]...)
		} else if len(c.sus) > 0 {
			tr = append(tr, c.seq...)
			k := len(c.sus)
			if k > 4 {
				k = 4
			}
			tr = append(tr, c.sus[:k]...)
		}
		writeTrace(filepath.Join(r.out, fmt.Sprintf("suspect-%s-%02d.ndjson", c.spec, n)), dedupe(tr))
		meta, _ := json.Marshal(map[string]interface{}{"case": c.id, "seed": r.seed, "prop": r.prop, "tier": r.tier, "spec": c.spec})
		os.WriteFile(filepath.Join(r.out, fmt.Sprintf("suspect-%s-%02d.meta", c.spec, n)), meta, 0o644)
		return
	}
	if c.sampled && (len(c.seq) > 0 || len(c.samp) > 0) {
		tr := append([]Ev{}, c.base...)
		tr = append(tr, c.seq...)
		tr = append(tr, c.samp...)
		r.mu.Lock()
		r.samples = append(r.samples, sampleTrace{c.spec, dedupe(tr)})
		r.mu.Unlock()
	}
}

// Base records an event that establishes state.
func (c *Ctx) Base(e Ev) { c.base = append(c.base, e) }

// Seq records an event whose place in the sequence matters.
func (c *Ctx) Seq(ok bool, e Ev) {
	atomic.AddInt64(&c.r.evals, 1)
	c.seq = append(c.seq, e)
	if !ok && c.seqBad == 0 {
		c.seqBad = len(c.seq)
	}
}

// Obs records an observation that can be judged by itself.
func (c *Ctx) Obs(ok bool, mk func() []Ev) {
	c.nobs++
	if c.nobs&0xff == 0 {
		atomic.AddInt64(&c.r.evals, 256)
	}
	if !ok {
		if len(c.sus) < 64 {
			c.sus = append(c.sus, mk()...)
		}
		return
	}
	if c.sampled {
		if len(c.samp) < c.maxSamp {
			c.samp = append(c.samp, mk()...)
		} else if c.rng.Intn(c.nobs) < c.maxSamp/2 && len(c.samp) < 3*c.maxSamp {
			c.samp = append(c.samp, mk()...)
		}
	}
}

func writeTrace(path string, ev []Ev) {
	f, err := os.Create(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(4)
	}
	enc := json.NewEncoder(f)
	for _, e := range ev {
		if err := enc.Encode(e); err != nil {
			fmt.Fprintln(os.Stderr, "driver:", err)
			os.Exit(4)
		}
	}
	f.Close()
}

// flush writes the sampled traces, at most maxEvents per shard.
func (r *Run) flush(maxEvents, shards int) {
	bySpec := map[string][]sampleTrace{}
	for _, s := range r.samples {
		bySpec[s.spec] = append(bySpec[s.spec], s)
	}
	total := 0
	for spec, ss := range bySpec {
		rand.New(rand.NewSource(r.seed)).Shuffle(len(ss), func(i, j int) { ss[i], ss[j] = ss[j], ss[i] })
		sh := make([][]Ev, shards)
		n, k := 0, 0
		for _, s := range ss {
			if n > 0 && n+len(s.ev) > maxEvents*shards {
				continue
			}
			sh[k%shards] = append(sh[k%shards], Ev{"op": "reset"})
			sh[k%shards] = append(sh[k%shards], s.ev...)
			n += len(s.ev) + 1
			k++
		}
		for i := range sh {
			if len(sh[i]) > 0 {
				writeTrace(filepath.Join(r.out, fmt.Sprintf("sample-%s-%02d.ndjson", spec, i)), sh[i])
			}
		}
		total += k
	}
	r.notes["sampled_traces"] += int64(total)
}

func (r *Run) watchdog() {
	for {
		time.Sleep(250 * time.Millisecond)
		now := time.Now()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		mem := m.HeapAlloc > 14<<30
		r.active.Range(func(k, v interface{}) bool {
			if mem || now.Sub(v.(time.Time)) > r.deadline {
				// The longest running case is the culprit.
				var oldest string
				var t0 time.Time
				r.active.Range(func(k, v interface{}) bool {
					if oldest == "" || v.(time.Time).Before(t0) {
						oldest, t0 = k.(string), v.(time.Time)
					}
					return true
				})
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				js, _ := json.Marshal(map[string]interface{}{"case": oldest, "seconds": now.Sub(t0).Seconds(), "heap": m.HeapAlloc, "stack": string(buf[:n])})
				os.WriteFile(filepath.Join(r.out, "hang.json"), js, 0o644)
				os.Exit(3)
			}
			return true
		})
	}
}
