// Command verifreplay searches for concrete failing inputs of the properties in
// properties.jsonl against the real code in /repo. It is the replay half of the
// checks: the deciding step is the deductive verifier in ../vc; this program turns
// a failed obligation into an input, and serves as the labelled *bounded* stand-in
// for the functions the verifier does not reach.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------- random numbers

type Rng struct{ s uint64 }

func (r *Rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u64() % uint64(n))
}
func (r *Rng) b() bool         { return r.u64()&1 != 0 }
func (r *Rng) oneIn(n int) bool { return r.n(n) == 0 }

// ---------------------------------------------------------------- cases

type Case struct {
	Rng
	size    int
	logging bool
	trace   []string
	checks  int
	blk     int // lazy sets: the size of blocks
}

type failure struct{ msg string }

func (c *Case) logf(f string, a ...any) {
	if c.logging {
		c.trace = append(c.trace, fmt.Sprintf(f, a...))
	}
}

func (c *Case) failf(f string, a ...any) { panic(failure{fmt.Sprintf(f, a...)}) }

func (c *Case) check(ok bool, f string, a ...any) {
	c.checks++
	if !ok {
		panic(failure{fmt.Sprintf(f, a...)})
	}
}

// panics runs f and reports whether it panicked.
func panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(failure); is {
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

type scenario struct {
	prop, name string
	f          func(c *Case)
	weight     int
}

var scenarios []scenario

func reg(props, name string, f func(c *Case)) { regw(1, props, name, f) }
func regw(w int, props, name string, f func(c *Case)) {
	for _, p := range strings.Split(props, ",") {
		scenarios = append(scenarios, scenario{p, name, f, w})
	}
}

type Report struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Seed     uint64   `json:"seed"`
	Size     int      `json:"size"`
	Env      string   `json:"env"`
	What     string   `json:"what"`
	Trace    []string `json:"trace"`
	Stack    string   `json:"stack,omitempty"`
	Rerun    string   `json:"rerun"`
}

func runCase(s scenario, seed uint64, size int, logging bool) (rep *Report, checks int) {
	c := &Case{Rng: Rng{seed}, size: size, logging: logging}
	defer func() {
		checks = c.checks
		if r := recover(); r != nil {
			rep = &Report{Property: s.prop, Scenario: s.name, Seed: seed, Size: size, Trace: c.trace}
			if f, is := r.(failure); is {
				rep.What = f.msg
			} else {
				rep.What = fmt.Sprintf("unexpected panic: %v", r)
				st := string(debug.Stack())
				if len(st) > 4000 {
					st = st[:4000]
				}
				rep.Stack = st
			}
		}
	}()
	s.f(c)
	return nil, c.checks
}

var (
	curSeed  atomic.Uint64
	curSize  atomic.Int64
	curScen  atomic.Int64
	curStart atomic.Int64
)

func main() {
	prop := flag.String("prop", "", "property id")
	seed := flag.Uint64("seed", 1, "seed")
	budget := flag.Float64("budget", 5, "seconds")
	maxCases := flag.Int("cases", 1<<30, "maximum number of cases")
	out := flag.String("out", "", "report file")
	only := flag.String("scenario", "", "scenario name")
	caseSeed := flag.String("case", "", "replay exactly this case: seed/size")
	hang := flag.Float64("hang", 60, "seconds after which a case counts as not terminating")
	summary := flag.String("summary", "", "summary file")
	flag.Parse()
	log.SetOutput(io.Discard)
	debug.SetMaxStack(256 << 20)
	env := fmt.Sprintf("FROZEN_CONCURRENCY=%s GOMAXPROCS=%s", os.Getenv("FROZEN_CONCURRENCY"), os.Getenv("GOMAXPROCS"))

	var mine []scenario
	for _, s := range scenarios {
		if s.prop == *prop && (*only == "" || *only == s.name) {
			for i := 0; i < s.weight; i++ {
				mine = append(mine, s)
			}
		}
	}
	if len(mine) == 0 {
		fmt.Fprintln(os.Stderr, "no scenario for", *prop)
		os.Exit(3)
	}
	emit := func(rep *Report) {
		rep.Env = env
		rep.Rerun = fmt.Sprintf("cd /verif/replay && go build -o /tmp/verifreplay . && %s /tmp/verifreplay -prop %s -scenario %s -case %d/%d",
			env, rep.Property, rep.Scenario, rep.Seed, rep.Size)
		data, _ := json.MarshalIndent(rep, "", " ")
		if *out != "" {
			_ = os.WriteFile(*out, data, 0o644)
		}
		fmt.Println(string(data))
		os.Exit(1)
	}
	if *caseSeed != "" {
		var sd uint64
		var sz int
		_, _ = fmt.Sscanf(*caseSeed, "%d/%d", &sd, &sz)
		if rep, _ := runCase(mine[0], sd, sz, true); rep != nil {
			emit(rep)
		}
		fmt.Println("no failure")
		return
	}
	start := time.Now()
	curStart.Store(time.Now().UnixNano())
	go func() { // non-termination and crash reporting
		for {
			time.Sleep(200 * time.Millisecond)
			if st := curStart.Load(); st != 0 && time.Since(time.Unix(0, st)).Seconds() > *hang {
				s := mine[curScen.Load()]
				emit(&Report{Property: s.prop, Scenario: s.name, Seed: curSeed.Load(), Size: int(curSize.Load()),
					What: fmt.Sprintf("a case did not terminate within %v s", *hang)})
			}
		}
	}()
	var progress *os.File
	if *out != "" {
		progress, _ = os.Create(*out + ".at")
	}
	var cases, checks int
	per := map[string]int{}
	samples := []map[string]any{}
	for i := 0; i < *maxCases; i++ {
		if i%8 == 0 && time.Since(start).Seconds() > *budget {
			break
		}
		s := mine[i%len(mine)]
		size := 2 + (i/len(mine))%24
		if i/len(mine)%97 == 96 {
			size = 60
		}
		sd := (&Rng{*seed*1000003 + uint64(i)}).u64()
		curSeed.Store(sd)
		curSize.Store(int64(size))
		curScen.Store(int64(i % len(mine)))
		curStart.Store(time.Now().UnixNano())
		if progress != nil {
			line := fmt.Sprintf("%-24s %-20d %-6d\n", s.name, sd, size)
			_, _ = progress.WriteAt([]byte(line), 0)
		}
		rep, ck := runCase(s, sd, size, false)
		cases++
		checks += ck
		per[s.name]++
		if rep != nil {
			// try smaller sizes with the same scenario for a shorter trace
			best := rep
			for sz := 1; sz < size; sz++ {
				found := false
				for k := 0; k < 40; k++ {
					sd2 := (&Rng{sd + uint64(sz*1000+k)}).u64()
					if r2, _ := runCase(s, sd2, sz, false); r2 != nil {
						best, found = r2, true
						break
					}
				}
				if found {
					break
				}
			}
			curStart.Store(0)
			if again, _ := runCase(s, best.Seed, best.Size, true); again != nil {
				best = again
			}
			emit(best)
		}
		if len(samples) < 3 && i > 40 {
			c := &Case{Rng: Rng{sd}, size: 3, logging: true}
			func() { defer func() { _ = recover() }(); s.f(c) }()
			samples = append(samples, map[string]any{"scenario": s.name, "seed": sd, "size": 3, "trace": c.trace})
		}
	}
	sum := map[string]any{"cases": cases, "checks": checks, "scenarios": per, "samples": samples, "env": env}
	data, _ := json.Marshal(sum)
	if *summary != "" {
		_ = os.WriteFile(*summary, data, 0o644)
	}
	fmt.Println(string(data))
}

// ---------------------------------------------------------------- elements

// E is an element with adversarial hashes: equality is by id, the hash is a
// function of id chosen by the universe, tag tells equal values apart.
type E struct {
	ID, Tag int
	H       uint64
}

func (e E) Equal(f E) bool { return e.ID == f.ID }
func (e E) Same(a any) bool {
	f, is := a.(E)
	return is && e.Equal(f)
}
func (e E) Hash(seed uintptr) uintptr {
	if seed == 0 {
		return uintptr(e.H)
	}
	return uintptr((e.H ^ uint64(seed)) * 0x9e3779b97f4a7c15)
}
func (e E) String() string { return fmt.Sprintf("e%d", e.ID) }

type Universe []E

// hashes makes n adversarial 64-bit hashes: runs of equal hashes, prefixes shared
// down to arbitrary levels of the trie (3 bits per level, 22 levels).
func hashes(c *Case, n int) []uint64 {
	style := c.n(8)
	hs := make([]uint64, n)
	base := c.u64()
	setDigit := func(h uint64, level int) uint64 {
		sh := 61 - 3*level
		d := c.u64() & 7
		if sh < 0 {
			return h ^ (d & 1)
		}
		return h&^(7<<uint(sh)) | d<<uint(sh)
	}
	for i := range hs {
		switch style {
		case 0: // everything collides
			hs[i] = base
		case 1: // a few hash values, shared deep prefix
			hs[i] = base ^ uint64(c.n(3))
		case 2: // prefix tree
			if i == 0 {
				hs[i] = base
			} else {
				hs[i] = setDigit(hs[c.n(i)], c.n(22))
			}
		case 3: // dense first levels
			hs[i] = uint64(c.n(8))<<61 | uint64(c.n(3))<<58 | uint64(c.n(2))<<55
		case 4:
			hs[i] = c.u64()
		case 5: // prefix tree with many exact collisions
			if i == 0 {
				hs[i] = base
			} else if c.b() {
				hs[i] = hs[c.n(i)]
			} else {
				hs[i] = setDigit(hs[c.n(i)], c.n(22))
			}
		case 6: // near the end of the hash
			if i == 0 {
				hs[i] = base
			} else {
				hs[i] = setDigit(hs[c.n(i)], 18+c.n(4))
			}
		case 7: // zero hashes and single bits
			if c.b() {
				hs[i] = 0
			} else {
				hs[i] = 1 << uint(c.n(64))
			}
		}
	}
	return hs
}

func universe(c *Case, n int) Universe {
	hs := hashes(c, n)
	u := make(Universe, n)
	for i := range u {
		u[i] = E{ID: i, H: hs[i]}
	}
	if c.logging {
		var sb strings.Builder
		for _, e := range u {
			fmt.Fprintf(&sb, " e%d:%#016x", e.ID, e.H)
		}
		c.logf("elements (Equal by name, Hash as given):%s", sb.String())
	}
	return u
}

func (c *Case) usize() int {
	if c.size >= 60 {
		return 100 + c.n(100)
	}
	return 1 + c.n(c.size+2)
}

func (c *Case) pick(u Universe) E {
	e := u[c.n(len(u))]
	e.Tag = c.n(1000)
	return e
}

// bs is a set of element ids.
type bs [4]uint64

func (b *bs) set(i int)     { b[i>>6] |= 1 << uint(i&63) }
func (b *bs) clr(i int)     { b[i>>6] &^= 1 << uint(i&63) }
func (b bs) has(i int) bool { return b[i>>6]>>uint(i&63)&1 != 0 }
func (b bs) or(d bs) bs {
	for i := range b {
		b[i] |= d[i]
	}
	return b
}
func (b bs) and(d bs) bs {
	for i := range b {
		b[i] &= d[i]
	}
	return b
}
func (b bs) minus(d bs) bs {
	for i := range b {
		b[i] &^= d[i]
	}
	return b
}
func (b bs) count() (n int) {
	for i := 0; i < 256; i++ {
		if b.has(i) {
			n++
		}
	}
	return
}
func (b bs) String() string {
	var p []string
	for i := 0; i < 256; i++ {
		if b.has(i) {
			p = append(p, fmt.Sprintf("e%d", i))
		}
	}
	return "{" + strings.Join(p, " ") + "}"
}

func sortedInts(a []int) []int { sort.Ints(a); return a }
