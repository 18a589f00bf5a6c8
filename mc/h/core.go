// Package main (overlaid at /repo/zzverif) is the bounded exhaustive explorer and the
// property drivers. It uses only the public API of the packages under test.
package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing/synctest"
	"time"
)

// A Check is one closed driver: Run executes the code under test once, drawing every decision
// from c.Choose, and calls c.Fail when the property does not hold of that execution.
type Check struct {
	ID          string
	Run         func(c *Ctx)
	Rule        string // what is enumerated, in words
	Bounds      func(c *Ctx) map[string]any
	Assumptions []string
	Setup       func(c *Ctx) // once per process
	Done        func()
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

type point struct {
	label string
	n     int
	v     int
}

// Ctx is one execution.
type Ctx struct {
	x      *Explorer
	Tier   string
	trace  []point
	prefix []int
	notes  []string
	digest uint64
	seed   uint64
	steps  int64
	extra  map[uint64]struct{}
	bounds map[string]any
	scrub  string // a run-dependent directory name, left out of notes
}

type violation struct{ msg string }
type skip struct{}
type harnessErr struct{ msg string }

// Thorough reports whether the deep tier is running.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func Pick[T any](c *Ctx, q, t T) T {
	if c.Thorough() {
		return t
	}
	return q
}

// Choose makes one decision in [0,n). The explorer enumerates all of them.
func (c *Ctx) Choose(label string, n int) int {
	if n <= 0 {
		panic(harnessErr{fmt.Sprintf("Choose(%s, %d)", label, n)})
	}
	i := len(c.trace)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			panic(harnessErr{fmt.Sprintf("replay diverged at choice %d (%s): %d >= %d", i, label, v, n)})
		}
	}
	c.trace = append(c.trace, point{label, n, v})
	c.steps++
	if c.x != nil {
		c.x.publish(c.trace)
	}
	return v
}

// Bool chooses false, then true.
func (c *Ctx) Bool(label string) bool { return c.Choose(label, 2) == 1 }

// Of chooses an element.
func Of[T any](c *Ctx, label string, xs []T) T { return xs[c.Choose(label, len(xs))] }

// Shard marks the end of the outermost choices; whole subtrees below are dealt out to processes.
func (c *Ctx) Shard() {
	if c.x == nil || c.x.nshards <= 1 {
		return
	}
	key := ""
	for _, p := range c.trace {
		key += strconv.Itoa(p.v) + ","
	}
	if key != c.x.lastShardKey || c.x.shardIndex < 0 {
		c.x.lastShardKey = key
		c.x.shardIndex++
	}
	// deal in a scattered, fixed order for balance
	if int((uint64(c.x.shardIndex)*0x9E3779B97F4A7C15)>>33)%c.x.nshards != c.x.shard {
		panic(skip{})
	}
}

// Step counts one transition (an operation of the code under test executed and compared).
func (c *Ctx) Step() { c.steps++ }

func (c *Ctx) hash(parts []any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		switch t := p.(type) {
		case string:
			h.Write([]byte(t))
		case []byte:
			h.Write(t)
		default:
			fmt.Fprintf(h, "%v", p)
		}
		h.Write([]byte{0xff})
	}
	return h.Sum64()
}

// State records that the execution reached the given (canonical) state.
func (c *Ctx) State(parts ...any) {
	v := c.hash(parts)
	c.extra[v] = struct{}{}
	c.digest = c.digest*0x100000001b3 ^ v
}

// Note adds a line to the human-readable account of this execution.
func (c *Ctx) Note(f string, a ...any) {
	if c.x != nil && !c.x.verbose && len(c.notes) > 400 {
		return
	}
	s := fmt.Sprintf(f, a...)
	if c.scrub != "" {
		s = strings.ReplaceAll(s, c.scrub, "$DIR")
	}
	c.notes = append(c.notes, s)
}

// Fail reports that the property does not hold of this execution.
func (c *Ctx) Fail(f string, a ...any) { panic(violation{fmt.Sprintf(f, a...)}) }

// Check fails unless ok.
func (c *Ctx) Check(ok bool, f string, a ...any) {
	if !ok {
		c.Fail(f, a...)
	}
}

// Explorer is the depth-first enumerator of choice vectors.
type Explorer struct {
	chk          *Check
	tier         string
	shard        int
	nshards      int
	lastShardKey string
	shardIndex   int
	verbose      bool

	cases   atomic.Int64
	started atomic.Int64 // unix nano of the current case
	cpu0    atomic.Int64
	prog    []byte
	out     string

	states map[uint64]struct{}
	steps  int64
}

func (x *Explorer) publish(tr []point) {
	if x.prog == nil {
		return
	}
	n := len(tr)
	if n > 4000 {
		return
	}
	binary.LittleEndian.PutUint32(x.prog[0:], 0)
	binary.LittleEndian.PutUint32(x.prog[4+4*(n-1)+4:], uint32(tr[n-1].v))
	binary.LittleEndian.PutUint32(x.prog[0:], uint32(n)|0x80000000)
}

func rawNow() int64 {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 1, uintptr(ptr(&ts)), 0)
	return ts.Nano()
}

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(0, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// runOnce executes the driver with the given prefix and classifies the outcome.
func runOnce(chk *Check, x *Explorer, tier string, prefix []int) (c *Ctx, outcome string, msg string) {
	c = &Ctx{x: x, Tier: tier, prefix: prefix, extra: map[uint64]struct{}{}}
	outcome = "ok"
	resetHooks()
	var pv any
	var stack []byte
	func() {
		defer func() {
			if r := recover(); r != nil {
				pv = r
				if _, ok := r.(violation); ok {
					return
				}
				if _, ok := r.(skip); ok {
					return
				}
				stack = debug.Stack()
			}
		}()
		chk.Run(c)
	}()
	resetHooks()
	if pv == nil {
		return
	}
	if bp, ok := pv.(bubblePanic); ok {
		pv, stack = bp.v, bp.stack
	}
	switch t := pv.(type) {
	case violation:
		return c, "violation", t.msg
	case skip:
		return c, "skip", ""
	case harnessErr:
		return c, "error", t.msg
	default:
		return c, "violation", fmt.Sprintf("panic: %v\n%s", pv, trimStack(string(stack)))
	}
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// harnessf reports an error of the harness itself.
func harnessf(f string, a ...any) { panic(harnessErr{fmt.Sprintf(f, a...)}) }

type result struct {
	Property    string         `json:"property"`
	Cases       int64          `json:"cases"`
	Steps       int64          `json:"steps"`
	Exhaustive  bool           `json:"exhaustive"`
	Samples     []string       `json:"samples"`
	Outcome     string         `json:"outcome"`
	Msg         string         `json:"msg"`
	Trace       []int          `json:"trace"`
	Labels      []string       `json:"labels"`
	Notes       []string       `json:"notes"`
	Repro       int            `json:"repro"`
	Replayed    int64          `json:"replayed"`
	Diverged    int64          `json:"diverged"`
	Rule        string         `json:"rule"`
	Bounds      map[string]any `json:"bounds"`
	Assumptions []string       `json:"assumptions"`
	WallS       float64        `json:"wall_s"`
	MaxDepth    int            `json:"max_depth"`
}

func describe(c *Ctx) string {
	var b strings.Builder
	for i, p := range c.trace {
		if i > 0 {
			b.WriteString(" ")
		}
		fmt.Fprintf(&b, "%s=%d/%d", p.label, p.v, p.n)
		if i > 60 {
			b.WriteString(" ...")
			break
		}
	}
	if len(c.notes) > 0 {
		n := c.notes
		if len(n) > 12 {
			n = n[:12]
		}
		b.WriteString(" | " + strings.Join(n, "; "))
	}
	s := b.String()
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

func traceOf(c *Ctx) (v []int, l []string) {
	for _, p := range c.trace {
		v = append(v, p.v)
		l = append(l, fmt.Sprintf("%s=%d/%d", p.label, p.v, p.n))
	}
	return
}

func (x *Explorer) explore(deadline time.Time) *result {
	r := &result{Property: x.chk.ID, Exhaustive: true, Outcome: "ok", Rule: x.chk.Rule, Assumptions: x.chk.Assumptions}
	t0 := time.Now()
	var prefix []int
	nextSample := int64(1)
	flaky := 0
	for {
		if time.Now().After(deadline) {
			r.Exhaustive = false
			break
		}
		x.started.Store(rawNow())
		x.cpu0.Store(cpuNow())
		c, outcome, msg := runOnce(x.chk, x, x.tier, prefix)
		x.started.Store(0)
		if outcome == "error" {
			r.Outcome, r.Msg = "error", msg
			r.Trace, r.Labels = traceOf(c)
			r.Notes = c.notes
			break
		}
		if outcome != "skip" {
			r.Cases++
			x.cases.Add(1)
			r.Steps += c.steps
			if len(c.trace) > r.MaxDepth {
				r.MaxDepth = len(c.trace)
			}
			for v := range c.extra {
				x.states[v] = struct{}{}
			}
			if r.Cases == nextSample && len(r.Samples) < 6 {
				r.Samples = append(r.Samples, describe(c))
				nextSample = nextSample*7 + 3
			}
			if outcome == "ok" && (r.Cases <= 20 || r.Cases%997 == 0) {
				// own every source of nondeterminism, and check that we do
				v, _ := traceOf(c)
				c2, o2, _ := runOnce(x.chk, x, x.tier, v)
				r.Replayed++
				if o2 != outcome || c2.digest != c.digest || len(c2.trace) != len(c.trace) {
					r.Diverged++
				}
			}
		}
		if outcome == "violation" {
			v, l := traceOf(c)
			if x.out != "" {
				// kept in case the process does not survive the confirmation
				b, _ := json.Marshal(map[string]any{"trace": v, "labels": l, "notes": c.notes, "msg": msg})
				os.WriteFile(x.out+".viol", b, 0o600)
			}
			repro := 0
			for range 5 {
				_, o2, _ := runOnce(x.chk, x, x.tier, v)
				if o2 == "violation" {
					repro++
				}
			}
			if r.Outcome == "ok" || repro > r.Repro {
				r.Outcome, r.Msg, r.Trace, r.Labels, r.Notes, r.Repro = "violation", msg, v, l, c.notes, repro
			}
			r.Exhaustive = false
			flaky++
			// a violation the choices do not settle (the code under test draws on randomness of its
			// own): look on for one they do settle
			if repro == 5 || flaky == 50 {
				break
			}
		}
		// next vector
		i := len(c.trace) - 1
		for i >= 0 && c.trace[i].v+1 >= c.trace[i].n {
			i--
		}
		if i < 0 {
			break
		}
		prefix = prefix[:0]
		for j := 0; j < i; j++ {
			prefix = append(prefix, c.trace[j].v)
		}
		prefix = append(prefix, c.trace[i].v+1)
	}
	r.WallS = time.Since(t0).Seconds()
	return r
}

// watchdog ends the process when one execution does not come back.
func (x *Explorer) watchdog(out string) {
	for {
		time.Sleep(500 * time.Millisecond)
		s := x.started.Load()
		if s == 0 {
			continue
		}
		wall := time.Duration(rawNow() - s)
		cpu := time.Duration(cpuNow() - x.cpu0.Load())
		var ms syscall.Rusage
		syscall.Getrusage(0, &ms)
		hang := ""
		if cpu > 60*time.Second {
			hang = fmt.Sprintf("one execution used %v CPU without finishing", cpu)
		} else if wall > 240*time.Second {
			hang = fmt.Sprintf("one execution did not finish within %v", wall)
		}
		if hang != "" {
			os.WriteFile(out+".hang", []byte(hang), 0o600)
			os.Exit(3)
		}
	}
}

func main() {
	args := map[string]string{}
	for _, a := range os.Args[1:] {
		k, v, _ := strings.Cut(a, "=")
		args[k] = v
	}
	debug.SetGCPercent(400)
	if args["list"] != "" {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	chk := checks[args["check"]]
	if chk == nil {
		fmt.Fprintln(os.Stderr, "no such check", args["check"])
		os.Exit(2)
	}
	runtime.VerifDeterministic(true)
	x := &Explorer{chk: chk, tier: args["tier"], nshards: 1, shardIndex: -1, states: map[uint64]struct{}{}}
	if x.tier == "" {
		x.tier = "quick"
	}
	scratchRoot = args["scratch"]
	c0 := &Ctx{Tier: x.tier, extra: map[uint64]struct{}{}}
	if chk.Setup != nil {
		chk.Setup(c0)
	}
	if rp := args["replay"]; rp != "" {
		var rec struct {
			Trace []int  `json:"trace"`
			Tier  string `json:"tier"`
		}
		b, err := os.ReadFile(rp)
		if err == nil {
			err = json.Unmarshal(b, &rec)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		if rec.Tier != "" {
			x.tier = rec.Tier
		}
		x.verbose = true
		if args["out"] != "" {
			x.started.Store(rawNow())
			x.cpu0.Store(cpuNow())
			go x.watchdog(args["out"])
		}
		c, o, msg := runOnce(chk, x, x.tier, rec.Trace)
		fmt.Println(describe(c))
		for _, n := range c.notes {
			fmt.Println("  ", n)
		}
		fmt.Println("outcome:", o, msg)
		if o == "violation" {
			os.Exit(1)
		}
		if o == "error" {
			os.Exit(2)
		}
		return
	}
	out := args["out"]
	x.out = out
	if s := args["shard"]; s != "" {
		a, b, _ := strings.Cut(s, "/")
		x.shard, _ = strconv.Atoi(a)
		x.nshards, _ = strconv.Atoi(b)
	}
	if out != "" {
		f, err := os.OpenFile(out+".prog", os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o600)
		if err == nil {
			f.Truncate(32768)
			x.prog, _ = syscall.Mmap(int(f.Fd()), 0, 32768, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			f.Close()
		}
		go x.watchdog(out)
	}
	limit := 600.0
	if s := args["limit"]; s != "" {
		limit, _ = strconv.ParseFloat(s, 64)
	}
	r := x.explore(time.Now().Add(time.Duration(limit * float64(time.Second))))
	if chk.Done != nil {
		chk.Done()
	}
	if chk.Bounds != nil {
		r.Bounds = chk.Bounds(c0)
	}
	b, _ := json.Marshal(r)
	if out == "" {
		fmt.Println(string(b))
		fmt.Println("states", len(x.states))
		return
	}
	buf := make([]byte, 0, 8*len(x.states))
	for v := range x.states {
		buf = binary.LittleEndian.AppendUint64(buf, v)
	}
	os.WriteFile(out+".states", buf, 0o600)
	os.WriteFile(out+".tmp", b, 0o600)
	os.Rename(out+".tmp", out)
}

var scratchRoot string

// resetHooks returns every global seam to its default.
func resetHooks() {
	runtime.VerifMapIter(0)
	resetFS()
}

type bubblePanic struct {
	v     any
	stack []byte
}

// Bubble runs f on a virtual clock (a synctest bubble); a panic in f is re-raised here and a
// deadlock of the bubble is reported as a panic.
func Bubble(f func()) {
	var pv any
	var stack []byte
	synctest.VerifRun(func() {
		defer func() {
			if r := recover(); r != nil {
				pv = r
				stack = debug.Stack()
			}
		}()
		f()
	})
	if pv != nil {
		if _, ok := pv.(violation); ok {
			panic(pv)
		}
		panic(bubblePanic{pv, stack})
	}
}
