package h

import (
	"bufio"
	"bytes"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Sys is a fresh set of instances of the code under test. Do executes one
// step on it and returns the observed result (ints, strings and nested
// []any). A panic of the code under test is caught by the caller.
type Sys interface {
	Do(o Obj) any
}

// Prober is implemented by systems that can be read at any time without an
// effect the contract knows of. Behaviours are replayed a second time with
// random reads between their steps, whose results do not matter: they must
// not change what the steps return.
type Prober interface {
	Probe(r *rand.Rand)
}

// Driver describes one conformance driver.
type Driver struct {
	New      func(variant int) Sys   // variant: a relabelling of the abstract inputs
	Variants int                     // number of variants replayed (default 1)
	Slow     bool                    // calls take up to a second
	Serial   bool                    // behaviours must not run in parallel (package-level settings)
	Alone    func(focus string) bool // neither must anything else, such as the reading of behaviours
	Record   func(r *Rec)
	Skip     func(focus string, variant int) bool // variants that do not apply
}

// Rec records one or more histories of the real code.
type Rec struct {
	*rand.Rand
	Thorough bool
	Focus    string
	Scale    int
	Base     int  // added to the variant
	Clears   bool // the structure has Clear
	Churn    int  // limits churning: 0: not; 1: hundreds; 2: tens; 3: none
	w        *bufio.Writer
	sys      Sys
	d        *Driver
	recent   []int
	Events   int
	Hist     int
	stopped  bool
	sl       *slot
	counts   map[string]int
	safe     bool
	f        *os.File
}

// Key returns a number below u, often one close to those returned before.
func (r *Rec) Key(u int) int {
	k := r.Intn(u)
	if n := len(r.recent); n > 0 && r.Intn(5) < 2 {
		k = r.recent[r.Intn(n)] + r.Pick(0, 0, 0, 1, -1, 2, -2)
		if k < 0 || k >= u {
			k = r.Intn(u)
		}
	}
	if len(r.recent) < 4 {
		r.recent = append(r.recent, k)
	} else {
		r.recent[r.Intn(4)] = k
	}
	return k
}

// Pick returns one of l.
func (r *Rec) Pick(l ...int) int { return l[r.Intn(len(l))] }

// Reset starts a new, independent history with the given input variant.
func (r *Rec) Reset(variant int) {
	r.sys = r.d.New(variant)
	r.recent = nil
	r.Hist++
	r.write(Obj{"op": "reset", "p": 0, "r": []any{}, "variant": variant})
}

// Stopped reports that the recording ended early (the code under test hung).
func (r *Rec) Stopped() bool { return r.stopped }

// Do executes one step on the real code and logs it with its result.
func (r *Rec) Do(o Obj) any {
	if r.stopped {
		return nil
	}
	if r.safe {
		o["r"], o["p"] = []any{}, 3
		pending(o)
	}
	res, p, msg := call(r.sys, o, r.sl, func(kind string) {
		// Called by the watchdog while the call is still running.
		o["r"], o["p"], o["note"] = []any{}, 2, kind
		r.write(o)
		r.w.Flush()
		r.finish()
		os.Exit(0)
	})
	o["r"], o["p"] = res, p
	if p != 0 {
		o["note"] = clean(msg)
	}
	r.write(o)
	return res
}

func clean(s string) string {
	return strings.Map(func(r rune) rune {
		if r < 32 || r == '"' || r == '\\' || r > 126 {
			return '.'
		}
		return r
	}, s)
}

func (r *Rec) write(o Obj) {
	r.Events++
	r.counts[o.S("op")]++
	r.w.WriteString(Enc(o))
	r.w.WriteByte('\n')
	if r.safe {
		r.w.Flush()
	}
}

func (r *Rec) finish() {
	fmt.Println(Enc(Obj{"events": r.Events, "histories": r.Hist, "ops": countsObj(r.counts)}))
}

func countsObj(m map[string]int) map[string]any {
	o := map[string]any{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

var pendingFile *os.File

func pending(o any) {
	if pendingFile != nil {
		b := []byte(Enc(o) + "\n")
		pendingFile.Truncate(0)
		pendingFile.WriteAt(b, 0)
	}
}

// ---- watchdog -------------------------------------------------------------

type slot struct {
	busy  atomic.Bool
	seq   atomic.Int64
	fire  atomic.Pointer[func(string)]
	last  int64
	since time.Duration // process CPU time at which the current call was first seen
	wall  time.Time
}

var (
	slotsMu sync.Mutex
	slots   []*slot
)

func newSlot() *slot {
	s := &slot{}
	slotsMu.Lock()
	slots = append(slots, s)
	slotsMu.Unlock()
	return s
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

var (
	hangCPU  = 15 * time.Second
	hangWall = 20 * time.Second
)

const heapMax = 6 << 30

// watchdog turns a call that does not return into an observation: calls here
// take microseconds (in slow drivers: below a second), so one that has used 15 s of CPU time over at least 20 s,
// or has made the heap grow beyond 6 GB, is reported as not terminating.
func watchdog() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(100 * time.Millisecond)
		metrics.Read(sample)
		mem := sample[0].Value.Uint64()
		cpu := cpuTime()
		slotsMu.Lock()
		for _, s := range slots {
			q := s.seq.Load()
			if !s.busy.Load() || q != s.last {
				s.last, s.since, s.wall = q, cpu, time.Now()
				continue
			}
			f := s.fire.Load()
			if f == nil {
				continue
			}
			if cpu-s.since > hangCPU && time.Since(s.wall) > hangWall {
				(*f)("call does not return")
			} else if mem > heapMax && cpu-s.since > time.Second {
				(*f)("call allocates without bound")
			}
		}
		slotsMu.Unlock()
	}
}

// call runs one step, catching panics. p is 0 for a normal return and 1 for a
// panic.
func call(sys Sys, o Obj, sl *slot, hang func(string)) (res any, p int, msg string) {
	sl.fire.Store(&hang)
	sl.seq.Add(1)
	sl.busy.Store(true)
	defer func() {
		sl.busy.Store(false)
		if e := recover(); e != nil {
			if b, ok := e.(Bad); ok {
				fmt.Fprintln(os.Stderr, "HARNESS ERROR:", string(b))
				os.Exit(3)
			}
			res, p, msg = []any{}, 1, fmt.Sprint(e)
			if os.Getenv("VERIF_STACK") != "" {
				debug.PrintStack()
			}
		}
	}()
	res = sys.Do(o)
	if res == nil {
		res = []any{}
	}
	return res, 0, ""
}

// ---- replay ---------------------------------------------------------------

// Mismatch is a step at which the real code left the specification.
type Mismatch struct {
	Line, Step, Variant int
	Beh                 []any
	Got                 any
	P                   int
	Msg                 string
	Kind                string
	Noise               int64 // seed of the reads between the steps, 0: none
}

func checkStep(o Obj, res any, p int, checked map[string]bool) bool {
	if p != o.I("p") {
		return false
	}
	if checked != nil && !checked[o.S("op")] {
		return true
	}
	if a, ok := o["any"]; ok {
		for _, x := range a.([]any) {
			if Equal(x, res) {
				return true
			}
		}
		return false
	}
	if r, ok := o["r"]; ok && p == 0 {
		return Equal(r, res)
	}
	return true
}

func runBeh(d *Driver, beh []any, variant int, noise int64, checked map[string]bool, sl *slot, counts map[string]int, safe bool, onHang func(step int, kind string)) *Mismatch {
	if safe {
		pending(Obj{"beh": beh, "variant": variant, "noise": noise})
	}
	sys := d.New(variant)
	var rnd *rand.Rand
	pr, _ := sys.(Prober)
	if noise != 0 && pr != nil {
		rnd = rand.New(&splitmix{uint64(noise)})
	}
	for i, s := range beh {
		o := Obj(s.(map[string]any))
		counts[o.S("op")]++
		if rnd != nil && i > 0 {
			for rnd.Intn(3) > 0 {
				call(probe{pr, rnd}, o, sl, func(kind string) { onHang(i, kind+" (a read before the step)") })
			}
		}
		res, p, msg := call(sys, o, sl, func(kind string) { onHang(i, kind) })
		if !checkStep(o, res, p, checked) {
			return &Mismatch{Step: i, Variant: variant, Noise: noise, Beh: beh, Got: res, P: p, Msg: msg}
		}
	}
	return nil
}

type probe struct {
	p Prober
	r *rand.Rand
}

func (p probe) Do(Obj) any { p.p.Probe(p.r); return nil }

// splitmix is a cheap source of random numbers.
type splitmix struct{ x uint64 }

func (s *splitmix) Seed(x int64) { s.x = uint64(x) }
func (s *splitmix) Uint64() uint64 {
	s.x += 0x9e3779b97f4a7c15
	z := s.x
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}
func (s *splitmix) Int63() int64 { return int64(s.Uint64() >> 1) }

func mismatchObj(m *Mismatch) Obj {
	return Obj{"line": m.Line, "step": m.Step, "variant": m.Variant, "noise": int(m.Noise), "beh": m.Beh, "got": m.Got, "p": m.P, "note": clean(m.Msg), "kind": m.Kind}
}

func unquote(b []byte) []byte {
	b = bytes.TrimSpace(b)
	if len(b) > 1 && b[0] == '"' {
		b = b[1 : len(b)-1]
		b = bytes.ReplaceAll(b, []byte(`\"`), []byte(`"`))
	}
	return b
}

func replay(d *Driver, focus, file, logFile string, checked map[string]bool, outFile string, safe bool) {
	f := os.Stdin
	if file != "-" {
		var err error
		if f, err = os.Open(file); err != nil {
			fatal(err)
		}
	}
	logw := bufio.NewWriter(os.Stderr)
	if logFile != "" {
		lf, err := os.Create(logFile)
		if err != nil {
			fatal(err)
		}
		logw = bufio.NewWriter(lf)
	}
	type job struct {
		line int
		b    []byte
	}
	queue, ready := 64, make(chan struct{})
	nw := runtime.NumCPU()
	serial := d.Serial
	if d.Alone != nil && d.Alone(focus) {
		serial = true
		queue = 1 << 20
	} else {
		close(ready)
	}
	if serial || safe {
		nw = 1
	}
	jobs := make(chan []job, queue)
	variants := d.Variants
	if variants == 0 {
		variants = 1
	}
	_, prober := d.New(0).(Prober)
	var mu sync.Mutex
	var sample any
	var first *Mismatch
	var bad atomic.Bool
	total := map[string]int{}
	var nbeh, nsteps atomic.Int64
	dump := func(m *Mismatch) {
		o := Obj{"behaviours": int(nbeh.Load()), "steps": int(nsteps.Load()), "ops": countsObj(total)}
		if sample != nil {
			o["sample"] = sample
		}
		if m != nil {
			o["mismatch"] = mismatchObj(m)
		}
		os.WriteFile(outFile, []byte(Enc(o)+"\n"), 0o644)
	}
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sl := newSlot()
			counts := map[string]int{}
			<-ready
			for js := range jobs {
				for _, j := range js {
					if bad.Load() {
						continue
					}
					v, err := Parse(unquote(j.b))
					if err != nil {
						fatal(err)
					}
					beh := v.([]any)
					for va := 0; va < variants; va++ {
						if d.Skip != nil && d.Skip(focus, va) {
							continue
						}
						nbeh.Add(1)
						nsteps.Add(int64(len(beh)))
						m := runBeh(d, beh, va, 0, checked, sl, counts, safe, func(step int, kind string) {
							// The call never returns: report and stop here.
							mu.Lock()
							dump(&Mismatch{Line: j.line, Step: step, Variant: va, Beh: beh, Got: []any{}, P: 2, Msg: kind, Kind: "hang"})
							os.Exit(0)
						})
						if m == nil && prober {
							m = runBeh(d, beh, va, int64(j.line*variants+va+1), checked, sl, map[string]int{}, safe, func(step int, kind string) {
								mu.Lock()
								dump(&Mismatch{Line: j.line, Step: step, Variant: va, Noise: int64(j.line*variants + va + 1), Beh: beh, Got: []any{}, P: 2, Msg: kind, Kind: "hang"})
								os.Exit(0)
							})
						}
						if m != nil {
							m.Line, m.Kind = j.line, "mismatch"
							mu.Lock()
							if first == nil || j.line < first.Line {
								first = m
							}
							mu.Unlock()
							bad.Store(true)
							break
						}
					}
				}
			}
			mu.Lock()
			for k, v := range counts {
				total[k] += v
			}
			mu.Unlock()
		}()
	}
	sc := bufio.NewReaderSize(f, 1<<20)
	var batch []job
	for n := 1; ; n++ {
		if n == 1000 && len(batch) > 0 {
			sample, _ = Parse(unquote(batch[len(batch)-1].b))
		}
		line, err := sc.ReadBytes('\n')
		if len(line) > 1 && ((line[0] == '"' && line[1] == '[') || line[0] == '[') {
			batch = append(batch, job{n, line})
			if len(batch) == 256 {
				jobs <- batch
				batch = nil
			}
		} else {
			logw.Write(line)
		}
		if bad.Load() {
			break
		}
		if err != nil {
			break
		}
	}
	logw.Flush()
	jobs <- batch
	close(jobs)
	if queue > 64 {
		close(ready)
	}
	wg.Wait()
	if first != nil {
		// Reproduce it sequentially (iteration over Go maps is random, so try
		// repeatedly); an unreproduced mismatch is not a verdict.
		sl := newSlot()
		rep := 0
		for k := 0; k < 500 && rep == 0; k++ {
			m := runBeh(d, first.Beh, first.Variant, first.Noise, checked, sl, map[string]int{}, false, func(int, string) {
				dump(first)
				os.Exit(0)
			})
			if m != nil {
				rep++
			}
		}
		if rep == 0 && !serial {
			// Together with other instances in use, as it was found.
			var wg sync.WaitGroup
			var seen atomic.Bool
			for w := 0; w < runtime.NumCPU(); w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					sl := newSlot()
					for k := 0; k < 3000 && !seen.Load(); k++ {
						if runBeh(d, first.Beh, first.Variant, first.Noise, checked, sl, map[string]int{}, false, func(int, string) {
							dump(first)
							os.Exit(0)
						}) != nil {
							seen.Store(true)
						}
					}
				}()
			}
			wg.Wait()
			if seen.Load() {
				rep++
				first.Msg += " (with other instances in use at the same time)"
			}
		}
		if rep == 0 {
			first.Kind = "unreproduced"
		}
	}
	dump(first)
}

func fatal(v ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"HARNESS ERROR:"}, v...)...)
	os.Exit(3)
}

// Main is the entry point of every driver.
func Main(d *Driver) {
	mode := flag.String("mode", "", "replay or record")
	in := flag.String("in", "", "behaviours to replay")
	out := flag.String("out", "", "trace or result file")
	seed := flag.Int64("seed", 1, "random seed")
	tier := flag.String("tier", "quick", "quick or thorough")
	focus := flag.String("focus", "", "property")
	scale := flag.Int("scale", 1, "length multiplier for recordings")
	checks := flag.String("check", "", "comma-separated ops whose results are compared (default all)")
	logf := flag.String("log", "", "where to write input lines that are not behaviours")
	safe := flag.String("safe", "", "file that always names the pending step")
	flag.Parse()
	debug.SetMaxStack(512 << 20)
	if *safe != "" {
		var err error
		if pendingFile, err = os.Create(*safe); err != nil {
			fatal(err)
		}
	}
	if d.Slow {
		hangCPU, hangWall = 4*hangCPU, 4*hangWall
	}
	go watchdog()
	var checked map[string]bool
	if *checks != "" {
		checked = map[string]bool{}
		for _, c := range strings.Split(*checks, ",") {
			checked[c] = true
		}
	}
	switch *mode {
	case "replay":
		Replaying = true
		replay(d, *focus, *in, *logf, checked, *out, *safe != "")
	case "record":
		f, err := os.Create(*out)
		if err != nil {
			fatal(err)
		}
		r := &Rec{Rand: rand.New(rand.NewSource(*seed)), Thorough: *tier == "thorough", Focus: *focus, Scale: *scale,
			w: bufio.NewWriterSize(f, 1<<20), d: d, sl: newSlot(), counts: map[string]int{}, safe: *safe != "", f: f}
		d.Record(r)
		r.w.Flush()
		f.Close()
		r.finish()
	default:
		fatal("unknown mode")
	}
}
