package main

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// runRapid drives the property with the rapid engine; it returns an error for anything but success
// and the failures of the property itself are recorded by its caller.
func runRapid(name string, seed uint64, n int, prop func(*rapid.T)) (err error) {
	must(flag.Set("rapid.checks", fmt.Sprint(n)))
	must(flag.Set("rapid.seed", fmt.Sprint(seed)))
	var tb = &tbT{name: name}
	var inf any
	var done = make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(tb, func(t *rapid.T) {
			defer func() {
				if p := recover(); p != nil {
					if i, ok := p.(Infra); ok {
						inf = i
					}
					panic(p)
				}
			}()
			prop(t)
		})
	}()
	<-done
	if inf != nil {
		panic(inf)
	}
	if tb.failed {
		return errors.New(strings.Join(tb.log, "\n"))
	}
	return nil
}

func fatal(code int, format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(code)
}

func main() {
	time.Local = time.FixedZone("X", 5*3600+1800)
	testing.Init()
	var (
		prop     = flag.String("prop", "", "property to run")
		part     = flag.String("part", "", "only this part")
		seed     = flag.Uint64("seed", 1, "seed")
		tier     = flag.String("tier", "quick", "quick or thorough")
		out      = flag.String("out", "", "file for statistics")
		failout  = flag.String("failout", "", "file for the failing case")
		inflight = flag.String("inflight", "", "file for the case in evaluation")
		replay   = flag.String("replay", "", "file with a case to replay")
		list     = flag.Bool("list", false, "list parts")
		scratch  = flag.String("scratch", "", "scratch directory")
		limit    = flag.Duration("caselimit", 90*time.Second, "wall time after which a case is handed over to replay")
		shrink   = flag.Duration("shrink", 12*time.Second, "time limit for shrinking a failure")
	)
	flag.StringVar(&binDir, "bin", "", "directory with utilities built from the repository")
	flag.Parse()
	must(flag.Set("rapid.nofailfile", "true"))
	shrinkTime = *shrink
	must(flag.Set("rapid.shrinktime", shrink.String()))
	scratchRoot = *scratch
	defer func() {
		if p := recover(); p != nil {
			if i, ok := p.(Infra); ok {
				fatal(12, "harness error: %v", i.err)
			}
			panic(p)
		}
	}()
	if *list {
		for _, p := range parts {
			fmt.Printf("%s %s quick=%d thorough=%d\n", p.ID, p.Name, p.Quick*2, p.Thorough)
		}
		return
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		must(err)
		var f Failure
		must(json.Unmarshal(b, &f))
		for _, p := range partsOf(f.Property) {
			if p.Name == f.Part {
				err, _ := p.replay(f.Case)
				if err != nil {
					fmt.Printf("FAIL %s/%s: %s\n", f.Property, f.Part, err)
					os.Exit(11)
				}
				fmt.Printf("PASS %s/%s\n", f.Property, f.Part)
				return
			}
		}
		fatal(12, "no part %s/%s", f.Property, f.Part)
	}

	var r = &Runner{inflight: *inflight, stats: map[string]*PartStats{}}
	// The watchdog only hands the case over to a replay in a process of its own.
	// A case is slow by the processor time it took, or if the process is idle.
	go func() {
		var cpu, since, count = cpuTime(), time.Now(), r.begun.Load()
		for {
			time.Sleep(time.Second)
			if n := r.begun.Load(); n != count {
				cpu, since, count = cpuTime(), time.Now(), n
				continue
			}
			if time.Since(since) < *limit {
				continue
			}
			if used := cpuTime() - cpu; used > time.Second && used < 2**limit {
				continue // it works, perhaps on a busy computer
			}
			r.mux.Lock()
			if r.curPart != nil && *failout != "" {
				b, _ := json.Marshal(Failure{r.curPart.ID, r.curPart.Name, r.curRaw, "no progress"})
				os.WriteFile(*failout, b, 0o644)
			}
			os.Exit(13)
		}
	}()
	if len(partsOf(*prop)) == 0 {
		fatal(12, "no property %q", *prop)
	}
	var t0 = time.Now()
	var fail = r.run(*prop, *seed, *tier, *part)
	if *out != "" {
		b, err := json.Marshal(map[string]any{"parts": r.stats, "seconds": time.Since(t0).Seconds()})
		must(err)
		must(os.WriteFile(*out, b, 0o644))
	} else {
		for name, s := range r.stats {
			fmt.Printf("%s/%s: %d evaluations, %d non-trivial, %d distinct, %.2fs (%.1f), counts %v\n", *prop, name, s.Evaluations, s.NonTrivial, len(s.hashes), s.Seconds, s.Slowest, s.Counts)
			for _, l := range sortedKeys(s.Labels) {
				fmt.Printf("    %-40s %d\n", l, s.Labels[l])
			}
		}
	}
	if fail != nil {
		if *failout != "" {
			b, err := json.MarshalIndent(fail, "", " ")
			must(err)
			must(os.WriteFile(*failout, b, 0o644))
		}
		fmt.Printf("FAIL %s/%s: %s\ncase: %s\n", fail.Property, fail.Part, fail.Message, clip(string(fail.Case), 1500))
		os.Exit(11)
	}
}

var binDir string

// cpuTime is processor time of this process and its finished children.
func cpuTime() (d time.Duration) {
	for _, who := range []int{syscall.RUSAGE_SELF, syscall.RUSAGE_CHILDREN} {
		var u syscall.Rusage
		must(syscall.Getrusage(who, &u))
		d += time.Duration(u.Utime.Nano() + u.Stime.Nano())
	}
	return
}
