package main

import (
	"encoding/json"
	"fmt"
	"slices"
	"strings"
	"sync"

	"github.com/schwarzlichtbezirk/wpk/util"
	"pgregory.net/rapid"
)

// C36: packages, scripts and helpers of one process do not influence each other.

// c36Job is a case of some other part, it is evaluated by the oracle of that part.
type c36Job struct {
	Part string // name of the part with identifier of its property, or "env"
	Case json.RawMessage
}

type c36Case struct {
	Workers [][]c36Job
}

// c36Parts are parts without state common for the process, like environment or output of the log.
var c36Parts = []string{
	"C01/roundtrip", "C02/history", "C05/tagset", "C06/typed", "C07/names", "C08/renamedir", "C09/info", "C10/handles",
	"C11/tree", "C12/sub", "C13/glob", "C14/union", "C15/slashes", "C18/header", "C18/table", "C19/tags", "C20/scripts", "C20/scripts",
	"C21/auto", "C21/auto", "C26/strings", "C28/times", "C30/snapshots", "C31/aliasing", "C35/http", "C35/tools", "env", "env",
}

type envJob struct {
	Names []string // of variables
	Text  []string // pieces between references
	Form  []int
}

func init() {
	reg("C36", "together",
		"case: 2..6 goroutines, each evaluates 1..3 cases of other properties (packing and appending, tags, renaming, reading in 3 modes, views, unions, globs, scripts with packages and automatic tags, file server, text helpers and environment references) on its own packages, by the oracles of those properties; race detector. A case counts as failed if it passes when evaluated alone. Non-trivial: at least two different kinds of cases.",
		100, 3000, genC36, runC36)
}

func partNamed(name string) *Part {
	for _, p := range parts {
		if p.ID+"/"+p.Name == name {
			return p
		}
	}
	infraf("no part %s", name)
	return nil
}

func genC36(t *rapid.T) (c c36Case) {
	var same string // all goroutines do the same kind of work
	if chance(t, "same", 40) {
		same = pick(t, "kind", c36Parts)
	}
	for w := ri(t, "workers", 2, 6); w > 0; w-- {
		var jobs []c36Job
		for i := ri(t, "jobs", 1, 3); i > 0; i-- {
			var job = c36Job{Part: same}
			if same == "" {
				job.Part = pick(t, "part", c36Parts)
			}
			if job.Part == "env" {
				var e envJob
				for j := ri(t, "refs", 1, 6); j > 0; j-- {
					e.Names = append(e.Names, pick(t, "name", []string{"VQA", "VQ_B", "q", "VQLONG_NAME", "Z9"})+fmt.Sprint(w))
					e.Text = append(e.Text, rapid.StringN(0, 6, 20).Draw(t, "text"))
					e.Form = append(e.Form, ri(t, "form", 0, 2))
				}
				raw, err := json.Marshal(e)
				must(err)
				job.Case = raw
			} else {
				job.Case = partNamed(job.Part).gen(t)
			}
			jobs = append(jobs, job)
		}
		c.Workers = append(c.Workers, jobs)
	}
	return
}

// runEnv expands references to variables of the given map.
func runEnv(raw json.RawMessage) error {
	var e envJob
	must(json.Unmarshal(raw, &e))
	var vars = map[string]string{}
	var src, want strings.Builder
	for i, n := range e.Names {
		vars[n] = "<" + n + ">"
		var text = strings.Map(func(r rune) rune {
			if strings.ContainsRune("$%{}", r) || r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' {
				return '-'
			}
			return r
		}, e.Text[i]) + "/"
		src.WriteString(text)
		want.WriteString(text + vars[n])
		switch e.Form[i] {
		case 0:
			src.WriteString("$" + n)
		case 1:
			src.WriteString("${" + n + "}")
		case 2:
			src.WriteString("%" + n + "%")
		}
	}
	if got := util.Envfmt(src.String(), vars); got != want.String() {
		return fmt.Errorf("%q expands to %q, want %q", src.String(), got, want.String())
	}
	return nil
}

func (job c36Job) run() error {
	if job.Part == "env" {
		return guard(func() error { return runEnv(job.Case) })
	}
	err, _ := partNamed(job.Part).replay(job.Case)
	return err
}

func runC36(c *Ctx, cs c36Case) error {
	type failure struct {
		job c36Job
		err error
	}
	var fails = make([]*failure, len(cs.Workers))
	var infra = make([]any, len(cs.Workers))
	var start = make(chan struct{})
	var wg sync.WaitGroup
	var kinds []string
	for w, jobs := range cs.Workers {
		for _, job := range jobs {
			if !slices.Contains(kinds, job.Part) {
				kinds = append(kinds, job.Part)
			}
			c.Label("kind %s", job.Part)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { infra[w] = recover() }()
			<-start
			for _, job := range jobs {
				if err := job.run(); err != nil {
					fails[w] = &failure{job, err}
					return
				}
			}
		}()
	}
	if len(kinds) > 1 {
		c.NonTrivial()
	}
	close(start)
	wg.Wait()
	for _, p := range infra {
		if p != nil {
			panic(p)
		}
	}
	for w, f := range fails {
		if f == nil {
			continue
		}
		// a case that fails alone is a violation of its own property only
		if alone := f.job.run(); alone != nil {
			c.Label("fails alone: %s", f.job.Part)
			continue
		}
		return fmt.Errorf("goroutine %d, %s passes alone and fails beside the others: %w", w, f.job.Part, f.err)
	}
	return nil
}
