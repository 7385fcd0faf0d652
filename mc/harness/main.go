// Command mc enumerates bounded executions of the instrumented tree and checks
// one property on every one of them.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Prop is one checked property.
type Prop struct {
	ID    string
	Scens func(tier string) []*Scenario
	Notes string
	Quick time.Duration // exploration time, quick tier
	Deep  time.Duration
}

var props []*Prop

func register(p *Prop) { props = append(props, p) }

func findProp(id string) *Prop {
	for _, p := range props {
		if p.ID == id {
			return p
		}
	}
	fmt.Fprintln(os.Stderr, "unknown property", id)
	os.Exit(2)
	return nil
}

// realOut is where results go: the code under test prints a lot to stdout.
var realOut = os.Stdout

func main() {
	if dn, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = dn
	}
	var (
		prop  = flag.String("prop", "", "property id")
		tier  = flag.String("tier", "quick", "quick|thorough")
		out   = flag.String("out", "", "worker output")
		shard = flag.Int("shard", -1, "")
		n     = flag.Int("n", 8, "")
		ev    = flag.String("evidence", "/verif/evidence", "")
		known = flag.String("known", "/verif/known-findings.txt", "")
		dur   = flag.Duration("dur", 0, "exploration time")
		rep   = flag.String("replay", "", "replay file")
		scen  = flag.String("scen", "", "only this scenario (debug)")
		list  = flag.Bool("list", false, "")
	)
	flag.Parse()
	if *list {
		for _, p := range props {
			fmt.Fprintln(realOut, p.ID)
		}
		return
	}
	if *rep != "" {
		replay(*rep)
		return
	}
	p := findProp(*prop)
	if *scen != "" {
		orig := p.Scens
		p.Scens = func(t string) []*Scenario {
			var o []*Scenario
			for _, s := range orig(t) {
				if strings.HasPrefix(s.Name, *scen) {
					o = append(o, s)
				}
			}
			return o
		}
	}
	if *dur == 0 {
		*dur = p.Quick
		if *dur == 0 {
			*dur = 40 * time.Second
		}
		if *tier == "thorough" {
			*dur = p.Deep
			if *dur == 0 {
				*dur = 10 * time.Minute
			}
		}
	}
	if *shard >= 0 {
		runtime.GOMAXPROCS(2)
		if f := os.Getenv("MC_PROF"); f != "" && *shard == 0 {
			pf, _ := os.Create(f)
			pprof.StartCPUProfile(pf)
			defer pprof.StopCPUProfile()
		}
		worker(*prop, *tier, *shard, *n, *dur, *out)
		return
	}
	os.Exit(parent(p, *tier, *n, *dur, *ev, *known, *scen))
}

func parent(p *Prop, tier string, n int, dur time.Duration, evDir, known, scen string) int {
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "mcrun")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	self, _ := os.Executable()
	type proc struct {
		cmd *exec.Cmd
		out string
		err *os.File
	}
	var ps []proc
	for i := 0; i < n; i++ {
		o := filepath.Join(tmp, "w"+strconv.Itoa(i))
		a := []string{"-prop", p.ID, "-tier", tier, "-shard", strconv.Itoa(i), "-n", strconv.Itoa(n), "-dur", dur.String(), "-out", o}
		if scen != "" {
			a = append(a, "-scen", scen)
		}
		c := exec.Command(self, a...)
		ef, _ := os.Create(o + ".err")
		c.Stderr = ef
		c.Env = append(os.Environ(), "GOGC=400")
		if err := c.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		ps = append(ps, proc{c, o, ef})
	}
	hang := false
	for _, q := range ps {
		done := make(chan error, 1)
		go func(c *exec.Cmd) { done <- c.Wait() }(q.cmd)
		limit := time.Until(t0.Add(dur + 120*time.Second))
		select {
		case err := <-done:
			if err != nil {
				b, _ := os.ReadFile(q.out + ".err")
				if len(b) > 6000 {
					b = append(b[:3000], b[len(b)-3000:]...)
				}
				fmt.Fprintf(os.Stderr, "worker failed: %v\n%s\n", err, b)
				for _, r := range ps {
					r.cmd.Process.Kill()
				}
				return 2
			}
		case <-time.After(limit):
			hang = true
		}
	}
	if hang {
		for _, q := range ps {
			q.cmd.Process.Kill()
		}
		fmt.Fprintln(os.Stderr, "a worker did not finish in time (an execution hangs outside the controlled scheduler)")
		return 2
	}
	agg := map[string]*ScenRes{}
	var order []string
	viols := map[string]Viol{}
	states := map[uint64]struct{}{}
	for _, q := range ps {
		var wo WorkerOut
		b, err := os.ReadFile(q.out)
		if err != nil || json.Unmarshal(b, &wo) != nil {
			fmt.Fprintln(os.Stderr, "unreadable worker output")
			return 2
		}
		hb, _ := os.ReadFile(q.out + ".states")
		for i := 0; i+8 <= len(hb); i += 8 {
			states[binary.LittleEndian.Uint64(hb[i:])] = struct{}{}
		}
		for _, s := range wo.Scens {
			a := agg[s.Name]
			if a == nil {
				c := s
				c.Viols = nil
				agg[s.Name] = &c
				order = append(order, s.Name)
			} else {
				a.Execs += s.Execs
				a.Trans += s.Trans
				a.Points += s.Points
				a.Divergent += s.Divergent
				a.Flaky += s.Flaky
				switch {
				case s.Exhaustive:
				case a.Exhaustive || s.Complete < a.Complete:
					a.Complete = s.Complete
				}
				a.Exhaustive = a.Exhaustive && s.Exhaustive
				if s.MaxDepth > a.MaxDepth {
					a.MaxDepth = s.MaxDepth
				}
				if len(s.Sample) > len(a.Sample) {
					a.Sample = s.Sample
				}
				if s.Wall > a.Wall {
					a.Wall = s.Wall
				}
			}
			for _, v := range s.Viols {
				old, ok := viols[v.Sig()]
				if !ok || len(v.Path) < len(old.Path) {
					viols[v.Sig()] = v
				}
			}
		}
	}
	kn := loadKnown(known, p.ID)
	exit := 0
	var sigs []string
	for s := range viols {
		sigs = append(sigs, s)
	}
	sort.Strings(sigs)
	nviol, nknown := 0, 0
	for _, s := range sigs {
		v := viols[s]
		if msg, ok := kn[s]; ok {
			fmt.Fprintf(realOut, "KNOWN-FINDING: property=%s %s\n", p.ID, msg)
			nknown++
			continue
		}
		nviol++
		f := filepath.Join(evDir, fmt.Sprintf("replay-%s-%d.json", p.ID, nviol))
		b, _ := json.MarshalIndent(v, "", " ")
		os.MkdirAll(evDir, 0o755)
		os.WriteFile(f, b, 0o644)
		fmt.Fprintf(realOut, "VIOLATION property=%s replay=%s\n", p.ID, f)
		fmt.Fprintf(realOut, "  %s: %s\n", s, firstLines(v.Msg, 12))
		for _, l := range v.Log {
			fmt.Fprintf(realOut, "    %s\n", l)
		}
		exit = 1
	}
	execs, trans, exh, div, flaky, points := 0, 0, true, 0, 0, 0
	var cov []map[string]any
	for _, name := range order {
		a := agg[name]
		execs += a.Execs
		trans += a.Trans
		div += a.Divergent
		flaky += a.Flaky
		points += a.Points
		exh = exh && a.Exhaustive
		cov = append(cov, map[string]any{"scenario": a.Name, "executions": a.Execs, "transitions": a.Trans, "scheduling_points": a.Points, "deviation_bound": a.Budget, "exhaustive": a.Exhaustive, "complete_to_choices": complete(a), "max_choices": a.MaxDepth, "divergent": a.Divergent, "wall_s": round(a.Wall)})
	}
	var samples []any
	for _, s := range p.Scens(tier) {
		a := agg[s.Name]
		if a == nil || len(samples) >= 4 {
			continue
		}
		x := runOne(s, p.ID, tier, a.Sample, map[uint64]struct{}{}, true)
		samples = append(samples, map[string]any{"scenario": s.Name, "choices": a.Sample, "history": x.Log})
	}
	evd := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed(), "level": "model_checking",
		"coverage": map[string]any{
			"states": len(states), "transitions": trans,
			"traces_validated_against_impl": execs, "scheduling_points": points, "samples": samples,
			"exhaustive": exh, "scenarios": cov, "divergent_replays": div, "unconfirmed": flaky,
			"note": "every execution runs the instrumented implementation itself; there is no separate model of it. " + p.Notes,
		},
		"wall_s": round(time.Since(t0).Seconds()), "violations": nviol, "known_findings": nknown,
	}
	b, _ := json.MarshalIndent(evd, "", " ")
	os.MkdirAll(evDir, 0o755)
	if err := os.WriteFile(filepath.Join(evDir, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Fprintf(realOut, "%s %s: %d executions, %d transitions, %d states, %d scheduling points, exhaustive=%v, divergent=%d, %.1fs\n", p.ID, tier, execs, trans, len(states), points, exh, div, time.Since(t0).Seconds())
	if os.Getenv("MC_VERBOSE") != "" {
		for _, c := range cov {
			fmt.Fprintf(realOut, "   %v\n", c)
		}
	}
	return exit
}

// complete: up to how many non-default choices (operations, outcomes,
// scheduling deviations) every execution was run.
func complete(a *ScenRes) any {
	if a.Exhaustive {
		return "all"
	}
	return a.Complete
}

func seed() int {
	s, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return s
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n    ")
}

// loadKnown reads lines "known: property=ID sig=SIG | what fails".
func loadKnown(file, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" sig=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+prop+" sig=")
		i := strings.Index(l, " | ")
		if i < 0 {
			continue
		}
		m[l[:i]] = l[i+3:]
	}
	return m
}

func replay(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var v Viol
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p := findProp(v.Prop)
	for _, s := range p.Scens(v.Tier) {
		if s.Name == v.Scenario {
			go watch(v.Prop, v.Tier, "")
			x := runOne(s, v.Prop, v.Tier, v.Path, map[uint64]struct{}{}, true)
			for _, l := range x.Log {
				fmt.Fprintln(realOut, l)
			}
			if x.viol != nil {
				fmt.Fprintf(realOut, "VIOLATION property=%s replay=%s\n  %s: %s\n", v.Prop, file, x.viol.Sig(), x.viol.Msg)
				os.Exit(1)
			}
			fmt.Fprintln(realOut, "no violation")
			os.Exit(0)
		}
	}
	fmt.Fprintln(os.Stderr, "scenario not found")
	os.Exit(2)
}
