package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"vtool/eng"
)

// Unit is one independent piece of a check: a set of obligations over the current source.
type Unit struct {
	Name string
	Run  func(w *eng.World, r *Rep)
}

// Prop is a checked property.
type Prop struct {
	ID          string
	Rule        string // what is decided, for the evidence file
	Assumptions []string
	Min         int // obligations that have to be met at least (guards against vacuous passes)
	Units       func(w *eng.World) []Unit
}

// Finding is a violated (or undecided) obligation.
type Finding struct {
	Unit      string `json:"unit"`
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Detail    string `json:"detail"`
	Undecided bool   `json:"undecided,omitempty"`
}

// Rep collects the outcome of a unit.
type Rep struct {
	Unit        string            `json:"unit"`
	Obligations int               `json:"obligations"`
	Rules       map[string]int    `json:"rules"`
	Functions   []string          `json:"functions"`
	Loops       map[string]string `json:"loops"`
	Findings    []Finding         `json:"findings"`
	Known       []string          `json:"known,omitempty"`
	Wall        float64           `json:"wall"`
	done        bool
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ok records an obligation and whether it was met.
func (r *Rep) ok(rule, construct string, ok bool, format string, a ...interface{}) bool {
	r.Obligations++
	if r.Rules == nil {
		r.Rules = map[string]int{}
	}
	r.Rules[rule]++
	if !ok {
		r.Findings = append(r.Findings, Finding{r.Unit, rule, construct, short(fmt.Sprintf(format, a...), 1500), false})
	}
	return ok
}

// undecided records an obligation the analysis could not decide.
func (r *Rep) undecided(rule, construct string, format string, a ...interface{}) {
	r.Obligations++
	r.Findings = append(r.Findings, Finding{r.Unit, rule, construct, "not decided: " + short(fmt.Sprintf(format, a...), 1500), true})
}

// note records what a context analysed.
func (r *Rep) note(c *Ctx) {
	for f := range c.X.Funcs {
		r.Functions = append(r.Functions, f)
	}
	if r.Loops == nil {
		r.Loops = map[string]string{}
	}
	for l, how := range c.X.NLoops {
		r.Loops[l] = how
	}
	for _, b := range c.bad {
		r.undecided("anchor", b, "%s", b)
	}
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func propIDs() []string {
	var r []string
	for k := range props {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// runUnit runs one unit, turning a crash of the analyser into an undecided obligation.
func runUnit(id string, w *eng.World, u Unit) (r *Rep) {
	r = &Rep{Unit: u.Name}
	defer func() {
		// defects on record are reported, but are no alarm
		known := knownFindings(id)
		var rest []Finding
		for _, f := range r.Findings {
			if text, ok := known[f.Rule+"@"+f.Construct]; ok && !f.Undecided {
				r.Known = append(r.Known, text)
			} else {
				rest = append(rest, f)
			}
		}
		r.Findings = rest
	}()
	t0 := time.Now()
	defer func() {
		r.Wall = time.Since(t0).Seconds()
		if e := recover(); e != nil {
			buf := make([]byte, 4000)
			buf = buf[:runtime.Stack(buf, false)]
			r.undecided("analysis", u.Name, "analyser failed: %v\n%s", e, buf)
		}
	}()
	u.Run(w, r)
	return r
}

// knownFindings reads the recorded, unrepaired defects of a property: lines
// "known: property=ID at=rule@construct text".
func knownFindings(id string) map[string]string {
	m := map[string]string{}
	files := []string{"/verif/known_findings.txt"}
	if self, err := os.Executable(); err == nil {
		files = append([]string{filepath.Join(filepath.Dir(filepath.Dir(self)), "known_findings.txt")}, files...)
	}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, l := range strings.Split(string(b), "\n") {
			var pr, at string
			if n, _ := fmt.Sscanf(l, "known: property=%s at=%s", &pr, &at); n == 2 && pr == id {
				m[at] = strings.TrimSpace(l[strings.Index(l, at)+len(at):])
			}
		}
		break
	}
	return m
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// shard runs every k-th unit and prints the reports as JSON.
func shard(id string, k, n int) int {
	w, err := load()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	p := props[id]
	enc := json.NewEncoder(os.Stdout)
	for i, u := range p.Units(w) {
		if i%n != k {
			continue
		}
		r := runUnit(id, w, u)
		enc.Encode(r)
	}
	return 0
}

// check runs a property's check and writes its evidence.
func check(id, outDir string) int {
	t0 := time.Now()
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	w, err := load()
	var reps []*Rep
	nUnits := 0
	if err != nil {
		r := &Rep{Unit: "load"}
		r.undecided("load", "repository", "%v", err)
		reps = append(reps, r)
	} else {
		units := p.Units(w)
		nUnits = len(units)
		n := runtime.NumCPU()
		if n > nUnits {
			n = nUnits
		}
		if n <= 2 {
			for _, u := range units {
				reps = append(reps, runUnit(id, w, u))
			}
		} else {
			w = nil
			runtime.GC()
			self, _ := os.Executable()
			var mu sync.Mutex
			var wg sync.WaitGroup
			cmds := map[int]*exec.Cmd{}
			found := make(chan bool, 1)
			stopped := false
			// analyser processes are short-lived: what they remember grows with every unit
			shards := n * ((nUnits + 8*n - 1) / (8 * n))
			next := 0
			work := func() bool {
				mu.Lock()
				if stopped || next >= shards {
					mu.Unlock()
					return false
				}
				k := next
				next++
				cmd := exec.Command(self, "shard", id, fmt.Sprint(k), fmt.Sprint(shards))
				cmd.Stderr = os.Stderr
				pipe, err := cmd.StdoutPipe()
				if err == nil {
					err = cmd.Start()
				}
				if err != nil {
					r := &Rep{Unit: fmt.Sprintf("shard %d", k)}
					r.undecided("analysis", "analyser process", "%v", err)
					reps = append(reps, r)
					mu.Unlock()
					return true
				}
				cmds[k] = cmd
				mu.Unlock()
				dec := json.NewDecoder(pipe)
				got := 0
				for {
					r := &Rep{}
					if dec.Decode(r) != nil {
						break
					}
					got++
					mu.Lock()
					reps = append(reps, r)
					mu.Unlock()
					if len(r.Findings) > 0 {
						select {
						case found <- true:
						default:
						}
					}
				}
				err = cmd.Wait()
				mu.Lock()
				defer mu.Unlock()
				delete(cmds, k)
				if err != nil && !stopped {
					r := &Rep{Unit: fmt.Sprintf("shard %d", k)}
					r.undecided("analysis", "analyser process", "%v after %d units", err, got)
					reps = append(reps, r)
				}
				return true
			}
			for k := 0; k < n; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for work() {
					}
				}()
			}
			// a violation is decided by one finding: the remaining units only get a grace period
			over := make(chan bool)
			stop := func() {
				mu.Lock()
				stopped = true
				for _, c := range cmds {
					c.Process.Kill()
				}
				mu.Unlock()
			}
			go func() {
				limit := time.After(780 * time.Second)
				select {
				case <-over:
					return
				case <-limit:
					mu.Lock()
					r := &Rep{Unit: "time limit"}
					r.undecided("analysis", "analyser process", "not finished after 780 s")
					reps = append(reps, r)
					mu.Unlock()
					stop()
				case <-found:
					select {
					case <-over:
						return
					case <-limit:
					case <-time.After(30 * time.Second):
					}
					stop()
				}
			}()
			wg.Wait()
			close(over)
		}
	}
	sort.Slice(reps, func(i, j int) bool { return reps[i].Unit < reps[j].Unit })
	rules := map[string]int{}
	funcs := map[string]bool{}
	loops := map[string]string{}
	var finds []Finding
	var known []string
	total, done := 0, 0
	for _, r := range reps {
		total += r.Obligations
		done++
		for k, v := range r.Rules {
			rules[k] += v
		}
		for _, f := range r.Functions {
			funcs[f] = true
		}
		for k, v := range r.Loops {
			loops[k] = v
		}
		finds = append(finds, r.Findings...)
		known = append(known, r.Known...)
	}
	if total < p.Min && len(finds) == 0 {
		finds = append(finds, Finding{"coverage", "coverage", id, fmt.Sprintf("only %d obligations were found, at least %d are expected", total, p.Min), true})
	}
	if len(finds) == 0 && nUnits != done {
		finds = append(finds, Finding{"coverage", "coverage", id, fmt.Sprintf("%d of %d units reported", done, nUnits), true})
	}
	var fn []string
	for f := range funcs {
		fn = append(fn, f)
	}
	sort.Strings(fn)
	how := map[string]int{}
	for _, v := range loops {
		if i := strings.IndexAny(v, ",:"); i > 0 {
			v = v[:i]
		}
		how[v]++
	}
	os.MkdirAll(outDir, 0o755)
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":         p.Rule,
			"units":               done,
			"obligations":         total,
			"obligations_met":     total - len(finds) - len(known),
			"obligations_by_rule": rules,
			"functions_analysed":  len(fn),
			"functions":           fn,
			"loops_analysed":      len(loops),
			"loops_by_treatment":  how,
			"known_findings":      append([]string{}, known...),
		},
		"assumptions": append([]string{}, p.Assumptions...),
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(finds),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(outDir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	sort.Strings(known)
	for i, k := range known {
		if i == 0 || known[i-1] != k {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
		}
	}
	if len(finds) == 0 {
		fmt.Printf("%s: %d obligations met in %d units, %d functions analysed (%.1f s)\n", id, total, done, len(fn), time.Since(t0).Seconds())
		return 0
	}
	replay := filepath.Join(outDir, id+".violations.json")
	b, _ = json.MarshalIndent(finds, "", " ")
	os.WriteFile(replay, append(b, '\n'), 0o644)
	seen := map[string]int{}
	shown := 0
	for _, f := range finds {
		k := f.Rule + "|" + f.Construct
		seen[k]++
		if seen[k] > 1 || shown >= 12 {
			continue
		}
		shown++
		fmt.Printf("%s: rule %s violated at %s [%s]: %s\n", id, f.Rule, f.Construct, f.Unit, short(f.Detail, 700))
	}
	fmt.Printf("%s: %d of %d obligations failed\n", id, len(finds), total)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	return 1
}
