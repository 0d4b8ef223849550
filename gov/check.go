package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type entry struct {
	Name, Full, File string
	Props            []string
	ClauseProps      []string
	Contract         string
	Trusted, Inline  bool
	Lemma            bool
	Axiom            bool
}

type failure struct {
	unit, kind, name, pos, by, out, goal string
	script                               string
}

type unitRun struct {
	e       entry
	res     *UnitResult
	err     string
	failed  []failure
	counted int
	proved  int
	by      map[string]int
	direct  bool
	retried bool
}

func hasProp(ps []string, p string) bool {
	for _, q := range ps {
		if q == p {
			return true
		}
	}
	return false
}

// replayResult is what the driver of a property reports.
type replayResult struct {
	ran      bool
	note     string
	cases    int
	distinct int
	rule     string
	samples  []string
	fails    []string // key :: text
	output   string
	secs     float64
}

func checkMain(repo, specs string, args []string) int {
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "check PROPERTY")
		return 2
	}
	prop := args[0]
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	verif, _ := filepath.Abs(filepath.Join(specs, ".."))
	evDir := filepath.Join(verif, "evidence")
	os.MkdirAll(evDir, 0o755)
	self, _ := os.Executable()
	total := 600 * time.Second
	if tier == "thorough" {
		total = 3000 * time.Second
	}
	stop := t0.Add(total)

	// the property must still be about code that builds
	var fails []failure
	var ents []entry
	lst := exec.Command(self, "-repo", repo, "-specs", specs, "list")
	lst.Stderr = os.Stderr
	out, err := lst.Output()
	if err != nil || json.Unmarshal(out, &ents) != nil {
		fmt.Fprintln(os.Stderr, "the contracts could not be read against the current tree:", err)
		return 2
	}
	byFull := map[string]entry{}
	var todo []entry
	queued := map[string]bool{}
	axiomText := map[string]string{}
	for _, e := range ents {
		if !e.Lemma && !strings.Contains(e.Name, "#") {
			byFull[e.Full] = e
		}
		if e.Lemma {
			byFull["lemma "+e.Name] = e
			if e.Axiom {
				axiomText[e.Name] = e.Contract
			}
		}
		if e.Trusted || e.Inline || e.Axiom {
			continue
		}
		if hasProp(e.Props, prop) || hasProp(e.ClauseProps, prop) {
			todo = append(todo, e)
			queued[e.Name] = true
		}
	}

	// replay driver runs beside the proofs
	var rep replayResult
	var wgR sync.WaitGroup
	wgR.Add(1)
	go func() {
		defer wgR.Done()
		rep = runReplay(verif, repo, prop, tier, seed)
	}()

	known := loadKnown(filepath.Join(verif, "known_findings.txt"), prop)
	concrete := func() bool {
		for _, f := range rep.fails {
			if _, ok := known[strings.SplitN(f, " :: ", 2)[0]]; !ok {
				return true
			}
		}
		return false
	}
	var mu sync.Mutex
	var runs []*unitRun
	var wg sync.WaitGroup
	sem := make(chan bool, 4)
	var launch func(e entry, direct bool)
	launch = func(e entry, direct bool) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			r := runUnit(self, repo, specs, e, prop, direct, 1, stop)
			if len(r.failed) > 0 {
				// an input that fails in the real code settles it
				wgR.Wait()
			}
			if len(r.failed) > 0 && !concrete() && time.Now().Before(stop) && retriable(r) {
				r2 := runUnit(self, repo, specs, e, prop, direct, 3, stop)
				if len(r2.failed) <= len(r.failed) {
					r = r2
				}
				r.retried = true
			}
			<-sem
			mu.Lock()
			defer mu.Unlock()
			runs = append(runs, r)
			if r.res != nil {
				deps := append([]string(nil), r.res.Contracts...)
				for _, l := range r.res.Lemmas {
					deps = append(deps, "lemma "+l)
				}
				for _, full := range deps {
					d, ok := byFull[full]
					if !ok || d.Trusted || d.Inline || d.Axiom || queued[d.Name] {
						continue
					}
					queued[d.Name] = true
					launch(d, false)
				}
			}
		}()
	}
	for _, e := range append([]entry(nil), todo...) {
		launch(e, true)
	}
	wg.Wait()
	wgR.Wait()
	sort.Slice(runs, func(i, j int) bool { return runs[i].e.Name < runs[j].e.Name })

	// gather
	obl, dis, queries := 0, 0, 0
	var solverMs int64
	backends := map[string]int{}
	trusted := map[string]bool{}
	var units []map[string]interface{}
	inlined := map[string]bool{}
	var bounded []string
	notes := map[string]bool{}
	for _, r := range runs {
		obl += r.counted
		dis += r.proved
		fails = append(fails, r.failed...)
		u := map[string]interface{}{"unit": r.e.Name, "contract_file": r.e.File, "obligations": r.counted, "discharged": r.proved, "direct": r.direct}
		if r.res != nil {
			queries += r.res.Queries
			solverMs += r.res.SolverMs
			u["source"] = r.res.Pos
			u["ms"] = r.res.Ms
			u["paths"] = r.res.Paths
			u["loop_invariants"] = r.res.InvKept
			for _, t := range r.res.Trusted {
				trusted[t] = true
			}
			for _, t := range r.res.Inlined {
				inlined[t] = true
			}
			for _, t := range r.res.Notes {
				notes[t] = true
			}
			for _, a := range r.res.Axioms {
				trusted["axiom "+a+": "+axiomText[a]] = true
			}
			if r.res.Bounded != "" {
				bounded = append(bounded, r.e.Name+": "+r.res.Bounded)
			}
		}
		for k, v := range r.by {
			backends[k] += v
		}
		units = append(units, u)
	}
	var newFails, knownHits []string
	for _, f := range rep.fails {
		key := f
		if i := strings.Index(f, " :: "); i >= 0 {
			key = f[:i]
		}
		if k, ok := known[key]; ok {
			knownHits = append(knownHits, k)
		} else {
			newFails = append(newFails, f)
		}
	}
	var lostFails []failure
	for _, f := range fails {
		if k, ok := known["obligation "+f.unit+" "+f.name]; ok {
			knownHits = append(knownHits, k)
		} else {
			lostFails = append(lostFails, f)
		}
	}
	sort.Strings(knownHits)
	for i, k := range knownHits {
		if i == 0 || knownHits[i-1] != k {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
		}
	}

	cov := map[string]interface{}{
		"obligations":         obl,
		"discharged":          dis,
		"checker_cmd":         "gov (/verif/gov): weakest-precondition style symbolic execution of go/ssa built from /repo on this run; obligations discharged by z3-new, z3 4.8.12 and cvc5",
		"trusted_base":        append(sortedKeys(trusted), baseAssumptions...),
		"functions":           units,
		"functions_inlined":   sortedKeys(inlined),
		"back_ends":           backends,
		"solver_queries":      queries,
		"solver_seconds":      float64(solverMs) / 1000,
		"bounded":             bounded,
		"replay_ran":          rep.ran,
		"evaluations":         rep.cases,
		"distinct_nontrivial": rep.distinct,
		"rule":                rep.rule,
		"samples":             rep.samples,
	}
	if rep.note != "" {
		cov["replay_note"] = rep.note
	}
	if len(notes) > 0 {
		cov["notes"] = sortedKeys(notes)
	}
	nv := len(newFails) + len(lostFails)
	level, lnote := claimedLevel(verif, prop)
	cov["explanation"] = lnote
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": nv,
		"assumptions": baseAssumptions}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, prop+".json"), append(b, '\n'), 0o644)

	fmt.Printf("%s: %d functions and lemmas under contract, %d of %d obligations discharged, solver %.1f s, %d replay cases, %.1f s\n", prop, len(runs), dis, obl, float64(solverMs)/1000, rep.cases, time.Since(t0).Seconds())
	if rep.note != "" {
		fmt.Println("replay:", rep.note)
	}
	if len(runs) == 0 || obl == 0 {
		fmt.Fprintln(os.Stderr, "no obligations were generated for", prop)
		return 2
	}
	if nv == 0 {
		return 0
	}
	rp := filepath.Join(evDir, prop+".replay.txt")
	var rb bytes.Buffer
	fmt.Fprintf(&rb, "property %s\n\n", prop)
	if len(newFails) > 0 {
		fmt.Fprintf(&rb, "Failing inputs found against the real code (driver /verif/replay, seed %d):\n", seed)
		for _, f := range newFails {
			fmt.Fprintln(&rb, "  "+f)
		}
		fmt.Fprintf(&rb, "\nrun again: %s check %s\n\n", self, prop)
	}
	for _, f := range lostFails {
		fmt.Printf("failed obligation: %s: %s [%s] at %s\n", f.unit, f.name, f.kind, f.pos)
		fmt.Fprintf(&rb, "failed obligation: %s\n  %s\n  kind %s at %s, %s\n", f.unit, f.name, f.kind, f.pos, f.by)
		if f.goal != "" {
			fmt.Fprintf(&rb, "  goal: %s\n", f.goal)
		}
		if f.out != "" {
			fmt.Fprintf(&rb, "  verifier output:\n%s\n", indent(f.out))
		}
		if f.script != "" {
			fmt.Fprintf(&rb, "  query:\n%s\n", indent(f.script))
		}
	}
	if rep.output != "" {
		fmt.Fprintf(&rb, "\ndriver output:\n%s\n", indent(rep.output))
	}
	os.WriteFile(rp, rb.Bytes(), 0o644)
	for _, f := range newFails {
		fmt.Println("failing input:", f)
	}
	if len(newFails) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
	}
	return 1
}

// claimedLevel returns what MANIFEST.json says of the property.
func claimedLevel(verif, prop string) (string, string) {
	var m struct {
		Checks []struct {
			Property  string `json:"property"`
			Level     string `json:"level"`
			LevelNote string `json:"level_note"`
		} `json:"checks"`
	}
	b, err := os.ReadFile(filepath.Join(verif, "MANIFEST.json"))
	if err == nil && json.Unmarshal(b, &m) == nil {
		for _, c := range m.Checks {
			if c.Property == prop && c.Level != "" {
				return c.Level, c.LevelNote
			}
		}
	}
	return "other", "not claimed in MANIFEST.json"
}

var baseAssumptions = []string{
	"the verifier gov itself, go/packages and go/ssa (x/tools v0.52.0) and the SMT solvers z3 and cvc5",
	"no data races: the program is treated as sequential",
	"slices, strings and maps have at most 2^48 elements and memory is not exhausted",
	"float64 is an uninterpreted sort with no arithmetic facts",
	"functions outside this module that have no contract in /verif/contracts return arbitrary values of their types, change only what is reachable from their arguments, and do not panic",
}

func indent(s string) string { return "    " + strings.ReplaceAll(strings.TrimSpace(s), "\n", "\n    ") }

func retriable(r *unitRun) bool {
	if r.res == nil {
		return true
	}
	for _, f := range r.failed {
		if f.kind == "error" {
			return strings.Contains(f.out, "budget")
		}
	}
	// a definite counterexample to a quantifier-free query will not go away
	return true
}

func runUnit(self, repo, specs string, e entry, prop string, direct bool, slow int, stop time.Time) *unitRun {
	r := &unitRun{e: e, by: map[string]int{}, direct: direct}
	kind := "unit"
	if e.Lemma {
		kind = "lemma"
	}
	fail := func(k, n, out string) {
		r.failed = append(r.failed, failure{unit: e.Name, kind: k, name: n, out: out, by: "none"})
		r.counted++
	}
	left := time.Until(stop)
	if left < 5*time.Second {
		fail("error", "verification of "+e.Name+" within the time limit", "time limit reached")
		return r
	}
	args := []string{"-repo", repo, "-specs", specs, "-json", "-workers", "3", "-slow", strconv.Itoa(slow)}
	if slow > 1 {
		args = append(args, "-nohints")
	}
	cmd := exec.Command(self, append(args, kind, e.Name)...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	if err := cmd.Start(); err != nil {
		fail("error", "verification of "+e.Name, err.Error())
		return r
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(left):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		fail("error", "verification of "+e.Name+" within the time limit", "time limit reached")
		return r
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	var res UnitResult
	if jerr := json.Unmarshal(ob.Bytes(), &res); jerr != nil {
		t := eb.String()
		if len(t) > 3000 {
			t = t[:3000]
		}
		fail("error", "verification of "+e.Name, fmt.Sprint(err, " ", jerr, "\n", t))
		return r
	}
	r.res = &res
	if res.Err != "" {
		fail("error", "verification of "+e.Name, res.Err)
	}
	for _, o := range res.Obls {
		if direct && len(o.Props) > 0 && !hasProp(o.Props, prop) {
			continue
		}
		if direct && len(o.Props) == 0 && !hasProp(e.Props, prop) && o.Kind == "postcondition" {
			continue
		}
		r.counted++
		if o.Verd == Unsat {
			r.proved++
			r.by[o.By]++
			continue
		}
		by := "no solver could prove it"
		if o.Verd == Sat {
			by = "refuted: the solver has a model of its negation"
		}
		r.failed = append(r.failed, failure{unit: e.Name, kind: o.Kind, name: o.Name, pos: o.Pos, by: by, out: o.Out, goal: o.Goal, script: o.Script})
	}
	return r
}

// loadKnown reads "finding: property=<id> key=<key> :: text" lines.
func loadKnown(file, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		pre := "finding: property=" + prop + " key="
		if !strings.HasPrefix(l, pre) {
			continue
		}
		l = l[len(pre):]
		if i := strings.Index(l, " :: "); i > 0 {
			out[l[:i]] = l[i+4:]
		}
	}
	return out
}

// cheapScrypt copies the module that has scrypt, with scrypt's cost parameter capped so that
// the drivers can derive thousands of keys, and writes a go.mod that uses the copy.
func cheapScrypt(verif, repo, tmp string) (modfile string) {
	mod := filepath.Join(tmp, "verif.mod")
	if _, err := os.Stat(mod); err == nil {
		return mod
	}
	cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", "golang.org/x/crypto")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off")
	out, err := cmd.Output()
	src := strings.TrimSpace(string(out))
	if err != nil || src == "" {
		return ""
	}
	dst := filepath.Join(verif, "bin", filepath.Base(src))
	if _, err := os.Stat(dst); err != nil {
		work, err := os.MkdirTemp(filepath.Join(verif, "bin"), "xcrypto")
		if err != nil {
			return ""
		}
		if err := exec.Command("cp", "-r", src+"/.", work).Run(); err != nil {
			return ""
		}
		exec.Command("chmod", "-R", "u+w", work).Run()
		f := filepath.Join(work, "scrypt", "scrypt.go")
		b, err := os.ReadFile(f)
		const at = "\txy := make([]uint32,"
		if err != nil || strings.Count(string(b), at) != 1 {
			os.RemoveAll(work)
			return ""
		}
		os.WriteFile(f, []byte(strings.Replace(string(b), at, "\tif N > 2 {\n\t\tN = 2\n\t}\n"+at, 1)), 0o644)
		if os.Rename(work, dst) != nil {
			os.RemoveAll(work)
		}
	}
	gm, err1 := os.ReadFile(filepath.Join(repo, "go.mod"))
	gs, err2 := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err1 != nil || err2 != nil {
		return ""
	}
	gm = append(gm, []byte("\nreplace golang.org/x/crypto => "+dst+"\n")...)
	os.WriteFile(filepath.Join(tmp, "verif.sum"), gs, 0o644)
	os.WriteFile(mod, gm, 0o644)
	return mod
}

// runReplay executes the property's driver against the real code through an overlay.
func runReplay(verif, repo, prop, tier string, seed int) (r replayResult) {
	t0 := time.Now()
	defer func() { r.secs = time.Since(t0).Seconds() }()
	low := strings.ToLower(prop)
	fs, _ := filepath.Glob(filepath.Join(verif, "replay", "*", low+"_verif_test.go"))
	if len(fs) == 0 {
		r.note = "no driver"
		return
	}
	tmp, err := os.MkdirTemp("", "gov-replay")
	if err != nil {
		r.note = err.Error()
		return
	}
	defer os.RemoveAll(tmp)
	for n, f := range fs {
		dir := filepath.Base(filepath.Dir(f))
		pkgDir := repo
		pat := "."
		if dir != "root" {
			pkgDir = filepath.Join(repo, dir)
			pat = "./" + dir
		}
		over := map[string]string{}
		over[filepath.Join(pkgDir, filepath.Base(f))] = f
		hs, _ := filepath.Glob(filepath.Join(filepath.Dir(f), "help*_verif_test.go"))
		for _, h := range hs {
			over[filepath.Join(pkgDir, filepath.Base(h))] = h
		}
		src, _ := os.ReadFile(f)
		pkg := ""
		for _, l := range strings.Split(string(src), "\n") {
			if strings.HasPrefix(l, "package ") {
				pkg = strings.TrimSpace(l[8:])
				break
			}
		}
		tm, _ := os.ReadFile(filepath.Join(verif, "replay", "help.go.tmpl"))
		hf := filepath.Join(tmp, fmt.Sprintf("vrep%d_test.go", n))
		os.WriteFile(hf, []byte(strings.Replace(string(tm), "package PKG", "package "+pkg, 1)), 0o644)
		over[filepath.Join(pkgDir, "vrep_verif_test.go")] = hf
		ob, _ := json.Marshal(map[string]interface{}{"Replace": over})
		of := filepath.Join(tmp, fmt.Sprintf("overlay%d.json", n))
		os.WriteFile(of, ob, 0o644)
		secs := "12"
		if tier == "thorough" {
			secs = "120"
		}
		cmd := exec.Command("go", "test", "-vet=off", "-count=1", "-overlay", of, "-run", "^TestVerif"+prop, "-v", "-timeout", "200s", pat)
		if dir == "root" || dir == "crypt" {
			if m := cheapScrypt(verif, repo, tmp); m != "" {
				cmd.Args = append(cmd.Args[:2:2], append([]string{"-modfile", m}, cmd.Args[2:]...)...)
			}
		}
		cmd.Dir = repo
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		scratch := filepath.Join(tmp, fmt.Sprintf("scratch%d", n))
		os.MkdirAll(scratch, 0o755)
		cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "PINENTRY=none", "VERIF_BUDGET="+secs, "VERIF_SEED="+strconv.Itoa(seed), "VERIF_TIER="+tier, "VERIF_SCRATCH="+scratch, "TMPDIR="+scratch)
		if tier == "thorough" {
			for i, a := range cmd.Args {
				if a == "200s" {
					cmd.Args[i] = "900s"
				}
			}
		}
		out, err := cmd.CombinedOutput()
		txt := string(out)
		marked := false
		for _, l := range strings.Split(txt, "\n") {
			l = strings.TrimSpace(l)
			switch {
			case strings.HasPrefix(l, "VERIF-FAIL "):
				r.fails = append(r.fails, strings.TrimPrefix(l, "VERIF-FAIL "))
				marked = true
			case strings.HasPrefix(l, "VERIF-CASES "):
				var c, d int
				fmt.Sscanf(l, "VERIF-CASES %d %d", &c, &d)
				r.cases += c
				r.distinct += d
				r.ran = true
			case strings.HasPrefix(l, "VERIF-RULE "):
				if r.rule != "" {
					r.rule += " | "
				}
				r.rule += strings.TrimPrefix(l, "VERIF-RULE ")
			case strings.HasPrefix(l, "VERIF-SAMPLE "):
				if len(r.samples) < 12 {
					r.samples = append(r.samples, strings.TrimPrefix(l, "VERIF-SAMPLE "))
				}
			}
		}
		if err != nil {
			if len(txt) > 12000 {
				txt = txt[:6000] + "\n...\n" + txt[len(txt)-6000:]
			}
			r.output += txt
			switch {
			case marked:
			case strings.Contains(txt, "[build failed]") || strings.Contains(txt, "[setup failed]"):
				r.note += "the driver in " + dir + " does not build against this tree: " + firstLines(txt, 4)
			case strings.Contains(txt, "panic: ") || strings.Contains(txt, "fatal error: "):
				if strings.Contains(txt, "panic: test timed out") {
					r.fails = append(r.fails, "hang in "+dir+" :: the driver did not finish in time: the code under test does not terminate")
				} else {
					r.fails = append(r.fails, "crash in "+dir+" :: the code under test crashed: "+grepLine(txt, "panic: ", "fatal error: "))
				}
			case strings.Contains(txt, "=== RUN   TestVerif") && !strings.Contains(txt, "--- FAIL"):
				r.fails = append(r.fails, "exit in "+dir+" :: the code under test ended the process in the middle of the driver")
			default:
				r.note += "the driver in " + dir + " failed without a report: " + firstLines(txt, 6)
			}
		}
	}
	return
}

func grepLine(s string, subs ...string) string {
	for _, l := range strings.Split(s, "\n") {
		for _, x := range subs {
			if strings.Contains(l, x) {
				return l
			}
		}
	}
	return ""
}

func firstLines(s string, n int) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, " / ")
}
