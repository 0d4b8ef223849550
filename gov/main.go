package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/contracts", "contract files")
	dump := flag.String("dump", "", "directory for failed obligations")
	asJSON := flag.Bool("json", false, "JSON output")
	workers := flag.Int("workers", 8, "solver processes")
	slow := flag.Int("slow", 1, "multiplier for time limits")
	nohints := flag.Bool("nohints", false, "try every candidate invariant")
	verbose := flag.Bool("v", false, "list obligations")
	flag.Parse()
	args := flag.Args()
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: gov unit NAME | lemma NAME | list | check ...")
		os.Exit(2)
	}
	if args[0] == "check" {
		os.Exit(checkMain(*repo, *specs, args[1:]))
	}
	solverPool = newPool(*workers, z3bin)
	olderPool = newPool(*workers, "z3")
	defer killProcs()
	if args[0] == "replay" && len(args) > 1 {
		seed, _ := strconv.Atoi(os.Getenv("SEED"))
		r := runReplay(filepath.Dir(strings.TrimSuffix(*specs, "/")), *repo, args[1], os.Getenv("VERIF_TIER"), seed)
		fmt.Println(r.cases, "cases", r.distinct, "distinct", int(r.secs), "s", r.rule, r.note)
		for _, x := range r.samples {
			fmt.Println("  sample", x)
		}
		for _, x := range r.fails {
			fmt.Println("  FAIL", x)
		}
		if len(r.fails) == 0 && r.note != "" {
			fmt.Println(r.output)
		}
		return
	}
	w, err := loadWorld(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	sp, err := loadSpecs(w, *specs)
	if err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		os.Exit(2)
	}
	w.sp = sp
	w.slow = *slow
	w.oblMs *= *slow
	w.candMs *= *slow
	if !*nohints {
		loadHints(w, *specs)
	}
	var res *UnitResult
	switch args[0] {
	case "list":
		type ent struct {
			Name, Full, File string
			Props            []string
			ClauseProps      []string
			Contract         string
			Trusted, Inline  bool
			Lemma            bool
			Axiom            bool
		}
		var out []ent
		for _, u := range sp.order {
			cp := append([]string(nil), u.nopProps...)
			for _, e := range u.ens {
				cp = append(cp, e.props...)
			}
			out = append(out, ent{u.Name, u.full, u.file, u.props, cp, contractText(u), u.trusted, u.inline, false, false})
		}
		for _, l := range sp.lemmas {
			out = append(out, ent{l.name, l.name, l.file, l.props, nil, l.src, false, false, true, l.axiom})
		}
		json.NewEncoder(os.Stdout).Encode(out)
		return
	case "fns":
		for n := range w.fns {
			if strings.Contains(n, modPath) {
				fmt.Println(n)
			}
		}
		return
	case "ssa":
		for n, f := range w.fns {
			if strings.HasSuffix(n, args[1]) {
				f.WriteTo(os.Stdout)
			}
		}
		return
	case "unit":
		for _, u := range sp.order {
			if u.Name == args[1] {
				res = w.verifyUnit(u)
			}
		}
	case "lemma":
		for _, l := range sp.lemmas {
			if l.name == args[1] && !l.axiom {
				res = w.verifyLemma(l)
			}
		}
	}
	if res == nil {
		fmt.Fprintln(os.Stderr, "no such unit:", args[1])
		os.Exit(2)
	}
	if *dump != "" {
		os.MkdirAll(*dump, 0o755)
		for i, o := range res.Obls {
			if o.Verd != Unsat && o.Script != "" {
				os.WriteFile(fmt.Sprintf("%s/%03d.smt2", *dump, i), []byte("; "+o.Name+"\n; "+o.Pos+"\n"+o.Script+"(check-sat)\n"), 0o644)
			}
		}
	}
	if *asJSON {
		for _, o := range res.Obls {
			if len(o.Script) > 20000 {
				o.Script = o.Script[:20000] + "..."
			}
			if len(o.Goal) > 4000 {
				o.Goal = o.Goal[:4000] + "..."
			}
		}
		json.NewEncoder(os.Stdout).Encode(res)
		killProcs()
		return
	}
	ok := 0
	for i, o := range res.Obls {
		if o.Verd == Unsat {
			ok++
			if !*verbose {
				continue
			}
		}
		v := "FAILED"
		if o.Verd == Unsat {
			v = "proved"
		}
		fmt.Printf("%s [%d] %s %s (%s, %d ms) %s path=%s\n", v, i, o.Kind, o.Name, o.By, o.Ms, o.Pos, o.path)
		if o.Verd != Unsat && *verbose {
			fmt.Printf("    goal: %s\n", o.Goal)
		}
	}
	fmt.Printf("%s: %d/%d obligations, %d invariants, %d paths, %d steps, %d queries, %d ms\n", res.Unit, ok, len(res.Obls), res.InvKept, res.Paths, res.Steps, res.Queries, res.Ms)
	if res.Err != "" {
		fmt.Println("ERROR:", res.Err)
	}
	if *verbose {
		fmt.Println("trusted:", res.Trusted)
		fmt.Println("contracts:", res.Contracts)
		fmt.Println("inlined:", res.Inlined)
		fmt.Println("axioms:", res.Axioms)
		fmt.Println("notes:", res.Notes)
		for _, l := range res.InvLost {
			fmt.Println("lost:", l)
		}
	}
}

// loadHints reads which candidate loop invariants held before (written by gov -json
// -nohints through tools/mkhints.py).
func loadHints(w *World, specs string) {
	b, err := os.ReadFile(specs + "/hints.json")
	if err != nil {
		return
	}
	var m map[string][]string
	if json.Unmarshal(b, &m) != nil {
		return
	}
	w.hints = map[string]map[string]bool{}
	for u, l := range m {
		w.hints[u] = map[string]bool{}
		for _, n := range l {
			w.hints[u][n] = true
		}
	}
}

func contractText(u *Unit) string {
	var out []string
	if u.nopanic {
		out = append(out, "never panics")
	}
	for _, c := range u.panics {
		out = append(out, "panics only if "+c.src)
	}
	for _, c := range u.req {
		out = append(out, "requires "+c.src)
	}
	for _, c := range u.ens {
		out = append(out, "ensures "+c.src)
	}
	return strings.Join(out, "; ")
}
