package main

// The check of one property: prove its obligations, replay what is refuted
// on the real code, look for failing inputs, write the evidence.

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"
)

// known_findings.txt: lines "finding: property=<id> search=<known_...> <what fails>"
// and "fixed: property=<id> <commit> <what failed>" (which suppress nothing).
func readKnown(verif, prop string) (out []map[string]string) {
	f, err := os.Open(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	re := regexp.MustCompile(`^finding: property=(\S+) search=(\S+) (.*)$`)
	for sc.Scan() {
		if m := re.FindStringSubmatch(sc.Text()); m != nil && m[1] == prop {
			out = append(out, map[string]string{"search": m[2], "text": m[3]})
		}
	}
	return out
}

// Replay is what a VIOLATION line points to.
type Replay struct {
	Property    string                 `json:"property"`
	Obligations []string               `json:"failed_obligations,omitempty"`
	Harness     string                 `json:"harness,omitempty"`
	Values      map[string]interface{} `json:"counterexample,omitempty"`
	Package     string                 `json:"package,omitempty"`
	Race        bool                   `json:"race,omitempty"`
	Search      string                 `json:"search,omitempty"`
	Seed        int64                  `json:"seed,omitempty"`
	Label       string                 `json:"label,omitempty"`
	Detail      string                 `json:"detail,omitempty"`
	Verifier    []string               `json:"verifier_output,omitempty"`
	Confirmed   bool                   `json:"reproduced_on_real_code"`
}

type checkRun struct {
	prop, tier, repo, verif, out, dir, modfile string
	seed                                       int64
	env                                        []string
	bins                                       []*NativeBin
	race                                       bool
}

func pkgOf(h *Harness) string {
	if h.fn.Pkg.Pkg.Path() == repoPath {
		return "root"
	}
	return "replication"
}

// nativeFor lists the packages that hold native code of the property.
func nativeFor(verif, prop string) (pkgs []string, race bool) {
	for _, pkg := range []string{"root", "replication"} {
		fs, _ := filepath.Glob(filepath.Join(verif, "spec", pkg, "*.go"))
		use := false
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			for _, m := range regexp.MustCompile(`func (prove|search|known)((_C\d\d)+)_`).FindAllStringSubmatch(string(b), -1) {
				if strings.Contains(m[2], prop) {
					use = true
				}
			}
		}
		if use {
			pkgs = append(pkgs, pkg)
		}
	}
	return pkgs, prop == "C05"
}

// alsoLine is a line of spec/also.txt.
type alsoLine struct{ harness, label *regexp.Regexp }

type alsoTable []alsoLine

func (t alsoTable) labels(harness string) (out []*regexp.Regexp) {
	for _, l := range t {
		if l.harness.MatchString(harness) {
			out = append(out, l.label)
		}
	}
	return
}

func readAlso(verif, prop string) (t alsoTable) {
	b, _ := os.ReadFile(filepath.Join(verif, "spec", "also.txt"))
	for _, line := range strings.Split(string(b), "\n") {
		f := strings.Fields(line)
		if len(f) != 3 || strings.HasPrefix(line, "#") {
			continue
		}
		for _, p := range strings.Split(f[0], ",") {
			if p == prop {
				t = append(t, alsoLine{regexp.MustCompile(f[1]), regexp.MustCompile(f[2])})
			}
		}
	}
	return
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	outDir := fs.String("out", "", "where evidence and replays go (default: verif)")
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "")
	noproof := fs.Bool("noproof", false, "native side only (for development)")
	ms := fs.Int("ms", 0, "native search time")
	fs.Parse(args)
	t0 := time.Now()
	c := &checkRun{prop: *prop, tier: *tier, repo: *repo, verif: *verif, out: *outDir, seed: 1}
	if c.out == "" {
		c.out = c.verif
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		fmt.Sscan(s, &c.seed)
	}
	dir, err := os.MkdirTemp("", "govc")
	if err != nil {
		sayln(err)
		os.Exit(2)
	}
	c.dir = dir
	code := 2
	func() {
		defer os.RemoveAll(dir)
		code = c.run(t0, *noproof, *ms)
	}()
	os.Exit(code)
}

func (c *checkRun) run(t0 time.Time, noproof bool, ms int) int {
	prop := c.prop
	mf, err := writeModfile(c.repo, c.verif, c.dir)
	if err != nil {
		sayln(err)
		return 2
	}
	c.modfile = mf
	c.env = goEnv(c.verif)
	pkgs, race := nativeFor(c.verif, prop)
	c.race = race
	var wg sync.WaitGroup
	bins := make([]*NativeBin, len(pkgs))
	for i, p := range pkgs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			bins[i] = buildNative(c.repo, c.verif, mf, c.dir, p, c.env, race && p == "root")
		}()
	}
	var w *World
	var lerr error
	if !noproof {
		w, lerr = loadWorld(c.repo, filepath.Join(c.verif, "spec"), mf, c.env)
	}
	wg.Wait()
	c.bins = bins
	if lerr != nil {
		sayln("cannot load the repository:", lerr)
		return 2
	}
	for _, b := range bins {
		if b.err != nil {
			sayln("warning:", b.err)
		}
		for _, d := range b.dropped {
			sayln("native spec left out:", d)
		}
	}
	var hs []*Harness
	limit, glob := 150*time.Second, 270*time.Second
	if c.tier == "thorough" {
		limit, glob = 600*time.Second, 1500*time.Second
	}
	var rs []*HarnessResult
	also := readAlso(c.verif, prop)
	if !noproof {
		for _, h := range w.harness {
			mine := len(also.labels(h.name)) > 0
			for _, p := range h.props {
				mine = mine || p == prop
			}
			if mine {
				hs = append(hs, h)
			}
		}
		globalDeadline = time.Now().Add(glob)
		rs = runAll(w, hs, runtime.NumCPU(), limit, false)
		// harnesses shared with other properties: their labels are not ours
		other := regexp.MustCompile(`^(C\d\d\.)+`)
		for _, r := range rs {
			var order []string
			own := false
			for _, p := range r.H.props {
				own = own || p == prop
			}
			extra := also.labels(r.H.name)
			for _, l := range r.Order {
				pre := other.FindString(l)
				keep := own && (pre == "" || strings.Contains(pre, prop+"."))
				// invariants and preconditions go with the harness
				keep = keep || strings.HasPrefix(l, "inv-") || strings.HasPrefix(l, "pre:")
				for _, re := range extra {
					keep = keep || re.MatchString(l)
				}
				if keep {
					order = append(order, l)
				} else {
					delete(r.Obs, l)
				}
			}
			r.Order = order
		}
	}
	// ---- what the verifier said
	var refuted []string
	var vout []string
	var undecided []string
	exact := map[string]bool{}
	for _, r := range rs {
		vout = append(vout, r.summary())
		sayln(r.summary())
		for _, l := range r.refuted() {
			name := r.H.name + ": " + l
			if strings.HasPrefix(l, "inv-") || strings.HasPrefix(l, "pre:") {
				// an annotation that no longer fits is not a violation yet
				undecided = append(undecided, name+" (annotation does not hold)")
				continue
			}
			if len(r.Misfit) > 0 {
				// the contract speaks of a loop the code does not have
				undecided = append(undecided, name+" ("+strings.Join(r.Misfit, ", ")+")")
				continue
			}
			refuted = append(refuted, name)
			exact[name] = true
			for i, x := range r.Obs[l].refuted {
				if x != nil && i < 2 {
					vb, _ := json.Marshal(x.values)
					vout = append(vout, fmt.Sprintf("refuted %s at %s: %s %s", name, x.pos, vb, x.note))
				}
			}
		}
		for _, l := range r.unknown() {
			undecided = append(undecided, r.H.name+": "+l+" (solver: unknown)")
		}
		for _, u := range r.Unsup {
			undecided = append(undecided, r.H.name+": "+head(u, 300))
		}
		for _, u := range r.Vacuous {
			undecided = append(undecided, r.H.name+": vacuous: "+u)
		}
	}
	if w != nil {
		for _, d := range w.dropped {
			undecided = append(undecided, "contract left out, it does not fit the code: "+head(d, 300))
		}
		if len(hs) == 0 {
			undecided = append(undecided, "no contract of this property fits the code")
		}
	}
	for _, u := range undecided {
		sayln("undecided:", u)
	}
	for _, u := range refuted {
		sayln("refuted:", u)
	}
	var rep *Replay
	// ---- replay the counterexamples
	clean := map[string]bool{} // refuted, and every counterexample replays without a failure
	replays := 0
	for _, r := range rs {
		var b *NativeBin
		for _, x := range bins {
			if x.pkg == pkgOf(r.H) && x.err == nil && x.harness[r.H.name] {
				b = x
			}
		}
		if b == nil {
			continue
		}
		for _, l := range r.refuted() {
			tried, passed := 0, 0
			for i, x := range r.Obs[l].refuted {
				if x == nil || i >= 4 || rep != nil || replays > 60 {
					continue
				}
				replays++
				o := b.run(c.dir, "r", nativeJob{Mode: "replay", Harness: r.H.name, Values: x.values}, 60*time.Second)
				if len(o.Fail) > 0 {
					rep = &Replay{Property: prop, Obligations: []string{l}, Harness: r.H.name, Values: x.values, Package: b.pkg, Race: race && b.pkg == "root",
						Label: o.Fail[0].Label, Detail: o.Fail[0].Detail, Confirmed: true}
				}
				if tried++; len(o.Fail) == 0 && o.Note == "" {
					passed++
				}
			}
			clean[r.H.name+": "+l] = tried > 0 && tried == passed
		}
	}
	// ---- look for failing inputs
	budget := 5000
	if c.tier == "thorough" {
		budget = 120000
	}
	if len(refuted) > 0 || len(undecided) > 0 {
		budget *= 6
		if budget > 180000 {
			budget = 180000
		}
	}
	if ms > 0 {
		budget = ms
	}
	trials := map[string]int{}
	distinct := 0
	var samples []string
	searched := false
	for _, b := range bins {
		if b.err != nil || rep != nil {
			continue
		}
		var names []string
		for n := range b.searches {
			if strings.HasPrefix(n, "search_") && strings.Contains(n, prop) {
				names = append(names, n)
			}
		}
		if len(names) == 0 {
			continue
		}
		sort.Strings(names)
		searched = true
		o := b.search(c.dir, names, c.seed, budget/len(bins), runtime.NumCPU())
		for k, v := range o.Trials {
			trials[k] += v
		}
		distinct += o.Distinct
		samples = append(samples, o.Samples...)
		if o.Note != "" {
			sayln("native note:", o.Note)
		}
		for _, f := range o.Fail {
			cr := &Replay{Property: prop, Package: b.pkg, Race: race && b.pkg == "root", Search: f.Search, Seed: f.Seed, Label: f.Label, Detail: f.Detail}
			// the failure has to come back
			for i := 0; i < 12 && !cr.Confirmed; i++ {
				if x := b.run(c.dir, "c", nativeJob{Mode: "case", Search: []string{f.Search}, Seed: f.Seed, Trials: []int{1, 1, 60}[min(i, 2)]}, 150*time.Second); len(x.Fail) > 0 {
					cr.Confirmed = true
				}
			}
			if cr.Confirmed {
				rep = cr
				break
			}
			say("not reproduced: %s seed %d %s: %s\n", f.Search, f.Seed, f.Label, head(f.Detail, 1000))
		}
	}
	// ---- known findings
	for _, k := range readKnown(c.verif, prop) {
		for _, b := range bins {
			if b.err == nil && b.searches[k["search"]] {
				for i := 0; i < 10; i++ {
					o := b.run(c.dir, "k", nativeJob{Mode: "case", Search: []string{k["search"]}, Seed: int64(i), Trials: 1}, 100*time.Second)
					if len(o.Fail) > 0 {
						say("KNOWN-FINDING: property=%s %s\n", prop, k["text"])
						break
					}
				}
			}
		}
	}
	if rep == nil {
		// An annotation of the contract that no longer holds, or code it does
		// not reach, makes the refuted obligations behind it doubtful: those
		// whose counterexamples run without a failure are not reported.
		doubtful := map[string]bool{}
		for _, r := range rs {
			for _, l := range r.refuted() {
				if strings.HasPrefix(l, "inv-") || strings.HasPrefix(l, "pre:") {
					doubtful[r.H.name] = true
				}
			}
			if len(r.Unsup) > 0 {
				doubtful[r.H.name] = true
			}
			// Without invariants and contracts the inputs say it all: a
			// counterexample that passes speaks against the models.
			if n := len(r.Loops); n == 0 {
				for _, j := range r.Jobs {
					n += len(j.Contracts)
				}
				if n == 0 {
					doubtful[r.H.name] = true
				}
			}
		}
		var left []string
		for _, n := range refuted {
			if h := n[:strings.Index(n, ": ")]; doubtful[h] && clean[n] {
				sayln("undecided:", n, "(annotations or models do not fit, counterexamples pass)")
				undecided = append(undecided, n+" (annotations or models do not fit, counterexamples pass)")
				continue
			}
			left = append(left, n)
		}
		refuted = left
	}
	violation := 0
	if rep == nil && len(refuted) > 0 {
		rep = &Replay{Property: prop, Obligations: refuted, Verifier: vout}
	}
	if rep != nil {
		violation = 1
		if len(rep.Obligations) == 0 {
			rep.Obligations = refuted
		}
		rep.Verifier = vout
	}
	c.evidence(t0, w, rs, bins, trials, distinct, samples, undecided, refuted, violation, searched)
	if rep != nil {
		rd := filepath.Join(c.out, "replays")
		os.MkdirAll(rd, 0755)
		p := filepath.Join(rd, prop+".json")
		b, _ := json.MarshalIndent(rep, "", "  ")
		os.WriteFile(p, b, 0644)
		if rep.Confirmed {
			say("%s: %s\n", rep.Label, head(rep.Detail, 3000))
			say("VIOLATION property=%s replay=%s\n", prop, p)
		} else {
			say("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, p)
		}
		return 1
	}
	say("property %s: no violation (%.1fs)\n", prop, time.Since(t0).Seconds())
	return 0
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func short(n string) string {
	return strings.ReplaceAll(strings.ReplaceAll(n, repoPath+"/", ""), repoPath+".", "")
}

func (c *checkRun) evidence(t0 time.Time, w *World, rs []*HarnessResult, bins []*NativeBin, trials map[string]int, distinct int, samples, undecided, refuted []string, viol int, searched bool) {
	var obl, disch, triv, z3n, cvc int
	var bobl, bdisch int
	fns := map[string]bool{}
	contracts := map[string]bool{}
	assume := map[string]bool{}
	loops, unrolled := map[string]bool{}, map[string]bool{}
	var hl []map[string]interface{}
	var bounded []string
	solver := 0.0
	paths := 0
	for _, r := range rs {
		n, bad := 0, 0
		for _, o := range r.Obs {
			n += o.n
			bad += len(o.refuted) + len(o.unknown)
			if r.H.bound == "" {
				triv += o.trivial
				z3n += o.solver
				cvc += o.second
			}
		}
		if len(r.Unsup) > 0 || len(r.Vacuous) > 0 {
			bad++
			n++
		}
		if r.H.bound != "" {
			bounded = append(bounded, r.H.name+": "+r.H.bound)
			bobl += n
			bdisch += n - bad
		} else {
			obl += n
			disch += n - bad
		}
		e := map[string]interface{}{"harness": r.H.name, "obligations": n, "discharged": n - bad, "labels": len(r.Order), "wall_s": round(r.Wall)}
		if r.H.bound != "" {
			e["bounded"] = r.H.bound
		}
		hl = append(hl, e)
		for _, j := range r.Jobs {
			for f := range j.Fns {
				if w != nil {
					fns[short(f)] = true
				}
			}
			for f := range j.Contracts {
				contracts[short(f)] = true
			}
			for a := range j.Assume {
				assume[short(a)] = true
			}
			solver += j.SolverSec
			paths += j.Paths
		}
		for l := range r.Loops {
			loops[short(l)] = true
		}
		for l := range r.Unrolled {
			unrolled[short(l)] = true
		}
	}
	ntr := 0
	for _, v := range trials {
		ntr += v
	}
	cov := map[string]interface{}{
		"obligations": obl, "discharged": disch,
		"checker_cmd":  fmt.Sprintf("/verif/check.sh %s %s", c.prop, c.tier),
		"trusted_base": trustedBase,
		"backends":     map[string]int{"constant_folding": triv, "z3": z3n, "cvc5_after_z3_unknown": cvc},
		"solver_s":     round(solver), "paths": paths,
		"harnesses":                                    hl,
		"functions_of_the_repository_executed":         sortedKeys(fns),
		"functions_used_by_contract":                   sortedKeys(contracts),
		"loops_by_invariant":                           sortedKeys(loops),
		"loops_unrolled_completely":                    sortedKeys(unrolled),
		"undecided":                                    undecided,
		"refuted":                                      refuted,
		"native_crosscheck_trials":                     trials,
		"native_crosscheck_evaluations":                ntr,
		"native_crosscheck_distinct_inputs_as_counted": distinct,
		"native_crosscheck_samples":                    samples,
		"native_crosscheck_note":                       "bounded: seeded random inputs against an independent encoder; never counted as proved",
	}
	if len(bounded) > 0 {
		cov["bounded_harnesses"] = bounded
		cov["bounded_obligations"] = bobl
		cov["bounded_discharged"] = bdisch
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "proof",
		"coverage": cov, "assumptions": append(sortedKeys(assume), specAssumptions(c.verif, c.prop)...),
		"wall_s": round(time.Since(t0).Seconds()), "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.out, "evidence"), 0755)
	os.WriteFile(filepath.Join(c.out, "evidence", c.prop+".json"), b, 0644)
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

var trustedBase = []string{
	"govc (/verif/govc): the condition generator over go/ssa, its heap and integer model (integers wrap exactly as in Go; no mathematical approximation of machine arithmetic)",
	"golang.org/x/tools/go/ssa and the Go type checker",
	"z3 5.3.2; cvc5 1.1.2 where z3 answers unknown",
	"govc's models of library functions, listed under assumptions",
	"the specification files in /verif/spec",
}

// specAssumptions: lines "//assume:Cxx[,Cyy]: text" of the spec files.
func specAssumptions(verif, prop string) (out []string) {
	fs, _ := filepath.Glob(filepath.Join(verif, "spec", "*", "*.go"))
	re := regexp.MustCompile(`(?m)^// ?assume:([C0-9,]+): (.*)$`)
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, m := range re.FindAllStringSubmatch(string(b), -1) {
			if strings.Contains(m[1], prop) {
				out = append(out, m[2])
			}
		}
	}
	return out
}

func cmdReplay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	var rep Replay
	if err == nil {
		err = json.Unmarshal(b, &rep)
	}
	if err != nil {
		sayln(err)
		os.Exit(2)
	}
	if !rep.Confirmed {
		sayln("no failing input was found; failed obligations:", rep.Obligations)
		for _, l := range rep.Verifier {
			sayln(l)
		}
		os.Exit(1)
	}
	dir, err := os.MkdirTemp("", "govc")
	if err != nil {
		os.Exit(2)
	}
	code := 0
	func() {
		defer os.RemoveAll(dir)
		mf, err := writeModfile(*repo, *verif, dir)
		if err != nil {
			sayln(err)
			code = 2
			return
		}
		nb := buildNative(*repo, *verif, mf, dir, rep.Package, goEnv(*verif), rep.Race)
		if nb.err != nil {
			sayln(nb.err)
			code = 2
			return
		}
		job := nativeJob{Mode: "replay", Harness: rep.Harness, Values: rep.Values}
		n := 1
		if rep.Search != "" {
			job = nativeJob{Mode: "case", Search: []string{rep.Search}, Seed: rep.Seed, Trials: 1}
			n = 12
		}
		for i := 0; i < n && code == 0; i++ {
			o := nb.run(dir, "x", job, 150*time.Second)
			for _, f := range o.Fail {
				say("%s: %s\n", f.Label, f.Detail)
				code = 1
			}
		}
		if code == 0 {
			sayln("does not fail")
		}
	}()
	os.Exit(code)
}

// say prints text that may hold bytes of a counterexample: nothing but
// printable characters and line ends goes out.
func say(format string, a ...interface{}) {
	os.Stdout.WriteString(printable(fmt.Sprintf(format, a...)))
}

func sayln(a ...interface{}) { os.Stdout.WriteString(printable(fmt.Sprintln(a...))) }

func printable(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == '\n' || r == '\t' || (strconv.IsPrint(r) && !(r == utf8.RuneError && n == 1)) {
			b.WriteString(s[i : i+n])
		} else {
			fmt.Fprintf(&b, "\\x%02x", s[i:i+n])
		}
		i += n
	}
	return b.String()
}
