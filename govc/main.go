package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
)

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc prove|check|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "prove":
		cmdProve(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// goEnv is the environment for go commands: offline, own build cache.
func goEnv(verif string) []string {
	var env []string
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e, '=')]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOSUMDB", "GOWORK", "GO111MODULE", "GOTOOLCHAIN":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=", "GOPROXY=off", "GOSUMDB=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOWORK=off", "GO111MODULE=on", "GOTOOLCHAIN=local")
}

// writeModfile derives a module file from the repository's, with the missing
// dependency replaced by the stub.
func writeModfile(repo, verif, dir string) (string, error) {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", err
	}
	s := string(b) + "\nreplace github.com/Breeze0806/go => " + filepath.Join(verif, "stubs/breeze-go") + "\n"
	p := filepath.Join(dir, "verif.mod")
	if err := os.WriteFile(p, []byte(s), 0644); err != nil {
		return "", err
	}
	sum, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	return p, os.WriteFile(filepath.Join(dir, "verif.sum"), sum, 0644)
}

func cmdProve(args []string) {
	fs := flag.NewFlagSet("prove", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	only := fs.String("only", ".", "harness name pattern")
	v := fs.Bool("v", false, "verbose")
	cex := fs.Bool("cex", true, "print counterexamples")
	j := fs.Int("j", runtime.NumCPU(), "")
	limit := fs.Duration("limit", 10*time.Minute, "")
	shapes := fs.String("shapes", "", "write the number of loops of every function with loop invariants to this file")
	fs.Parse(args)
	dir, err := os.MkdirTemp("", "govc")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	mf, err := writeModfile(*repo, *verif, dir)
	if err != nil {
		panic(err)
	}
	t0 := time.Now()
	w, err := loadWorld(*repo, filepath.Join(*verif, "spec"), mf, goEnv(*verif))
	if err != nil {
		fmt.Println(err)
		os.RemoveAll(dir)
		os.Exit(2)
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	for _, d := range w.dropped {
		fmt.Println("left out:", d)
	}
	re := regexp.MustCompile(*only)
	var hs []*Harness
	for _, h := range w.harness {
		if re.MatchString(h.name) {
			hs = append(hs, h)
		}
	}
	rs := runAll(w, hs, *j, *limit, *v)
	if *shapes != "" {
		m := map[string]bool{}
		for _, r := range rs {
			for k, n := range r.Shapes {
				m[strings.Join(append([]string{k, fmt.Sprint(n)}, r.Vars[k]...), "\t")] = true
			}
		}
		text := "# functions with loop invariants: how many loops and which variables they have (govc prove -shapes)\n" + strings.Join(sortedKeys(m), "\n") + "\n"
		if err := os.WriteFile(*shapes, []byte(text), 0644); err != nil {
			fmt.Println(err)
		}
	}
	for _, r := range rs {
		fmt.Println(r.summary())
		if *v {
			for _, l := range r.Order {
				o := r.Obs[l]
				fmt.Printf("    %-60s %s n=%d const=%d z3=%d cvc5=%d\n", l, o.pos, o.n, o.trivial, o.solver, o.second)
			}
			for k, n := range r.Loops {
				fmt.Println("    invariant", k, n)
			}
			for k, n := range r.Unrolled {
				fmt.Println("    unrolled", k, n)
			}
		}
		if *cex {
			for _, l := range r.Order {
				for i, c := range r.Obs[l].refuted {
					if c == nil || i > 0 {
						continue
					}
					fmt.Printf("    REFUTED %s at %s: %v\n      %s\n", l, c.pos, c.values, c.note)
				}
				for i, u := range r.Obs[l].unknown {
					if i < 3 {
						fmt.Printf("    UNKNOWN %s %s\n", l, u)
					}
				}
			}
		}
	}
}
