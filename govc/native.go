package main

// The native side: the specification compiled into the package's test binary
// and run on the real code, to replay counterexamples and to look for inputs.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

type nativeJob struct {
	Mode    string                 `json:"mode"`
	Harness string                 `json:"harness,omitempty"`
	Values  map[string]interface{} `json:"values,omitempty"`
	Search  []string               `json:"search,omitempty"`
	Seed    int64                  `json:"seed"`
	Trials  int                    `json:"trials,omitempty"`
	MS      int                    `json:"ms,omitempty"`
	Out     string                 `json:"out"`
}

type nativeFail struct {
	Search string `json:"search,omitempty"`
	Seed   int64  `json:"seed,omitempty"`
	Label  string `json:"label"`
	Detail string `json:"detail"`
}

type nativeOut struct {
	Fail     []nativeFail   `json:"fail"`
	Trials   map[string]int `json:"trials"`
	Distinct int            `json:"distinct"`
	Samples  []string       `json:"samples"`
	Note     string         `json:"note"`
}

// NativeBin is a test binary of one package.
type NativeBin struct {
	pkg      string // "root" or "replication"
	bin      string
	searches map[string]bool
	harness  map[string]bool
	dropped  []string
	err      error
}

var fileErr = regexp.MustCompile(`([^\s:]*\.go):\d+:\d+: (.*)`)

// buildNative compiles the test binary of pkg with the specification overlaid.
func buildNative(repo, verif, modfile, dir, pkg string, env []string, race bool) *NativeBin {
	nb := &NativeBin{pkg: pkg}
	skip := map[string]bool{}
	for try := 0; try < 12; try++ {
		nb.searches, nb.harness = map[string]bool{}, map[string]bool{}
		repl := map[string]string{}
		pd := repo
		if pkg != "root" {
			pd = filepath.Join(repo, pkg)
		}
		sub := filepath.Join(dir, fmt.Sprintf("nat-%s-%v-%d", pkg, race, try))
		os.MkdirAll(sub, 0755)
		var hs, ss []string
		fset := token.NewFileSet()
		err := overlayFiles(repo, filepath.Join(verif, "spec"), true, func(dst, src string, b []byte) error {
			if filepath.Dir(dst) != pd || skip[filepath.Base(dst)] {
				return nil
			}
			p := filepath.Join(sub, filepath.Base(dst))
			if err := os.WriteFile(p, b, 0644); err != nil {
				return err
			}
			repl[dst] = p
			f, err := parser.ParseFile(fset, p, b, 0)
			if err != nil {
				return err
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				n := fd.Name.Name
				if strings.HasPrefix(n, "prove_") && len(fd.Type.Params.List) == 0 {
					hs = append(hs, n)
				}
				if strings.HasPrefix(n, "search_") || strings.HasPrefix(n, "known_") {
					ss = append(ss, n)
				}
			}
			return nil
		})
		if err != nil {
			nb.err = err
			return nb
		}
		name := "gobinlog"
		if pkg != "root" {
			name = pkg
		}
		var g bytes.Buffer
		fmt.Fprintf(&g, "package %s\n\nvar vHarnesses = map[string]func(){\n", name)
		for _, h := range hs {
			fmt.Fprintf(&g, "\t%q: %s,\n", h, h)
			nb.harness[h] = true
		}
		fmt.Fprintf(&g, "}\n\nvar vSearches = map[string]func(*vRng){\n")
		for _, s := range ss {
			fmt.Fprintf(&g, "\t%q: %s,\n", s, s)
			nb.searches[s] = true
		}
		fmt.Fprintf(&g, "}\n")
		reg := filepath.Join(sub, "zz_verif_registry_test.go")
		os.WriteFile(reg, g.Bytes(), 0644)
		repl[filepath.Join(pd, "zz_verif_registry_test.go")] = reg
		ov, _ := json.Marshal(map[string]interface{}{"Replace": repl})
		ovf := filepath.Join(sub, "overlay.json")
		os.WriteFile(ovf, ov, 0644)
		nb.bin = filepath.Join(sub, "native.test")
		args := []string{"test", "-c", "-vet=off", "-mod=mod", "-modfile=" + modfile, "-overlay=" + ovf, "-o", nb.bin}
		e := append(env[:len(env):len(env)], "CGO_ENABLED=0")
		if race {
			args = append(args, "-race")
			e = append(env[:len(env):len(env)], "CGO_ENABLED=1")
		}
		path := "."
		if pkg != "root" {
			path = "./" + pkg
		}
		cmd := exec.Command("go", append(args, path)...)
		cmd.Dir, cmd.Env = repo, e
		out, err := cmd.CombinedOutput()
		if err == nil {
			nb.err = nil
			return nb
		}
		nb.err = fmt.Errorf("native build of %s: %v\n%s", pkg, err, tail(string(out), 2000))
		more := false
		for _, m := range fileErr.FindAllStringSubmatch(string(out), -1) {
			b := filepath.Base(m[1])
			if strings.HasPrefix(b, "zz_verif_") && !strings.Contains(b, "intrinsics") && !strings.Contains(b, "registry") && !skip[b] {
				skip[b] = true
				more = true
				nb.dropped = append(nb.dropped, b+": "+m[2])
			}
		}
		if !more {
			return nb
		}
	}
	return nb
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// run executes one job; a crash of the process is a failure of its trial.
func (nb *NativeBin) run(dir string, id string, job nativeJob, limit time.Duration) *nativeOut {
	job.Out = filepath.Join(dir, "out-"+nb.pkg+"-"+id+".json")
	jf := filepath.Join(dir, "job-"+nb.pkg+"-"+id+".json")
	os.Remove(job.Out)
	os.Remove(job.Out + ".trial")
	b, _ := json.Marshal(job)
	os.WriteFile(jf, b, 0644)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, nb.bin, "-test.run", "^TestVerifNative$", "-test.timeout", "0", "-test.count", "1")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VERIF_JOB="+jf, "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all", "GOMEMLIMIT=3GiB")
	var outb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &outb, &outb
	err := cmd.Run()
	res := &nativeOut{Trials: map[string]int{}}
	if b, e := os.ReadFile(job.Out); e == nil && json.Unmarshal(b, res) == nil {
		if err != nil && len(res.Fail) == 0 {
			res.Note += " exit: " + err.Error() + " " + tail(outb.String(), 500)
		}
		return res
	}
	if ctx.Err() != nil {
		res.Note = "time limit of the native run"
		return res
	}
	f := nativeFail{Label: "crash", Detail: head(outb.String(), 6000)}
	if tb, e := os.ReadFile(job.Out + ".trial"); e == nil {
		fmt.Sscanf(string(tb), "%s %d", &f.Search, &f.Seed)
	}
	if strings.Contains(f.Detail, "DATA RACE") {
		f.Label = "data race"
	}
	res.Fail = append(res.Fail, f)
	return res
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// search runs the searches on all cores with different seeds.
func (nb *NativeBin) search(dir string, names []string, seed int64, ms, procs int) *nativeOut {
	tot := &nativeOut{Trials: map[string]int{}}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for p := 0; p < procs; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			o := nb.run(dir, fmt.Sprintf("s%d", p), nativeJob{Mode: "search", Search: names, Seed: seed*1009 + int64(p), MS: ms},
				time.Duration(ms)*time.Millisecond+120*time.Second)
			mu.Lock()
			defer mu.Unlock()
			tot.Fail = append(tot.Fail, o.Fail...)
			tot.Distinct += o.Distinct
			if len(tot.Samples) < 4 {
				tot.Samples = append(tot.Samples, o.Samples...)
			}
			for k, v := range o.Trials {
				tot.Trials[k] += v
			}
			if o.Note != "" {
				tot.Note = o.Note
			}
		}(p)
	}
	wg.Wait()
	sort.SliceStable(tot.Fail, func(a, b int) bool { return tot.Fail[a].Search < tot.Fail[b].Search })
	return tot
}
