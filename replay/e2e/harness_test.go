package main_test

// End to end driver: the compiler built from the current tree is run on
// generated programs, and its exit status and output are compared with an
// oracle which is independent of its code.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

type obj = map[string]any

type result struct {
	code    int
	out     string
	err     string
	timeout bool
	bus     obj
	consts  obj
}

func (r result) crashed() bool {
	return r.timeout || r.code > 1 || r.code < 0 || strings.Contains(r.err, "goroutine ") || strings.Contains(r.err, "panic:")
}
func (r result) refused() bool { return r.code == 1 && !r.crashed() }


// unimplemented is true for features which the compiler announces as not implemented.
func (r result) unimplemented() bool {
	return strings.Contains(r.err, "panic: unimplemented") || strings.Contains(r.err, "unimplemented binary expression")
}
func (r result) ok() bool      { return r.code == 0 && !r.crashed() && r.bus != nil }
func (r result) String() string {
	e := r.err
	if len(e) > 300 {
		e = e[:300]
	}
	return fmt.Sprintf("exit %d timeout %v stderr %q", r.code, r.timeout, e)
}

type finding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Input    any    `json:"input"`
	Got      any    `json:"got"`
	Want     any    `json:"want"`
}

type harness struct {
	mu    sync.Mutex
	self  string
	dir   string
	runs  int
	seen  map[string]int
	stats map[string]int
}

// job runs programs in its own directory.
type job struct {
	h    *harness
	dir  string
	prop string
	r    *rand.Rand
}

// compile runs the compiler on the files, the main file is main.fbd and the main bus is Main.
func (j *job) compile(files map[string]string) result {
	return j.compileArgs(files, "-main", "Main", "-c", "consts.json", "main.fbd")
}

func (j *job) compileArgs(files map[string]string, args ...string) result {
	os.RemoveAll(j.dir)
	work := filepath.Join(j.dir, "work")
	home := filepath.Join(j.dir, "home")
	os.MkdirAll(work, 0o755)
	os.MkdirAll(home, 0o755)
	for n, c := range files {
		p := filepath.Join(work, n)
		os.MkdirAll(filepath.Dir(p), 0o755)
		c = strings.ReplaceAll(c, "\t", "  ") // tabs are not allowed for indentation
		os.WriteFile(p, []byte(c), 0o644)
	}
	cmd := exec.Command(j.h.self, args...)
	cmd.Dir = work
	cmd.Env = []string{"HOME=" + home, "PATH=/usr/bin:/bin", "FBDPATH=", "GOTRACEBACK=single", "GOMAXPROCS=2"}
	var out, errb strings.Builder
	cmd.Stdout, cmd.Stderr = &out, &errb
	res := result{}
	if err := cmd.Start(); err != nil {
		res.code = -2
		res.err = err.Error()
		return res
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(30 * time.Second):
		cmd.Process.Kill()
		<-done
		res.timeout = true
	}
	res.out, res.err = out.String(), errb.String()
	if err != nil {
		res.code = -1
		if x, ok := err.(*exec.ExitError); ok {
			res.code = x.ExitCode()
		}
	}
	if res.code == 0 && !res.timeout {
		d := json.NewDecoder(strings.NewReader(res.out))
		d.UseNumber()
		d.Decode(&res.bus)
		if b, err := os.ReadFile(filepath.Join(work, "consts.json")); err == nil {
			d := json.NewDecoder(strings.NewReader(string(b)))
			d.UseNumber()
			d.Decode(&res.consts)
		}
	}
	j.h.mu.Lock()
	j.h.runs++
	j.h.mu.Unlock()
	return res
}

func (j *job) fail(key, what string, input, got, want any) {
	j.h.mu.Lock()
	defer j.h.mu.Unlock()
	j.h.seen[key]++
	if j.h.seen[key] > 2 {
		return
	}
	b, _ := json.Marshal(finding{j.prop, key, what, input, got, want})
	fmt.Println("FAILINPUT " + string(b))
}

func (j *job) count(k string) {
	j.h.mu.Lock()
	j.h.stats[k]++
	j.h.mu.Unlock()
}

var gens = map[string]func(j *job){}

func TestVerifE2E(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	gen := gens[prop]
	if gen == nil {
		t.Skip("no generator for " + prop)
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if budget == 0 {
		budget = 10
	}
	dir := os.Getenv("VERIF_SCRATCH")
	if dir == "" {
		dir = t.TempDir()
	}
	self := filepath.Join(dir, "fbdl")
	build := exec.Command("go", "build", "-o", self, ".")
	build.Env = append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false")
	if out, err := build.CombinedOutput(); err != nil {
		t.Fatalf("the compiler does not build: %v\n%s", err, out)
	}
	h := &harness{self: self, dir: dir, seen: map[string]int{}, stats: map[string]int{}}
	end := time.Now().Add(time.Duration(budget) * time.Second)
	var wg sync.WaitGroup
	var next int64
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				h.mu.Lock()
				n := next
				next++
				h.mu.Unlock()
				if time.Now().After(end) && n >= 16 {
					return
				}
				j := &job{h: h, dir: filepath.Join(dir, fmt.Sprintf("e2e-%s-%d", prop, w)), prop: prop, r: rand.New(rand.NewSource(seed*1000003 + n))}
				gen(j)
			}
		}(w)
	}
	wg.Wait()
	h.stats["compiler_runs"] = h.runs
	h.stats["cases"] = int(next)
	b, _ := json.Marshal(h.stats)
	fmt.Println("STATS " + string(b))
}

// ---------- access to the JSON output ----------

func list(o obj, k string) []obj {
	var out []obj
	l, _ := o[k].([]any)
	for _, x := range l {
		if m, ok := x.(obj); ok {
			out = append(out, m)
		}
	}
	return out
}

func find(l []obj, name string) obj {
	for _, o := range l {
		if o["Name"] == name {
			return o
		}
	}
	return nil
}

func num(o obj, k string) string {
	if n, ok := o[k].(json.Number); ok {
		return n.String()
	}
	return fmt.Sprint(o[k])
}

func sub(o obj, k string) obj {
	m, _ := o[k].(obj)
	return m
}

// constOf returns the collections which hold the constant and its value.
func constOf(c obj, name string) ([]string, any) {
	var in []string
	var v any
	for _, k := range []string{"Bools", "BoolLists", "Floats", "Ints", "IntLists", "Strings"} {
		if m, ok := c[k].(obj); ok {
			if x, ok := m[name]; ok {
				in = append(in, k)
				v = x
			}
		}
	}
	return in, v
}

func pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }
