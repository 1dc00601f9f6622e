package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// trouble is a failure of the machinery, not of the code under test: exit 2.
type trouble struct{ msg string }

func fail(f string, a ...any) { panic(trouble{fmt.Sprintf(f, a...)}) }

func ck(err error, what string) {
	if err != nil {
		fail("%s: %v", what, err)
	}
}

var (
	verif = "/verif"
	repo  = "/repo"
	build string // verif/.build
)

func goEnv(work string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e, '=')]
		switch k {
		case "GOWORK", "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GO111MODULE", "SIM_SPEC":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOWORK="+work, "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOSUMDB=off")
}

func gocmd(dir, work string, args ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = goEnv(work)
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	return b.String(), err
}

func skipDir(n string) bool {
	return n == ".git" || n == ".build" || n == "cmd" || n == "logs" || n == "node_modules" || strings.HasSuffix(n, "_test")
}

// sources lists the non-test Go sources and module files of a tree.
func sources(root string) []string {
	var r []string
	_ = filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		n := d.Name()
		if d.IsDir() {
			if p != root && skipDir(n) {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") || n == "go.mod" || n == "go.sum" || n == "go.work" || n == "go.work.sum" {
			rel, _ := filepath.Rel(root, p)
			r = append(r, rel)
		}
		return nil
	})
	sort.Strings(r)
	return r
}

func treeHash(roots ...string) string {
	h := sha256.New()
	for _, root := range roots {
		for _, f := range sources(root) {
			b, _ := os.ReadFile(filepath.Join(root, f))
			fmt.Fprintf(h, "%s %s %d\n", root, f, len(b))
			h.Write(b)
		}
	}
	return hex.EncodeToString(h.Sum(nil))
}

func copyFile(dst, src string) {
	b, err := os.ReadFile(src)
	ck(err, "read")
	ck(os.MkdirAll(filepath.Dir(dst), 0o755), "mkdir")
	ck(os.WriteFile(dst, b, 0o644), "write")
}

var reUse = regexp.MustCompile(`(?m)^\s*(?:use\s+)?\./?([A-Za-z0-9_./-]+)\s*$`)

type ws struct {
	Runner string
	Mods   []string
	Cached bool
}

// buildRunner rewrites /repo's working tree and builds the simulated system.
func buildRunner() ws {
	build = filepath.Join(verif, ".build")
	src := filepath.Join(build, "src")
	out := filepath.Join(build, "ws")
	runner := filepath.Join(build, "runner")
	ck(os.MkdirAll(build, 0o755), "mkdir")
	sum := treeHash(repo, filepath.Join(verif, "sim"))
	stamp := filepath.Join(build, "stamp")
	if b, err := os.ReadFile(stamp); err == nil && string(b) == sum {
		if _, err := os.Stat(runner); err == nil {
			return ws{Runner: runner, Cached: true}
		}
	}
	_ = os.Remove(stamp)
	ck(os.RemoveAll(src), "clean")
	ck(os.RemoveAll(out), "clean")
	for _, f := range sources(repo) {
		copyFile(filepath.Join(src, f), filepath.Join(repo, f))
	}
	// the workspace's modules, without the test-only ones
	wf, err := os.ReadFile(filepath.Join(src, "go.work"))
	ck(err, "go.work")
	var mods []string
	nw := "go 1.18\n"
	for _, m := range reUse.FindAllStringSubmatch(string(wf), -1) {
		if _, err := os.Stat(filepath.Join(src, m[1], "go.mod")); err == nil {
			mods = append(mods, m[1])
			nw += "use ./" + m[1] + "\n"
		}
	}
	if len(mods) == 0 {
		fail("no modules in go.work")
	}
	srcWork := filepath.Join(src, "go.work")
	ck(os.WriteFile(srcWork, []byte(nw), 0o644), "go.work")
	// tools
	simgen := filepath.Join(build, "simgen")
	if o, err := gocmd(filepath.Join(verif, "sim/simgen"), "off", "build", "-o", simgen, "."); err != nil {
		fail("building simgen: %s", o)
	}
	modPath := map[string]string{}
	var rules []map[string]any
	var pats []string
	for _, m := range mods {
		b, _ := os.ReadFile(filepath.Join(src, m, "go.mod"))
		mm := regexp.MustCompile(`(?m)^module\s+(\S+)`).FindSubmatch(b)
		if mm == nil {
			fail("no module line in %s/go.mod", m)
		}
		modPath[m] = string(mm[1])
		rules = append(rules, map[string]any{"Prefix": string(mm[1]), "Dir": m, "Preempt": true})
		pats = append(pats, "./"+m+"/...")
	}
	ext := map[string]string{"github.com/panjf2000/ants/v2": "ext/ants", "golang.org/x/time/rate": "ext/time/rate"}
	for p, d := range ext {
		rules = append(rules, map[string]any{"Prefix": p, "Dir": d, "Preempt": p != "golang.org/x/time/rate"})
		pats = append(pats, p)
	}
	sort.Strings(pats)
	cfg, _ := json.MarshalIndent(map[string]any{"ListDir": src, "Env": goEnv(srcWork), "Patterns": pats, "Rewrite": rules, "Out": out}, "", " ")
	cfgf := filepath.Join(build, "simgen.json")
	ck(os.WriteFile(cfgf, cfg, 0o644), "cfg")
	cmd := exec.Command(simgen, "-cfg", cfgf)
	cmd.Env = goEnv(srcWork)
	if o, err := cmd.CombinedOutput(); err != nil {
		fail("simgen: %s", o)
	}
	// module files
	stubs := map[string]string{"github.com/panjf2000/gnet/v2": "gnet", "github.com/hrygo/log": "log", "github.com/hrygo/yaml_config": "yaml_config", "go.mongodb.org/mongo-driver": "mongo"}
	drop := func(p string) bool {
		if stubs[p] != "" || p == "github.com/panjf2000/ants/v2" || p == "golang.org/x/time" {
			return true
		}
		for _, m := range modPath {
			if m == p {
				return true
			}
		}
		return false
	}
	work := "go 1.23\n"
	reReq := regexp.MustCompile(`(?m)^\s*(?:require\s+)?(\S+)\s+(v\S+)(\s*//.*)?$`)
	keep := map[string]bool{"go.uber.org/zap": true, "golang.org/x/text": true, "gopkg.in/yaml.v3": true, "go.uber.org/atomic": true, "go.uber.org/multierr": true, "golang.org/x/sync": true}
	for _, m := range mods {
		b, _ := os.ReadFile(filepath.Join(src, m, "go.mod"))
		gv := "1.18"
		if x := regexp.MustCompile(`(?m)^go\s+(\S+)`).FindSubmatch(b); x != nil {
			gv = string(x[1])
		}
		s := "module " + modPath[m] + "\n\ngo " + gv + "\n\n"
		for _, q := range reReq.FindAllStringSubmatch(string(b), -1) {
			if !drop(q[1]) && keep[q[1]] {
				s += "require " + q[1] + " " + q[2] + "\n"
			}
		}
		d := filepath.Join(out, m)
		ck(os.MkdirAll(d, 0o755), "mkdir")
		ck(os.WriteFile(filepath.Join(d, "go.mod"), []byte(s), 0o644), "go.mod")
		if g, err := os.ReadFile(filepath.Join(src, m, "go.sum")); err == nil {
			ck(os.WriteFile(filepath.Join(d, "go.sum"), g, 0o644), "go.sum")
		}
		work += "use ./" + m + "\n"
	}
	for d, p := range map[string]string{"ext/ants": "github.com/panjf2000/ants/v2", "ext/time": "golang.org/x/time"} {
		ck(os.MkdirAll(filepath.Join(out, d), 0o755), "mkdir")
		ck(os.WriteFile(filepath.Join(out, d, "go.mod"), []byte("module "+p+"\n\ngo 1.18\n"), 0o644), "go.mod")
		work += "use ./" + d + "\n"
	}
	for _, d := range stubs {
		work += "use " + filepath.Join(verif, "sim/stubs", d) + "\n"
	}
	for _, d := range []string{"simrt", "harness", "plan"} {
		work += "use " + filepath.Join(verif, "sim", d) + "\n"
	}
	wsWork := filepath.Join(out, "go.work")
	ck(os.WriteFile(wsWork, []byte(work), 0o644), "go.work")
	if o, err := gocmd(filepath.Join(verif, "sim/harness"), wsWork, "build", "-o", runner, "."); err != nil {
		fail("building the simulated system: %s", o)
	}
	ck(os.WriteFile(stamp, []byte(sum), 0o644), "stamp")
	return ws{Runner: runner, Mods: mods}
}
