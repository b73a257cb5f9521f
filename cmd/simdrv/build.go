package main

// Building the simulator from the repository's current working tree.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// builder makes the harness binaries a check needs.
type builder struct {
	repo    string
	verif   string
	scratch string
	mod     string
	pkgs    []*listPkg
	mu      sync.Mutex
	bins    map[string]string
	info    map[string]*buildInfo
	times   map[string]float64
}

type buildInfo struct {
	level int
	stats map[string]int
	sites []string
	warns []string
}

func newBuilder() (*builder, error) {
	b := &builder{repo: repoDir, verif: verifDir, bins: map[string]string{}, info: map[string]*buildInfo{}, times: map[string]float64{}}
	var err error
	b.scratch, err = os.MkdirTemp("", "simdrv")
	if err != nil {
		return nil, err
	}
	mf, err := os.ReadFile(filepath.Join(b.repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	for _, l := range strings.Split(string(mf), "\n") {
		if f := strings.Fields(l); len(f) >= 2 && f[0] == "module" {
			b.mod = f[1]
			break
		}
	}
	if b.mod == "" {
		return nil, fmt.Errorf("no module path in go.mod")
	}
	b.pkgs, err = listPackages(b.repo)
	return b, err
}

func (b *builder) close() { os.RemoveAll(b.scratch) }

// variant names: "plain" (sources as they are), "sim" (rewritten), "race" (rewritten,
// race detector), "meta" (the build command, rewritten).
func (b *builder) build(variant string) (string, *buildInfo, error) {
	b.mu.Lock()
	if p, ok := b.bins[variant]; ok {
		i := b.info[variant]
		b.mu.Unlock()
		return p, i, nil
	}
	b.mu.Unlock()
	t0 := time.Now()
	levels := []int{2, 1}
	if variant == "plain" {
		levels = []int{0}
	}
	var lastErr error
	for _, lv := range levels {
		bin, info, err := b.buildLevel(variant, lv)
		if err == nil {
			b.mu.Lock()
			b.bins[variant] = bin
			b.info[variant] = info
			b.times[variant] = time.Since(t0).Seconds()
			b.mu.Unlock()
			return bin, info, nil
		}
		fmt.Fprintf(os.Stderr, "simdrv: building %s at instrumentation level %d: %v\n", variant, lv, err)
		lastErr = err
	}
	return "", nil, lastErr
}

func (b *builder) buildLevel(variant string, level int) (string, *buildInfo, error) {
	dir := filepath.Join(b.scratch, fmt.Sprintf("%s%d", variant, level))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", nil, err
	}
	overlay := map[string]string{}
	info := &buildInfo{level: level}
	if level > 0 {
		rw := &rewriter{variant: variant, repo: b.repo, mod: b.mod, out: dir, level: level, overlay: overlay, stats: map[string]int{}}
		if err := rw.run(b.pkgs); err != nil {
			return "", nil, err
		}
		info.stats, info.sites, info.warns = rw.stats, rw.sites, rw.warnings
	}
	// the simulator runtime and harness, with import paths of this module
	root := filepath.Join(b.verif, "overlay", "zzsim")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		if rel == filepath.Join("meta", "zz_sim.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		dst := filepath.Join(dir, "zzsim", rel)
		os.MkdirAll(filepath.Dir(dst), 0o755)
		src = bytes.ReplaceAll(src, []byte("github.com/nyaruka/phonenumbers/v2"), []byte(b.mod))
		if err := os.WriteFile(dst, src, 0o644); err != nil {
			return err
		}
		overlay[filepath.Join(b.repo, "internal", "zzsim", rel)] = dst
		return nil
	})
	if err != nil {
		return "", nil, err
	}
	target := "./internal/zzsim/run"
	if variant == "meta" {
		src, err := os.ReadFile(filepath.Join(root, "meta", "zz_sim.go"))
		if err != nil {
			return "", nil, err
		}
		dst := filepath.Join(dir, "zz_sim.go")
		src = bytes.ReplaceAll(src, []byte("github.com/nyaruka/phonenumbers/v2"), []byte(b.mod))
		if err := os.WriteFile(dst, src, 0o644); err != nil {
			return "", nil, err
		}
		overlay[filepath.Join(b.repo, "cmd", "buildmetadata", "zz_sim.go")] = dst
		target = "./cmd/buildmetadata"
	}
	args := []string{"build"}
	if variant == "race" {
		args = append(args, "-race")
		quietPool(dir, overlay)
	}
	ov, _ := json.Marshal(map[string]any{"Replace": overlay})
	ovf := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		return "", nil, err
	}
	bin := filepath.Join(dir, "sim.bin")
	args = append(args, "-overlay", ovf, "-o", bin, target)
	cmd := exec.Command("go", args...)
	cmd.Dir = b.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		s := string(out)
		if len(s) > 4000 {
			s = s[:4000]
		}
		return "", nil, fmt.Errorf("go build: %v\n%s", err, s)
	}
	return bin, info, nil
}

// quietPool makes the standard library's sync.Pool keep nothing in race builds: which
// goroutine gets which pooled object is not under the scheduler's control there, and
// every reuse would add an accidental ordering that hides races.
func quietPool(dir string, overlay map[string]string) {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return
	}
	p := filepath.Join(strings.TrimSpace(string(out)), "src", "sync", "pool.go")
	src, err := os.ReadFile(p)
	if err != nil {
		return
	}
	old := []byte("if runtime_randn(4) == 0 {")
	if bytes.Count(src, old) != 1 {
		return
	}
	src = bytes.Replace(src, old, []byte("if runtime_randn(4) < 4 {"), 1)
	dst := filepath.Join(dir, "pool.go")
	if os.WriteFile(dst, src, 0o644) == nil {
		overlay[p] = dst
	}
}

func siteName(info *buildInfo, id uint32) string {
	switch {
	case id >= 64 && int(id-64) < len(info.sites):
		return info.sites[id-64]
	case id == 0:
		return "start"
	case id == 1:
		return "sleep"
	case id == 2:
		return "task end"
	case id >= 10 && id <= 28:
		return "sync operation"
	case id >= 30 && id <= 35:
		return "channel operation"
	case id == 40:
		return "between calls"
	}
	return fmt.Sprint("point ", id)
}
