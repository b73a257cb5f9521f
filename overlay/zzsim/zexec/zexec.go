// Package zexec replaces os/exec: the only program of the simulated machine is git,
// against one simulated remote.
package zexec

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os/exec"
	"path"
	"sort"
	"strconv"
	"strings"

	"github.com/nyaruka/phonenumbers/v2/internal/zzsim/zos"
)

// Remote is tag -> tree.
var Remote = map[string]map[string][]byte{}

// Cmd is *exec.Cmd.
type Cmd struct {
	Path   string
	Args   []string
	Env    []string
	Dir    string
	Stdin  io.Reader
	Stdout io.Writer
	Stderr io.Writer
	Err    error
	Cancel func() error

	err  error
	done bool
}

// ExitError is what a failing command returns.
type ExitError struct {
	Code   int
	Stderr []byte
}

func (e *ExitError) Error() string { return fmt.Sprintf("exit status %d", e.Code) }
func (e *ExitError) ExitCode() int { return e.Code }

func Command(name string, args ...string) *Cmd {
	return &Cmd{Path: "/usr/bin/" + path.Base(name), Args: append([]string{name}, args...)}
}

func CommandContext(_ context.Context, name string, args ...string) *Cmd {
	return Command(name, args...)
}

func LookPath(name string) (string, error) {
	if name == "git" {
		return "/usr/bin/git", nil
	}
	return "", &exec.Error{Name: name, Err: exec.ErrNotFound}
}

func (c *Cmd) String() string { return strings.Join(c.Args, " ") }

func (c *Cmd) Start() error {
	if c.done {
		return fmt.Errorf("exec: already started")
	}
	c.done = true
	var so, se bytes.Buffer
	code := c.git(&so, &se)
	if c.Stdout != nil {
		c.Stdout.Write(so.Bytes())
	}
	if c.Stderr != nil {
		c.Stderr.Write(se.Bytes())
	}
	if code != 0 {
		c.err = &ExitError{Code: code, Stderr: se.Bytes()}
	}
	return nil
}

func (c *Cmd) Wait() error { return c.err }

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) Output() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout = &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) git(so, se *bytes.Buffer) int {
	args := c.Args[1:]
	dir := c.Dir
	if path.Base(c.Args[0]) != "git" {
		zos.Unsupported = "program " + c.Args[0]
		return 127
	}
	for len(args) > 0 && strings.HasPrefix(args[0], "-") {
		switch {
		case args[0] == "-C" && len(args) > 1:
			dir = path.Join(dir, args[1])
			args = args[2:]
		case args[0] == "-c" && len(args) > 1:
			args = args[2:]
		case args[0] == "--version":
			fmt.Fprintln(so, "git version 2.43.0")
			return 0
		default:
			args = args[1:]
		}
	}
	if len(args) == 0 {
		return 1
	}
	switch args[0] {
	case "version":
		fmt.Fprintln(so, "git version 2.43.0")
		return 0
	case "ls-remote":
		return lsRemote(args[1:], so, se)
	case "clone":
		return gitClone(dir, args[1:], se)
	}
	zos.Unsupported = "git " + args[0]
	return 1
}

func lsRemote(args []string, so, se *bytes.Buffer) int {
	v, err := zos.Step("ls-remote", "remote", false, true)
	if err != nil && v != 2 {
		fmt.Fprintln(se, "fatal: unable to access remote")
		return 128
	}
	var pos []string
	sortBy := "refname"
	for i := 0; i < len(args); i++ {
		switch a := args[i]; {
		case strings.HasPrefix(a, "--sort="):
			sortBy = a[7:]
		case a == "--sort" && i+1 < len(args):
			i++
			sortBy = args[i]
		case strings.HasPrefix(a, "-"):
		default:
			pos = append(pos, a)
		}
	}
	var tags []string
	for t := range Remote {
		ok := len(pos) < 2
		for _, p := range pos[min(1, len(pos)):] {
			if m, _ := path.Match(path.Base(p), t); m {
				ok = true
			}
		}
		if ok {
			tags = append(tags, t)
		}
	}
	sort.Strings(tags)
	desc := strings.HasPrefix(sortBy, "-")
	switch strings.TrimPrefix(sortBy, "-") {
	case "v:refname", "version:refname":
		sort.SliceStable(tags, func(i, j int) bool { return vless(tags[i], tags[j]) })
	}
	if desc {
		for i, j := 0, len(tags)-1; i < j; i, j = i+1, j-1 {
			tags[i], tags[j] = tags[j], tags[i]
		}
	}
	for _, t := range tags {
		fmt.Fprintf(so, "%040x\trefs/tags/%s\n", len(t)*7919, t)
	}
	if err != nil { // the connection broke before anything useful arrived
		so.Reset()
		fmt.Fprintln(se, "fatal: the remote end hung up unexpectedly")
		return 128
	}
	zos.Finish(v)
	return 0
}

func vless(a, b string) bool {
	x, y := strings.Split(strings.TrimLeft(a, "v"), "."), strings.Split(strings.TrimLeft(b, "v"), ".")
	for i := 0; i < len(x) && i < len(y); i++ {
		m, e1 := strconv.Atoi(x[i])
		n, e2 := strconv.Atoi(y[i])
		if e1 != nil || e2 != nil {
			if x[i] != y[i] {
				return x[i] < y[i]
			}
			continue
		}
		if m != n {
			return m < n
		}
	}
	return len(x) < len(y)
}

func gitClone(dir string, args []string, se *bytes.Buffer) int {
	var pos []string
	branch := ""
	for i := 0; i < len(args); i++ {
		switch a := args[i]; {
		case (a == "--branch" || a == "-b") && i+1 < len(args):
			i++
			branch = args[i]
		case strings.HasPrefix(a, "--branch="):
			branch = a[9:]
		case (a == "--depth" || a == "-c" || a == "--config" || a == "--filter" || a == "-o" || a == "--origin") && i+1 < len(args):
			i++
		case a == "--":
		case strings.HasPrefix(a, "-"):
		default:
			pos = append(pos, a)
		}
	}
	if len(pos) == 0 {
		return 129
	}
	dest := strings.TrimSuffix(path.Base(pos[0]), ".git")
	if len(pos) > 1 {
		dest = pos[1]
	}
	if !path.IsAbs(dest) && dir != "" {
		dest = path.Join(dir, dest)
	}
	if zos.NotEmpty(dest) {
		fmt.Fprintf(se, "fatal: destination path '%s' already exists and is not an empty directory.\n", dest)
		return 128
	}
	tree, ok := Remote[branch]
	if branch == "" {
		// the default branch is the newest release
		best := ""
		for t := range Remote {
			if strings.HasPrefix(t, "v") && (best == "" || vless(best, t)) {
				best = t
			}
		}
		tree, ok = Remote[best]
	}
	if !ok {
		fmt.Fprintf(se, "fatal: Remote branch %s not found in upstream origin\n", branch)
		return 128
	}
	if err := zos.Clone(dest, tree); err != nil {
		fmt.Fprintln(se, "fatal: early EOF")
		return 128
	}
	return 0
}
