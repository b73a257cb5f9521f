package main

// The source rewriter: turns the current Go files of the repository into simulated
// ones. It works on byte offsets and keeps every statement on its original line.
// It depends on nothing but the Go language: no identifier of the repository is
// named here.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	Dir        string
	ImportPath string
	Name       string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Path string }
}

type edit struct {
	off, end int
	text     string
	ord      int
}

type rewriter struct {
	repo     string
	mod      string
	out      string // scratch dir for rewritten files
	variant  string
	level    int // 2: everything, 1: seams without per-statement points
	overlay  map[string]string
	sites    []string // site id -> position
	fset     *token.FileSet
	stats    map[string]int
	warnings []string
}

func goEnv(extra ...string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GORACE=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=readonly", "GOWORK=off", "GOTOOLCHAIN=local", "GOPROXY=off")
	return append(env, extra...)
}

func listPackages(repo string) ([]*listPkg, error) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=Dir,ImportPath,Name,Export,GoFiles,Standard,Module", "./...")
	cmd.Dir = repo
	cmd.Env = goEnv()
	var errb bytes.Buffer
	cmd.Stderr = &errb
	b, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, errb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	var out []*listPkg
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		out = append(out, p)
	}
	return out, nil
}

const simPath = "/internal/zzsim"

func (rw *rewriter) run(pkgs []*listPkg) error {
	exports := map[string]string{}
	for _, p := range pkgs {
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
	}
	rw.fset = token.NewFileSet()
	imp := importer.ForCompiler(rw.fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	for _, p := range pkgs {
		if p.Module == nil || p.Module.Path != rw.mod {
			continue
		}
		if err := rw.pkg(p, imp); err != nil {
			return fmt.Errorf("%s: %w", p.ImportPath, err)
		}
	}
	return nil
}

func (rw *rewriter) pkg(p *listPkg, imp types.Importer) error {
	var files []*ast.File
	var names []string
	srcs := map[string][]byte{}
	for _, f := range p.GoFiles {
		full := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(full)
		if err != nil {
			return err
		}
		af, err := parser.ParseFile(rw.fset, full, src, parser.ParseComments)
		if err != nil {
			return err
		}
		files = append(files, af)
		names = append(names, full)
		srcs[full] = src
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp, Error: func(error) {}}
	conf.Check(p.ImportPath, rw.fset, files, info)
	for i, af := range files {
		if strings.HasSuffix(names[i], ".pb.go") {
			continue
		}
		rel, _ := filepath.Rel(rw.repo, names[i])
		out, err := rw.file(p, af, rel, srcs[names[i]], info)
		if err != nil {
			return fmt.Errorf("%s: %w", rel, err)
		}
		dst := filepath.Join(rw.out, "src", rel)
		os.MkdirAll(filepath.Dir(dst), 0o755)
		if err := os.WriteFile(dst, out, 0o644); err != nil {
			return err
		}
		rw.overlay[names[i]] = dst
		rw.stats["files"]++
	}
	return nil
}

// packages whose import path is replaced wholesale
var swapImports = map[string]string{
	"sync":          "zsync",
	"compress/gzip": "zgzip",
	"hash/maphash":  "zmaphash",
}

// selector-level replacements: import path -> (replacement package, selectors, keep-alive symbol)
type selSwap struct {
	pkg  string
	sels map[string]bool
	keep string
	only string // only in this build variant, "" = all
}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Fields(s) {
		m[x] = true
	}
	return m
}

var selSwaps = map[string]selSwap{
	"time":         {"ztime", set("Now Since Until Sleep After Tick NewTimer NewTicker AfterFunc Timer Ticker"), "Second", ""},
	"math/rand":    {"zrand", set("Int Int63 Int31 Uint32 Uint64 Intn Int63n Int31n Float64 Float32 Seed Perm Shuffle"), "NewSource", ""},
	"math/rand/v2": {"zrand", set("Int Int64 Int32 Uint32 Uint64 IntN Int64N Int32N Float64 Float32 Perm Shuffle"), "NewPCG", ""},
	"os": {"zos", set("ReadFile WriteFile RemoveAll Remove Rename MkdirAll Mkdir Stat Lstat ReadDir Open Create OpenFile Exit MkdirTemp CreateTemp Chdir Getwd DirFS Truncate Chmod TempDir Link Symlink SameFile File CopyFS Stdin Stdout Stderr"),
		"ErrNotExist", "meta"},
	// everywhere else the process environment is the simulator's
	"os!":     {"zenv", set("Getenv LookupEnv Environ ExpandEnv Getpid Getppid Hostname Getuid Executable UserHomeDir Getwd"), "ErrNotExist", ""},
	"runtime": {"zenv", set("NumCPU NumGoroutine GOMAXPROCS Gosched"), "GOOS", ""},

	"os/exec":       {"zexec", set("Command CommandContext LookPath Cmd ExitError"), "ErrNotFound", "meta"},
	"path/filepath": {"zfilepath", set("Glob Walk WalkDir Abs EvalSymlinks"), "Separator", "meta"},
	"io/ioutil":     {"zos", set("ReadFile WriteFile"), "Discard", "meta"},
}

func (rw *rewriter) file(p *listPkg, af *ast.File, rel string, src []byte, info *types.Info) ([]byte, error) {
	tf := rw.fset.File(af.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }
	var edits []edit
	ord := 0
	add := func(a, b int, text string) {
		ord++
		edits = append(edits, edit{a, b, text, ord})
	}
	ins := func(p token.Pos, text string) { add(off(p), off(p), text) }
	sim := rw.mod + simPath
	dir := filepath.ToSlash(filepath.Dir(rel))
	header := fmt.Sprintf("; import zzsim %q", sim)
	var footer []string
	footer = append(footer, "var _ = zzsim.Y")
	usedSim := map[string]bool{}

	// embed declarations
	embedName := ""
	embedVars := map[*ast.ValueSpec]string{}
	for _, d := range af.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, s := range gd.Specs {
			vs := s.(*ast.ValueSpec)
			for _, doc := range []*ast.CommentGroup{vs.Doc, gd.Doc} {
				if doc == nil || (doc == gd.Doc && len(gd.Specs) != 1) {
					continue
				}
				for _, c := range doc.List {
					if strings.HasPrefix(c.Text, "//go:embed ") && len(vs.Names) == 1 {
						embedVars[vs] = strings.Fields(c.Text)[1]
					}
				}
			}
		}
	}

	// imports
	selName := map[string]string{} // local package name -> import path, for selector swaps
	for _, is := range af.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		local := ""
		if is.Name != nil {
			local = is.Name.Name
		}
		if np, ok := swapImports[path]; ok && local != "_" && local != "." {
			name := filepath.Base(path)
			if local != "" {
				name = local
			}
			add(off(is.Pos()), off(is.End()), fmt.Sprintf("%s %q", name, sim+"/"+np))
			rw.stats["import "+path]++
			continue
		}
		if path == "embed" && local != "_" {
			embedName = "embed"
			if local != "" {
				embedName = local
			}
			add(off(is.Pos()), off(is.End()), fmt.Sprintf("%s %q", embedName, sim+"/zembed"))
			header += `; import zzrealembed "embed"`
			footer = append(footer, "var _ zzrealembed.FS", "var _ "+embedName+".FS")
			continue
		}
		key := path
		if path == "os" && rw.variant != "meta" && !strings.HasPrefix(dir, "cmd/") {
			key = "os!"
		}
		if sw, ok := selSwaps[key]; ok && local != "_" && local != "." {
			if sw.only != "" && (sw.only != rw.variant || (strings.HasPrefix(dir, "cmd/") && dir != "cmd/buildmetadata")) {
				continue
			}
			name := filepath.Base(path)
			if name == "v2" {
				name = "rand"
			}
			if local != "" {
				name = local
			}
			selName[name] = key
			footer = append(footer, "var _ = "+name+"."+sw.keep)
		}
		if path == "maps" && (local == "" || local == "maps") {
			selName["maps"] = "maps"
			footer = append(footer, "var _ = maps.Equal[map[int]int, map[int]int]")
		}
	}

	// rewrite embed declarations
	for vs, pat := range embedVars {
		name := vs.Names[0].Name
		tsrc := string(src[off(vs.Type.Pos()):off(vs.Type.End())])
		full := dir + "/" + pat
		switch t := vs.Type.(type) {
		case *ast.SelectorExpr:
			if id, ok := t.X.(*ast.Ident); ok && embedName != "" && id.Name == embedName {
				repl := fmt.Sprintf("zzEmb_%s zzrealembed.FS; var %s = %s.Wrap(%q, zzEmb_%s)", name, name, embedName, dir, name)
				if inGroup(af, vs) {
					repl = fmt.Sprintf("zzEmb_%s zzrealembed.FS; %s = %s.Wrap(%q, zzEmb_%s)", name, name, embedName, dir, name)
				}
				add(off(vs.Pos()), off(vs.End()), repl)
				rw.stats["embed.FS"]++
			}
		default:
			fn := "EmbeddedBytes"
			if tsrc == "string" {
				fn = "EmbeddedString"
			}
			v := "var "
			if inGroup(af, vs) {
				v = ""
			}
			add(off(vs.Pos()), off(vs.End()), fmt.Sprintf("zzEmb_%s %s; %s%s %s = zzsim.%s(%q, zzEmb_%s)", name, tsrc, v, name, tsrc, fn, full, name))
			rw.stats["embed bytes"]++
		}
	}

	isPkg := func(id *ast.Ident) bool {
		o, ok := info.Uses[id]
		if !ok {
			return true
		}
		_, isP := o.(*types.PkgName)
		return isP
	}
	typeOf := func(e ast.Expr) types.Type {
		if tv, ok := info.Types[e]; ok && tv.Type != nil {
			return tv.Type
		}
		return nil
	}
	isMap := func(e ast.Expr) bool {
		t := typeOf(e)
		if t == nil {
			return false
		}
		_, ok := t.Underlying().(*types.Map)
		return ok
	}
	isChan := func(e ast.Expr) bool {
		t := typeOf(e)
		if t == nil {
			return false
		}
		_, ok := t.Underlying().(*types.Chan)
		return ok
	}
	site := func(pos token.Pos) int {
		ps := rw.fset.Position(pos)
		rw.sites = append(rw.sites, fmt.Sprintf("%s:%d", rel, ps.Line))
		return len(rw.sites) - 1 + 64
	}
	stmtList := func(list []ast.Stmt) {
		if rw.level < 2 {
			return
		}
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			ins(s.Pos(), fmt.Sprintf("zzsim.Y(%d); ", site(s.Pos())))
			rw.stats["points"]++
		}
	}
	var inSelectComm = map[ast.Node]bool{}
	// swap returns what a selector of a simulated package becomes.
	swap := func(x *ast.SelectorExpr) (string, bool) {
		id, ok := x.X.(*ast.Ident)
		if !ok {
			return "", false
		}
		path, ok := selName[id.Name]
		if !ok || !isPkg(id) {
			return "", false
		}
		if path == "maps" {
			m := map[string]string{"Keys": "MapKeys", "Values": "MapValues", "All": "MapRange"}
			if r, ok := m[x.Sel.Name]; ok {
				rw.stats["map ranges"]++
				return "zzsim." + r, true
			}
			return "", false
		}
		sw := selSwaps[path]
		if sw.sels[x.Sel.Name] {
			usedSim[sw.pkg] = true
			rw.stats[path+"."+x.Sel.Name]++
			return "zz" + sw.pkg + "." + x.Sel.Name, true
		}
		return "", false
	}
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			// the body of a switch/select consists of clauses, handled below
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			stmtList(x.List)
		case *ast.CaseClause:
			stmtList(x.Body)
		case *ast.CommClause:
			if x.Comm != nil {
				ast.Inspect(x.Comm, func(m ast.Node) bool {
					if m != nil {
						inSelectComm[m] = true
					}
					return true
				})
			}
			stmtList(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				ins(x.Body.Lbrace+1, fmt.Sprintf("zzsim.Y(%d)", site(x.Pos())))
			}
		case *ast.RangeStmt:
			switch {
			case isMap(x.X):
				blank := func(e ast.Expr) bool {
					id, ok := e.(*ast.Ident)
					return e == nil || (ok && id.Name == "_")
				}
				fn := "MapRange"
				if x.Key == nil {
					fn = "MapCount"
				} else if x.Value == nil {
					fn = "MapKeys"
					if blank(x.Key) {
						fn = "MapKeys"
					}
				}
				ins(x.X.Pos(), "zzsim."+fn+"(")
				ins(x.X.End(), ")")
				rw.stats["map ranges"]++
			case isChan(x.X):
				ins(x.X.Pos(), "zzsim.RangeChan(")
				ins(x.X.End(), ")")
				rw.stats["chan ops"]++
			}
		case *ast.SendStmt:
			if !inSelectComm[x] {
				ins(x.Pos(), "zzsim.Send(")
				add(off(x.Arrow), off(x.Arrow)+2, ",")
				ins(x.End(), ")")
				rw.stats["chan ops"]++
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := x.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW && !inSelectComm[u] {
					inSelectComm[u] = true
					add(off(u.OpPos), off(u.OpPos)+2, "zzsim.Recv2(")
					ins(u.End(), ")")
					rw.stats["chan ops"]++
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !inSelectComm[x] {
				add(off(x.OpPos), off(x.OpPos)+2, "zzsim.Recv(")
				ins(x.End(), ")")
				rw.stats["chan ops"]++
			}
		case *ast.SelectStmt:
			hasDefault, cont := false, false
			for _, c := range x.Body.List {
				if c.(*ast.CommClause).Comm == nil {
					hasDefault = true
				}
			}
			ast.Inspect(x.Body, func(m ast.Node) bool {
				switch b := m.(type) {
				case *ast.BranchStmt:
					if b.Tok == token.CONTINUE && b.Label == nil {
						cont = true
					}
				case *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit:
					return false
				}
				return true
			})
			if head, clauses, ok := rw.selectCases(af, x, src, off, info, p.ImportPath, swap); ok {
				add(off(x.Select), off(x.Body.Lbrace), head)
				for i, c := range x.Body.List {
					cc := c.(*ast.CommClause)
					add(off(cc.Case), off(cc.Colon)+1, clauses[i])
				}
				rw.stats["selects"]++
				// the communications are replaced, the bodies still need their rewriting
				for _, c := range x.Body.List {
					cc := c.(*ast.CommClause)
					stmtList(cc.Body)
					for _, b := range cc.Body {
						ast.Inspect(b, visit)
					}
				}
				return false
			}
			if !hasDefault && !cont && len(x.Body.List) > 0 {
				ins(x.Pos(), "for { ")
				ins(x.Body.Rbrace, "default: zzsim.SelectIdle(); continue; ")
				ins(x.End(), "; break }")
				rw.stats["chan ops"]++
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && len(x.Args) == 1 && isChan(x.Args[0]) {
				add(off(id.Pos()), off(id.End()), "zzsim.CloseChan")
				rw.stats["chan ops"]++
			}
		case *ast.GoStmt:
			if fl, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
				add(off(x.Go), off(fl.Pos()), "zzsim.Go(")
				add(off(x.Call.Lparen), off(x.Call.Rparen)+1, ")")
				rw.stats["go statements"]++
			} else {
				// evaluate the function and its arguments now, run it as a task
				text := "{ "
				pre, call := []string{}, []string{}
				okv := x.Call.Ellipsis == token.NoPos
				for i, a := range x.Call.Args {
					s := string(src[off(a.Pos()):off(a.End())])
					tv, has := info.Types[a]
					if has && tv.Value == nil && !tv.IsNil() {
						pre = append(pre, fmt.Sprintf("zzarg%d := %s", i, s))
						call = append(call, fmt.Sprintf("zzarg%d", i))
					} else {
						call = append(call, s)
					}
				}
				if okv {
					f := string(src[off(x.Call.Fun.Pos()):off(x.Call.Fun.End())])
					pre = append(pre, "zzfn := "+f)
					text += strings.Join(pre, "; ") + "; zzsim.Go(func() { zzfn(" + strings.Join(call, ", ") + ") }) }"
					add(off(x.Pos()), off(x.End()), text)
					rw.stats["go statements"]++
					return false
				}
			}
		case *ast.SelectorExpr:
			if t, ok := swap(x); ok {
				add(off(x.Pos()), off(x.End()), t)
			}
		}
		return true
	}
	ast.Inspect(af, visit)
	// the command under simulation: its main becomes a callable function
	if rw.variant == "meta" && p.Name == "main" && dir == "cmd/buildmetadata" {
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				add(off(fd.Name.Pos()), off(fd.Name.End()), "zzOrigMain")
			}
		}
	}
	var us []string
	for u := range usedSim {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		header += fmt.Sprintf("; import zz%s %q", u, sim+"/"+u)
	}
	add(off(af.Name.End()), off(af.Name.End()), header)
	out, err := apply(src, edits)
	if err != nil {
		return nil, err
	}
	out = append(out, []byte("\n"+strings.Join(footer, "\n")+"\n")...)
	return out, nil
}

// selectCases rewrites a select statement to a switch over the simulator's choice. It
// declines where a received value's type cannot be written down or a channel expression
// itself needs rewriting.
func (rw *rewriter) selectCases(af *ast.File, x *ast.SelectStmt, src []byte, off func(token.Pos) int, info *types.Info, self string, swap func(*ast.SelectorExpr) (string, bool)) (string, []string, bool) {
	text := func(e ast.Node) string { return string(src[off(e.Pos()):off(e.End())]) }
	plain := true
	expr := func(e ast.Expr) string {
		var eds []edit
		base := off(e.Pos())
		ast.Inspect(e, func(m ast.Node) bool {
			switch y := m.(type) {
			case *ast.FuncLit:
				plain = false
			case *ast.UnaryExpr:
				if y.Op == token.ARROW {
					plain = false
				}
			case *ast.SelectorExpr:
				if t, ok := swap(y); ok {
					eds = append(eds, edit{off(y.Pos()) - base, off(y.End()) - base, t, len(eds)})
				}
			}
			return plain
		})
		out, err := apply([]byte(text(e)), eds)
		if err != nil {
			plain = false
		}
		return string(out)
	}
	elem := func(ch ast.Expr) string {
		tv, ok := info.Types[ch]
		if !ok || tv.Type == nil {
			plain = false
			return ""
		}
		c, ok := tv.Type.Underlying().(*types.Chan)
		if !ok {
			plain = false
			return ""
		}
		return types.TypeString(c.Elem(), func(p *types.Package) string {
			if p.Path() == self {
				return ""
			}
			for _, is := range af.Imports {
				if path, _ := strconv.Unquote(is.Path.Value); path == p.Path() {
					if is.Name != nil {
						return is.Name.Name
					}
					return p.Name()
				}
			}
			plain = false
			return p.Name()
		})
	}
	def := false
	var args, clauses []string
	i := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		recv := func(e ast.Expr) (*ast.UnaryExpr, bool) {
			for {
				if p, ok := e.(*ast.ParenExpr); ok {
					e = p.X
					continue
				}
				u, ok := e.(*ast.UnaryExpr)
				return u, ok && u.Op == token.ARROW
			}
		}
		switch s := cc.Comm.(type) {
		case nil:
			def = true
			clauses = append(clauses, "default:")
			continue
		case *ast.SendStmt:
			args = append(args, "zzsim.SelSend("+expr(s.Chan)+", "+expr(s.Value)+")")
			clauses = append(clauses, fmt.Sprintf("case %d:", i))
		case *ast.ExprStmt:
			u, ok := recv(s.X)
			if !ok {
				return "", nil, false
			}
			args = append(args, "zzsim.SelRecv("+expr(u.X)+")")
			clauses = append(clauses, fmt.Sprintf("case %d:", i))
		case *ast.AssignStmt:
			u, ok := recv(s.Rhs[0])
			if !ok {
				return "", nil, false
			}
			args = append(args, "zzsim.SelRecv("+expr(u.X)+")")
			fn := "SelVal"
			lhs := text(s.Lhs[0])
			if len(s.Lhs) == 2 {
				fn = "SelVal2"
				lhs += ", " + text(s.Lhs[1])
			}
			clauses = append(clauses, fmt.Sprintf("case %d: %s %s zzsim.%s[%s](zzsel);", i, lhs, s.Tok, fn, elem(u.X)))
		default:
			return "", nil, false
		}
		i++
	}
	if !plain || len(args) == 0 {
		return "", nil, false
	}
	if !def { // a select without default ends a function, a switch needs one for that
		k := len(clauses) - 1
		clauses[k] = strings.Replace(clauses[k], fmt.Sprintf("case %d:", i-1), "default:", 1)
	}
	return fmt.Sprintf("switch zzsel := zzsim.Sel(%v, %s); zzsel.I ", def, strings.Join(args, ", ")), clauses, true
}

func inGroup(af *ast.File, vs *ast.ValueSpec) bool {
	for _, d := range af.Decls {
		if gd, ok := d.(*ast.GenDecl); ok {
			for _, s := range gd.Specs {
				if s == vs {
					return gd.Lparen.IsValid()
				}
			}
		}
	}
	return false
}

// apply performs the edits; insertions at the same offset keep their order, and an
// edit nested in an earlier replacement is dropped.
func apply(src []byte, edits []edit) ([]byte, error) {
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		// closing insertions (of inner nodes) come in reverse order of opening; at one
		// offset a pure insertion precedes a replacement
		ri, rj := edits[i].end > edits[i].off, edits[j].end > edits[j].off
		if ri != rj {
			return !ri
		}
		return edits[i].ord < edits[j].ord
	})
	var out bytes.Buffer
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			if e.end <= pos {
				continue
			}
			return nil, fmt.Errorf("overlapping edits at offset %d", e.off)
		}
		out.Write(src[pos:e.off])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(src[pos:])
	return out.Bytes(), nil
}
