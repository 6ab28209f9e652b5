// Command instr prepares a compiler overlay for the model checker: it type-checks the
// packages of the repository as they are now and rewrites, in copies, the places where
// the language or the runtime makes a choice, so that the checker makes it instead:
//
//   - iteration over maps (range, maps.Keys/Values/All, reflect MapRange/MapKeys),
//   - package sync and sync/atomic (scheduling points around every operation), and iter.Pull
//     (for the sake of the race detector, see rt/pull_race.go),
//   - go statements, along with package sync,
//   - optionally, in the packages given with -points, a scheduling point before every
//     statement.
//
// Where the packages use channels, condition variables or timers, which the scheduler does not
// know, synchronisation is left as it is and there are no points ("coarse").
//
// It adds no behaviour and removes none: with the default choices an instrumented
// program is a legal execution of the original. The overlay also places the runtime
// (rt) and the checker (mc) inside the module, so that they can import its internals.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Main bool }
}

type edit struct {
	off  int
	end  int
	text string
}

var rewriteSync bool

func main() {
	repo := flag.String("repo", "/repo", "repository root")
	verif := flag.String("verif", "/verif", "where rt and mc are")
	out := flag.String("out", "", "output directory")
	points := flag.String("points", "", "comma separated package directories (relative) to add statement points to")
	level := flag.Int("level", 2, "2: everything; 1: sync and points but no map order; 0: sources as they are")
	flag.BoolVar(&rewriteSync, "sync", true, "rewrite sync and sync/atomic")
	mcFiles := flag.String("mc", "", "comma separated files of mc to include (all if empty)")
	flag.Parse()
	if err := run(*repo, *verif, *out, *points, *level, *mcFiles); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

func run(repo, verif, out, points string, level int, mcFiles string) error {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Module", "./...")
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %w", err)
	}
	exports := map[string]string{}
	var mine []pkgInfo
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			mine = append(mine, p)
		}
	}
	mod, err := modulePath(filepath.Join(repo, "go.mod"))
	if err != nil {
		return err
	}
	rtPath := mod + "/internal/verifrt"
	pointDirs := map[string]bool{}
	for _, d := range strings.Split(points, ",") {
		if d != "" {
			pointDirs[filepath.Join(repo, d)] = true
		}
	}
	overlay := map[string]string{}
	stats := map[string]int{}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	if level == 0 && rewriteSync {
		stats["coarse"] = 1
	}
	if level > 0 {
		type parsed struct {
			pkgInfo
			files []*ast.File
			srcs  [][]byte
			info  *types.Info
		}
		var all []parsed
		coarse := false
		for _, p := range mine {
			var files []*ast.File
			srcs := [][]byte{}
			for _, name := range p.GoFiles {
				full := filepath.Join(p.Dir, name)
				src, err := os.ReadFile(full)
				if err != nil {
					return err
				}
				f, err := parser.ParseFile(fset, full, src, parser.ParseComments)
				if err != nil {
					return err
				}
				files = append(files, f)
				srcs = append(srcs, src)
			}
			info := &types.Info{
				Types: map[ast.Expr]types.TypeAndValue{},
				Uses:  map[*ast.Ident]types.Object{},
			}
			conf := types.Config{Importer: imp}
			if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
				return err
			}
			all = append(all, parsed{p, files, srcs, info})
			coarse = coarse || beyond(info)
		}
		if rewriteSync && coarse {
			rewriteSync = false
			clear(pointDirs)
			stats["coarse"] = 1
		}
		for _, p := range all {
			for i, f := range p.files {
				name := filepath.Join(p.Dir, p.GoFiles[i])
				text, changed := rewrite(fset, f, p.srcs[i], p.info, rtPath, pointDirs[p.Dir], level, stats)
				if !changed {
					continue
				}
				rel, _ := filepath.Rel(repo, name)
				dst := filepath.Join(out, "src", rel)
				if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
					return err
				}
				if err := os.WriteFile(dst, text, 0o644); err != nil {
					return err
				}
				overlay[name] = dst
			}
		}
	}
	addDir := func(from, to string, only map[string]bool) error {
		ents, err := os.ReadDir(from)
		if err != nil {
			return err
		}
		for _, e := range ents {
			if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			if only != nil && !only[e.Name()] {
				continue
			}
			overlay[filepath.Join(repo, to, e.Name())] = filepath.Join(from, e.Name())
		}
		return nil
	}
	for _, d := range [][2]string{{"rt", "internal/verifrt"}, {"rt/vsync", "internal/verifrt/vsync"}, {"rt/vatomic", "internal/verifrt/vatomic"}} {
		if err := addDir(filepath.Join(verif, d[0]), d[1], nil); err != nil {
			return err
		}
	}
	// What the runtime has to know.
	facts := filepath.Join(out, "facts.go")
	text := fmt.Sprintf("package verifrt\n\nfunc init() { Spawns, Coarse = %d, %v }\n", stats["spawns"], stats["coarse"] > 0)
	if err := os.WriteFile(facts, []byte(text), 0o644); err != nil {
		return err
	}
	overlay[filepath.Join(repo, "internal/verifrt/facts.go")] = facts
	var only map[string]bool
	if mcFiles != "" {
		only = map[string]bool{}
		for _, f := range strings.Split(mcFiles, ",") {
			only[f] = true
		}
	}
	if err := addDir(filepath.Join(verif, "mc"), "internal/verifmc", only); err != nil {
		return err
	}
	js, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), js, 0o644); err != nil {
		return err
	}
	sjs, _ := json.Marshal(stats)
	fmt.Println(string(sjs))
	return nil
}

func modulePath(gomod string) (string, error) {
	b, err := os.ReadFile(gomod)
	if err != nil {
		return "", err
	}
	for _, l := range strings.Split(string(b), "\n") {
		if s, ok := strings.CutPrefix(strings.TrimSpace(l), "module "); ok {
			return strings.Trim(strings.TrimSpace(s), `"`), nil
		}
	}
	return "", fmt.Errorf("no module line in %s", gomod)
}

// beyond reports whether a package synchronises by means the scheduler does not know.
func beyond(info *types.Info) bool {
	for _, tv := range info.Types {
		if tv.Type == nil {
			continue
		}
		if _, ok := tv.Type.Underlying().(*types.Chan); ok {
			return true
		}
	}
	for _, o := range info.Uses {
		if o.Pkg() == nil {
			continue
		}
		switch o.Pkg().Path() + "." + o.Name() {
		case "sync.Cond", "sync.NewCond", "runtime.Gosched",
			"time.Sleep", "time.After", "time.AfterFunc", "time.NewTimer", "time.Tick", "time.NewTicker",
			"context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.AfterFunc":
			return true
		}
	}
	return false
}

const alias = "verifrt__"

func rewrite(fset *token.FileSet, f *ast.File, src []byte, info *types.Info, rtPath string, addPoints bool, level int, stats map[string]int) ([]byte, bool) {
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	wrap := func(e ast.Expr, fn string) {
		edits = append(edits, edit{off(e.Pos()), off(e.Pos()), fn + "("}, edit{off(e.End()), off(e.End()), ")"})
	}
	usesRT := false
	usesMaps, usesIter := "", ""
	tail := ""
	isMap := func(e ast.Expr) bool {
		tv, ok := info.Types[e]
		if !ok || tv.Type == nil {
			return false
		}
		t := tv.Type
		if tp, ok := t.(*types.TypeParam); ok {
			t = tp.Constraint()
			if core := coreMap(t); core {
				return true
			}
			return false
		}
		_, ok = t.Underlying().(*types.Map)
		return ok
	}
	pkgOf := func(sel *ast.SelectorExpr) string {
		id, ok := sel.X.(*ast.Ident)
		if !ok {
			return ""
		}
		pn, ok := info.Uses[id].(*types.PkgName)
		if !ok {
			return ""
		}
		return pn.Imported().Path()
	}
	stmts := func(list []ast.Stmt) {
		if !addPoints {
			return
		}
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			edits = append(edits, edit{off(s.Pos()), off(s.Pos()), alias + ".P();"})
			stats["points"]++
			usesRT = true
		}
	}
	for _, im := range f.Imports {
		if !rewriteSync {
			break
		}
		path := strings.Trim(im.Path.Value, `"`)
		var to string
		switch path {
		case "sync":
			to = rtPath + "/vsync"
		case "sync/atomic":
			to = rtPath + "/vatomic"
		default:
			continue
		}
		name := filepath.Base(path)
		if im.Name != nil {
			name = im.Name.Name
		}
		edits = append(edits, edit{off(im.Pos()), off(im.End()), fmt.Sprintf("%s %q", name, to)})
		stats["sync_imports"]++
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.RangeStmt:
			if level >= 2 && isMap(n.X) {
				wrap(n.X, alias+".Map")
				usesRT = true
				stats["map_ranges"]++
			}
		case *ast.CallExpr:
			if level < 2 {
				return true
			}
			sel, ok := n.Fun.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			if pkgOf(sel) == "maps" {
				to := map[string]string{"Keys": "Keys", "Values": "Values", "All": "Map"}[sel.Sel.Name]
				if to != "" {
					edits = append(edits, edit{off(sel.Pos()), off(sel.End()), alias + "." + to})
					usesRT = true
					usesMaps = sel.X.(*ast.Ident).Name
					stats["map_iterators"]++
				}
				return true
			}
			if (sel.Sel.Name == "MapRange" || sel.Sel.Name == "MapKeys") && len(n.Args) == 0 {
				if tv, ok := info.Types[sel.X]; ok && tv.Type != nil && tv.Type.String() == "reflect.Value" {
					// X.MapRange() -> verifrt.MapRange(X)
					edits = append(edits,
						edit{off(sel.X.Pos()), off(sel.X.Pos()), alias + "." + sel.Sel.Name + "("},
						edit{off(sel.X.End()), off(n.End()), ")"})
					usesRT = true
					stats["reflect_map_iterators"]++
				}
			}
		case *ast.SelectorExpr:
			if rewriteSync && n.Sel.Name == "Pull" && pkgOf(n) == "iter" {
				edits = append(edits, edit{off(n.Pos()), off(n.End()), alias + ".Pull"})
				usesRT = true
				usesIter = n.X.(*ast.Ident).Name
				stats["pulls"]++
			}
		case *ast.GoStmt:
			if rewriteSync {
				edits = append(edits, spawn(n, info, off)...)
				usesRT = true
				stats["spawns"]++
			}
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		}
		return true
	})
	// A switch or select body is a block whose statements are clauses: no points there.
	if addPoints {
		clause := map[int]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.CaseClause:
				clause[off(n.Pos())] = true
			case *ast.CommClause:
				clause[off(n.Pos())] = true
			}
			return true
		})
		kept := edits[:0]
		for _, e := range edits {
			if e.text == alias+".P();" && clause[e.off] {
				stats["points"]--
				continue
			}
			kept = append(kept, e)
		}
		edits = kept
	}
	if usesMaps != "" {
		tail = fmt.Sprintf("\nvar _ = %s.Clone[map[int]int]\n", usesMaps)
	}
	if usesIter != "" {
		tail += fmt.Sprintf("\nvar _ %s.Seq[int]\n", usesIter)
	}
	if len(edits) == 0 {
		return nil, false
	}
	if usesRT {
		edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), fmt.Sprintf("; import %s %q", alias, rtPath)})
	}
	// Stable by offset: at equal offsets, edits added by outer nodes come first.
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var out bytes.Buffer
	at := 0
	for _, e := range edits {
		if e.off < at { // overlapping edits: give up on this one
			continue
		}
		out.Write(src[at:e.off])
		out.WriteString(e.text)
		at = e.end
	}
	out.Write(src[at:])
	out.WriteString(tail)
	return out.Bytes(), true
}

// spawn has the runtime start what a go statement starts: the function and the arguments are
// evaluated first, but for constants.
func spawn(n *ast.GoStmt, info *types.Info, off func(token.Pos) int) []edit {
	call := n.Call
	tv := info.Types[call.Fun]
	_, fn := tv.Type.(*types.Signature)
	lazy := !fn || tv.IsBuiltin() || tv.IsType()
	for _, a := range call.Args {
		at := info.Types[a]
		_, tuple := at.Type.(*types.Tuple)
		lazy = lazy || tuple || at.IsNil() || at.Value != nil
	}
	switch {
	case len(call.Args) == 0 && !lazy:
		return []edit{
			{off(n.Pos()), off(call.Fun.Pos()), alias + ".Go("},
			{off(call.Fun.End()), off(call.End()), ")"},
		}
	case lazy:
		return []edit{
			{off(n.Pos()), off(call.Pos()), alias + ".Go(func() { "},
			{off(call.End()), off(call.End()), " })"},
		}
	}
	vars, args := "v__f", ""
	for i := range call.Args {
		vars += fmt.Sprintf(", v__%d", i)
		args += fmt.Sprintf("v__%d", i)
		if i+1 < len(call.Args) {
			args += ", "
		} else if call.Ellipsis.IsValid() {
			args += "..."
		}
	}
	return []edit{
		{off(n.Pos()), off(call.Fun.Pos()), "{ " + vars + " := "},
		{off(call.Fun.End()), off(call.Args[0].Pos()), ", "},
		{off(call.Args[len(call.Args)-1].End()), off(call.End()), "; " + alias + ".Go(func() { v__f(" + args + ") }) }"},
	}
}

func coreMap(t types.Type) bool {
	iface, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	found := false
	for i := 0; i < iface.NumEmbeddeds(); i++ {
		switch e := iface.EmbeddedType(i).(type) {
		case *types.Union:
			for j := 0; j < e.Len(); j++ {
				if _, ok := e.Term(j).Type().Underlying().(*types.Map); ok {
					found = true
				}
			}
		default:
			if _, ok := e.Underlying().(*types.Map); ok {
				found = true
			}
		}
	}
	return found
}
