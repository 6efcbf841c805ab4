package checks

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// WriteNondetOverlay replaces, in every non-test file of the code under test,
// iteration over maps and go statements by calls of package nondet.
func WriteNondetOverlay(dir string) error {
	im, fset, err := loadModule()
	if err != nil {
		return err
	}
	repl := map[string]string{}
	var paths []string
	for p := range im.files {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, path := range paths {
		info := im.infos[path]
		for _, f := range im.files[path] {
			name := fset.Position(f.Pos()).Filename
			src, err := os.ReadFile(name)
			if err != nil {
				return err
			}
			off := func(p token.Pos) int { return fset.Position(p).Offset }
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			var es []goEdit
			site := func(n ast.Node) string {
				p := fset.Position(n.Pos())
				return fmt.Sprintf("%q", fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line))
			}
			nn := 0
			ast.Inspect(f, func(n ast.Node) bool {
				switch s := n.(type) {
				case *ast.RangeStmt:
					t := info.TypeOf(s.X)
					if t == nil {
						return true
					}
					if _, ok := t.Underlying().(*types.Map); !ok {
						return true
					}
					nn++
					e := fmt.Sprintf("ndE%d", nn)
					body := fmt.Sprintf(" if !%s.Live() { continue }; ", e)
					for i, x := range []ast.Expr{s.Key, s.Value} {
						if x == nil {
							continue
						}
						if id, ok := x.(*ast.Ident); ok && id.Name == "_" {
							continue
						}
						body += fmt.Sprintf("%s %s %s.%s; ", text(x), s.Tok, e, []string{"K", "V"}[i])
					}
					es = append(es, goEdit{off(s.For), off(s.X.Pos()), fmt.Sprintf("for _, %s := range nondet.Entries(%s, ", e, site(s))},
						goEdit{off(s.X.End()), off(s.X.End()), ")"},
						goEdit{off(s.Body.Lbrace) + 1, off(s.Body.Lbrace) + 1, body + "{ "},
						goEdit{off(s.Body.Rbrace), off(s.Body.Rbrace), " }"})
				case *ast.GoStmt:
					nn++
					es = append(es, goStmtEdits(s, info, off, text, nn, "nondet.Go("+site(s)+", ")...)
				}
				return true
			})
			if len(es) == 0 {
				continue
			}
			o := applyEdits(src, es)
			k := off(f.Name.End())
			o = o[:k] + "; import \"verifmc/nondet\"" + o[k:]
			dst := filepath.Join(dir, fmt.Sprintf("nd%d.go", len(repl)))
			if err := os.WriteFile(dst, []byte(o), 0o644); err != nil {
				return err
			}
			repl[name] = dst
		}
	}
	j, _ := json.Marshal(map[string]any{"Replace": repl})
	return os.WriteFile(filepath.Join(dir, "overlay.json"), j, 0o644)
}

type goEdit struct {
	at, end int
	s       string
}

func applyEdits(src []byte, es []goEdit) string {
	sort.SliceStable(es, func(i, j int) bool { return es[i].at < es[j].at })
	var out strings.Builder
	pos := 0
	for _, e := range es {
		if e.at < pos {
			continue // inside a rewritten argument
		}
		out.Write(src[pos:e.at])
		out.WriteString(e.s)
		pos = e.end
	}
	out.Write(src[pos:])
	return out.String()
}

// goStmtEdits turns a go statement into a call; its operands are evaluated
// where the statement was.
func goStmtEdits(s *ast.GoStmt, info *types.Info, off func(token.Pos) int, text func(ast.Node) string, nn int, call string) []goEdit {
	pre, args := "", ""
	for i, a := range s.Call.Args {
		tv := info.Types[a]
		if _, lit := a.(*ast.BasicLit); lit || tv.Value != nil || tv.IsNil() {
			args += text(a) + ", "
			continue
		}
		v := fmt.Sprintf("ndA%d_%d", nn, i)
		pre += v + " := " + text(a) + "; "
		args += v + ", "
	}
	if s.Call.Ellipsis != token.NoPos {
		args = strings.TrimSuffix(args, ", ") + "..."
	}
	return []goEdit{{off(s.Go), off(s.Call.Fun.Pos()), "{ " + pre + call + "func() { "},
		{off(s.Call.Lparen), off(s.Call.Rparen) + 1, "(" + args + ") }) }"}}
}

// goEdits are the edits that replace the go statements of each file.
func goEdits() (map[string][]goEdit, error) {
	im, fset, err := loadModule()
	if err != nil {
		return nil, err
	}
	o := map[string][]goEdit{}
	for path, fs := range im.files {
		for _, f := range fs {
			name := fset.Position(f.Pos()).Filename
			src, err := os.ReadFile(name)
			if err != nil {
				return nil, err
			}
			off := func(p token.Pos) int { return fset.Position(p).Offset }
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			nn := 0
			ast.Inspect(f, func(n ast.Node) bool {
				if s, ok := n.(*ast.GoStmt); ok {
					nn++
					o[name] = append(o[name], goStmtEdits(s, im.infos[path], off, text, nn, "verifGo.Go(")...)
				}
				return true
			})
		}
	}
	return o, nil
}

func loadModule() (*localImporter, *token.FileSet, error) {
	fset := token.NewFileSet()
	im := &localImporter{fset: fset, std: importer.ForCompiler(fset, "source", nil), done: map[string]*types.Package{}, files: map[string][]*ast.File{}, infos: map[string]*types.Info{}}
	b, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	if err != nil {
		return nil, nil, err
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			im.module = strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	err = filepath.Walk(repoDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && p != repoDir || fi.Name() == "testdata" {
				return filepath.SkipDir
			}
			rel, _ := filepath.Rel(repoDir, p)
			path := im.module
			if rel != "." {
				path += "/" + filepath.ToSlash(rel)
			}
			im.Import(path)
		}
		return nil
	})
	return im, fset, err
}

// localImporter type-checks the packages of the code under test and the
// standard library; other packages are empty (uses of them are left untyped).
type localImporter struct {
	fset   *token.FileSet
	std    types.Importer
	module string
	done   map[string]*types.Package
	files  map[string][]*ast.File
	infos  map[string]*types.Info
}

func (l *localImporter) Import(path string) (*types.Package, error) {
	if p := l.done[path]; p != nil {
		return p, nil
	}
	if path != l.module && !strings.HasPrefix(path, l.module+"/") {
		if !strings.Contains(strings.SplitN(path, "/", 2)[0], ".") {
			if p, err := l.std.Import(path); err == nil {
				l.done[path] = p
				return p, nil
			}
		}
		p := types.NewPackage(path, filepath.Base(path))
		p.MarkComplete()
		l.done[path] = p
		return p, nil
	}
	dir := filepath.Join(repoDir, strings.TrimPrefix(strings.TrimPrefix(path, l.module), "/"))
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	l.done[path] = types.NewPackage(path, filepath.Base(path)) // in case of a cycle
	var fs []*ast.File
	for _, e := range es {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		f, err := parser.ParseFile(l.fset, filepath.Join(dir, e.Name()), nil, parser.ParseComments)
		if err != nil {
			continue // the build reports it
		}
		fs = append(fs, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: l, Error: func(error) {}, FakeImportC: true}
	p, _ := conf.Check(path, l.fset, fs, info)
	if p != nil {
		l.done[path] = p
	}
	l.files[path], l.infos[path] = fs, info
	return l.done[path], nil
}
