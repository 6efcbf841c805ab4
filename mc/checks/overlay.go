package checks

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

const repoDir = "/repo"

// WriteOverlay replaces package sync by schedsync in every non-test file of the
// code under test, without touching the tree.
func WriteOverlay(dir string) error {
	repl := map[string]string{}
	var gos map[string][]goEdit // only asked for when there are go statements
	err := filepath.Walk(repoDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() && (strings.HasPrefix(fi.Name(), ".") && p != repoDir || fi.Name() == "testdata") {
			return filepath.SkipDir
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, b, 0)
		if err != nil {
			return nil // the build reports it
		}
		var es []goEdit
		spawns := false
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.GoStmt); ok {
				spawns = true
			}
			return true
		})
		if spawns {
			if gos == nil {
				if gos, err = goEdits(); err != nil {
					return err
				}
			}
			es = append(es, gos[p]...)
			k := fs.Position(f.Name.End()).Offset
			es = append(es, goEdit{k, k, `; import verifGo "verifmc/schedsync"`})
		}
		for _, im := range f.Imports {
			if im.Path.Value != `"sync"` {
				continue
			}
			o := fs.Position(im.Path.Pos()).Offset
			name := "sync "
			if im.Name != nil {
				name = ""
			}
			es = append(es, goEdit{o, o + len(im.Path.Value), name + `"verifmc/schedsync"`})
		}
		if len(es) > 0 {
			dst := filepath.Join(dir, fmt.Sprintf("ov%d.go", len(repl)))
			if err := os.WriteFile(dst, []byte(applyEdits(b, es)), 0o644); err != nil {
				return err
			}
			repl[p] = dst
		}
		return nil
	})
	if err != nil {
		return err
	}
	j, _ := json.Marshal(map[string]any{"Replace": repl})
	return os.WriteFile(filepath.Join(dir, "overlay.json"), j, 0o644)
}
