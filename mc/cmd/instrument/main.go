// Command instrument writes an instrumented copy of the packages of the
// repository (a yield before every statement, a controlled order for every
// range over a map) and the overlay that makes the go command build it.
//
//	instrument -out DIR    writes DIR/overlay.json and the files it names
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkg struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
}

type edit struct {
	lo, hi int
	text   string
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(1)
	}
}

func main() {
	out := flag.String("out", "", "output directory")
	module := flag.String("module", "mk-lattigo", "module to instrument")
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,Export", *module+"/...")
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	die(err)
	exports := map[string]string{}
	var pkgs []pkg
	dec := json.NewDecoder(strings.NewReader(string(b)))
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else {
			die(err)
		}
		exports[p.ImportPath] = p.Export
		if p.ImportPath == *module || strings.HasPrefix(p.ImportPath, *module+"/") {
			pkgs = append(pkgs, p)
		}
	}
	site := 0
	replace := map[string]string{}
	var sites []string
	ranges := 0
	for _, p := range pkgs {
		if len(p.GoFiles) == 0 {
			continue
		}
		fset := token.NewFileSet()
		var files []*ast.File
		var src [][]byte
		for _, f := range p.GoFiles {
			b, err := os.ReadFile(filepath.Join(p.Dir, f))
			die(err)
			a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), b, parser.ParseComments)
			die(err)
			files, src = append(files, a), append(src, b)
		}
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			if exports[path] == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(exports[path])
		})
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Importer: imp}
		_, err := conf.Check(p.ImportPath, fset, files, info)
		die(err)
		for n, a := range files {
			off := func(p token.Pos) int { return fset.Position(p).Offset }
			text := func(e ast.Node) string { return string(src[n][off(e.Pos()):off(e.End())]) }
			var edits []edit
			stmts := func(l []ast.Stmt) {
				for _, s := range l {
					switch s.(type) {
					case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
						continue
					}
					edits = append(edits, edit{off(s.Pos()), off(s.Pos()), fmt.Sprintf("verifRt__.Y(%d); ", site)})
					sites = append(sites, fset.Position(s.Pos()).String())
					site++
				}
			}
			ast.Inspect(a, func(x ast.Node) bool {
				switch x := x.(type) {
				case *ast.BlockStmt:
					stmts(x.List)
				case *ast.CaseClause:
					stmts(x.Body)
				case *ast.CommClause:
					stmts(x.Body)
				case *ast.RangeStmt:
					t := info.Types[x.X].Type
					if t == nil {
						break
					}
					if _, ok := t.Underlying().(*types.Map); !ok {
						break
					}
					ranges++
					var l, r []string
					kv := ""
					if id, ok := x.Key.(*ast.Ident); x.Key != nil && !(ok && id.Name == "_") {
						l, r = append(l, text(x.Key)), append(r, "verifIt__.K()")
						kv += "K"
					}
					if id, ok := x.Value.(*ast.Ident); x.Value != nil && !(ok && id.Name == "_") {
						l, r = append(l, text(x.Value)), append(r, "verifIt__.V()")
						kv += "V"
					}
					it := fmt.Sprintf("verifRt__.NewIter(%d, %s)", site, text(x.X))
					sites = append(sites, fset.Position(x.Pos()).String()+" (map)")
					site++
					h := "for verifIt__ := " + it + "; verifIt__.Next(); {"
					if len(l) > 0 && x.Tok == token.DEFINE { // variables of the loop, not of the iteration
						h = fmt.Sprintf("for verifIt__, %s := verifRt__.Vars%s(%s); verifIt__.Next(); {", strings.Join(l, ", "), kv, it)
					}
					if len(l) > 0 {
						h += " " + strings.Join(l, ", ") + " = " + strings.Join(r, ", ") + "; "
					}
					edits = append(edits, edit{off(x.For), off(x.Body.Lbrace) + 1, h})
				}
				return true
			})
			if len(edits) == 0 {
				continue
			}
			sort.SliceStable(edits, func(i, j int) bool { return edits[i].lo < edits[j].lo })
			var w strings.Builder
			constraint := "go1.21" // language version of the file
			for _, g := range a.Comments {
				for _, c := range g.List {
					if c.Pos() < a.Package && strings.HasPrefix(c.Text, "//go:build ") {
						constraint += " && (" + strings.TrimPrefix(c.Text, "//go:build ") + ")"
						edits = append(edits, edit{off(c.Pos()), off(c.End()), ""})
					}
				}
			}
			w.WriteString("//go:build " + constraint + "\n\n")
			pos := 0
			edits = append(edits, edit{off(a.Name.End()), off(a.Name.End()), "; import verifRt__ \"verifmc/rt\""})
			sort.SliceStable(edits, func(i, j int) bool { return edits[i].lo < edits[j].lo })
			for _, e := range edits {
				if e.lo < pos {
					continue // inside the operand of a rewritten range
				}
				w.Write(src[n][pos:e.lo])
				w.WriteString(e.text)
				pos = e.hi
			}
			w.Write(src[n][pos:])
			name := filepath.Join(*out, strings.ReplaceAll(p.ImportPath, "/", "_")+"_"+p.GoFiles[n])
			die(os.WriteFile(name, []byte(w.String()), 0o644))
			replace[filepath.Join(p.Dir, p.GoFiles[n])] = name
		}
	}
	b, _ = json.Marshal(map[string]interface{}{"Replace": replace})
	die(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
	die(os.WriteFile(filepath.Join(*out, "sites.txt"), []byte(strings.Join(sites, "\n")+"\n"), 0o644))
	fmt.Fprintf(os.Stderr, "instrumented %d files: %d statements, %d map ranges\n", len(replace), site-ranges, ranges)
}
