// Command instr writes instrumented copies of the Go files of a package, and an overlay file for go build.
//
//	instr -src /repo -out DIR -shim verif/harness/vshim [-atomics] [-stmts] [-blockshift N] [-maxblocks N] [-prefetch N]
//
// Files are changed by inserting and replacing text at offsets found in the syntax tree, nothing is reprinted.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	from, to int
	text     string
}

var renamed = map[string]map[string]bool{
	"sync":    {"Mutex": true, "RWMutex": true, "Cond": true, "NewCond": true},
	"runtime": {"Gosched": true},
	"time":    {"Sleep": true},
}

// keepers use an import that might have lost its last use
var keepers = map[string]string{
	"sync":        "var _ %s.Once",
	"runtime":     "var _ = %s.NumCPU",
	"time":        "var _ %s.Duration",
	"sync/atomic": "var _ = %s.LoadInt32",
}

func main() {
	src := flag.String("src", "/repo", "package directory")
	out := flag.String("out", "", "output directory")
	shim := flag.String("shim", "verif/harness/vshim", "import path of the replacement package")
	atomics := flag.Bool("atomics", false, "replace atomic operations, mutexes and yields")
	stmts := flag.Bool("stmts", false, "call Stmt before every statement")
	shift := flag.Int("blockshift", 0, "value for blockSizeShift")
	maxBlocks := flag.Int("maxblocks", 0, "value for maxBlockCount")
	prefetch := flag.Int("prefetch", 0, "value for defaultPrefetchLength")
	flag.Parse()

	ctx := build.Default
	pkg, err := ctx.ImportDir(*src, 0)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	overlay := map[string]string{}
	constants := 0
	for _, name := range pkg.GoFiles {
		path := filepath.Join(*src, name)
		data, err := os.ReadFile(path)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, data, parser.ParseComments)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		var edits []edit

		// import names
		names := map[string]string{} // local name -> path
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			n := filepath.Base(p)
			if im.Name != nil {
				n = im.Name.Name
			}
			names[n] = p
		}
		used := false
		tail := ""
		if *atomics {
			kept := map[string]bool{}
			ast.Inspect(f, func(n ast.Node) bool {
				sel, ok := n.(*ast.SelectorExpr)
				if !ok {
					return true
				}
				x, ok := sel.X.(*ast.Ident)
				if !ok || x.Obj != nil {
					return true
				}
				p := names[x.Name]
				if p == "sync/atomic" || renamed[p][sel.Sel.Name] {
					edits = append(edits, edit{off(x.Pos()), off(x.End()), "vshim_"})
					used = true
					if !kept[x.Name] {
						kept[x.Name] = true
						tail += "\n" + fmt.Sprintf(keepers[p], x.Name) + "\n"
					}
				}
				return true
			})
		}
		if *stmts {
			insert := func(list []ast.Stmt) {
				for _, s := range list {
					switch s.(type) {
					case *ast.EmptyStmt, *ast.LabeledStmt:
						// a point before a label would not be passed by jumps, the inner statement gets one
						continue
					}
					edits = append(edits, edit{off(s.Pos()), off(s.Pos()), "vshim_.Stmt(); "})
					used = true
				}
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch b := n.(type) {
					case *ast.SwitchStmt:
						// clauses are not statements in themselves
						for _, c := range b.Body.List {
							insert(c.(*ast.CaseClause).Body)
						}
					case *ast.TypeSwitchStmt:
						for _, c := range b.Body.List {
							insert(c.(*ast.CaseClause).Body)
						}
					case *ast.SelectStmt:
						for _, c := range b.Body.List {
							insert(c.(*ast.CommClause).Body)
						}
					case *ast.BlockStmt:
						if len(b.List) > 0 {
							switch b.List[0].(type) {
							case *ast.CaseClause, *ast.CommClause:
								return true
							}
						}
						insert(b.List)
					}
					return true
				})
			}
		}
		// constants
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.CONST {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				for i, n := range vs.Names {
					if i >= len(vs.Values) {
						continue
					}
					lit, ok := vs.Values[i].(*ast.BasicLit)
					if !ok || lit.Kind != token.INT {
						continue
					}
					v := 0
					switch n.Name {
					case "blockSizeShift":
						v = *shift
					case "maxBlockCount":
						v = *maxBlocks
					case "defaultPrefetchLength":
						v = *prefetch
					}
					if v > 0 {
						edits = append(edits, edit{off(lit.Pos()), off(lit.End()), strconv.Itoa(v)})
						constants++
					}
				}
			}
		}
		if len(edits) == 0 {
			continue
		}
		sort.SliceStable(edits, func(i, j int) bool {
			if edits[i].from != edits[j].from {
				return edits[i].from < edits[j].from
			}
			return edits[i].to < edits[j].to
		})
		var b strings.Builder
		pos := 0
		for _, e := range edits {
			b.Write(data[pos:e.from])
			b.WriteString(e.text)
			pos = e.to
		}
		b.Write(data[pos:])
		text := b.String() + tail
		if used {
			// the import goes on the line of the package clause, so that line numbers stay
			p := off(f.Name.End())
			text = text[:p] + fmt.Sprintf("; import vshim_ %q", *shim) + text[p:]
		}
		dst := filepath.Join(*out, name)
		if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		overlay[path] = dst
	}
	buf, _ := json.Marshal(map[string]interface{}{"Replace": overlay})
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), buf, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	fmt.Printf("{\"files\": %d, \"constants\": %d}\n", len(overlay), constants)
}
