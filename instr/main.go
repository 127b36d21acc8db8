// Command instr writes instrumented copies of the library's source files and a
// go build overlay that substitutes them. Nothing in the repository changes.
//
//	instr -out DIR   (run in the simulator's module)
//
// Each statement gets a yield call in front of it, on the same line; package
// sync is replaced by the simulator's; enumeration of maps goes through the
// simulator. A source file that cannot be handled is left as it is.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const modPath = "github.com/gagliardetto/binary"

type pkgInfo struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Standard   bool
}

type site struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

type edit struct {
	off, del int
	text     string
	seq      int
}

type fileEdits struct {
	edits []edit
}

func (f *fileEdits) add(off, del int, text string) {
	f.edits = append(f.edits, edit{off, del, text, len(f.edits)})
}

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func main() {
	out := flag.String("out", "", "output directory")
	flag.Parse()
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,CgoFiles,Standard", modPath)
	var errb bytes.Buffer
	cmd.Stderr = &errb
	raw, err := cmd.Output()
	if err != nil {
		fmt.Fprint(os.Stderr, errb.String())
		fatal(err)
	}
	var pkgs []pkgInfo
	exports := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else {
			fatal(err)
		}
		exports[p.ImportPath] = p.Export
		if p.ImportPath == modPath || strings.HasPrefix(p.ImportPath, modPath+"/") {
			pkgs = append(pkgs, p)
		}
	}
	overlay := map[string]string{}
	var sites []site
	sites = append(sites, site{0, "simulated I/O", 0, ""}, site{1, "blocked on a lock", 0, ""}, site{2, "thread finished", 0, ""})
	notes := []string{}
	for pi, p := range pkgs {
		if len(p.CgoFiles) > 0 {
			notes = append(notes, p.ImportPath+": uses cgo, not instrumented")
			continue
		}
		fset := token.NewFileSet()
		var files []*ast.File
		var srcs [][]byte
		ok := true
		for _, f := range p.GoFiles {
			path := filepath.Join(p.Dir, f)
			src, err := os.ReadFile(path)
			fatal(err)
			af, err := parser.ParseFile(fset, path, src, parser.ParseComments)
			if err != nil {
				ok = false
				notes = append(notes, err.Error())
				break
			}
			files = append(files, af)
			srcs = append(srcs, src)
		}
		if !ok {
			continue
		}
		concurrent := ""
		for _, af := range files {
			ast.Inspect(af, func(n ast.Node) bool {
				switch n.(type) {
				case *ast.GoStmt:
					concurrent = "go statement"
				case *ast.SelectStmt:
					concurrent = "select statement"
				case *ast.SendStmt:
					concurrent = "channel send"
				}
				return true
			})
		}
		if concurrent != "" {
			notes = append(notes, p.ImportPath+": starts goroutines of its own ("+concurrent+"), not instrumented")
			continue
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{
			Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
				e := exports[path]
				if e == "" {
					return nil, fmt.Errorf("no export data for %s", path)
				}
				return os.Open(e)
			}),
			Error: func(error) {},
		}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			notes = append(notes, p.ImportPath+": type check: "+err.Error())
		}
		for i, af := range files {
			src := srcs[i]
			fe := &fileEdits{}
			used, mapRange := instrument(fset, af, src, info, fe, &sites)
			if len(sites) > 16000 {
				notes = append(notes, "too many statements")
				break
			}
			res := apply(src, fe.edits)
			if used {
				// import on the package clause's line, so that lines keep their numbers
				// (recomputed on the edited text: the package clause precedes every edit)
				off := fset.Position(af.Name.End()).Offset
				res = append(append(append([]byte{}, res[:off]...), []byte(`; import vs__ "verif.local/dst/vs"`)...), res[off:]...)
			}
			if mapRange {
				res = append([]byte("//go:build go1.21\n\n//line "+filepath.Join(p.Dir, p.GoFiles[i])+":1\n"), res...)
			}
			name := filepath.Join(*out, fmt.Sprintf("p%d_%s", pi, p.GoFiles[i]))
			fatal(os.WriteFile(name, res, 0o644))
			overlay[filepath.Join(p.Dir, p.GoFiles[i])] = name
		}
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	fatal(os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644))
	j, _ = json.Marshal(map[string]interface{}{"sites": sites, "notes": notes, "files": len(overlay)})
	fatal(os.WriteFile(filepath.Join(*out, "sites.json"), j, 0o644))
}

func apply(src []byte, edits []edit) []byte {
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].seq < edits[j].seq
	})
	var out bytes.Buffer
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			// overlapping edit: drop
			continue
		}
		out.Write(src[pos:e.off])
		out.WriteString(e.text)
		pos = e.off + e.del
	}
	out.Write(src[pos:])
	return out.Bytes()
}

func hasBuildConstraint(af *ast.File) bool {
	for _, cg := range af.Comments {
		for _, c := range cg.List {
			if c.Pos() < af.Package && strings.HasPrefix(c.Text, "//go:build") {
				return true
			}
		}
	}
	return false
}

func instrument(fset *token.FileSet, af *ast.File, src []byte, info *types.Info, fe *fileEdits, sites *[]site) (used, mapRange bool) {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	fn := ""
	y := func(pos token.Pos) string {
		id := len(*sites)
		p := fset.Position(pos)
		*sites = append(*sites, site{id, filepath.Base(p.Filename), p.Line, fn})
		used = true
		return fmt.Sprintf("vs__.Y(%d); ", id)
	}
	for _, im := range af.Imports {
		if im.Path.Value == `"sync"` {
			fe.add(off(im.Path.Pos()), len(im.Path.Value), `"verif.local/dst/vs/sync"`)
		}
	}
	constrained := hasBuildConstraint(af)
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			fe.add(off(s.Pos()), 0, y(s.Pos()))
		}
	}
	loopBody := func(b *ast.BlockStmt) {
		if len(b.List) == 0 {
			fe.add(off(b.Lbrace)+1, 0, " "+y(b.Lbrace))
		}
	}
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			fn = x.Name.Name
		case *ast.SwitchStmt:
			if x.Init != nil {
				ast.Inspect(x.Init, visit)
			}
			if x.Tag != nil {
				ast.Inspect(x.Tag, visit)
			}
			for _, c := range x.Body.List {
				ast.Inspect(c, visit)
			}
			return false
		case *ast.TypeSwitchStmt:
			for _, c := range x.Body.List {
				ast.Inspect(c, visit)
			}
			return false
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.ForStmt:
			loopBody(x.Body)
		case *ast.RangeStmt:
			loopBody(x.Body)
			if tv, ok := info.Types[x.X]; ok && tv.Type != nil && !constrained {
				if _, isMap := tv.Type.Underlying().(*types.Map); isMap {
					if _, tp := tv.Type.(*types.TypeParam); !tp {
						mapRange, used = true, true
						rangeMap(off, src, x, fe, len(*sites))
					}
				}
			}
		case *ast.CallExpr:
			if sel, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 0 {
				if sel.Sel.Name == "MapKeys" || sel.Sel.Name == "MapRange" {
					isRV := true
					if tv, ok := info.Types[sel.X]; ok && tv.Type != nil {
						isRV = tv.Type.String() == "reflect.Value"
					}
					if isRV {
						used = true
						fe.add(off(x.Pos()), 0, "vs__."+sel.Sel.Name+"(")
						fe.add(off(sel.X.End()), off(x.End())-off(sel.X.End()), ")")
					}
				}
			}
		}
		return true
	}
	ast.Inspect(af, visit)
	return used, mapRange
}

func rangeMap(off func(token.Pos) int, src []byte, x *ast.RangeStmt, fe *fileEdits, n int) {
	e := fmt.Sprintf("vs__e%d", n)
	start := off(x.For) + 3
	fe.add(start, off(x.X.Pos())-start, " _, "+e+" := range vs__.Entries(")
	fe.add(off(x.X.End()), 0, ")")
	pre := " if !" + e + ".Live() { continue }; "
	str := func(ex ast.Expr) string { return string(src[off(ex.Pos()):off(ex.End())]) }
	blank := func(ex ast.Expr) bool {
		if ex == nil {
			return true
		}
		id, ok := ex.(*ast.Ident)
		return ok && id.Name == "_"
	}
	var l, r []string
	if !blank(x.Key) {
		l, r = append(l, str(x.Key)), append(r, e+".K")
	}
	if !blank(x.Value) {
		l, r = append(l, str(x.Value)), append(r, e+".V()")
	}
	if len(l) > 0 {
		pre += strings.Join(l, ", ") + " " + x.Tok.String() + " " + strings.Join(r, ", ") + "; "
	}
	fe.add(off(x.Body.Lbrace)+1, 0, pre)
}
