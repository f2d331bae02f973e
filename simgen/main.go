// simgen rewrites the working tree of the repository under test so that every
// source of nondeterminism goes through the simulator runtime (package zzsim).
// It never modifies the tree itself: it emits rewritten copies into -out and an
// overlay / modfile pair for `go build`.
//
// Rewrites (by type information, not by text):
//   - sync, sync/atomic, time, crypto/rand, math/rand, runtime selectors -> zzsim
//   - go statements, channel send/recv/close/len/cap, select, range over
//     channels -> zzsim
//   - range over maps -> simulator-ordered iteration
//   - statement-level scheduling points in the packages under test
//   - read-modify-write splitting of shared locations in those packages
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const simPath = "github.com/ThinkiumGroup/go-common/zzsim"
const modPath = "github.com/ThinkiumGroup/go-common"

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	ImportMap  map[string]string
	Module     *struct{ Path, Dir, Version string }
	Error      *struct{ Err string }
}

// yield class per package: 0 = sync points only, 1 = light, 8 = full
var targets = map[string]int{
	modPath:                         8,
	modPath + "/db":                 8,
	modPath + "/trie":               8,
	modPath + "/log":                8,
	modPath + "/rlp":                1,
	modPath + "/abi":                1,
	modPath + "/math":               8,
	modPath + "/hexutil":            8,
	"github.com/sirupsen/logrus":    0,
	"github.com/stephenfire/go-rtl": -1, // only the map order of reflect.Value.MapKeys
}

var depModules = map[string]bool{
	"github.com/stephenfire/go-rtl": true,
	"github.com/syndtr/goleveldb":   true,
	"github.com/sirupsen/logrus":    true,
}

// root-package files whose statements are dense pure code get light yields
var lightFiles = map[string]bool{"hash.go": true, "hasher.go": true, "bytes.go": true, "consts.go": true}

var selMap = map[string]map[string]string{
	"sync": {"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "Map": "Map",
		"Pool": "Pool", "Cond": "Cond", "NewCond": "NewCond", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues"},
	"time": {"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "After": "After", "AfterFunc": "AfterFunc",
		"NewTimer": "NewTimer", "NewTicker": "NewTicker", "Tick": "Tick", "Timer": "Timer", "Ticker": "Ticker"},
	"crypto/rand": {"Reader": "RandReader", "Read": "CryptoRead"},
	"runtime":     {"Gosched": "Gosched", "SetFinalizer": "SetFinalizer", "GC": "GC"},
	"math/rand": {"Int": "MRandInt", "Intn": "MRandIntn", "Int31": "MRandInt31", "Int31n": "MRandInt31n", "Int63": "MRandInt63",
		"Int63n": "MRandInt63n", "Uint32": "MRandUint32", "Uint64": "MRandUint64", "Float64": "MRandFloat64", "Float32": "MRandFloat32",
		"Perm": "MRandPerm", "Shuffle": "MRandShuffle", "Read": "MRandRead", "Seed": "MRandSeed"},
}

// package-scoped extra mappings
var pkgSelMap = map[string]map[string]map[string]string{
	modPath + "/log": {
		"os": {"Stdout": "Stdout", "Stderr": "Stderr"},
		"github.com/lestrrat-go/file-rotatelogs": {"New": "RotateNew", "WithMaxAge": "RotateWithDur", "WithRotationTime": "RotateWithDur",
			"WithRotationCount": "RotateWithCount", "WithLinkName": "RotateWithString", "RotateLogs": "RotateLogs", "Option": "RotateOption"},
	},
	"github.com/sirupsen/logrus": {
		"os": {"Stdout": "Stdout", "Stderr": "Stderr"},
	},
	modPath + "/db": {
		"github.com/syndtr/goleveldb/leveldb": {"OpenFile": "!LDBOpenFile", "RecoverFile": "!LDBRecoverFile"},
	},
}

func init() {
	at := map[string]string{}
	for _, op := range []string{"Add", "Load", "Store", "Swap", "CompareAndSwap"} {
		for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			if op == "Add" && ty == "Pointer" {
				continue
			}
			at[op+ty] = "Atomic" + op + ty
		}
	}
	for _, ty := range []string{"Bool", "Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer", "Value"} {
		at[ty] = "Atomic" + ty
	}
	selMap["sync/atomic"] = at
}

var allowedSel = map[string]map[string]bool{
	"sync":        {"Locker": true},
	"sync/atomic": {},
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simgen: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "repository under test")
	out := flag.String("out", "", "output directory")
	simDir := flag.String("sim", "", "simulator runtime sources")
	harness := flag.String("harness", "", "harness sources (package main)")
	flag.Parse()
	if *out == "" {
		fatal("-out required")
	}
	if err := os.MkdirAll(*out, 0755); err != nil {
		fatal("%v", err)
	}
	pkgs := goList(*repo)
	byPath := map[string]*pkgInfo{}
	for _, p := range pkgs {
		byPath[p.ImportPath] = p
	}
	for p, info := range byPath {
		if info.Module != nil && info.Module.Path == "github.com/syndtr/goleveldb" {
			targets[p] = 0
		}
	}
	overlay := map[string]string{}
	var sites []string
	depDirs := map[string]string{}
	hasReset := map[string]bool{}
	var paths []string
	for p := range targets {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	written := map[string]bool{}
	for _, p := range paths {
		info := byPath[p]
		if info == nil {
			continue // package no longer used
		}
		if len(info.CgoFiles) > 0 {
			fatal("%s uses cgo", p)
		}
		rw := &rewriter{pkg: info, byPath: byPath, class: targets[p], sites: &sites}
		files := rw.run()
		if targets[p] > 0 {
			hasReset[p] = true
			overlay[filepath.Join(info.Dir, "zz_reset.go")] = filepath.Join(*out, "src", strings.TrimPrefix(strings.TrimPrefix(p, modPath), "/"), "zz_reset.go")
		}
		var root string
		if info.Module != nil && depModules[info.Module.Path] {
			root = filepath.Join(*out, "deps", strings.ReplaceAll(info.Module.Path, "/", "_"))
			depDirs[info.Module.Path] = root
			rel, err := filepath.Rel(info.Module.Dir, info.Dir)
			if err != nil {
				fatal("%v", err)
			}
			for name, src := range files {
				writeIfChanged(filepath.Join(root, rel, name), src)
				written[filepath.Join(root, rel, name)] = true
			}
			gm, err := os.ReadFile(filepath.Join(info.Module.Dir, "go.mod"))
			if err != nil {
				gm = []byte("module " + info.Module.Path + "\n\ngo 1.14\n")
			}
			writeIfChanged(filepath.Join(root, "go.mod"), gm)
			written[filepath.Join(root, "go.mod")] = true
		} else {
			dir := filepath.Join(*out, "src", strings.TrimPrefix(strings.TrimPrefix(p, modPath), "/"))
			for name, src := range files {
				dst := filepath.Join(dir, name)
				writeIfChanged(dst, src)
				written[dst] = true
				overlay[filepath.Join(info.Dir, name)] = dst
			}
		}
	}
	// remove stale outputs
	for _, d := range []string{"src", "deps"} {
		filepath.Walk(filepath.Join(*out, d), func(path string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() && !written[path] {
				os.Remove(path)
			}
			return nil
		})
	}
	// site table
	var sb bytes.Buffer
	sb.WriteString("//go:build go1.21\n\npackage zzsim\n\nvar siteTable = [...]string{\n")
	for _, s := range sites {
		fmt.Fprintf(&sb, "%q,\n", s)
	}
	sb.WriteString("}\n")
	siteFile := filepath.Join(*out, "zz_sites.go")
	writeIfChanged(siteFile, sb.Bytes())
	overlay[filepath.Join(*repo, "zzsim", "zz_sites.go")] = siteFile
	addDir(overlay, *simDir, filepath.Join(*repo, "zzsim"))
	ents, _ := os.ReadDir(*harness)
	for _, e := range ents {
		if e.IsDir() {
			addDir(overlay, filepath.Join(*harness, e.Name()), filepath.Join(*repo, "zzverif", e.Name()))
		}
	}
	var rb, ri bytes.Buffer
	for _, p := range pkgs { // dependency order
		if hasReset[p.ImportPath] {
			n := "p" + strconv.Itoa(rb.Len())
			fmt.Fprintf(&ri, "import %s %q\n", n, p.ImportPath)
			fmt.Fprintf(&rb, "\t%s.ZZReset()\n", n)
		}
	}
	resetFile := filepath.Join(*out, "zz_resetall.go")
	writeIfChanged(resetFile, []byte("//go:build go1.21\n\npackage main\n\n"+ri.String()+"\nfunc resetPackages() {\n"+rb.String()+"}\n"))
	overlay[filepath.Join(*repo, "zzverif", "main", "zz_resetall.go")] = resetFile
	oj, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	writeIfChanged(filepath.Join(*out, "overlay.json"), oj)
	// modfile
	gm, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		fatal("%v", err)
	}
	var mods []string
	for m := range depDirs {
		mods = append(mods, m)
	}
	sort.Strings(mods)
	for _, m := range mods {
		gm = append(gm, []byte(fmt.Sprintf("\nreplace %s => %s\n", m, depDirs[m]))...)
	}
	writeIfChanged(filepath.Join(*out, "go.mod"), gm)
	gs, err := os.ReadFile(filepath.Join(*repo, "go.sum"))
	if err != nil {
		fatal("%v", err)
	}
	writeIfChanged(filepath.Join(*out, "go.sum"), gs)
}

func addDir(overlay map[string]string, src, dst string) {
	if src == "" {
		return
	}
	ents, err := os.ReadDir(src)
	if err != nil {
		fatal("%v", err)
	}
	for _, e := range ents {
		if !e.IsDir() && strings.HasSuffix(e.Name(), ".go") {
			overlay[filepath.Join(dst, e.Name())] = filepath.Join(src, e.Name())
		}
	}
}

func writeIfChanged(path string, data []byte) {
	old, err := os.ReadFile(path)
	if err == nil && bytes.Equal(old, data) {
		return
	}
	os.MkdirAll(filepath.Dir(path), 0755)
	if err := os.WriteFile(path, data, 0644); err != nil {
		fatal("%v", err)
	}
}

func goList(repo string) []*pkgInfo {
	// every main-module package that the harness can import, plus dependencies
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,Export,Standard,ImportMap,Module,Error",
		".", "./db", "./trie", "./log", "./rlp", "./abi", "./math", "./hexutil")
	cmd.Dir = repo
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	if err := cmd.Run(); err != nil {
		fatal("go list: %v\n%s", err, eb.String())
	}
	dec := json.NewDecoder(&ob)
	var res []*pkgInfo
	for {
		p := new(pkgInfo)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list json: %v", err)
		}
		if p.Error != nil {
			fatal("%s: %s", p.ImportPath, p.Error.Err)
		}
		res = append(res, p)
	}
	return res
}

type rewriter struct {
	pkg    *pkgInfo
	byPath map[string]*pkgInfo
	class  int
	sites  *[]string

	fset       *token.FileSet
	info       *types.Info
	file       *ast.File
	fname      string
	light      bool
	fn         string
	nTmp       int
	used       bool
	needDB     bool
	setters    map[*ast.File][]*resetSet
	resetCalls []string
	nInit      int
	mapw       map[*ast.IndexExpr]bool
}

func (r *rewriter) run() map[string][]byte {
	r.fset = token.NewFileSet()
	var files []*ast.File
	var cons []string
	for _, f := range r.pkg.GoFiles {
		path := filepath.Join(r.pkg.Dir, f)
		src, err := os.ReadFile(path)
		if err != nil {
			fatal("%v", err)
		}
		c := ""
		for _, line := range strings.Split(string(src), "\n") {
			t := strings.TrimSpace(line)
			if strings.HasPrefix(t, "package ") {
				break
			}
			if strings.HasPrefix(t, "//go:build ") {
				c = strings.TrimSpace(strings.TrimPrefix(t, "//go:build "))
			}
		}
		for _, d := range []string{"//go:linkname", "//go:embed"} {
			if strings.Contains(string(src), "\n"+d) {
				fatal("%s uses %s", path, d)
			}
		}
		af, err := parser.ParseFile(r.fset, path, src, 0)
		if err != nil {
			fatal("parse: %v", err)
		}
		files = append(files, af)
		cons = append(cons, c)
	}
	lookup := func(path string) (io.ReadCloser, error) {
		if m, ok := r.pkg.ImportMap[path]; ok {
			path = m
		}
		p := r.byPath[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	}
	r.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: importer.ForCompiler(r.fset, "gc", lookup), Error: func(err error) { fmt.Fprintln(os.Stderr, err) }}
	if _, err := conf.Check(r.pkg.ImportPath, r.fset, files, r.info); err != nil {
		fatal("typecheck %s: %v", r.pkg.ImportPath, err)
	}
	out := map[string][]byte{}
	if r.class > 0 {
		r.resets(files)
	}
	for i, af := range files {
		name := r.pkg.GoFiles[i]
		r.file, r.fname = af, name
		r.light = r.class == 1 || (r.pkg.ImportPath == modPath && lightFiles[name])
		r.used = false
		r.needDB = false
		if r.class < 0 {
			r.mapKeysOnly(af)
		} else {
			r.rewriteFile(af)
		}
		if r.class > 0 {
			r.emitResets(af)
		}
		if r.used {
			addImport(af, simPath, "zzsim")
		}
		r.keepImports(af)
		var b bytes.Buffer
		c := "go1.21"
		if cons[i] != "" {
			c = "(" + cons[i] + ") && go1.21"
		}
		fmt.Fprintf(&b, "//go:build %s\n\n", c)
		af.Comments = nil
		stripDocs(af)
		// positions confuse the printer once nodes are synthesised
		var body bytes.Buffer
		if err := format.Node(&body, token.NewFileSet(), af); err != nil {
			fatal("print %s: %v", name, err)
		}
		b.Write(body.Bytes())
		out[name] = b.Bytes()
	}
	if r.class > 0 {
		var b bytes.Buffer
		fmt.Fprintf(&b, "//go:build go1.21\n\npackage %s\n\n// ZZReset restores the package state of a fresh process.\nfunc ZZReset() {\n", r.pkg.Name)
		for _, n := range r.resetCalls {
			fmt.Fprintf(&b, "\t%s()\n", n)
		}
		b.WriteString("}\n")
		out["zz_reset.go"] = b.Bytes()
	}
	return out
}

// mapKeysOnly replaces v.MapKeys() of reflect values by the simulator-ordered list.
func (r *rewriter) mapKeysOnly(af *ast.File) {
	ast.Inspect(af, func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok || len(c.Args) != 0 {
			return true
		}
		if se, ok := c.Fun.(*ast.SelectorExpr); ok && (se.Sel.Name == "MapKeys" || se.Sel.Name == "MapRange") {
			if sel := r.info.Selections[se]; sel != nil && sel.Recv().String() == "reflect.Value" {
				if se.Sel.Name != "MapKeys" {
					fatal("%s: reflect.Value.%s has no simulated counterpart", r.pos(c), se.Sel.Name)
				}
				c.Fun, c.Args = r.sim("MapKeys"), []ast.Expr{se.X}
			}
		}
		return true
	})
}

type resetSet struct {
	name string
	lhs  []*ast.Ident
	spec *ast.ValueSpec
	idx  int // index into spec.Values, -1: one call for all names
}

// resets plans one setter per package-level variable, in initialisation order.
func (r *rewriter) resets(files []*ast.File) {
	r.setters = map[*ast.File][]*resetSet{}
	byObj := map[types.Object]*resetSet{}
	n := 0
	for _, f := range files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Names) > 1 && len(vs.Values) == 1 {
					rs := &resetSet{name: fmt.Sprintf("zzset%d", n), lhs: vs.Names, spec: vs, idx: -1}
					n++
					r.setters[f] = append(r.setters[f], rs)
					for _, id := range vs.Names {
						byObj[r.info.Defs[id]] = rs
					}
					continue
				}
				for i, id := range vs.Names {
					if id.Name == "_" {
						continue
					}
					rs := &resetSet{name: fmt.Sprintf("zzset%d", n), lhs: []*ast.Ident{id}, spec: vs, idx: i}
					n++
					r.setters[f] = append(r.setters[f], rs)
					if len(vs.Values) == 0 {
						r.resetCalls = append(r.resetCalls, rs.name)
					} else {
						byObj[r.info.Defs[id]] = rs
					}
				}
			}
		}
	}
	done := map[*resetSet]bool{}
	for _, in := range r.info.InitOrder {
		for _, v := range in.Lhs {
			if rs := byObj[v]; rs != nil && !done[rs] {
				done[rs] = true
				r.resetCalls = append(r.resetCalls, rs.name)
			}
		}
	}
}

func (r *rewriter) emitResets(f *ast.File) {
	for _, rs := range r.setters[f] {
		var st *ast.AssignStmt
		if len(rs.spec.Values) == 0 {
			st = &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(rs.lhs[0].Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{r.call("Zero", ast.NewIdent(rs.lhs[0].Name))}}
		} else if rs.idx < 0 {
			st = &ast.AssignStmt{Tok: token.ASSIGN, Rhs: []ast.Expr{rs.spec.Values[0]}}
			for _, id := range rs.lhs {
				st.Lhs = append(st.Lhs, ast.NewIdent(id.Name))
			}
		} else {
			st = &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(rs.lhs[0].Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{rs.spec.Values[rs.idx]}}
		}
		f.Decls = append(f.Decls, &ast.FuncDecl{Name: ast.NewIdent(rs.name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{st}}})
	}
	var extra []ast.Decl
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv != nil || fd.Name.Name != "init" {
			continue
		}
		name := fmt.Sprintf("zzinit%d", r.nInit)
		r.nInit++
		fd.Name = ast.NewIdent(name)
		r.resetCalls = append(r.resetCalls, name)
		extra = append(extra, &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(name)}}}}})
	}
	f.Decls = append(f.Decls, extra...)
}

func stripDocs(f *ast.File) {
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
}

func addImport(f *ast.File, path, name string) {
	spec := &ast.ImportSpec{Name: ast.NewIdent(name), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}}
	f.Imports = append(f.Imports, spec)
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
}

// keepImports turns imports that lost their last use into blank imports.
func (r *rewriter) keepImports(f *ast.File) {
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
					used[pn.Imported().Path()] = true
				}
			}
		}
		return true
	})
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if p == simPath {
			continue
		}
		name := ""
		if im.Name != nil {
			name = im.Name.Name
		}
		if name == "_" || name == "." {
			continue
		}
		if !used[p] {
			im.Name = ast.NewIdent("_")
		}
	}
}

func (r *rewriter) sim(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("zzsim"), Sel: ast.NewIdent(name)}
}
func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.sim(name), Args: args}
}
func (r *rewriter) tmp(p string) *ast.Ident {
	r.nTmp++
	return ast.NewIdent(fmt.Sprintf("zz%s%d", p, r.nTmp))
}

func (r *rewriter) pos(n ast.Node) string {
	p := r.fset.Position(n.Pos())
	return filepath.Base(p.Filename) + ":" + strconv.Itoa(p.Line)
}

func (r *rewriter) site(n ast.Node) ast.Expr {
	id := len(*r.sites)
	*r.sites = append(*r.sites, r.pkg.Name+"/"+r.pos(n)+" "+r.fn)
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(id)}
}

func (r *rewriter) yieldStmt(n ast.Node) ast.Stmt {
	f := "Y"
	if r.light {
		f = "YL"
	}
	return &ast.ExprStmt{X: r.call(f, r.site(n))}
}

func (r *rewriter) rewriteFile(f *ast.File) {
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			r.fn = x.Name.Name
			if x.Recv != nil {
				for _, fl := range x.Recv.List {
					fl.Type = r.expr(fl.Type)
				}
			}
			r.funcType(x.Type)
			if x.Body != nil {
				r.block(x.Body)
			}
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				continue
			}
			r.fn = "<pkg>"
			r.genDecl(x)
		}
	}
}

func (r *rewriter) genDecl(x *ast.GenDecl) {
	for _, s := range x.Specs {
		switch sp := s.(type) {
		case *ast.ValueSpec:
			sp.Type = r.expr(sp.Type)
			// v, ok := <-ch
			if len(sp.Names) == 2 && len(sp.Values) == 1 {
				if u := unparenRecv(sp.Values[0]); u != nil {
					sp.Values[0] = r.call("Recv2", r.expr(u.X))
					continue
				}
			}
			for i := range sp.Values {
				sp.Values[i] = r.expr(sp.Values[i])
			}
		case *ast.TypeSpec:
			sp.Type = r.expr(sp.Type)
		}
	}
}

func (r *rewriter) funcType(t *ast.FuncType) {
	for _, fl := range []*ast.FieldList{t.TypeParams, t.Params, t.Results} {
		r.fields(fl)
	}
}
func (r *rewriter) fields(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Type = r.expr(f.Type)
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}
func unparenRecv(e ast.Expr) *ast.UnaryExpr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func (r *rewriter) isChan(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}
func (r *rewriter) isMap(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// expr rewrites an expression and returns its replacement.
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.BadExpr, *ast.Ident, *ast.BasicLit:
		return e
	case *ast.Ellipsis:
		x.Elt = r.expr(x.Elt)
	case *ast.FuncLit:
		r.funcType(x.Type)
		r.block(x.Body)
	case *ast.CompositeLit:
		x.Type = r.expr(x.Type)
		isStruct := false
		if t := r.typeOf(x); t != nil {
			u := t.Underlying()
			if p, ok := u.(*types.Pointer); ok {
				u = p.Elem().Underlying()
			}
			_, isStruct = u.(*types.Struct)
		}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
			} else {
				x.Elts[i] = r.expr(el)
			}
		}
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				p := pn.Imported().Path()
				if m := pkgSelMap[r.pkg.ImportPath]; m != nil {
					if to, ok := m[p][x.Sel.Name]; ok {
						if strings.HasPrefix(to, "!") {
							r.used = true
							// typed hook: zzsim cannot import the package, so the hook is a
							// conversion of an interface value held by the simulator
							return &ast.CallExpr{Fun: r.sim("Hook"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(to[1:])}, x}}
						}
						return r.sim(to)
					}
				}
				if m := selMap[p]; m != nil {
					if to, ok := m[x.Sel.Name]; ok {
						return r.sim(to)
					}
					if al, strict := allowedSel[p]; strict && !al[x.Sel.Name] {
						fatal("%s: %s.%s has no simulated counterpart", r.pos(x), p, x.Sel.Name)
					}
				}
				return x
			}
		}
		x.X = r.expr(x.X)
	case *ast.IndexExpr:
		acc := ""
		if r.class > 0 && r.isMap(x.X) {
			if acc = "MapR"; r.mapw[x] {
				acc = "MapW"
			}
		}
		x.X = r.expr(x.X)
		x.Index = r.expr(x.Index)
		if acc != "" {
			x.X = r.call(acc, x.X, r.site(x))
		}
	case *ast.IndexListExpr:
		x.X = r.expr(x.X)
		for i := range x.Indices {
			x.Indices[i] = r.expr(x.Indices[i])
		}
	case *ast.SliceExpr:
		x.X = r.expr(x.X)
		x.Low, x.High, x.Max = r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		x.Type = r.expr(x.Type)
	case *ast.CallExpr:
		if id, ok := unparen(x.Fun).(*ast.Ident); ok {
			if _, isb := r.info.Uses[id].(*types.Builtin); isb && len(x.Args) == 1 && r.isChan(x.Args[0]) {
				arg := x.Args[0]
				switch id.Name {
				case "close":
					return r.call("Close", r.expr(arg))
				case "len":
					return r.call("Len", r.expr(arg))
				case "cap":
					return r.call("Cap", r.expr(arg))
				}
			}
			if _, isb := r.info.Uses[id].(*types.Builtin); isb && (id.Name == "delete" || id.Name == "clear") && r.class > 0 && r.isMap(x.Args[0]) {
				x.Args[0] = r.call("MapW", r.expr(x.Args[0]), r.site(x))
				for i := 1; i < len(x.Args); i++ {
					x.Args[i] = r.expr(x.Args[i])
				}
				return x
			}
		}
		x.Fun = r.expr(x.Fun)
		for i := range x.Args {
			x.Args[i] = r.expr(x.Args[i])
		}
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return r.call("Recv", r.expr(x.X))
		}
		x.X = r.expr(x.X)
	case *ast.BinaryExpr:
		x.X = r.expr(x.X)
		x.Y = r.expr(x.Y)
	case *ast.KeyValueExpr:
		x.Key = r.expr(x.Key)
		x.Value = r.expr(x.Value)
	case *ast.ArrayType:
		x.Len = r.expr(x.Len)
		x.Elt = r.expr(x.Elt)
	case *ast.StructType:
		r.fields(x.Fields)
	case *ast.FuncType:
		r.funcType(x)
	case *ast.InterfaceType:
		r.fields(x.Methods)
	case *ast.MapType:
		x.Key = r.expr(x.Key)
		x.Value = r.expr(x.Value)
	case *ast.ChanType:
		x.Value = r.expr(x.Value)
	default:
		fatal("%s: unhandled expression %T", r.pos(e), e)
	}
	return e
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List)
	if r.class > 0 && len(b.List) == 0 {
		b.List = []ast.Stmt{r.yieldStmt(b)}
	}
}

func (r *rewriter) stmts(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		if r.class > 0 {
			if _, empty := s.(*ast.EmptyStmt); !empty {
				out = append(out, r.yieldStmt(s))
			}
			if split := r.splitRMW(s); split != nil {
				out = append(out, split)
				continue
			}
		}
		out = append(out, r.stmt(s, ""))
	}
	return out
}

// shared reports whether e denotes a location other tasks may reach: a field
// through a pointer, a dereference, or a package-level variable.
func (r *rewriter) shared(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.SelectorExpr:
		if sel, ok := r.info.Selections[x]; ok && sel.Kind() == types.FieldVal {
			if _, ptr := r.typeOf(x.X).Underlying().(*types.Pointer); ptr {
				return true
			}
			return r.shared(x.X)
		}
		if v, ok := r.info.Uses[x.Sel].(*types.Var); ok {
			return !v.IsField()
		}
	case *ast.Ident:
		if v, ok := r.info.Uses[x].(*types.Var); ok {
			return v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
		}
	case *ast.StarExpr:
		return true
	}
	return false
}

func (r *rewriter) mentionsShared(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			return false
		}
		if x, ok := n.(ast.Expr); ok && r.shared(x) {
			found = true
		}
		return !found
	})
	return found
}

// splitRMW makes the read and the write of a shared location two steps.
func (r *rewriter) splitRMW(s ast.Stmt) ast.Stmt {
	if r.light {
		return nil
	}
	switch x := s.(type) {
	case *ast.IncDecStmt:
		if !r.shared(x.X) {
			return nil
		}
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		return r.rmw(s, x.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"})
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || !r.shared(x.Lhs[0]) {
			return nil
		}
		if x.Tok == token.ASSIGN {
			tv, ok := r.info.Types[x.Rhs[0]]
			if !ok || tv.Value != nil || tv.IsNil() || !r.mentionsShared(x.Rhs[0]) {
				return nil
			}
			if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				return nil
			}
			if unparenRecv(x.Rhs[0]) != nil {
				return nil
			}
			t := r.tmp("t")
			return &ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(x.Rhs[0])}},
				r.yieldStmt(s),
				&ast.AssignStmt{Lhs: []ast.Expr{r.expr(x.Lhs[0])}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}},
			}}
		}
		if x.Tok == token.DEFINE {
			return nil
		}
		ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.OR_ASSIGN: token.OR,
			token.AND_ASSIGN: token.AND, token.MUL_ASSIGN: token.MUL, token.XOR_ASSIGN: token.XOR}
		if op, ok := ops[x.Tok]; ok {
			return r.rmw(s, x.Lhs[0], op, &ast.ParenExpr{X: r.expr(x.Rhs[0])})
		}
	}
	return nil
}

func (r *rewriter) rmw(s ast.Stmt, loc ast.Expr, op token.Token, rhs ast.Expr) ast.Stmt {
	p, v := r.tmp("p"), r.tmp("v")
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{p}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: r.expr(loc)}}},
		&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.StarExpr{X: p}}},
		r.yieldStmt(s),
		&ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: p}}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: v, Op: op, Y: rhs}}},
	}}
}

// mapWrite marks e, the target of an assignment, as a write if it is a map element.
func (r *rewriter) mapWrite(e ast.Expr) {
	if x, ok := unparen(e).(*ast.IndexExpr); ok {
		if r.mapw == nil {
			r.mapw = map[*ast.IndexExpr]bool{}
		}
		r.mapw[x] = true
	}
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rewriter) stmt(s ast.Stmt, label string) ast.Stmt {
	switch x := s.(type) {
	case *ast.IncDecStmt:
		r.mapWrite(x.X)
	case *ast.AssignStmt:
		for _, l := range x.Lhs {
			r.mapWrite(l)
		}
	}
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.BadStmt, *ast.EmptyStmt, *ast.BranchStmt:
		return s
	case *ast.DeclStmt:
		r.genDecl(x.Decl.(*ast.GenDecl))
	case *ast.LabeledStmt:
		ns := r.stmt(x.Stmt, x.Label.Name)
		if b, ok := ns.(*ast.BlockStmt); ok && b != x.Stmt {
			// the labelled statement is the last one of the synthesised block
			last := len(b.List) - 1
			b.List[last] = &ast.LabeledStmt{Label: x.Label, Stmt: b.List[last]}
			return b
		}
		x.Stmt = ns
	case *ast.ExprStmt:
		if u := unparenRecv(x.X); u != nil {
			x.X = r.call("Recv", r.expr(u.X))
			return x
		}
		x.X = r.expr(x.X)
	case *ast.SendStmt:
		// SendTo(ch)(v) keeps the assignability conversion of v
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("SendTo", r.expr(x.Chan)), Args: []ast.Expr{r.expr(x.Value)}}}
	case *ast.IncDecStmt:
		x.X = r.expr(x.X)
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u := unparenRecv(x.Rhs[0]); u != nil {
				for i := range x.Lhs {
					x.Lhs[i] = r.expr(x.Lhs[i])
				}
				x.Rhs[0] = r.call("Recv2", r.expr(u.X))
				return x
			}
		}
		for i := range x.Lhs {
			x.Lhs[i] = r.expr(x.Lhs[i])
		}
		for i := range x.Rhs {
			x.Rhs[i] = r.expr(x.Rhs[i])
		}
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		x.Call = r.callOnly(x.Call)
	case *ast.ReturnStmt:
		for i := range x.Results {
			x.Results[i] = r.expr(x.Results[i])
		}
	case *ast.BlockStmt:
		r.block(x)
	case *ast.IfStmt:
		x.Init = r.stmt(x.Init, "")
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		x.Else = r.stmt(x.Else, "")
	case *ast.CaseClause:
		for i := range x.List {
			x.List[i] = r.expr(x.List[i])
		}
		x.Body = r.stmts(x.Body)
	case *ast.SwitchStmt:
		x.Init = r.stmt(x.Init, "")
		x.Tag = r.expr(x.Tag)
		for i := range x.Body.List {
			x.Body.List[i] = r.stmt(x.Body.List[i], "")
		}
	case *ast.TypeSwitchStmt:
		x.Init = r.stmt(x.Init, "")
		x.Assign = r.stmt(x.Assign, "")
		for i := range x.Body.List {
			x.Body.List[i] = r.stmt(x.Body.List[i], "")
		}
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.ForStmt:
		x.Init = r.stmt(x.Init, "")
		x.Cond = r.expr(x.Cond)
		x.Post = r.stmt(x.Post, "")
		r.block(x.Body)
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	default:
		fatal("%s: unhandled statement %T", r.pos(s), s)
	}
	return s
}

func (r *rewriter) callOnly(c *ast.CallExpr) *ast.CallExpr {
	e := r.expr(c)
	nc, ok := e.(*ast.CallExpr)
	if !ok {
		fatal("%s: call rewritten to non-call", r.pos(c))
	}
	return nc
}

func (r *rewriter) goStmt(x *ast.GoStmt) ast.Stmt {
	site := r.site(x)
	if fl, ok := unparen(x.Call.Fun).(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
		r.expr(fl)
		return &ast.ExprStmt{X: r.call("Go", site, fl)}
	}
	if id, ok := unparen(x.Call.Fun).(*ast.Ident); ok {
		if _, isb := r.info.Uses[id].(*types.Builtin); isb {
			c := r.callOnly(x.Call)
			return &ast.ExprStmt{X: r.call("Go", site, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}})}
		}
	}
	b := &ast.BlockStmt{}
	fn := r.tmp("f")
	b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{fn}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(x.Call.Fun)}})
	nc := &ast.CallExpr{Fun: fn}
	if x.Call.Ellipsis.IsValid() {
		nc.Ellipsis = 1
	}
	for _, a := range x.Call.Args {
		tv := r.info.Types[a]
		inline := tv.Value != nil || tv.IsNil()
		if bt, ok := tv.Type.(*types.Basic); ok && bt.Info()&types.IsUntyped != 0 {
			inline = true
		}
		na := r.expr(a)
		if inline {
			nc.Args = append(nc.Args, na)
			continue
		}
		t := r.tmp("a")
		b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{na}})
		nc.Args = append(nc.Args, t)
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}}
	b.List = append(b.List, &ast.ExprStmt{X: r.call("Go", site, lit)})
	return b
}

func (r *rewriter) selectStmt(x *ast.SelectStmt) ast.Stmt {
	b := &ast.BlockStmt{}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	args := []ast.Expr{r.site(x), nil}
	hasDefault := false
	idx := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "-1"}}, Body: r.stmts(cc.Body)})
			continue
		}
		cv := r.tmp("c")
		var pre []ast.Stmt
		var mk ast.Expr
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			mk = &ast.CallExpr{Fun: r.call("SendCase", r.expr(cm.Chan)), Args: []ast.Expr{r.expr(cm.Value)}}
		case *ast.ExprStmt:
			u := unparenRecv(cm.X)
			mk = r.call("RecvCase", r.expr(u.X))
		case *ast.AssignStmt:
			u := unparenRecv(cm.Rhs[0])
			mk = r.call("RecvCase", r.expr(u.X))
			rhs := []ast.Expr{&ast.SelectorExpr{X: cv, Sel: ast.NewIdent("V")}}
			if len(cm.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: cv, Sel: ast.NewIdent("OK")})
			}
			lhs := make([]ast.Expr, len(cm.Lhs))
			for i := range cm.Lhs {
				lhs[i] = r.expr(cm.Lhs[i])
			}
			pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: cm.Tok, Rhs: rhs})
		default:
			fatal("%s: unhandled select case", r.pos(cc))
		}
		b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{cv}, Tok: token.DEFINE, Rhs: []ast.Expr{mk}})
		args = append(args, cv)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}},
			Body: append(pre, r.stmts(cc.Body)...)})
		idx++
	}
	args[1] = ast.NewIdent(strconv.FormatBool(hasDefault))
	sw.Tag = r.call("Select", args...)
	// a switch without default is not a terminating statement; select is
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"zzsim: bad select index"`}}}}}})
	b.List = append(b.List, sw)
	return b
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	isMap, isCh := r.isMap(x.X), r.isChan(x.X)
	if !isMap && !isCh {
		x.Key, x.Value, x.X = r.expr(x.Key), r.expr(x.Value), r.expr(x.X)
		r.block(x.Body)
		return x
	}
	src := r.expr(x.X)
	r.block(x.Body)
	it := r.tmp("it")
	addr := func(e ast.Expr) ast.Expr {
		if e == nil || isBlank(e) {
			return ast.NewIdent("nil")
		}
		return &ast.UnaryExpr{Op: token.AND, X: r.expr(e)}
	}
	fs := &ast.ForStmt{Body: x.Body}
	name := "MapIter"
	vars := []ast.Expr{x.Key, x.Value}
	if isCh {
		name = "ChanIter"
		vars = vars[:1]
	}
	var nextArgs []ast.Expr
	for _, v := range vars {
		nextArgs = append(nextArgs, addr(v))
	}
	var lhs []ast.Expr
	for _, v := range vars {
		if x.Tok == token.DEFINE && v != nil && !isBlank(v) {
			lhs = append(lhs, v)
		} else {
			lhs = append(lhs, ast.NewIdent("_"))
		}
	}
	lhs = append(lhs, it)
	fs.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{r.call(name, src)}}
	fs.Cond = &ast.CallExpr{Fun: &ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")}, Args: nextArgs}
	return fs
}
