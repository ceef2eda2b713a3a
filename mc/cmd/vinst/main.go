// vinst rewrites Go packages for the cooperative scheduler (package vsched)
// and writes an overlay file for go build.
//
//	vinst -overlay BASE.json -out DIR [-points pkg,...] pkg...
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	ImportMap  map[string]string
}

func die(a ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"vinst:"}, a...)...)
	os.Exit(2)
}

func main() {
	overlay := flag.String("overlay", "", "")
	out := flag.String("out", "", "")
	points := flag.String("points", "", "")
	flag.Parse()
	pts := map[string]bool{}
	for _, p := range strings.Split(*points, ",") {
		pts[p] = true
	}
	cmd := exec.Command("go", append([]string{"list", "-overlay", *overlay, "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,ImportMap"}, flag.Args()...)...)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list:", err)
	}
	pk := map[string]*pkgInfo{}
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die(err)
		}
		q := p
		pk[p.ImportPath] = &q
	}
	var ov struct{ Replace map[string]string }
	ob, err := os.ReadFile(*overlay)
	if err != nil {
		die(err)
	}
	if err := json.Unmarshal(ob, &ov); err != nil {
		die(err)
	}
	os.RemoveAll(*out)
	for _, path := range flag.Args() {
		p := pk[path]
		if p == nil {
			die("no package", path)
		}
		dir := filepath.Join(*out, strings.ReplaceAll(path, "/", "_"))
		if err := os.MkdirAll(dir, 0o755); err != nil {
			die(err)
		}
		for f, src := range instrument(p, pk, pts[path]) {
			o := filepath.Join(dir, f)
			if err := os.WriteFile(o, src, 0o644); err != nil {
				die(err)
			}
			ov.Replace[filepath.Join(p.Dir, f)] = o
		}
	}
	b, _ = json.MarshalIndent(ov, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		die(err)
	}
}

type inst struct {
	fset     *token.FileSet
	info     *types.Info
	pkg      *types.Package
	points   bool
	n        int
	used     bool
	useUns   bool
	captured map[types.Object]bool
	origin   map[ast.Expr]types.Type
}

func instrument(p *pkgInfo, pk map[string]*pkgInfo, points bool) map[string][]byte {
	in := &inst{fset: token.NewFileSet(), points: points}
	var files []*ast.File
	for _, f := range p.GoFiles {
		a, err := parser.ParseFile(in.fset, filepath.Join(p.Dir, f), nil, 0)
		if err != nil {
			die(err)
		}
		files = append(files, a)
	}
	in.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	in.origin = map[ast.Expr]types.Type{}
	imp := importer.ForCompiler(in.fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		q := pk[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	})
	conf := types.Config{Importer: imp}
	var err error
	in.pkg, err = conf.Check(p.ImportPath, in.fset, files, in.info)
	if err != nil {
		die("type check", p.ImportPath, err)
	}
	if points {
		in.findCaptured(files)
	}
	out := map[string][]byte{}
	for i, a := range files {
		in.used, in.useUns = false, false
		for _, d := range a.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				in.block(&fd.Body.List)
			} else if gd, ok := d.(*ast.GenDecl); ok {
				in.node(gd)
			}
		}
		in.imports(a)
		var b bytes.Buffer
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&b, in.fset, a); err != nil {
			die(err)
		}
		src := b.Bytes()
		if f, err := format.Source(src); err == nil {
			src = f
		} else {
			die("format", p.GoFiles[i], err, string(src))
		}
		out[p.GoFiles[i]] = src
	}
	return out
}

var swap = map[string]string{
	`"sync"`:        `"vmc/vsched/vsync"`,
	`"sync/atomic"`: `"vmc/vsched/vatomic"`,
	`"time"`:        `"vmc/vsched/vtime"`,
	`"math/rand"`:   `"vmc/vsched/vrand"`,
}

func (in *inst) imports(a *ast.File) {
	for _, s := range a.Imports {
		if n, ok := swap[s.Path.Value]; ok {
			if s.Name == nil {
				base := strings.Trim(s.Path.Value, `"`)
				base = base[strings.LastIndex(base, "/")+1:]
				s.Name = ast.NewIdent(base)
			}
			s.Path = &ast.BasicLit{Kind: token.STRING, Value: n}
			s.EndPos = token.NoPos
		}
	}
	add := func(name, path string) {
		spec := &ast.ImportSpec{Name: ast.NewIdent(name), Path: &ast.BasicLit{Kind: token.STRING, Value: path}}
		d := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		a.Decls = append([]ast.Decl{d}, a.Decls...)
		a.Imports = append(a.Imports, spec)
	}
	if in.used {
		add("vsched_", `"vmc/vsched"`)
	}
	if in.useUns {
		add("unsafe_", `"unsafe"`)
	}
}

func (in *inst) tmp(s string) *ast.Ident {
	in.n++
	return ast.NewIdent(fmt.Sprintf("v%s_%d_", s, in.n))
}

func (in *inst) vs(name string) ast.Expr {
	in.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("vsched_"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }

func define(l, r ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.DEFINE, Rhs: []ast.Expr{r}}
}

func lit(i int) ast.Expr {
	if i < 0 {
		return &ast.UnaryExpr{Op: token.SUB, X: lit(-i)}
	}
	return &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(i)}
}

func (in *inst) typeOf(e ast.Expr) types.Type {
	if t, ok := in.origin[e]; ok {
		return t
	}
	return in.info.TypeOf(e)
}

func (in *inst) isChan(e ast.Expr) bool {
	t := in.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (in *inst) isMap(e ast.Expr) bool {
	t := in.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (in *inst) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = in.info.Uses[id].(*types.Builtin)
	return ok
}

func isArrow(e ast.Expr) *ast.UnaryExpr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	u, ok := e.(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

// block rewrites a statement list
func (in *inst) block(list *[]ast.Stmt) {
	var out []ast.Stmt
	for _, s := range *list {
		if in.points {
			out = append(out, in.pointsBefore(s)...)
		}
		out = append(out, in.stmt(s)...)
	}
	*list = out
}

func one(ss []ast.Stmt) ast.Stmt {
	if len(ss) == 1 {
		return ss[0]
	}
	return &ast.BlockStmt{List: ss}
}

// stmt rewrites one statement
func (in *inst) stmt(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case *ast.BlockStmt:
		in.block(&x.List)
	case *ast.SendStmt:
		x.Chan = in.expr(x.Chan)
		x.Value = in.expr(x.Value)
		return []ast.Stmt{&ast.ExprStmt{X: call(&ast.SelectorExpr{X: call(in.vs("To"), x.Chan), Sel: ast.NewIdent("Send")}, x.Value)}}
	case *ast.GoStmt:
		return in.goStmt(x)
	case *ast.SelectStmt:
		return []ast.Stmt{in.selectStmt(x, nil)}
	case *ast.LabeledStmt:
		switch y := x.Stmt.(type) {
		case *ast.SelectStmt:
			return []ast.Stmt{in.selectStmt(y, x.Label)}
		case *ast.RangeStmt:
			return []ast.Stmt{in.rangeStmt(y, x.Label)}
		}
		ss := in.stmt(x.Stmt)
		x.Stmt = ss[0]
		return append([]ast.Stmt{x}, ss[1:]...)
	case *ast.RangeStmt:
		return []ast.Stmt{in.rangeStmt(x, nil)}
	case *ast.AssignStmt:
		in.assign(x)
	case *ast.DeclStmt:
		in.node(x.Decl)
	case *ast.IfStmt:
		if x.Init != nil {
			x.Init = in.simple(x.Init)
		}
		x.Cond = in.expr(x.Cond)
		in.block(&x.Body.List)
		if x.Else != nil {
			if in.points {
				if ei, ok := x.Else.(*ast.IfStmt); ok {
					// make room for the points of the else-if
					x.Else = &ast.BlockStmt{List: []ast.Stmt{ei}}
				}
			}
			x.Else = one(in.stmt(x.Else))
		}
	case *ast.ForStmt:
		if x.Init != nil {
			x.Init = in.simple(x.Init)
		}
		var cond []ast.Stmt
		if in.points && x.Cond != nil {
			cond = in.accesses([]ast.Expr{x.Cond}, nil)
		}
		if x.Cond != nil {
			x.Cond = in.expr(x.Cond)
		}
		if x.Post != nil {
			x.Post = in.simple(x.Post)
		}
		in.block(&x.Body.List)
		x.Body.List = append(cond, x.Body.List...)
	case *ast.SwitchStmt:
		if x.Init != nil {
			x.Init = in.simple(x.Init)
		}
		if x.Tag != nil {
			x.Tag = in.expr(x.Tag)
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = in.expr(cc.List[i])
			}
			in.block(&cc.Body)
		}
	case *ast.TypeSwitchStmt:
		if x.Init != nil {
			x.Init = in.simple(x.Init)
		}
		x.Assign = in.simple(x.Assign)
		for _, c := range x.Body.List {
			in.block(&c.(*ast.CaseClause).Body)
		}
	default:
		in.node(s)
	}
	return []ast.Stmt{s}
}

// simple statement in a position where only one statement is allowed
func (in *inst) simple(s ast.Stmt) ast.Stmt {
	ss := in.stmt(s)
	if len(ss) != 1 {
		die("simple statement expands", in.fset.Position(s.Pos()))
	}
	return ss[0]
}

func (in *inst) assign(x *ast.AssignStmt) {
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		if u := isArrow(x.Rhs[0]); u != nil {
			x.Rhs[0] = call(in.vs("Recv2"), in.expr(u.X))
			for i := range x.Lhs {
				x.Lhs[i] = in.expr(x.Lhs[i])
			}
			return
		}
	}
	for i := range x.Lhs {
		ix, ok := x.Lhs[i].(*ast.IndexExpr)
		if ok && in.isMap(ix.X) {
			kt := in.typeOf(ix.X).Underlying().(*types.Map).Key()
			ptr := false
			switch kt.Underlying().(type) {
			case *types.Pointer, *types.Chan, *types.Interface:
				ptr = true
			}
			ix.X = in.expr(ix.X)
			ix.Index = in.expr(ix.Index)
			if ptr {
				ix.Index = call(in.vs("Seen"), ix.Index)
			}
			continue
		}
		x.Lhs[i] = in.expr(x.Lhs[i])
	}
	for i := range x.Rhs {
		x.Rhs[i] = in.expr(x.Rhs[i])
	}
}

func (in *inst) goStmt(x *ast.GoStmt) []ast.Stmt {
	c := x.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		in.expr(fl)
		return []ast.Stmt{&ast.ExprStmt{X: call(in.vs("Go"), fl)}}
	}
	var list []ast.Stmt
	nc := &ast.CallExpr{Ellipsis: c.Ellipsis}
	if id, ok := c.Fun.(*ast.Ident); ok && in.info.Uses[id] != nil {
		if _, b := in.info.Uses[id].(*types.Builtin); b {
			// go close(ch) and the like
			body := in.stmt(&ast.ExprStmt{X: c})
			return []ast.Stmt{&ast.ExprStmt{X: call(in.vs("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})}}
		}
	}
	f := in.tmp("f")
	list = append(list, define(f, in.expr(c.Fun)))
	nc.Fun = f
	for _, a := range c.Args {
		tv := in.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			nc.Args = append(nc.Args, a)
			continue
		}
		t := in.tmp("a")
		list = append(list, define(t, in.expr(a)))
		nc.Args = append(nc.Args, t)
	}
	list = append(list, &ast.ExprStmt{X: call(in.vs("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}})})
	return []ast.Stmt{&ast.BlockStmt{List: list}}
}

func (in *inst) selectStmt(x *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	if len(x.Body.List) == 0 {
		return &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(in.vs("Forever"))},
			&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}}
	}
	var list []ast.Stmt
	var cases []ast.Expr
	sel := in.tmp("sel")
	sw := &ast.SwitchStmt{Tag: &ast.SelectorExpr{X: sel, Sel: ast.NewIdent("I")}, Body: &ast.BlockStmt{}}
	hasDef := false
	n := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			in.block(&cc.Body)
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: cc.Body})
			continue
		}
		var pre []ast.Stmt
		switch y := cc.Comm.(type) {
		case *ast.SendStmt:
			cases = append(cases, call(&ast.SelectorExpr{X: call(in.vs("To"), in.expr(y.Chan)), Sel: ast.NewIdent("Case")}, in.expr(y.Value)))
		case *ast.ExprStmt:
			u := isArrow(y.X)
			cases = append(cases, call(in.vs("RCase"), in.expr(u.X)))
		case *ast.AssignStmt:
			u := isArrow(y.Rhs[0])
			ch := in.tmp("c")
			list = append(list, define(ch, in.expr(u.X)))
			cases = append(cases, call(in.vs("RCase"), ch))
			v := "Val"
			if len(y.Lhs) == 2 {
				v = "Val2"
			}
			for i := range y.Lhs {
				y.Lhs[i] = in.expr(y.Lhs[i])
			}
			y.Rhs[0] = call(in.vs(v), ch, sel)
			pre = append(pre, y)
		}
		in.block(&cc.Body)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{lit(n)}, Body: append(pre, cc.Body...)})
		n++
	}
	def := "false"
	if hasDef {
		def = "true"
	} else {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{
			&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}})
	}
	list = append(list, define(sel, call(in.vs("Select"), append([]ast.Expr{ast.NewIdent(def)}, cases...)...)))
	var last ast.Stmt = sw
	if label != nil {
		last = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	list = append(list, last)
	return &ast.BlockStmt{List: list}
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (in *inst) rangeStmt(x *ast.RangeStmt, label *ast.Ident) ast.Stmt {
	wrap := func(s ast.Stmt) ast.Stmt {
		if label != nil {
			return &ast.LabeledStmt{Label: label, Stmt: s}
		}
		return s
	}
	switch {
	case in.isChan(x.X):
		ch, ok := in.tmp("c"), in.tmp("ok")
		src := in.expr(x.X)
		in.block(&x.Body.List)
		var get []ast.Stmt
		v := ast.Expr(ast.NewIdent("_"))
		tok := token.DEFINE
		if !blank(x.Key) {
			v = x.Key
			if x.Tok == token.ASSIGN {
				get = append(get, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ok}, Type: ast.NewIdent("bool")}}}})
				tok = token.ASSIGN
			}
		}
		get = append(get, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: tok, Rhs: []ast.Expr{call(in.vs("Recv2"), ch)}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
		return &ast.BlockStmt{List: []ast.Stmt{define(ch, src), wrap(&ast.ForStmt{Body: &ast.BlockStmt{List: append(get, x.Body.List...)}})}}
	case in.isMap(x.X):
		m, k, ok := in.tmp("m"), in.tmp("k"), in.tmp("ok")
		src := in.expr(x.X)
		in.block(&x.Body.List)
		var get []ast.Stmt
		v := ast.Expr(ast.NewIdent("_"))
		var val *ast.Ident
		if !blank(x.Value) {
			val = in.tmp("v")
			v = val
		}
		get = append(get, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: m, Index: k}}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		if !blank(x.Key) {
			get = append(get, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: x.Tok, Rhs: []ast.Expr{k}})
		}
		if val != nil {
			get = append(get, &ast.AssignStmt{Lhs: []ast.Expr{x.Value}, Tok: x.Tok, Rhs: []ast.Expr{val}})
		}
		return &ast.BlockStmt{List: []ast.Stmt{define(m, src),
			wrap(&ast.RangeStmt{Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE, X: call(in.vs("Keys"), m), Body: &ast.BlockStmt{List: append(get, x.Body.List...)}})}}
	}
	x.X = in.expr(x.X)
	if x.Key != nil {
		x.Key = in.expr(x.Key)
	}
	if x.Value != nil {
		x.Value = in.expr(x.Value)
	}
	in.block(&x.Body.List)
	return wrap(x)
}

// expr rewrites an expression
func (in *inst) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	switch x := e.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			t := in.typeOf(x)
			n := call(in.vs("Recv"), in.expr(x.X))
			in.origin[n] = t
			return n
		}
	case *ast.CallExpr:
		if len(x.Args) == 1 {
			if in.isBuiltin(x.Fun, "close") {
				return call(in.vs("Close"), in.expr(x.Args[0]))
			}
			if in.isBuiltin(x.Fun, "len") && in.isChan(x.Args[0]) {
				n := call(in.vs("Len"), in.expr(x.Args[0]))
				in.origin[n] = in.typeOf(x)
				return n
			}
		}
	case *ast.FuncLit:
		in.block(&x.Body.List)
		return x
	}
	in.node(e)
	return e
}

var exprType = reflect.TypeOf((*ast.Expr)(nil)).Elem()
var stmtType = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
var nodeType = reflect.TypeOf((*ast.Node)(nil)).Elem()

// node rewrites the children of any node
func (in *inst) node(n ast.Node) {
	v := reflect.ValueOf(n)
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return
	}
	if vs, ok := n.(*ast.ValueSpec); ok && len(vs.Names) == 2 && len(vs.Values) == 1 {
		if u := isArrow(vs.Values[0]); u != nil {
			vs.Values[0] = call(in.vs("Recv2"), in.expr(u.X))
			return
		}
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		in.field(f)
	}
}

func (in *inst) field(f reflect.Value) {
	switch {
	case f.Type() == exprType:
		if !f.IsNil() {
			f.Set(reflect.ValueOf(in.expr(f.Interface().(ast.Expr))))
		}
	case f.Type() == stmtType:
		if !f.IsNil() {
			f.Set(reflect.ValueOf(one(in.stmt(f.Interface().(ast.Stmt)))))
		}
	case f.Kind() == reflect.Slice && f.Type().Elem() == stmtType:
		l := f.Interface().([]ast.Stmt)
		in.block(&l)
		f.Set(reflect.ValueOf(l))
	case f.Kind() == reflect.Slice:
		for j := 0; j < f.Len(); j++ {
			in.field(f.Index(j))
		}
	case f.Kind() == reflect.Interface && f.Type().Implements(nodeType):
		if !f.IsNil() {
			in.node(f.Interface().(ast.Node))
		}
	case f.Kind() == reflect.Ptr && f.Type().Implements(nodeType):
		if f.IsNil() {
			return
		}
		switch x := f.Interface().(type) {
		case *ast.BlockStmt:
			in.block(&x.List)
		case *ast.CallExpr: // defer and go
			n := in.expr(x)
			if c, ok := n.(*ast.CallExpr); ok {
				f.Set(reflect.ValueOf(c))
			}
		case *ast.CommentGroup:
		default:
			in.node(f.Interface().(ast.Node))
		}
	}
}

// ---- statement points and accesses

func (in *inst) findCaptured(files []*ast.File) {
	in.captured = map[types.Object]bool{}
	declFn := map[types.Object]ast.Node{}
	for _, f := range files {
		var walk func(n ast.Node, fn ast.Node)
		walk = func(n ast.Node, fn ast.Node) {
			ast.Inspect(n, func(m ast.Node) bool {
				switch x := m.(type) {
				case *ast.FuncLit:
					if m != n {
						walk(x.Type, x)
						walk(x.Body, x)
						return false
					}
				case *ast.FuncDecl:
					if m != n {
						walk(x, x)
						return false
					}
				case *ast.Ident:
					if o, ok := in.info.Defs[x].(*types.Var); ok {
						declFn[o] = fn
					}
				}
				return true
			})
		}
		walk(f, nil)
	}
	for _, f := range files {
		var walk func(n ast.Node, fn ast.Node)
		walk = func(n ast.Node, fn ast.Node) {
			ast.Inspect(n, func(m ast.Node) bool {
				switch x := m.(type) {
				case *ast.FuncLit:
					if m != n {
						walk(x.Body, x)
						return false
					}
				case *ast.FuncDecl:
					if m != n {
						walk(x, x)
						return false
					}
				case *ast.Ident:
					if o, ok := in.info.Uses[x].(*types.Var); ok && !o.IsField() {
						if o.Pkg() == in.pkg && (declFn[o] != fn || o.Parent() == in.pkg.Scope()) {
							in.captured[o] = true
						}
					}
				}
				return true
			})
		}
		walk(f, nil)
	}
}

func (in *inst) pointsBefore(s ast.Stmt) []ast.Stmt {
	var rd, wr []ast.Expr
	switch x := s.(type) {
	case *ast.DeferStmt:
		rd = x.Call.Args
	case *ast.GoStmt:
		rd = x.Call.Args
	case *ast.AssignStmt:
		rd = x.Rhs
		if x.Tok != token.DEFINE {
			wr = x.Lhs
		}
		if x.Tok != token.DEFINE && x.Tok != token.ASSIGN {
			rd = append(append([]ast.Expr{}, rd...), x.Lhs...)
		}
	case *ast.IncDecStmt:
		wr = []ast.Expr{x.X}
	case *ast.ExprStmt:
		rd = []ast.Expr{x.X}
	case *ast.SendStmt:
		rd = []ast.Expr{x.Chan, x.Value}
	case *ast.ReturnStmt:
		rd = x.Results
	case *ast.IfStmt:
		rd = []ast.Expr{x.Cond}
		if as, ok := x.Init.(*ast.AssignStmt); ok {
			rd = as.Rhs // the condition may use what Init declares
		} else if x.Init != nil {
			rd = nil
		}
	case *ast.ForStmt:
		if x.Cond != nil && x.Init == nil {
			rd = []ast.Expr{x.Cond}
		}
	case *ast.SwitchStmt:
		if x.Tag != nil && x.Init == nil {
			rd = []ast.Expr{x.Tag}
		}
	case *ast.RangeStmt:
		rd = []ast.Expr{x.X}
	case *ast.LabeledStmt, *ast.BranchStmt, *ast.EmptyStmt, *ast.BlockStmt, *ast.SelectStmt, *ast.TypeSwitchStmt, *ast.DeclStmt:
	}
	acc := in.accesses(rd, wr)
	if len(acc) == 0 {
		return nil
	}
	return append([]ast.Stmt{&ast.ExprStmt{X: call(in.vs("P"))}}, acc...)
}

func (in *inst) accesses(rd, wr []ast.Expr) (out []ast.Stmt) {
	seen := map[string]bool{}
	emit := func(fn string, e ast.Expr) {
		if !pure(e) {
			return
		}
		s := in.str(e)
		if seen[fn+s] {
			return
		}
		seen[fn+s] = true
		c, err := parser.ParseExpr(fmt.Sprintf("func() unsafe_.Pointer { return unsafe_.Pointer(&%s) }", s))
		if err != nil {
			die(err)
		}
		clear(c)
		in.useUns = true
		pos := in.fset.Position(e.Pos())
		out = append(out, &ast.ExprStmt{X: call(in.vs(fn), &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", fmt.Sprintf("%s (%s:%d)", s, filepath.Base(pos.Filename), pos.Line))}, c)})
	}
	var visit func(e ast.Node)
	visit = func(e ast.Node) {
		ast.Inspect(e, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					return false
				}
			case *ast.SelectorExpr:
				if in.access(x) {
					emit("R", x)
				}
				visit(x.X)
				return false
			case *ast.KeyValueExpr:
				visit(x.Value)
				return false
			case *ast.Ident, *ast.IndexExpr, *ast.StarExpr:
				if in.access(x.(ast.Expr)) {
					emit("R", x.(ast.Expr))
				}
			}
			return true
		})
	}
	for _, e := range rd {
		if e != nil {
			visit(e)
		}
	}
	for _, e := range wr {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
		}
		if in.access(e) {
			emit("W", e)
		}
		switch x := e.(type) {
		case *ast.SelectorExpr:
			visit(x.X)
		case *ast.IndexExpr:
			visit(x.X)
			visit(x.Index)
		case *ast.StarExpr:
			visit(x.X)
		}
	}
	return
}

// access: is the expression an addressable shared location worth recording
func (in *inst) access(e ast.Expr) bool {
	t := in.info.TypeOf(e)
	if t == nil {
		return false
	}
	if nt, ok := t.(*types.Named); ok && nt.Obj().Pkg() != nil && strings.HasPrefix(nt.Obj().Pkg().Path(), "sync") {
		return false
	}
	switch x := e.(type) {
	case *ast.Ident:
		o, ok := in.info.Uses[x].(*types.Var)
		return ok && in.captured[o]
	case *ast.SelectorExpr:
		s, ok := in.info.Selections[x]
		if !ok || s.Kind() != types.FieldVal {
			return false
		}
		return in.addressable(x)
	case *ast.IndexExpr:
		switch u := in.info.TypeOf(x.X).Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			_, ok := u.Elem().Underlying().(*types.Array)
			return ok
		case *types.Array:
			return in.addressable(x)
		}
	case *ast.StarExpr:
		tv := in.info.Types[e]
		return tv.IsValue()
	}
	return false
}

func (in *inst) addressable(e ast.Expr) bool { return in.info.Types[e].Addressable() }

func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.CompositeLit, *ast.TypeAssertExpr:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (in *inst) str(e ast.Expr) string {
	var b bytes.Buffer
	printer.Fprint(&b, in.fset, e)
	return b.String()
}

// clear positions of a freshly parsed expression
func clear(n ast.Node) {
	ast.Inspect(n, func(m ast.Node) bool {
		if m == nil {
			return false
		}
		v := reflect.ValueOf(m).Elem()
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).Type() == reflect.TypeOf(token.Pos(0)) {
				if v.Type().Field(i).Name == "Ellipsis" {
					continue
				}
				v.Field(i).SetInt(0)
			}
		}
		return true
	})
}
