// Command instrument copies the non-test Go packages of a source tree into a GOPATH tree and puts the
// simulation seams in: yield points before statements, goroutines, channel operations, sync and time.
// Edits are textual insertions, so comments, directives and line numbers stay as they are.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/mit-dci/zksigma"

type pkg struct {
	dir, path string
	files     []string
	imports   []string
	asts      []*ast.File
	srcs      [][]byte
	tp        *types.Package
	info      *types.Info
}

var (
	fset     = token.NewFileSet()
	siteNo   uint32
	siteList []string
	stats    = map[string]int{}
)

func fail(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	if len(os.Args) != 4 {
		fail("usage: instrument SRC OUTGOPATH on|off")
	}
	src, out, mode := os.Args[1], os.Args[2], os.Args[3]
	pkgs := scan(src)
	order := sortPkgs(pkgs)
	std := stdImporter(order)
	done := map[string]*types.Package{}
	for _, p := range order {
		check(p, std, done)
	}
	for _, p := range order {
		emit(p, src, out, mode == "on")
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"sites": siteNo, "stats": stats, "names": siteList}, "", " ")
	os.WriteFile(filepath.Join(out, "sites.json"), b, 0o644)
}

func scan(src string) map[string]*pkg {
	pkgs := map[string]*pkg{}
	ctx := build.Default
	ctx.GOPATH = "/nonexistent"
	filepath.Walk(src, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			fail("%v", err)
		}
		if !fi.IsDir() {
			return nil
		}
		name := fi.Name()
		if path != src && (strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "testdata" || name == "vendor" || name == "examples") {
			return filepath.SkipDir
		}
		bp, err := ctx.ImportDir(path, 0)
		if err != nil {
			if _, ok := err.(*build.NoGoError); ok {
				return nil
			}
			fail("%s: %v", path, err)
		}
		if bp.Name == "main" || len(bp.GoFiles) == 0 {
			return nil
		}
		rel, _ := filepath.Rel(src, path)
		ip := modPath
		if rel != "." {
			ip += "/" + filepath.ToSlash(rel)
		}
		pkgs[ip] = &pkg{dir: path, path: ip, files: bp.GoFiles, imports: bp.Imports}
		return nil
	})
	if len(pkgs) == 0 {
		fail("no packages in %s", src)
	}
	return pkgs
}

func sortPkgs(pkgs map[string]*pkg) []*pkg {
	var names []string
	for n := range pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	state := map[string]int{}
	var order []*pkg
	var visit func(n string)
	visit = func(n string) {
		if state[n] == 2 {
			return
		}
		if state[n] == 1 {
			fail("import cycle at %s", n)
		}
		state[n] = 1
		for _, i := range pkgs[n].imports {
			if pkgs[i] != nil {
				visit(i)
			}
		}
		state[n] = 2
		order = append(order, pkgs[n])
	}
	for _, n := range names {
		visit(n)
	}
	return order
}

func stdImporter(order []*pkg) types.Importer {
	need := map[string]bool{}
	own := map[string]bool{}
	for _, p := range order {
		own[p.path] = true
	}
	for _, p := range order {
		for _, i := range p.imports {
			if !own[i] && i != "C" && i != "unsafe" {
				need[i] = true
			}
		}
	}
	args := []string{"list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}"}
	var names []string
	for n := range need {
		names = append(names, n)
	}
	sort.Strings(names)
	cmd := exec.Command("go", append(args, names...)...)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fail("go list: %v", err)
	}
	exp := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Split(l, "\t")
		if len(f) == 2 && f[1] != "" {
			exp[f[0]] = f[1]
		}
	}
	return importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exp[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
}

type imp struct {
	std  types.Importer
	done map[string]*types.Package
}

func (i imp) Import(p string) (*types.Package, error) {
	if t := i.done[p]; t != nil {
		return t, nil
	}
	return i.std.Import(p)
}

func check(p *pkg, std types.Importer, done map[string]*types.Package) {
	for _, f := range p.files {
		path := filepath.Join(p.dir, f)
		b, err := os.ReadFile(path)
		if err != nil {
			fail("%v", err)
		}
		a, err := parser.ParseFile(fset, path, b, parser.ParseComments)
		if err != nil {
			fail("%v", err)
		}
		p.asts = append(p.asts, a)
		p.srcs = append(p.srcs, b)
	}
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: imp{std, done}}
	tp, err := conf.Check(p.path, fset, p.asts, p.info)
	if err != nil {
		fail("type check %s: %v", p.path, err)
	}
	p.tp = tp
	done[p.path] = tp
}

// ---------------------------------------------------------------------------------------------------

type edit struct {
	off, end int // replaced range
	pri      int // order among edits at the same offset
	text     string
}

type inst struct {
	p     *pkg
	src   []byte
	base  int
	edits []edit
	used  bool
	uniq  int
}

func (in *inst) off(p token.Pos) int { return fset.Position(p).Offset }

func (in *inst) ins(p token.Pos, pri int, t string) {
	o := in.off(p)
	in.edits = append(in.edits, edit{o, o, pri, t})
}
func (in *inst) rep(a, b token.Pos, t string) {
	in.edits = append(in.edits, edit{in.off(a), in.off(b), 0, t})
}
func (in *inst) text(n ast.Node) string { return string(in.src[in.off(n.Pos()):in.off(n.End())]) }

func (in *inst) id() int { in.uniq++; return in.uniq }

func emit(p *pkg, src, out string, on bool) {
	rel, _ := filepath.Rel(src, p.dir)
	dst := filepath.Join(out, "src", modPath, rel)
	if err := os.MkdirAll(dst, 0o755); err != nil {
		fail("%v", err)
	}
	// other files of the directory (embedded data, assembly) travel along
	es, _ := os.ReadDir(p.dir)
	for _, e := range es {
		if e.Type().IsRegular() && !strings.HasSuffix(e.Name(), ".go") {
			if fi, err := e.Info(); err == nil && fi.Size() < 16<<20 {
				if b, err := os.ReadFile(filepath.Join(p.dir, e.Name())); err == nil {
					os.WriteFile(filepath.Join(dst, e.Name()), b, 0o644)
				}
			}
		}
	}
	for i, a := range p.asts {
		b := p.srcs[i]
		if on {
			in := &inst{p: p, src: b}
			in.file(a)
			b = in.apply(a)
			if _, err := parser.ParseFile(token.NewFileSet(), p.files[i], b, 0); err != nil {
				os.WriteFile("/dev/stderr", b, 0o644)
				fail("instrumented %s does not parse: %v", p.files[i], err)
			}
		}
		if err := os.WriteFile(filepath.Join(dst, p.files[i]), b, 0o644); err != nil {
			fail("%v", err)
		}
	}
}

func (in *inst) apply(a *ast.File) []byte {
	if in.used {
		in.ins(a.Name.End(), 0, `; import zkdstrt "zkdst/simrt"`)
	}
	es := in.edits
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		return es[i].pri < es[j].pri
	})
	var o []byte
	pos := 0
	for _, e := range es {
		if e.off < pos {
			fail("overlapping edits near offset %d of %s", e.off, in.p.path)
		}
		o = append(o, in.src[pos:e.off]...)
		o = append(o, e.text...)
		pos = e.end
	}
	o = append(o, in.src[pos:]...)
	if in.used {
		o = append(o, "\n\nvar _ = zkdstrt.Y\n"...)
	}
	return o
}

var timeNames = set("Duration Time Month Weekday Location ParseError Nanosecond Microsecond Millisecond Second Minute Hour " +
	"ANSIC RFC1123 RFC822 RFC3339 RFC3339Nano Kitchen Stamp StampMilli StampMicro StampNano DateTime DateOnly TimeOnly UTC Local " +
	"Now Since Until Sleep Unix UnixMilli UnixMicro Date Parse ParseDuration Timer NewTimer After AfterFunc Ticker NewTicker Tick")

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, n := range strings.Fields(s) {
		m[n] = true
	}
	return m
}

var syncNames = map[string]bool{"Locker": true, "Mutex": true, "RWMutex": true, "WaitGroup": true, "Once": true, "OnceFunc": true,
	"OnceValue": true, "OnceValues": true, "Cond": true, "NewCond": true, "Pool": true, "Map": true}

func (in *inst) file(a *ast.File) {
	for _, im := range a.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		var names map[string]bool
		switch path {
		case "sync":
			names = syncNames
		case "time":
			names = timeNames
		default:
			continue
		}
		okAll := true
		for id, ob := range in.p.info.Uses {
			if ob.Pkg() != nil && ob.Pkg().Path() == path && ob.Parent() == ob.Pkg().Scope() && !names[id.Name] {
				okAll = false
			}
		}
		if !okAll {
			if path == "sync" {
				fail("package %s uses a part of sync the simulation has no model for", in.p.path)
			}
			stats["time kept real"]++
			continue
		}
		stats["import "+path]++
		in.rep(im.Path.Pos(), im.Path.End(), `"zkdst/sim`+path+`"`)
	}
	for _, d := range a.Decls {
		ast.Walk(visitor{in}, d)
	}
}

type visitor struct{ in *inst }

func (v visitor) Visit(n ast.Node) ast.Visitor {
	in := v.in
	switch x := n.(type) {
	case *ast.BlockStmt:
		in.list(x.List, x.Lbrace+1)
	case *ast.CaseClause:
		in.list(x.Body, x.Colon+1)
	case *ast.CommClause:
		in.list(x.Body, x.Colon+1)
	case *ast.SwitchStmt:
		in.clauses(x.Body)
		return nilBlock(v, n)
	case *ast.TypeSwitchStmt:
		in.clauses(x.Body)
		return nilBlock(v, n)
	case *ast.ForStmt:
		if len(x.Body.List) == 0 {
			in.used = true
			in.ins(x.Body.Lbrace+1, -10, " zkdstrt.Y(0); ")
		}
	case *ast.SendStmt:
		in.used = true
		stats["send"]++
		in.ins(x.Pos(), -5, "zkdstrt.SendTo(")
		in.rep(x.Arrow, x.Arrow+2, ")(")
		in.ins(x.End(), 5, ")")
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			in.used = true
			stats["recv"]++
			in.rep(x.OpPos, x.OpPos+2, "zkdstrt.Recv(")
			in.ins(x.End(), 5, ")")
		}
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u := recvExpr(x.Rhs[0]); u != nil {
				in.recv2(u)
				for _, l := range x.Lhs {
					ast.Walk(v, l)
				}
				ast.Walk(v, u.X)
				return nil
			}
		}
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			if u := recvExpr(x.Values[0]); u != nil {
				in.recv2(u)
				ast.Walk(v, u.X)
				return nil
			}
		}
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 {
			if b, ok := in.p.info.Uses[id].(*types.Builtin); ok && in.isChan(x.Args[0]) {
				switch b.Name() {
				case "close":
					in.used = true
					stats["close"]++
					in.rep(id.Pos(), id.End(), "zkdstrt.Close")
				case "len":
					in.used = true
					in.rep(id.Pos(), id.End(), "zkdstrt.Len")
				}
			}
		}
	case *ast.RangeStmt:
		if in.isChan(x.X) {
			in.rangeChan(v, x)
			return nil
		}
		if in.isMap(x.X) {
			in.used = true
			stats["map range"]++
			in.ins(x.X.Pos(), -5, "zkdstrt.MapOver(")
			in.ins(x.X.End(), 5, ")")
		}
	case *ast.SelectStmt:
		in.selectStmt(v, x)
		return nil
	case *ast.GoStmt:
		in.goStmt(v, x)
		return nil
	}
	return v
}

// nilBlock walks a switch without treating its clause list as statements.
func nilBlock(v visitor, n ast.Node) ast.Visitor {
	switch x := n.(type) {
	case *ast.SwitchStmt:
		if x.Init != nil {
			ast.Walk(v, x.Init)
		}
		if x.Tag != nil {
			ast.Walk(v, x.Tag)
		}
		for _, c := range x.Body.List {
			ast.Walk(v, c)
		}
	case *ast.TypeSwitchStmt:
		if x.Init != nil {
			ast.Walk(v, x.Init)
		}
		ast.Walk(v, x.Assign)
		for _, c := range x.Body.List {
			ast.Walk(v, c)
		}
	}
	return nil
}

func (in *inst) clauses(*ast.BlockStmt) {}

func recvExpr(e ast.Expr) *ast.UnaryExpr {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
			continue
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				return x
			}
		}
		return nil
	}
}

func (in *inst) recv2(u *ast.UnaryExpr) {
	in.used = true
	stats["recv"]++
	in.rep(u.OpPos, u.OpPos+2, "zkdstrt.Recv2(")
	in.ins(u.End(), 5, ")")
}

func (in *inst) isChan(e ast.Expr) bool {
	t := in.p.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (in *inst) isMap(e ast.Expr) bool {
	t := in.p.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// list puts yield points before the statements of a block.
func (in *inst) list(ss []ast.Stmt, at token.Pos) {
	if len(ss) == 0 {
		return
	}
	run := 0
	for i, s := range ss {
		if simple(s) {
			n := 1
			for j := i - 1; j >= 0 && simple(ss[j]); j-- {
				n++
			}
			m := n
			for j := i + 1; j < len(ss) && simple(ss[j]); j++ {
				m++
			}
			if m > 12 && n%16 != 1 {
				continue
			}
		}
		run++
		switch s.(type) {
		case *ast.EmptyStmt:
			continue
		}
		in.used = true
		siteNo++
		pos := fset.Position(s.Pos())
		siteList = append(siteList, fmt.Sprintf("%s:%d", strings.TrimPrefix(pos.Filename, "/repo/"), pos.Line))
		in.ins(s.Pos(), -10, fmt.Sprintf("zkdstrt.Y(%d);", siteNo))
	}
}

// simple statements are assignments without calls, communication or function literals.
func simple(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.AssignStmt, *ast.IncDecStmt:
	default:
		return false
	}
	ok := true
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if id, is := x.Fun.(*ast.Ident); is && (id.Name == "uint64" || id.Name == "uint32" || id.Name == "byte" || id.Name == "int" || id.Name == "uint") {
				return true
			}
			ok = false
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (in *inst) rangeChan(v visitor, x *ast.RangeStmt) {
	in.used = true
	stats["range"]++
	k := in.id()
	// for K := range X {   ->   for _zrK := zkdstrt.RangeOver(X); ; { _t, _ok := _zrK.Next(); if !_ok {break}; K := _t;
	head := fmt.Sprintf(" _zr%d := zkdstrt.RangeOver(", k)
	in.rep(x.For+3, x.X.Pos(), head)
	in.ins(x.X.End(), 5, "); ;")
	ast.Walk(v, x.X)
	body := fmt.Sprintf(" _zt%d, _zo%d := _zr%d.Next(); if !_zo%d { break }; _ = _zt%d; ", k, k, k, k, k)
	if x.Key != nil {
		body += fmt.Sprintf("%s %s _zt%d; ", in.text(x.Key), x.Tok, k)
	}
	in.ins(x.Body.Lbrace+1, -20, body)
	ast.Walk(v, x.Body)
}

func (in *inst) selectStmt(v visitor, x *ast.SelectStmt) {
	in.used = true
	stats["select"]++
	if len(x.Body.List) == 0 {
		in.rep(x.Pos(), x.End(), "for { zkdstrt.Block() }")
		return
	}
	k := in.id()
	hasDef := false
	var names, vals []string
	type com struct {
		c   *ast.CommClause
		idx int
	}
	var coms []com
	for _, s := range x.Body.List {
		c := s.(*ast.CommClause)
		if c.Comm == nil {
			hasDef = true
			coms = append(coms, com{c, -1})
			continue
		}
		i := len(names)
		names = append(names, fmt.Sprintf("_zc%d_%d", k, i))
		coms = append(coms, com{c, i})
		var val string
		switch m := c.Comm.(type) {
		case *ast.SendStmt:
			val = fmt.Sprintf("zkdstrt.CaseSendTo(%s)(%s)", in.sub(m.Chan), in.sub(m.Value))
		case *ast.ExprStmt:
			val = fmt.Sprintf("zkdstrt.CaseRecv(%s)", in.sub(recvExpr(m.X).X))
		case *ast.AssignStmt:
			val = fmt.Sprintf("zkdstrt.CaseRecv(%s)", in.sub(recvExpr(m.Rhs[0]).X))
		}
		vals = append(vals, val)
	}
	if len(names) == 0 { // only a default clause
		in.rep(x.Select, x.Body.Lbrace, "switch ")
	} else {
		in.rep(x.Select, x.Body.Lbrace, fmt.Sprintf("switch %s := %s; zkdstrt.Sel(%v, %s) ",
			strings.Join(names, ", "), strings.Join(vals, ", "), hasDef, strings.Join(names, ", ")))
	}
	for n, cm := range coms {
		c := cm.c
		label := fmt.Sprintf("case %d:", cm.idx)
		if cm.idx < 0 || (!hasDef && n == len(coms)-1) {
			label = "default:"
		}
		if m, ok := c.Comm.(*ast.AssignStmt); ok {
			f := "Val"
			if len(m.Lhs) == 2 {
				f = "Val2"
			}
			var l []string
			for _, e := range m.Lhs {
				l = append(l, in.sub(e))
			}
			label += fmt.Sprintf(" %s %s %s.%s();", strings.Join(l, ", "), m.Tok, names[cm.idx], f)
		}
		in.rep(c.Case, c.Colon+1, label)
		in.list(c.Body, c.Colon+1)
		for _, s := range c.Body {
			ast.Walk(v, s)
		}
	}
}

// sub renders an expression with its own edits applied (for text that moves).
func (in *inst) sub(e ast.Expr) string {
	c := &inst{p: in.p, src: in.src, uniq: in.uniq + 1000}
	ast.Walk(visitor{c}, e)
	if c.used {
		in.used = true
	}
	sort.SliceStable(c.edits, func(i, j int) bool {
		if c.edits[i].off != c.edits[j].off {
			return c.edits[i].off < c.edits[j].off
		}
		return c.edits[i].pri < c.edits[j].pri
	})
	o := ""
	pos, end := in.off(e.Pos()), in.off(e.End())
	for _, ed := range c.edits {
		o += string(in.src[pos:ed.off]) + ed.text
		pos = ed.end
	}
	return o + string(in.src[pos:end])
}

func (in *inst) goStmt(v visitor, x *ast.GoStmt) {
	in.used = true
	stats["go"]++
	k := in.id()
	call := x.Call
	var names, vals, args []string
	fun := ""
	inlineFun := false
	switch f := ast.Unparen(call.Fun).(type) {
	case *ast.Ident:
		switch in.p.info.Uses[f].(type) {
		case *types.Func, *types.Builtin:
			inlineFun = true
		}
	case *ast.SelectorExpr:
		if fn, ok := in.p.info.Uses[f.Sel].(*types.Func); ok && fn.Type().(*types.Signature).Recv() == nil {
			inlineFun = true
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		inlineFun = true
	case *ast.FuncLit:
		inlineFun = len(call.Args) == 0
	}
	if tv := in.p.info.Types[call.Fun]; tv.IsBuiltin() || tv.IsType() {
		inlineFun = true
	}
	if inlineFun {
		fun = in.sub(call.Fun)
		if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "close" && len(call.Args) == 1 && in.isChan(call.Args[0]) {
			fun = "zkdstrt.Close"
		}
	} else {
		fun = fmt.Sprintf("_zf%d", k)
		names = append(names, fun)
		vals = append(vals, in.sub(call.Fun))
	}
	pre := ""
	if len(call.Args) == 1 {
		if tup, ok := in.p.info.TypeOf(call.Args[0]).(*types.Tuple); ok {
			var ns []string
			for i := 0; i < tup.Len(); i++ {
				ns = append(ns, fmt.Sprintf("_za%d_%d", k, i))
			}
			pre = strings.Join(ns, ", ") + " := " + in.sub(call.Args[0]) + "; "
			args = ns
		}
	}
	if pre == "" {
		for i, a := range call.Args {
			tv := in.p.info.Types[a]
			if tv.Value != nil || tv.IsNil() || tv.IsType() {
				args = append(args, in.sub(a))
				continue
			}
			n := fmt.Sprintf("_za%d_%d", k, i)
			names = append(names, n)
			vals = append(vals, in.sub(a))
			args = append(args, n)
		}
	}
	out := "{ "
	if len(names) > 0 {
		out += strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
	}
	ell := ""
	if call.Ellipsis.IsValid() {
		ell = "..."
	}
	out += pre + "zkdstrt.Go(func() { " + fun + "(" + strings.Join(args, ", ") + ell + ") }) }"
	in.rep(x.Pos(), x.End(), out)
}
