// Command instr rewrites packages of the module so that every goroutine, channel, lock, atomic, timer and
// context operation goes through the virtual runtime (verifmc/vrt). It works on the current source text and
// writes a build overlay; the repository is not changed.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const vrtPath = "github.com/netsec-ethz/fpki/verifmc/vrt"

var names = map[string]map[string]string{
	"sync": {"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "OnceFunc": "OnceFunc",
		"OnceValue": "OnceValue", "OnceValues": "OnceValues", "Cond": "Cond", "NewCond": "NewCond", "Map": "Map", "Pool": "Pool", "Locker": "Locker"},
	"sync/atomic": {"Int32": "Int32", "Int64": "Int64", "Uint32": "Uint32", "Uint64": "Uint64", "Uintptr": "Uintptr", "Bool": "Bool",
		"Pointer": "Pointer", "Value": "Value",
		"AddInt32": "AddInt32", "AddInt64": "AddInt64", "AddUint32": "AddUint32", "AddUint64": "AddUint64",
		"LoadInt32": "LoadInt32", "LoadInt64": "LoadInt64", "LoadUint32": "LoadUint32", "LoadUint64": "LoadUint64",
		"StoreInt32": "StoreInt32", "StoreInt64": "StoreInt64", "StoreUint32": "StoreUint32", "StoreUint64": "StoreUint64",
		"SwapInt32": "SwapInt32", "SwapInt64": "SwapInt64", "SwapUint32": "SwapUint32", "SwapUint64": "SwapUint64",
		"CompareAndSwapInt32": "CompareAndSwapInt32", "CompareAndSwapInt64": "CompareAndSwapInt64",
		"CompareAndSwapUint32": "CompareAndSwapUint32", "CompareAndSwapUint64": "CompareAndSwapUint64"},
	"time": {"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "After": "After", "AfterFunc": "AfterFunc", "Tick": "Tick",
		"NewTimer": "NewTimer", "NewTicker": "NewTicker", "Timer": "Timer", "Ticker": "Ticker"},
	"context": {"WithCancel": "WithCancel", "WithCancelCause": "WithCancelCause", "WithDeadline": "WithDeadline", "WithTimeout": "WithTimeout",
		"WithTimeoutCause": "WithTimeoutCause", "WithDeadlineCause": "WithDeadlineCause", "WithoutCancel": "WithoutCancel",
		"Cause": "Cause", "AfterFunc": "CtxAfterFunc"},
	"runtime":                    {"Gosched": "Gosched"},
	"os/signal":                  {"Notify": "SignalNotify", "Stop": "SignalStop", "NotifyContext": "SignalNotifyContext"},
	"golang.org/x/sync/errgroup": {"Group": "ErrGroup", "WithContext": "ErrGroupWithContext"},
	"math/rand":                  {"Int": "RandInt", "Intn": "RandIntn"},
	"math/rand/v2":               {"Int": "RandInt", "IntN": "RandIntn"},
	"go.uber.org/atomic": {"Int32": "Int32", "Int64": "Int64", "Uint32": "Uint32", "Uint64": "Uint64", "Uintptr": "Uintptr", "Bool": "Bool",
		"NewInt32": "NewInt32", "NewInt64": "NewInt64", "NewUint32": "NewUint32", "NewUint64": "NewUint64", "NewBool": "NewBool"},
}

type pkgInfo struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	ImportMap  map[string]string
}

type edit struct {
	pos, end int
	text     func() string
	prio     int
}

type file struct {
	name  string
	src   []byte
	edits []edit
	base  int
}

var fset = token.NewFileSet()
var nsel int

func die(f string, a ...any) {
	fmt.Printf("instr: "+f+"\n", a...)
	os.Exit(1)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	ovf := flag.String("overlay", "", "")
	gen := flag.String("gen", "", "")
	out := flag.String("out", "", "")
	pkgs := flag.String("pkgs", "", "")
	yieldp := flag.String("yield", "", "")
	mainh := flag.String("main", "", "")
	rename := flag.String("renamemain", "", "")
	flag.Parse()
	var ov struct{ Replace map[string]string }
	b, err := os.ReadFile(*ovf)
	if err != nil {
		die("%v", err)
	}
	if err := json.Unmarshal(b, &ov); err != nil {
		die("%v", err)
	}
	yields := map[string]bool{}
	for _, y := range strings.Split(*yieldp, ",") {
		if y != "" {
			yields[y] = true
		}
	}
	var list []string
	if *pkgs != "" {
		list = strings.Split(*pkgs, ",")
	}
	pats := []string{}
	for _, p := range list {
		pats = append(pats, "./"+p)
	}
	if *mainh != "" {
		pats = append(pats, "./verifmc/"+*mainh)
		list = append(list, "verifmc/"+*mainh)
	}
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,Export,ImportMap", "-overlay", *ovf}, pats...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stdout
	o, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	infos := map[string]*pkgInfo{}
	dec := json.NewDecoder(strings.NewReader(string(o)))
	for dec.More() {
		var p pkgInfo
		if err := dec.Decode(&p); err != nil {
			die("%v", err)
		}
		infos[p.ImportPath] = &p
	}
	const mod = "github.com/netsec-ethz/fpki/"
	for _, rel := range list {
		p := infos[mod+rel]
		if p == nil {
			die("package %s not found", rel)
		}
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			if m, ok := p.ImportMap[path]; ok {
				path = m
			}
			q := infos[path]
			if q == nil || q.Export == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(q.Export)
		})
		var files []*ast.File
		var fl []*file
		for _, g := range p.GoFiles {
			full := filepath.Join(p.Dir, g)
			real := full
			if r, ok := ov.Replace[full]; ok {
				real = r
			}
			src, err := os.ReadFile(real)
			if err != nil {
				die("%v", err)
			}
			af, err := parser.ParseFile(fset, full, src, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			files = append(files, af)
			fl = append(fl, &file{name: full, src: src, base: int(af.FileStart)})
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		cfg := types.Config{Importer: imp, Error: func(err error) {}, GoVersion: "go1.25"}
		if _, err := cfg.Check(p.ImportPath, fset, files, info); err != nil {
			die("type check %s: %v", rel, err)
		}
		for i, af := range files {
			f := fl[i]
			f.instrument(af, info, yields[rel], rel == *rename)
			dst := filepath.Join(*gen, strings.ReplaceAll(rel, "/", "_")+"_"+filepath.Base(f.name))
			if err := os.WriteFile(dst, []byte(f.render(0, len(f.src))), 0o644); err != nil {
				die("%v", err)
			}
			ov.Replace[f.name] = dst
		}
	}
	b, _ = json.MarshalIndent(ov, "", " ")
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		die("%v", err)
	}
}

func (f *file) off(p token.Pos) int { return int(p) - f.base }

func (f *file) replace(pos, end token.Pos, s string) {
	f.edits = append(f.edits, edit{f.off(pos), f.off(end), func() string { return s }, 0})
}
func (f *file) replaceF(pos, end token.Pos, s func() string) {
	f.edits = append(f.edits, edit{f.off(pos), f.off(end), s, 0})
}

// insert: for equal positions, lower prio comes first.
func (f *file) insert(pos token.Pos, s string, prio int) {
	f.edits = append(f.edits, edit{f.off(pos), f.off(pos), func() string { return s }, prio})
}

var sorted = map[*file]bool{}

func (f *file) render(a, b int) string {
	if !sorted[f] {
		sorted[f] = true
		sort.SliceStable(f.edits, func(i, j int) bool {
			x, y := f.edits[i], f.edits[j]
			if x.pos != y.pos {
				return x.pos < y.pos
			}
			// insertions before replacements
			xi, yi := x.end == x.pos, y.end == y.pos
			if xi != yi {
				return xi
			}
			if !xi {
				return x.end > y.end
			}
			return x.prio < y.prio
		})
	}
	var sb strings.Builder
	at := a
	for _, e := range f.edits {
		if e.pos < at || e.end > b || e.pos > b {
			continue
		}
		if e.pos == e.end && e.pos == b && b != len(f.src) && e.prio >= 0 && e.pos != a {
			// an insertion at the end of the range belongs to it only when it closes something (prio<0)
			continue
		}
		if e.pos == e.end && e.pos == a && e.prio < 0 {
			continue // closes something before the range
		}
		sb.Write(f.src[at:e.pos])
		sb.WriteString(e.text())
		at = e.end
	}
	sb.Write(f.src[at:b])
	return sb.String()
}

// goCall rewrites a go statement that does not call a function literal: the function value and the arguments are
// evaluated by the starting goroutine, the call happens in the new one.
func (f *file) goCall(n *ast.GoStmt, info *types.Info) {
	plain := func(e ast.Expr) bool { // a declared function or a builtin: nothing to evaluate early
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.IndexExpr:
				e = x.X
				continue
			case *ast.IndexListExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				e = x.Sel
				continue
			}
			break
		}
		id, ok := e.(*ast.Ident)
		if !ok {
			return false
		}
		switch o := info.Uses[id].(type) {
		case *types.Builtin:
			return true
		case *types.Func:
			return o.Type().(*types.Signature).Recv() == nil
		}
		return false
	}
	text := func(e ast.Expr) string { return f.render(f.off(e.Pos()), f.off(e.End())) }
	f.replaceF(n.Pos(), n.End(), func() string {
		var sb strings.Builder
		sb.WriteString("vrt.Go(func() func() { ")
		fun := "vrtF"
		if plain(n.Call.Fun) {
			fun = text(n.Call.Fun)
		} else {
			sb.WriteString("vrtF := " + text(n.Call.Fun) + "; ")
		}
		var names []string
		at := n.Call.Lparen
		for i, a := range n.Call.Args {
			sb.WriteString(strings.Repeat("\n", strings.Count(string(f.src[f.off(at):f.off(a.Pos())]), "\n")))
			at = a.End()
			tv := info.Types[a]
			v := fmt.Sprintf("vrtA%d", i)
			switch tup, isTup := tv.Type.(*types.Tuple); {
			case tv.IsNil():
				v = text(a)
			case plain(a):
				v = text(a)
			case tv.Value != nil:
				sb.WriteString("const " + v + " = " + text(a) + "; ")
			case isTup:
				var vs []string
				for j := 0; j < tup.Len(); j++ {
					vs = append(vs, fmt.Sprintf("vrtA%d", j))
				}
				v = strings.Join(vs, ", ")
				sb.WriteString(v + " := " + text(a) + "; ")
			default:
				sb.WriteString(v + " := " + text(a) + "; ")
			}
			names = append(names, v)
		}
		dots := ""
		if n.Call.Ellipsis.IsValid() {
			dots = "..."
		}
		sb.WriteString(strings.Repeat("\n", strings.Count(string(f.src[f.off(at):f.off(n.End())]), "\n")))
		sb.WriteString("return func() { " + fun + "(" + strings.Join(names, ", ") + dots + ") } }())")
		return sb.String()
	})
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.Underlying().(*types.Chan); ok {
		return true
	}
	if tp, ok := t.(*types.TypeParam); ok { // all of its types are channels
		it, ok := tp.Constraint().Underlying().(*types.Interface)
		n := 0
		var all func(it *types.Interface) bool
		all = func(it *types.Interface) bool {
			for i := 0; i < it.NumEmbeddeds(); i++ {
				switch e := it.EmbeddedType(i).(type) {
				case *types.Union:
					for j := 0; j < e.Len(); j++ {
						if _, ok := e.Term(j).Type().Underlying().(*types.Chan); !ok {
							return false
						}
						n++
					}
				default:
					switch u := e.Underlying().(type) {
					case *types.Chan:
						n++
					case *types.Interface:
						if !all(u) {
							return false
						}
					default:
						return false
					}
				}
			}
			return true
		}
		return ok && all(it) && n > 0
	}
	return false
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (f *file) instrument(af *ast.File, info *types.Info, yield, rename bool) {
	usedBy := map[*types.PkgName]int{}
	changed := map[*types.PkgName]int{}
	skipRecv := map[ast.Expr]bool{}
	recv2 := map[ast.Expr]bool{}
	skipSend := map[*ast.SendStmt]bool{}
	used := false
	builtin := func(e ast.Expr, name string) bool {
		id, ok := e.(*ast.Ident)
		if !ok || id.Name != name {
			return false
		}
		_, ok = info.Uses[id].(*types.Builtin)
		return ok
	}
	unparen := func(e ast.Expr) ast.Expr {
		for {
			p, ok := e.(*ast.ParenExpr)
			if !ok {
				return e
			}
			e = p.X
		}
	}
	text := func(e ast.Expr) func() string {
		return func() string { return f.render(f.off(e.Pos()), f.off(e.End())) }
	}
	stmts := func(l []ast.Stmt) {
		if !yield {
			return
		}
		for _, st := range l {
			switch st.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			used = true
			f.insert(st.Pos(), "vrt.Y(); ", 0)
		}
	}
	ast.Inspect(af, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if rename && n.Recv == nil && n.Name.Name == "main" {
				f.replace(n.Name.Pos(), n.Name.End(), "origMain")
			}
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.SelectorExpr:
			id, ok := n.X.(*ast.Ident)
			if !ok {
				return true
			}
			pn, ok := info.Uses[id].(*types.PkgName)
			if !ok {
				return true
			}
			usedBy[pn]++
			if m := names[pn.Imported().Path()]; m != nil {
				if to, ok := m[n.Sel.Name]; ok {
					f.replace(n.Pos(), n.End(), "vrt."+to)
					changed[pn]++
					used = true
				}
			}
			return false
		case *ast.GoStmt:
			used = true
			if fl, ok := n.Call.Fun.(*ast.FuncLit); ok && fl.Type.Results == nil {
				f.replace(n.Go, n.Call.Pos(), "vrt.Go(")
				f.insert(fl.Body.Lbrace, "func() { return func() ", 1)
				f.insert(fl.Body.Rbrace+1, " }", -2)
				f.insert(n.End(), ")", -1)
			} else {
				f.goCall(n, info)
			}
		case *ast.SendStmt:
			used = true
			if skipSend[n] {
				return true
			}
			f.insert(n.Chan.Pos(), "vrt.S(", 2)
			f.replace(n.Arrow, n.Arrow+2, ")(")
			f.insert(n.End(), ")", -1)
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u, ok := unparen(n.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					recv2[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u, ok := unparen(n.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					recv2[u] = true
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !skipRecv[n] {
				used = true
				fn := "vrt.Recv("
				if recv2[n] {
					fn = "vrt.Recv2("
				}
				f.replace(n.OpPos, n.OpPos+2, fn)
				f.insert(n.End(), ")", -1)
			}
		case *ast.CallExpr:
			if len(n.Args) == 1 {
				if builtin(n.Fun, "close") {
					used = true
					f.replace(n.Fun.Pos(), n.Fun.End(), "vrt.Close")
				}
				if builtin(n.Fun, "len") && isChan(info.Types[n.Args[0]].Type) {
					used = true
					f.replace(n.Fun.Pos(), n.Fun.End(), "vrt.Len")
				}
			}
		case *ast.RangeStmt:
			t := info.Types[n.X].Type
			if isChan(t) {
				used = true
				f.insert(n.X.Pos(), "vrt.Range(", 1)
				f.insert(n.X.End(), ")", -1)
			} else if isMap(t) && (n.Key != nil || n.Value != nil) {
				used = true
				f.insert(n.X.Pos(), "vrt.RangeMap(", 1)
				f.insert(n.X.End(), ")", -1)
			}
		case *ast.SelectStmt:
			used = true
			if len(n.Body.List) == 0 {
				f.replace(n.Pos(), n.End(), "panic(vrt.Forever())")
				return false
			}
			nsel++
			var vars, inits []func() string
			hasDefault := false
			idx := 0
			for _, cl := range n.Body.List {
				cc := cl.(*ast.CommClause)
				stmts(cc.Body)
				if cc.Comm == nil {
					hasDefault = true
					continue
				}
				v := fmt.Sprintf("_vs%d_%d", nsel, idx)
				i := idx
				idx++
				vars = append(vars, func() string { return v })
				hdr := fmt.Sprintf("case %d: ", i)
				switch cm := cc.Comm.(type) {
				case *ast.SendStmt:
					ch, val := text(cm.Chan), text(cm.Value)
					inits = append(inits, func() string { return "vrt.CS(" + ch() + ")(" + val() + ")" })
					f.replace(cc.Case, cc.Colon+1, hdr)
					skipSend[cm] = true
				case *ast.ExprStmt:
					u := unparen(cm.X).(*ast.UnaryExpr)
					skipRecv[u] = true
					ch := text(u.X)
					inits = append(inits, func() string { return "vrt.CR(" + ch() + ")" })
					f.replace(cc.Case, cc.Colon+1, hdr)
				case *ast.AssignStmt:
					u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
					skipRecv[u] = true
					ch := text(u.X)
					inits = append(inits, func() string { return "vrt.CR(" + ch() + ")" })
					get := ".Get()"
					if len(cm.Lhs) == 2 {
						get = ".Get2()"
					}
					var l []func() string
					for _, e := range cm.Lhs {
						l = append(l, text(e))
					}
					tok := cm.Tok.String()
					f.replaceF(cc.Case, cc.Colon+1, func() string {
						var ls []string
						for _, x := range l {
							ls = append(ls, x())
						}
						return hdr + strings.Join(ls, ", ") + " " + tok + " " + v + get
					})
				}
			}
			f.replaceF(n.Select, n.Body.Lbrace+1, func() string {
				var vs, is []string
				for i := range vars {
					vs = append(vs, vars[i]())
					is = append(is, inits[i]())
				}
				if len(vs) == 0 {
					return fmt.Sprintf("switch vrt.Select(%v) {", hasDefault)
				}
				return "switch " + strings.Join(vs, ", ") + " := " + strings.Join(is, ", ") + "; vrt.Select(" + strconv.FormatBool(hasDefault) + ", " + strings.Join(vs, ", ") + ") {"
			})
			if !hasDefault {
				f.insert(n.Body.Rbrace, "default: panic(\"unreachable\"); ", 3)
			}
		}
		return true
	})
	// imports
	for _, im := range af.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if names[path] == nil {
			continue
		}
		for pn, c := range changed {
			if pn.Imported().Path() == path && usedBy[pn] == c {
				if im.Name != nil {
					f.replace(im.Name.Pos(), im.Name.End(), "_")
				} else {
					f.insert(im.Path.Pos(), "_ ", 0)
				}
			}
		}
	}
	for _, im := range af.Imports {
		if im.Path.Value == strconv.Quote(vrtPath) && im.Name == nil {
			used = false
		}
	}
	if used {
		f.insert(af.Name.End(), "; import vrt \""+vrtPath+"\"", -1)
	}
}
