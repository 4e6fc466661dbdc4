// Command instr rewrites the non-test sources of the radix package for controlled execution. It only splices text
// at positions found in the syntax tree, so comments, directives and line numbers stay as they are.
//
// usage: instr -src /repo -out DIR -level 2 [-shift 12] [-maxblocks 16384] [-epoch 6]
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off, end int
	text     string
}

var atomicNames = map[string]bool{}

func init() {
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		for _, f := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap", "And", "Or"} {
			atomicNames[f+t] = true
		}
		atomicNames[t] = true
	}
	for _, f := range []string{"LoadPointer", "StorePointer", "SwapPointer", "CompareAndSwapPointer", "Bool", "Value"} {
		atomicNames[f] = true
	}
}

var syncNames = map[string]bool{"Mutex": true, "RWMutex": true, "Once": true, "Pool": true}

func main() {
	src := flag.String("src", "/repo", "package directory")
	out := flag.String("out", "", "output directory")
	level := flag.Int("level", 2, "2: statements and atomics, 1: atomics only, 0: only the replacements of constants")
	shift := flag.Int("shift", 0, "replacement for blockSizeShift")
	maxb := flag.Int("maxblocks", 0, "replacement for maxBlockCount")
	epoch := flag.Int("epoch", 0, "replacement for the literal 1000 in comparisons")
	flag.Parse()
	pkg, err := build.ImportDir(*src, 0)
	check(err)
	check(os.MkdirAll(*out, 0o755))
	// the names of the package's constants
	named := map[string]bool{}
	for _, name := range pkg.GoFiles {
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(*src, name), nil, 0)
		check(err)
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok {
				for _, s := range g.Specs {
					if v, ok := s.(*ast.ValueSpec); ok {
						for i, id := range v.Names {
							named[id.Name] = i < len(v.Values) && literal(v.Values[i]) != nil
						}
					}
				}
			}
		}
	}
	overlay := map[string]string{}
	meta := map[string]int{}
	for _, name := range pkg.GoFiles {
		path := filepath.Join(*src, name)
		text, err := os.ReadFile(path)
		check(err)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, text, parser.ParseComments)
		check(err)
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		var edits []edit
		used := map[string]bool{}
		alias := map[string]string{}
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			n := p[strings.LastIndex(p, "/")+1:]
			if im.Name != nil {
				n = im.Name.Name
			}
			alias[n] = p
		}
		rewritten := map[string]bool{}
		pkgOf := func(x ast.Expr) (string, *ast.Ident) {
			id, ok := x.(*ast.Ident)
			if !ok || id.Obj != nil {
				return "", nil
			}
			return alias[id.Name], id
		}
		isAtomic := func(n ast.Node) bool {
			found := false
			ast.Inspect(n, func(m ast.Node) bool {
				switch m := m.(type) {
				case *ast.FuncLit:
					return false
				case *ast.BlockStmt:
					return false
				case *ast.SelectorExpr:
					if p, _ := pkgOf(m.X); p == "sync/atomic" && atomicNames[m.Sel.Name] {
						found = true
					}
				}
				return true
			})
			return found
		}
		addPoints := func(list []ast.Stmt) {
			for _, s := range list {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
					continue
				}
				switch s.(type) {
				case *ast.ExprStmt, *ast.AssignStmt, *ast.ReturnStmt, *ast.IfStmt:
					if isAtomic(s) {
						continue
					}
				}
				used["vsched"] = true
				meta["points"]++
				if lhs, op, rhs := readModifyWrite(s); lhs != nil {
					// a plain read-modify-write of a field is two accesses
					l := string(text[off(lhs.Pos()):off(lhs.End())])
					r := "1"
					if rhs != nil {
						r = string(text[off(rhs.Pos()):off(rhs.End())])
					}
					edits = append(edits, edit{off(s.Pos()), off(s.End()), "vsched.P(); { vrmw := " + l + "; vsched.P(); " + l + " = vrmw " + op + " (" + r + ") }"})
					continue
				}
				edits = append(edits, edit{off(s.Pos()), off(s.Pos()), "vsched.P(); "})
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				if n.Body != nil && len(n.Body.List) == 1 {
					if rs, ok := n.Body.List[0].(*ast.ReturnStmt); ok && !isAtomic(rs) {
						// a pure one-line helper: not worth a point
						return true
					}
				}
			case *ast.SelectorExpr:
				p, id := pkgOf(n.X)
				if id == nil || *level < 1 {
					return true
				}
				to := ""
				switch {
				case p == "sync/atomic" && atomicNames[n.Sel.Name]:
					to = "vatomic"
					meta["atomics"]++
				case p == "sync" && syncNames[n.Sel.Name]:
					to = "vsync"
				case p == "runtime" && n.Sel.Name == "Gosched", p == "time" && n.Sel.Name == "Sleep":
					to = "vsched"
				}
				if to != "" {
					edits = append(edits, edit{off(id.Pos()), off(id.End()), to})
					used[to] = true
					rewritten[id.Name] = true
				}
			case *ast.ValueSpec:
				for i, id := range n.Names {
					if i >= len(n.Values) {
						continue
					}
					lit := literal(n.Values[i])
					if lit == nil {
						continue
					}
					put := func(what string, v int) {
						edits = append(edits, edit{off(lit.Pos()), off(lit.End()), strconv.Itoa(v)})
						meta[what] = v
					}
					switch {
					case *epoch > 0 && lit.Value == "1000":
						put("epoch", *epoch)
					case *shift > 0 && (id.Name == "blockSizeShift" || !named["blockSizeShift"] && lit.Value == "21"):
						put("shift", *shift)
					case *maxb > 0 && (id.Name == "maxBlockCount" || !named["maxBlockCount"] && lit.Value == "65536"):
						put("maxblocks", *maxb)
					}
				}
				return true
			case *ast.BinaryExpr, *ast.AssignStmt:
				// the epoch length may also stand as a number in an expression
				var xs []ast.Expr
				if b, ok := n.(*ast.BinaryExpr); ok {
					xs = []ast.Expr{b.X, b.Y}
				} else {
					xs = n.(*ast.AssignStmt).Rhs
				}
				for _, x := range xs {
					if lit := literal(x); lit != nil && *epoch > 0 && lit.Value == "1000" {
						edits = append(edits, edit{off(lit.Pos()), off(lit.End()), strconv.Itoa(*epoch)})
						meta["epoch"] = *epoch
					}
				}
			case *ast.BlockStmt:
				if *level >= 2 {
					addPoints(n.List)
				}
			case *ast.CaseClause:
				if *level >= 2 {
					addPoints(n.Body)
				}
			case *ast.CommClause:
				if *level >= 2 {
					addPoints(n.Body)
				}
			}
			return true
		})
		// imports go right after the package clause, on the same line
		var imp string
		for _, u := range []struct{ n, p string }{{"vsched", "radixverif/shim/sched"}, {"vatomic", "radixverif/shim/vatomic"}, {"vsync", "radixverif/shim/vsync"}} {
			if used[u.n] {
				imp += fmt.Sprintf("; import %s %q", u.n, u.p)
			}
		}
		if imp != "" {
			e := off(f.Name.End())
			edits = append(edits, edit{e, e, imp})
		}
		sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
		var b strings.Builder
		pos := 0
		for i, e := range edits {
			if i > 0 && e == edits[i-1] && e.end > e.off {
				continue
			}
			b.Write(text[pos:e.off])
			b.WriteString(e.text)
			pos = e.end
		}
		b.Write(text[pos:])
		b.WriteString("\n")
		// keep the original imports in use
		names := make([]string, 0, len(rewritten))
		for n := range rewritten {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch alias[n] {
			case "sync/atomic":
				fmt.Fprintf(&b, "var _ = %s.LoadUint64\n", n)
			case "sync":
				fmt.Fprintf(&b, "var _ %s.Locker\n", n)
			case "runtime":
				fmt.Fprintf(&b, "var _ = %s.NumCPU\n", n)
			case "time":
				fmt.Fprintf(&b, "var _ %s.Duration\n", n)
			}
		}
		dst := filepath.Join(*out, name)
		check(os.WriteFile(dst, []byte(b.String()), 0o644))
		overlay[path] = dst
	}
	js, _ := json.Marshal(map[string]any{"Replace": overlay})
	check(os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644))
	fmt.Printf("points=%d,atomics=%d,shift=%d,maxblocks=%d,epoch=%d\n", meta["points"], meta["atomics"], meta["shift"], meta["maxblocks"], meta["epoch"])
}

// readModifyWrite recognises x.f++, x.f-- and x.f op= y, where x.f is a plain chain of names and y one line without calls.
func readModifyWrite(s ast.Stmt) (lhs ast.Expr, op string, rhs ast.Expr) {
	chain := func(e ast.Expr) bool {
		sel, ok := e.(*ast.SelectorExpr)
		for ok {
			switch x := sel.X.(type) {
			case *ast.Ident:
				return true
			case *ast.SelectorExpr:
				sel = x
			default:
				return false
			}
		}
		return false
	}
	switch s := s.(type) {
	case *ast.IncDecStmt:
		if chain(s.X) {
			return s.X, s.Tok.String()[:1], nil
		}
	case *ast.AssignStmt:
		if s.Tok == token.ASSIGN || s.Tok == token.DEFINE || len(s.Lhs) != 1 || !chain(s.Lhs[0]) {
			return nil, "", nil
		}
		simple := true
		ast.Inspect(s.Rhs[0], func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				simple = false
			case *ast.CallExpr:
				// conversions to basic types are fine
				if id, ok := n.Fun.(*ast.Ident); !ok || !basic[id.Name] {
					simple = false
				}
			case *ast.UnaryExpr:
				if n.Op == token.ARROW {
					simple = false
				}
			}
			return simple
		})
		if simple {
			t := s.Tok.String()
			return s.Lhs[0], t[:len(t)-1], s.Rhs[0]
		}
	}
	return nil, "", nil
}

// literal returns the integer literal x is, if it is one, possibly in parentheses or converted to a basic type.
func literal(x ast.Expr) *ast.BasicLit {
	switch x := x.(type) {
	case *ast.BasicLit:
		if x.Kind == token.INT {
			return x
		}
	case *ast.ParenExpr:
		return literal(x.X)
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && basic[id.Name] && len(x.Args) == 1 {
			return literal(x.Args[0])
		}
	}
	return nil
}

var basic = map[string]bool{"int": true, "uint": true, "int64": true, "uint64": true, "int32": true, "uint32": true, "len": true}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}
