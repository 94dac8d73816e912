// Command instr writes an instrumented copy of the library's sources as a build overlay: package
// sync is replaced by verif/vsync, sync/atomic by verif/vatomic, go statements by vsync.Go, and
// a scheduling point is put before every statement. Nothing else changes; line numbers stay.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	at, del int
	ins     string
	seq     int
}

func main() {
	repo := flag.String("repo", "/repo", "library")
	out := flag.String("out", "", "output directory")
	harness := flag.String("harness", "", "harness module (for the generated mode file)")
	forceFree := flag.Bool("free", false, "leave channels alone and let tasks run freely")
	flag.Parse()
	plainChans = *forceFree
	fatal(os.MkdirAll(*out, 0o755))
	replace := map[string]string{}
	free := []string{}
	points, gos := 0, 0
	var files []string
	err := filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*repo, p)
		if fi.IsDir() {
			b := fi.Name()
			if rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor" || rel == "examples" || rel == "util/test") {
				return filepath.SkipDir
			}
			if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil && rel != "." {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	fatal(err)
	for _, p := range files {
		if f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0); err == nil {
			collect(f)
		}
	}
	for _, p := range files {
		rel, _ := filepath.Rel(*repo, p)
		src, err := os.ReadFile(p)
		fatal(err)
		res, n, g, why, err := rewrite(p, src)
		fatal(err)
		points += n
		gos += g
		if why != "" {
			free = append(free, rel+": "+why)
		}
		dst := filepath.Join(*out, strings.ReplaceAll(rel, string(filepath.Separator), "__"))
		fatal(os.WriteFile(dst, res, 0o644))
		abs, _ := filepath.Abs(p)
		replace[abs] = dst
	}
	if *forceFree {
		free = append(free, "as asked")
	}
	if len(free) > 0 || timers {
		f := filepath.Join(*out, "zz_free.go")
		fatal(os.WriteFile(f, []byte(fmt.Sprintf("package vsync\n\nfunc init() { Free, Timers = %v, %v }\n", len(free) > 0, timers)), 0o644))
		replace[filepath.Join(*harness, "vsync", "zz_free.go")] = f
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	fatal(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
	fmt.Printf("%d files, %d scheduling points, %d go statements, uncontrolled: %v\n", len(replace), points, gos, free)
}

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

// timers: some file uses both channels and package time.
var timers bool

// plainChans: channel operations are not rewritten.
var plainChans bool

// chanNames are the variables, fields and functions of the library that are channels by declaration.
var chanNames = map[string]bool{}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func arrow(e ast.Expr) *ast.UnaryExpr {
	u, _ := unparen(e).(*ast.UnaryExpr)
	return u
}

func arrowOrNil(es []ast.Expr) *ast.UnaryExpr {
	if len(es) != 1 {
		return nil
	}
	if u := arrow(es[0]); u != nil && u.Op == token.ARROW {
		return u
	}
	return nil
}

// lastName is the name by which an expression may be known to be a channel.
func lastName(e ast.Expr) string {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		return e.Name
	case *ast.SelectorExpr:
		return e.Sel.Name
	case *ast.CallExpr:
		return lastName(e.Fun) + "()"
	case *ast.IndexExpr:
		return lastName(e.X) + "[]"
	}
	return ""
}

// collect notes the names that are declared as channels.
func collect(f *ast.File) {
	isChan := func(e ast.Expr) bool {
		_, ok := e.(*ast.ChanType)
		return ok
	}
	made := func(e ast.Expr) bool {
		c, ok := unparen(e).(*ast.CallExpr)
		if !ok || len(c.Args) == 0 {
			return false
		}
		id, ok := c.Fun.(*ast.Ident)
		return ok && id.Name == "make" && isChan(c.Args[0])
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.Field:
			for _, id := range n.Names {
				if isChan(n.Type) {
					chanNames[id.Name] = true
				} else if a, ok := n.Type.(*ast.ArrayType); ok && isChan(a.Elt) {
					chanNames[id.Name+"[]"] = true
				}
			}
		case *ast.ValueSpec:
			for i, id := range n.Names {
				if n.Type != nil && isChan(n.Type) || i < len(n.Values) && made(n.Values[i]) {
					chanNames[id.Name] = true
				}
			}
		case *ast.AssignStmt:
			for i, l := range n.Lhs {
				if i < len(n.Rhs) && made(n.Rhs[i]) {
					chanNames[lastName(l)] = true
				}
			}
		case *ast.KeyValueExpr:
			if id, ok := n.Key.(*ast.Ident); ok && made(n.Value) {
				chanNames[id.Name] = true
			}
		case *ast.FuncDecl:
			if r := n.Type.Results; r != nil && len(r.List) == 1 && isChan(r.List[0].Type) {
				chanNames[n.Name.Name+"()"] = true
			}
		}
		return true
	})
	delete(chanNames, "")
}

func rewrite(path string, src []byte) (res []byte, points, gos int, free string, err error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, parser.ParseComments)
	if err != nil {
		return nil, 0, 0, "", err
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	var edits []edit
	add := func(at, del int, ins string) { edits = append(edits, edit{at, del, ins, len(edits)}) }
	add(off(f.Name.End()), 0, `; import verifY "verif/vsync"; var _ = verifY.Y`)
	// a declaration before the other imports is not allowed: the var goes to the end instead
	edits[0].ins = `; import verifY "verif/vsync"`
	add(len(src), 0, "\nvar _ = verifY.Y\n")
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		var to, name string
		switch p {
		case "sync":
			to, name = "verif/vsync", "sync"
		case "sync/atomic":
			to, name = "verif/vatomic", "atomic"
		case "golang.org/x/sync/errgroup", "context":
			free = "imports " + p
			continue
		default:
			continue
		}
		ins := strconv.Quote(to)
		if im.Name == nil {
			ins = name + " " + ins
		}
		add(off(im.Path.Pos()), len(im.Path.Value), ins)
	}
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			add(off(s.Pos()), 0, "verifY.Y(); ")
			points++
		}
	}
	skip, two := map[ast.Node]bool{}, map[ast.Node]bool{}
	labels := map[ast.Node]string{}
	chans := false
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	defer func() {
		if chans {
			for _, im := range f.Imports {
				if im.Path.Value == `"time"` {
					timers = true
				}
			}
		}
	}()
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			// switch and select bodies hold clauses, which are handled below
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			if len(n.List) == 0 {
				return true
			}
			stmts(n.List)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				add(off(n.Body.Lbrace)+1, 0, " verifY.Y() ")
				points++
			}
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.LabeledStmt:
			if sel, ok := n.Stmt.(*ast.SelectStmt); ok && !plainChans {
				add(off(n.Pos()), off(n.Colon)+1-off(n.Pos()), "")
				labels[sel] = n.Label.Name + ": "
			}
		case *ast.SelectStmt:
			chans = true
			if plainChans {
				return true
			}
			def := "false"
			var cases []string
			for _, cl := range n.Body.List {
				c := cl.(*ast.CommClause)
				if c.Comm == nil {
					def = "true"
					continue
				}
				head := fmt.Sprintf("case %d: ", len(cases))
				switch m := c.Comm.(type) {
				case *ast.SendStmt:
					skip[m] = true
					cases = append(cases, "verifY.CSend("+text(m.Chan)+")("+text(m.Value)+")")
				case *ast.ExprStmt:
					u := arrow(m.X)
					skip[u] = true
					cases = append(cases, "verifY.CRecv("+text(u.X)+")")
				case *ast.AssignStmt:
					u := arrow(m.Rhs[0])
					skip[u], skip[m] = true, true
					cases = append(cases, "verifY.CRecv("+text(u.X)+")")
					head += text(m.Lhs[0])
					v := "verifY.As(" + text(u.X) + ", verifV)"
					if len(m.Lhs) == 2 {
						head += ", " + text(m.Lhs[1])
						v += ", verifOK"
					}
					head += " " + m.Tok.String() + " " + v + "; "
				}
				add(off(c.Case), off(c.Colon)+1-off(c.Case), head)
			}
			call := "{ verifI, verifV, verifOK := verifY.Select(" + strings.Join(append([]string{def}, cases...), ", ") + "); _, _ = verifV, verifOK; " + labels[n] + "switch verifI "
			add(off(n.Select), len("select"), call)
			end := ""
			if def == "false" {
				end = "default: panic(\"unreachable\") "
			}
			add(off(n.Body.Rbrace), 0, end)
			add(off(n.Body.Rbrace)+1, 0, " }")
		case *ast.ChanType:
			chans = true
		case *ast.SendStmt:
			chans = true
			if skip[n] || plainChans {
				return true
			}
			add(off(n.Pos()), 0, "verifY.Send(")
			add(off(n.Chan.End()), off(n.Arrow)+2-off(n.Chan.End()), ")(")
			add(off(n.End()), 0, ")")
		case *ast.AssignStmt:
			if u := arrowOrNil(n.Rhs); u != nil && len(n.Lhs) == 2 {
				two[u] = true
			}
		case *ast.ValueSpec:
			if u := arrowOrNil(n.Values); u != nil && len(n.Names) == 2 {
				two[u] = true
			}
		case *ast.UnaryExpr:
			if n.Op != token.ARROW {
				return true
			}
			chans = true
			if skip[n] || plainChans {
				return true
			}
			fn := "verifY.Recv("
			if two[n] {
				fn = "verifY.Recv2("
			}
			add(off(n.Pos()), 2, fn)
			add(off(n.End()), 0, ")")
		case *ast.RangeStmt:
			if plainChans || n.Value != nil || !chanNames[lastName(n.X)] {
				return true
			}
			chans = true
			k := "_"
			if n.Key != nil {
				k = text(n.Key)
			}
			head := "for { "
			if n.Tok == token.ASSIGN {
				head += "var verifOK bool; " + k + ", verifOK = "
			} else {
				head += k + ", verifOK := "
			}
			head += "verifY.Recv2(" + text(n.X) + "); if !verifOK { break }; "
			add(off(n.For), off(n.Body.Lbrace)+1-off(n.For), head)
		case *ast.GoStmt:
			c := n.Call
			fn := "verifY.Go("
			if c.Ellipsis.IsValid() {
				fn = "verifY.GoSlice("
			}
			add(off(n.Go), 2, fn)
			sep := ", "
			if len(c.Args) == 0 {
				sep = ""
			}
			add(off(c.Lparen), 1, sep)
			if c.Ellipsis.IsValid() {
				add(off(c.Ellipsis), 3, "")
			}
			gos++
		}
		return true
	})
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].at != edits[j].at {
			return edits[i].at < edits[j].at
		}
		if (edits[i].del == 0) != (edits[j].del == 0) {
			return edits[i].del == 0 // insertions come before the replaced text
		}
		return edits[i].seq < edits[j].seq
	})
	var b strings.Builder
	last := 0
	for _, e := range edits {
		b.Write(src[last:e.at])
		b.WriteString(e.ins)
		last = e.at + e.del
	}
	b.Write(src[last:])
	return []byte(b.String()), points, gos, free, nil
}
