// Command instrument writes a build overlay in which every statement of the given packages is preceded by a call of a
// yield point. Line numbers stay as they are.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
)

type insertion struct {
	off  int
	text string
	del  int // bytes that the text replaces
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	pkgs := flag.String("pkgs", "pkg/server,pkg/cli,pkg/pgmeta", "package directories")
	out := flag.String("out", "", "output directory")
	race := flag.Bool("race", false, "remove the ordering that the race runtime adds to socket reads and writes")
	clock := flag.Bool("clock", false, "give all packages a clock that the harness can move")
	flag.Parse()

	replace := map[string]string{}
	sites := map[string]string{}
	next := 0

	pointed := map[string]bool{}
	dirs := strings.Split(*pkgs, ",")
	for _, d := range dirs {
		pointed[d] = true
	}
	if *clock {
		for _, d := range packageDirs(*repo) {
			if !pointed[d] {
				dirs = append(dirs, d)
			}
		}
	}
	for _, pkg := range dirs {
		files, _ := filepath.Glob(filepath.Join(*repo, pkg, "*.go"))
		sort.Strings(files)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				fatal(err)
			}
			fset := token.NewFileSet()
			file, err := parser.ParseFile(fset, f, src, parser.ParseComments)
			if err != nil {
				fatal(err)
			}
			var ins []insertion
			point := func(pos token.Pos) {
				p := fset.Position(pos)
				rel, _ := filepath.Rel(*repo, f)
				sites[fmt.Sprint(next)] = fmt.Sprintf("%s:%d", rel, p.Line)
				ins = append(ins, insertion{off: fset.PositionFor(pos, false).Offset, text: fmt.Sprintf("verifsched.Y(%d); ", next)})
				next++
			}
			list := func(stmts []ast.Stmt) {
				if !pointed[pkg] {
					return
				}
				for _, s := range stmts {
					switch s.(type) {
					case *ast.EmptyStmt:
						continue
					}
					if b, ok := s.(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
						continue
					}
					point(s.Pos())
				}
			}
			// Switch bodies hold clauses, not statements.
			skip := map[*ast.BlockStmt]bool{}
			ast.Inspect(file, func(n ast.Node) bool {
				switch v := n.(type) {
				case *ast.SwitchStmt:
					skip[v.Body] = true
				case *ast.TypeSwitchStmt:
					skip[v.Body] = true
				case *ast.SelectStmt:
					skip[v.Body] = true
				case *ast.BlockStmt:
					if !skip[v] {
						list(v.List)
					}
				case *ast.CaseClause:
					list(v.Body)
				case *ast.CommClause:
					list(v.Body)
				}
				return true
			})
			if len(ins) > 0 {
				ins = append(ins, insertion{off: fset.PositionFor(file.Name.End(), false).Offset, text: `; import verifsched "verif.local/harness/sched"`})
			}
			if *clock {
				ins = append(ins, clockEdits(fset, file)...)
			}
			if len(ins) == 0 {
				continue
			}
			sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
			var b strings.Builder
			last := 0
			for _, in := range ins {
				b.Write(src[last:in.off])
				b.WriteString(in.text)
				last = in.off + in.del
			}
			b.Write(src[last:])
			dst := filepath.Join(*out, strings.ReplaceAll(strings.TrimPrefix(f, "/"), "/", "__"))
			if err := os.WriteFile(dst, []byte(b.String()), 0o644); err != nil {
				fatal(err)
			}
			replace[f] = dst
		}
	}
	if *race {
		f := filepath.Join(runtime.GOROOT(), "src/syscall/syscall_unix.go")
		src, err := os.ReadFile(f)
		if err != nil {
			fatal(err)
		}
		// Every read would come after every write of the process, which hides races.
		s := strings.NewReplacer("race.Acquire(unsafe.Pointer(&ioSync))", "_ = ioSync", "race.ReleaseMerge(unsafe.Pointer(&ioSync))", "_ = ioSync").Replace(string(src))
		dst := filepath.Join(*out, "syscall_unix.go")
		if err := os.WriteFile(dst, []byte(s), 0o644); err != nil {
			fatal(err)
		}
		replace[f] = dst
	}
	write(filepath.Join(*out, "overlay.json"), map[string]any{"Replace": replace})
	write(filepath.Join(*out, "sites.json"), sites)
	write(filepath.Join(*out, "dict.json"), harvest(*repo))
	fmt.Printf("%d yield points in %d files\n", next, len(replace))
}

// packageDirs lists the directories of the repository's packages.
func packageDirs(repo string) []string {
	var dirs []string
	_ = filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil || !fi.IsDir() {
			return nil
		}
		if n := fi.Name(); p != repo && (strings.HasPrefix(n, ".") || n == "vendor" || n == "testdata") {
			return filepath.SkipDir
		}
		rel, _ := filepath.Rel(repo, p)
		dirs = append(dirs, rel)
		return nil
	})
	return dirs
}

// clockEdits makes a file use package vtime in place of package time, and for the deadlines of connections and contexts.
func clockEdits(fset *token.FileSet, file *ast.File) []insertion {
	const path = `"verif.local/harness/vtime"`
	var ins []insertion
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	ctx := ""
	for _, im := range file.Imports {
		switch im.Path.Value {
		case `"time"`:
			name := "time "
			if im.Name != nil {
				name = ""
			}
			ins = append(ins, insertion{off(im.Path.Pos()), name + path, len(im.Path.Value)})
		case `"context"`:
			ctx = "context"
			if im.Name != nil {
				ctx = im.Name.Name
			}
		}
	}
	own := false
	ast.Inspect(file, func(n ast.Node) bool {
		sel, ok := n.(*ast.SelectorExpr)
		if ok && ctx != "" {
			if x, ok := sel.X.(*ast.Ident); ok && x.Name == ctx && x.Obj == nil {
				switch sel.Sel.Name {
				case "WithTimeout", "WithDeadline", "WithTimeoutCause", "WithDeadlineCause":
					ins = append(ins, insertion{off(x.Pos()), "verifvtime", len(x.Name)})
					own = true
				}
			}
		}
		call, ok := n.(*ast.CallExpr)
		if !ok || len(call.Args) != 1 {
			return true
		}
		if sel, ok := call.Fun.(*ast.SelectorExpr); ok {
			switch sel.Sel.Name {
			case "SetDeadline", "SetReadDeadline", "SetWriteDeadline":
				ins = append(ins, insertion{off(call.Pos()), "verifvtime." + sel.Sel.Name + "(", 0})
				ins = append(ins, insertion{off(sel.X.End()), ", ", off(call.Lparen) + 1 - off(sel.X.End())})
				own = true
			}
		}
		return true
	})
	if own {
		ins = append(ins, insertion{off: off(file.Name.End()), text: "; import verifvtime " + path})
		if ctx != "" {
			// The import may be left without a use.
			ins = append(ins, insertion{off: off(file.End()), text: "\nvar _ = " + ctx + ".Background\n"})
		}
	}
	return ins
}

// harvest lists the string and number literals of the code.
func harvest(repo string) any {
	words, numbers := map[string]bool{}, map[int64]bool{}
	_ = filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && (fi.Name() == ".git" || fi.Name() == "vendor" || fi.Name() == "testdata") {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		file, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(file, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			if e, ok := n.(*ast.BinaryExpr); ok {
				if v, ok := number(e); ok {
					numbers[v] = true
				}
			}
			l, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch l.Kind {
			case token.STRING:
				s, err := strconv.Unquote(l.Value)
				if err == nil {
					for _, f := range regexp.MustCompile(`[0-9]+`).FindAllString(s, -1) {
						if v, err := strconv.ParseInt(f, 10, 64); err == nil {
							numbers[v] = true
						}
					}
				}
				if err != nil || len(s) > 200 {
					return true
				}
				words[s] = true
				// Messages for people are of no use, their words may be.
				for _, f := range strings.Fields(s) {
					words[f] = true
				}
			case token.INT:
				if v, err := strconv.ParseInt(strings.ReplaceAll(l.Value, "_", ""), 0, 64); err == nil {
					numbers[v] = true
				}
			case token.CHAR:
				if v, _, _, err := strconv.UnquoteChar(l.Value[1:], '\''); err == nil {
					words[string(v)] = true
					numbers[int64(v)] = true
				}
			}
			return true
		})
		return nil
	})
	var d struct {
		Words   []string
		Numbers []int64
	}
	for w := range words {
		d.Words = append(d.Words, w)
	}
	for n := range numbers {
		d.Numbers = append(d.Numbers, n)
	}
	sort.Strings(d.Words)
	sort.Slice(d.Numbers, func(i, j int) bool { return d.Numbers[i] < d.Numbers[j] })
	return d
}

// number evaluates a constant expression of integer literals, such as 1<<20 and 64*1024.
func number(e ast.Expr) (int64, bool) {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return number(e.X)
	case *ast.BasicLit:
		if e.Kind == token.INT {
			v, err := strconv.ParseInt(strings.ReplaceAll(e.Value, "_", ""), 0, 64)
			return v, err == nil
		}
	case *ast.BinaryExpr:
		x, ok := number(e.X)
		y, ok2 := number(e.Y)
		if !ok || !ok2 {
			return 0, false
		}
		switch e.Op {
		case token.ADD:
			return x + y, true
		case token.SUB:
			return x - y, true
		case token.MUL:
			return x * y, true
		case token.SHL:
			return x << uint(y&63), true
		case token.SHR:
			return x >> uint(y&63), true
		case token.QUO:
			if y != 0 {
				return x / y, true
			}
		case token.OR:
			return x | y, true
		}
	}
	return 0, false
}

func write(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	if err != nil {
		fatal(err)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instrument:", err)
	os.Exit(2)
}
