// Command instr inserts scheduling points into Go source files.
//
// usage: instr -out DIR -manifest FILE -import PATH [-listen PKGDIR,...] file...
//
// Every statement of every function body gets a preceding call
// verifsimrt.Y(site), inserted on the same line so that line numbers are
// unchanged. A file that cannot be rewritten is left alone (reported on
// stderr). The manifest maps site numbers to file:line.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type ins struct {
	off  int
	text string
	del  int
}

func main() {
	out := flag.String("out", "", "output dir")
	imp := flag.String("import", "", "import path of the runtime")
	man := flag.String("manifest", "", "overlay fragment (json map orig->new)")
	sites := flag.String("sites", "", "site table")
	flag.Parse()
	overlay := map[string]string{}
	var table []string
	site := 0
	for n, path := range flag.Args() {
		src, err := os.ReadFile(path)
		if err != nil {
			fmt.Fprintln(os.Stderr, "instr:", err)
			os.Exit(1)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			fmt.Fprintln(os.Stderr, "instr: skip", path, err)
			continue
		}
		var list []ins
		start := site
		keep := map[string]bool{}
		add := func(stmts []ast.Stmt) {
			for _, s := range stmts {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				p := fset.Position(s.Pos())
				site++
				table = append(table, fmt.Sprintf("%d %s:%d", site, path, p.Line))
				list = append(list, ins{off: p.Offset, text: fmt.Sprintf("verifsimrt.Y(%d); ", site)})
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch b := n.(type) {
			case *ast.BlockStmt:
				// bodies of switch and select hold only clauses
				if len(b.List) > 0 {
					switch b.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				add(b.List)
			case *ast.CaseClause:
				add(b.Body)
			case *ast.CommClause:
				add(b.Body)
			case *ast.SelectorExpr:
				if x, ok := b.X.(*ast.Ident); ok && x.Name == "net" && x.Obj == nil && b.Sel.Name == "Listen" && imports(f, "net") {
					p := fset.Position(b.Pos())
					list = append(list, ins{off: p.Offset, text: "verifsimrt.NetListen", del: len("net.Listen")})
					keep["net.Listen"] = true
				}
				if x, ok := b.X.(*ast.Ident); ok && x.Obj == nil && strings.Contains(path, "/verifcli/") {
					for _, r := range cliSeams {
						if x.Name == r.pkg && b.Sel.Name == r.sel && imports(f, r.imp) {
							list = append(list, ins{off: fset.Position(b.Pos()).Offset, text: r.to, del: len(r.pkg + "." + r.sel)})
							keep[r.pkg+"."+r.sel] = true
						}
					}
				}
				if x, ok := b.X.(*ast.Ident); ok && x.Obj == nil && b.Sel.Name == "WriteFile" &&
					(x.Name == "ioutil" && imports(f, "io/ioutil") || x.Name == "os" && imports(f, "os")) {
					p := fset.Position(b.Pos())
					list = append(list, ins{off: p.Offset, text: "verifsimrt.WriteFile", del: len(x.Name + ".WriteFile")})
					keep[x.Name+".WriteFile"] = true
				}
			}
			return true
		})
		if len(list) == 0 {
			site = start
			continue
		}
		pos := fset.Position(f.Name.End()).Offset
		list = append(list, ins{off: pos, text: fmt.Sprintf("; import verifsimrt %q", *imp)})
		sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
		var buf bytes.Buffer
		last := 0
		for _, l := range list {
			buf.Write(src[last:l.off])
			buf.WriteString(l.text)
			last = l.off + l.del
		}
		buf.Write(src[last:])
		var ks []string
		for k := range keep {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			buf.WriteString("\nvar _ = " + k + "\n")
		}
		if _, err := parser.ParseFile(token.NewFileSet(), path, buf.Bytes(), 0); err != nil {
			fmt.Fprintln(os.Stderr, "instr: skip", path, err)
			site = start
			continue
		}
		dst := filepath.Join(*out, fmt.Sprintf("i%03d_%s", n, filepath.Base(path)))
		if err := os.WriteFile(dst, buf.Bytes(), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "instr:", err)
			os.Exit(1)
		}
		overlay[path] = dst
	}
	js, _ := json.Marshal(overlay)
	os.WriteFile(*man, js, 0o644)
	os.WriteFile(*sites, []byte(strings.Join(table, "\n")+"\n"), 0o644)
}

// what the command line client does to its process and network
var cliSeams = []struct{ pkg, imp, sel, to string }{
	{"os", "os", "Exit", "verifsimrt.Exit"},
	{"os", "os", "Stdin", "verifsimrt.Stdin"},
	{"fmt", "fmt", "Scan", "verifsimrt.Scan"},
	{"fmt", "fmt", "Scanln", "verifsimrt.Scanln"},
	{"fmt", "fmt", "Scanf", "verifsimrt.Scanf"},
	{"grpc", "google.golang.org/grpc", "Dial", "verifDial"},
	{"grpc", "google.golang.org/grpc", "DialContext", "verifDialContext"},
	{"cli", "github.com/urfave/cli/v2", "NewApp", "verifNewApp"},
}

func imports(f *ast.File, path string) bool {
	for _, i := range f.Imports {
		if i.Path.Value == `"`+path+`"` && i.Name == nil {
			return true
		}
	}
	return false
}
