// rewrite puts seams into copies of the sources of the repository.
//
//	rewrite REPO OUT < commands
//
// Commands, one per line:
//
//	hook DIR TYPE METHOD   VerifHook, if set, is called first thing in the method
//	stub DIR TYPE METHOD   VerifStub["METHOD"], if set, is called instead of the method, with the receiver and all arguments
//	                       (VerifStubInt if the method gives an int)
//	vars DIR               VerifVars names all variables of the package
//
// DIR is a package directory, TYPE the receiver's type. A method that is not there is reported on standard output
// and left out. The text is only inserted, on the line the body of the method starts.
package main

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	at   int
	text string
}

type pkg struct {
	dir, name string
	fset      *token.FileSet
	files     map[string]*ast.File
	edits     map[string][]edit
	extra     map[string]string
}

func load(repo, dir string) (*pkg, error) {
	p := &pkg{dir: dir, fset: token.NewFileSet(), files: map[string]*ast.File{}, edits: map[string][]edit{}, extra: map[string]string{}}
	es, err := os.ReadDir(filepath.Join(repo, dir))
	if err != nil {
		return nil, err
	}
	for _, e := range es {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(p.fset, filepath.Join(repo, dir, n), nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		p.files[n] = f
		p.name = f.Name.Name
	}
	return p, nil
}

func receiver(d *ast.FuncDecl) string {
	if d.Recv == nil || len(d.Recv.List) != 1 {
		return ""
	}
	t := d.Recv.List[0].Type
	if s, ok := t.(*ast.StarExpr); ok {
		t = s.X
	} else {
		return ""
	}
	if i, ok := t.(*ast.Ident); ok {
		return i.Name
	}
	return ""
}

func (p *pkg) find(typ, method string) (string, *ast.FuncDecl) {
	for n, f := range p.files {
		for _, d := range f.Decls {
			if d, ok := d.(*ast.FuncDecl); ok && d.Name.Name == method && receiver(d) == typ && d.Body != nil {
				return n, d
			}
		}
	}
	return "", nil
}

// insert puts text at the start of the body of d, in file n.
func (p *pkg) insert(n string, d *ast.FuncDecl, text string) {
	p.edits[n] = append(p.edits[n], edit{p.fset.Position(d.Body.Lbrace).Offset + 1, " " + text + "; "})
}

func receiverName(d *ast.FuncDecl) string {
	r := d.Recv.List[0]
	if len(r.Names) == 0 || r.Names[0].Name == "_" {
		return "nil"
	}
	return r.Names[0].Name
}

func (p *pkg) hook(typ, method string) {
	p.extra["zz_verif_hook.go"] = fmt.Sprintf("package %s\n\nvar VerifHook func(*%s)\n", p.name, typ)
	n, d := p.find(typ, method)
	if d == nil {
		fmt.Printf("%s: no method %s of %s\n", p.dir, method, typ)
		return
	}
	p.insert(n, d, fmt.Sprintf("if VerifHook != nil { VerifHook(%s) }", receiverName(d)))
}

func (p *pkg) stub(typ, method string) {
	p.extra["zz_verif_stub.go"] = fmt.Sprintf("package %s\n\n// VerifStub holds replacements of methods.\nvar VerifStub = map[string]func(recv *%s, args ...interface{}){}\n\nvar VerifStubInt = map[string]func(recv *%s, args ...interface{}) int{}\n", p.name, typ, typ)
	n, d := p.find(typ, method)
	result := ""
	if d != nil && d.Type.Results != nil && len(d.Type.Results.List) > 0 {
		if i, ok := d.Type.Results.List[0].Type.(*ast.Ident); ok && i.Name == "int" && d.Type.Results.NumFields() == 1 {
			result = "int"
		} else {
			d = nil
		}
	}
	if d == nil {
		fmt.Printf("%s: no method %s of %s\n", p.dir, method, typ)
		return
	}
	args := []string{receiverName(d)}
	for _, f := range d.Type.Params.List {
		for _, i := range f.Names {
			if i.Name != "_" {
				args = append(args, i.Name)
			}
		}
	}
	if result == "int" {
		p.insert(n, d, fmt.Sprintf("if verifStub := VerifStubInt[%q]; verifStub != nil { return verifStub(%s) }", method, strings.Join(args, ", ")))
		return
	}
	p.insert(n, d, fmt.Sprintf("if verifStub := VerifStub[%q]; verifStub != nil { verifStub(%s); return }", method, strings.Join(args, ", ")))
}

func (p *pkg) write(repo, out string) error {
	dir := filepath.Join(out, p.dir)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	for n, es := range p.edits {
		b, err := os.ReadFile(filepath.Join(repo, p.dir, n))
		if err != nil {
			return err
		}
		sort.Slice(es, func(i, j int) bool { return es[i].at > es[j].at })
		s := string(b)
		for _, e := range es {
			s = s[:e.at] + e.text + s[e.at:]
		}
		if err := os.WriteFile(filepath.Join(dir, n), []byte(s), 0o644); err != nil {
			return err
		}
	}
	for n, s := range p.extra {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(s), 0o644); err != nil {
			return err
		}
	}
	return nil
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	pkgs := map[string]*pkg{}
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		f := strings.Fields(in.Text())
		if len(f) == 0 {
			continue
		}
		p := pkgs[f[1]]
		if p == nil {
			var err error
			if p, err = load(repo, f[1]); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			pkgs[f[1]] = p
		}
		switch f[0] {
		case "hook":
			p.hook(f[2], f[3])
		case "stub":
			p.stub(f[2], f[3])
		case "vars":
			p.vars()
		}
	}
	for _, p := range pkgs {
		if err := p.write(repo, out); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	}
}

// vars lists the variables of the package.
func (p *pkg) vars() {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\n// VerifVars are the variables of the package.\nvar VerifVars = map[string]interface{}{\n", p.name)
	for _, f := range p.files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				for _, n := range s.(*ast.ValueSpec).Names {
					if n.Name != "_" {
						fmt.Fprintf(&b, "\t%q: &%s,\n", n.Name, n.Name)
					}
				}
			}
		}
	}
	b.WriteString("}\n")
	p.extra["zz_verif_vars.go"] = b.String()
}
