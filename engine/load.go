package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

const modPath = "github.com/NubeDev/bacnet"
const zz = modPath + "/zzverif"

type Program struct {
	prog     *ssa.Program
	fset     *token.FileSet
	pkgs     map[string]*ssa.Package
	cfns     sync.Map
	mu       sync.Mutex
	canon    typeutil.Map
	cmu      sync.Mutex
	impl     sync.Map
	meths    sync.Map
	rtErr    types.Type // runtime.errorString
	plainErr types.Type
	errStr   types.Type // *errors.errorString
	wrapErr  types.Type // *fmt.wrapError
	epoch    uint32
}

var repoDir = "/repo"
var verifDir = "/verif"

func goEnv() []string {
	env := os.Environ()
	var out []string
	for _, e := range env {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOPATH", "GOMODCACHE", "GOCACHE", "CGO_ENABLED", "GOWORK", "GO111MODULE", "GOOS", "GOARCH":
			continue
		}
		out = append(out, e)
	}
	home := os.Getenv("HOME")
	if home == "" {
		home = "/root"
		out = append(out, "HOME=/root")
	}
	return append(out, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE="+goCacheDir(), "GOWORK=off", "CGO_ENABLED=1")
}

func goCacheDir() string {
	if d := os.Getenv("GOSYM_GOCACHE"); d != "" {
		return d
	}
	return "/root/.cache/go-build"
}

// overlayFiles maps virtual paths under repoDir/zzverif to the files of /verif/harness.
func overlayFiles() map[string]string {
	m := map[string]string{}
	root := filepath.Join(verifDir, "harness")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(root, p)
			m[filepath.Join(repoDir, "zzverif", rel)] = p
		}
		return nil
	})
	if p := inPackage(); p != "" {
		m[filepath.Join(repoDir, "network", "zz_verif.go")] = p
	}
	return m
}

var inpkgOnce sync.Once
var inpkgFile string

// inPackage writes the file that is laid into package network: it gives a network the client of the
// harness.  The field is found by its type, so renaming it does not matter.
func inPackage() string {
	inpkgOnce.Do(func() {
		field := ""
		ents, _ := os.ReadDir(filepath.Join(repoDir, "network"))
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
				continue
			}
			f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(repoDir, "network", e.Name()), nil, 0)
			if err != nil {
				continue
			}
			ast.Inspect(f, func(n ast.Node) bool {
				ts, ok := n.(*ast.TypeSpec)
				if !ok || ts.Name.Name != "Network" {
					return true
				}
				st, ok := ts.Type.(*ast.StructType)
				if !ok {
					return true
				}
				for _, fd := range st.Fields.List {
					if sel, ok := fd.Type.(*ast.SelectorExpr); ok && sel.Sel.Name == "Client" {
						field = "Client"
						if len(fd.Names) > 0 {
							field = fd.Names[0].Name
						}
					}
				}
				return false
			})
		}
		if field == "" {
			return
		}
		dir := filepath.Join(verifDir, ".bin")
		os.MkdirAll(dir, 0o755)
		f, err := os.CreateTemp(dir, "network.*.go")
		if err != nil {
			return
		}
		fmt.Fprintf(f, "package network\n\nimport \"%s\"\n\n// VerifClient gives the network the harness's client.\nfunc (n *Network) VerifClient(c bacnet.Client) *Network {\n\tn.%s = c\n\treturn n\n}\n", modPath, field)
		f.Close()
		inpkgFile = f.Name()
	})
	return inpkgFile
}

func cleanInPackage() {
	if inpkgFile != "" {
		os.Remove(inpkgFile)
	}
}

func writeOverlayJSON(dir string) (string, error) {
	b, _ := json.Marshal(map[string]any{"Replace": overlayFiles()})
	p := filepath.Join(dir, "overlay.json")
	return p, os.WriteFile(p, b, 0o644)
}

// sourceHash identifies the state of /repo's Go sources and the harness.
func sourceHash() string {
	h := sha256.New()
	var files []string
	for _, root := range []string{repoDir, filepath.Join(verifDir, "harness")} {
		filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return nil
			}
			if fi.IsDir() && fi.Name() == ".git" {
				return filepath.SkipDir
			}
			if strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "go.mod") {
				files = append(files, p)
			}
			return nil
		})
	}
	sort.Strings(files)
	for _, f := range files {
		b, _ := os.ReadFile(f)
		fmt.Fprintf(h, "%s %d\n", f, len(b))
		h.Write(b)
	}
	return hex.EncodeToString(h.Sum(nil))[:16]
}

func loadProgram(patterns ...string) (*Program, error) {
	overlay := map[string][]byte{}
	for v, p := range overlayFiles() {
		b, err := os.ReadFile(p)
		if err != nil {
			return nil, err
		}
		overlay[v] = b
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repoDir,
		Fset:       fset,
		Env:        goEnv(),
		Overlay:    overlay,
		BuildFlags: []string{"-tags=netgo,osusergo,verifsym"},
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, p.PkgPath+": "+e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics)
	P := &Program{prog: prog, fset: fset, pkgs: map[string]*ssa.Package{}}
	seen := map[*types.Package]bool{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.Types != nil && !p.IllTyped && !seen[p.Types] {
			seen[p.Types] = true
			sp := prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
			P.pkgs[p.PkgPath] = sp
		}
	})
	P.rtErr = P.namedType("runtime", "errorString", false)
	P.plainErr = P.namedType("runtime", "plainError", false)
	P.errStr = P.namedType("errors", "errorString", true)
	P.wrapErr = P.namedType("fmt", "wrapError", true)
	return P, nil
}

func (p *Program) namedType(pkg, name string, ptr bool) types.Type {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	t := o.Type()
	if ptr {
		t = types.NewPointer(t)
	}
	return p.canonType(t)
}

// canonType maps identical types to one representative, so that types can be compared by pointer.
func (p *Program) canonType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	t = types.Unalias(t)
	p.cmu.Lock()
	defer p.cmu.Unlock()
	if x := p.canon.At(t); x != nil {
		return x.(types.Type)
	}
	p.canon.Set(t, t)
	return t
}

type implKey struct{ t, i types.Type }

func (p *Program) implements(t types.Type, it types.Type) bool {
	k := implKey{t, it}
	if v, ok := p.impl.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, it.Underlying().(*types.Interface))
	p.impl.Store(k, r)
	return r
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (p *Program) method(t types.Type, m *types.Func) *cfn {
	k := methKey{t, m}
	if v, ok := p.meths.Load(k); ok {
		return v.(*cfn)
	}
	p.mu.Lock()
	fn := p.prog.LookupMethod(t, m.Pkg(), m.Name())
	p.mu.Unlock()
	if fn == nil {
		unsupported("no method %s of %s", m.Name(), t)
	}
	c := p.compile(fn)
	p.meths.Store(k, c)
	return c
}

// methodByName finds an exported method of t, or nil.
func (p *Program) methodByName(t types.Type, name string) *cfn {
	p.mu.Lock()
	sel := p.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	var fn *ssa.Function
	if sel != nil {
		fn = p.prog.MethodValue(sel)
	}
	p.mu.Unlock()
	if fn == nil {
		return nil
	}
	return p.compile(fn)
}

func isStd(path string) bool {
	i := strings.IndexByte(path, '/')
	first := path
	if i >= 0 {
		first = path[:i]
	}
	return !strings.Contains(first, ".")
}

func inModule(path string) bool  { return path == modPath || strings.HasPrefix(path, modPath+"/") }
func inHarness(path string) bool { return path == zz || strings.HasPrefix(path, zz+"/") }
