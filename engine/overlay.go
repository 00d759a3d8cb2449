package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/choria-io/go-choria"

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

// HarnessFile is one file of harness functions for one package
type HarnessFile struct {
	Path      string // under /verif/harness
	Rel       string // package dir relative to the module
	Src       []byte
	Harnesses []*Harness
	replace   [][2]string // selector -> identifier
	override  []string    // function or T.method
	idents    [][2]string // call of a package level function -> identifier
	methods   [][2]string // call of any method of this name -> function that gets the receiver first
	with      []string    // other harness files needed, relative to /verif/harness
	hours     []string    // packages whose timers run faster in native replay
	clock     []string    // packages whose clock and randomness are modelled
	exec      []string    // packages whose commands are modelled
	fs        []string    // packages whose file system is modelled
	Broken    string
}

// Harness is one entry point
type Harness struct {
	Prop   string
	Name   string
	File   *HarnessFile
	Opts   map[string]string
	Bounds string
	Doc    string
}

func parseHarnessFile(path string) (*HarnessFile, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	rel, err := filepath.Rel(filepath.Join(verifDir, "harness"), filepath.Dir(path))
	if err != nil {
		return nil, err
	}
	hf := &HarnessFile{Path: path, Rel: rel, Src: src}
	lines := strings.Split(string(src), "\n")
	var pend []*Harness
	bounds := ""
	for _, l := range lines {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "//verif:replace ") {
			f := strings.Fields(l)
			hf.replace = append(hf.replace, [2]string{f[1], f[2]})
		}
		if strings.HasPrefix(l, "//verif:call ") {
			f := strings.Fields(l)
			hf.idents = append(hf.idents, [2]string{f[1], f[2]})
		}
		if strings.HasPrefix(l, "//verif:method ") {
			f := strings.Fields(l)
			hf.methods = append(hf.methods, [2]string{f[1], f[2]})
		}
		if strings.HasPrefix(l, "//verif:override ") {
			hf.override = append(hf.override, strings.Fields(l)[1:]...)
		}
		if strings.HasPrefix(l, "//verif:with ") {
			hf.with = append(hf.with, strings.Fields(l)[1:]...)
		}
		if strings.HasPrefix(l, "//verif:clock ") {
			for _, c := range strings.Fields(l)[1:] {
				if c == "." {
					c = rel
				}
				hf.clock = append(hf.clock, c)
			}
		}
		if strings.HasPrefix(l, "//verif:hours ") {
			for _, c := range strings.Fields(l)[1:] {
				if c == "." {
					c = rel
				}
				hf.hours = append(hf.hours, c)
			}
		}
		if strings.HasPrefix(l, "//verif:exec ") {
			for _, c := range strings.Fields(l)[1:] {
				if c == "." {
					c = rel
				}
				hf.exec = append(hf.exec, c)
			}
		}
		if strings.HasPrefix(l, "//verif:fs ") {
			for _, c := range strings.Fields(l)[1:] {
				if c == "." {
					c = rel
				}
				hf.fs = append(hf.fs, c)
			}
		}
		if strings.HasPrefix(l, "//verif:bounds ") {
			bounds += strings.TrimPrefix(l, "//verif:bounds ") + " "
		}
		if strings.HasPrefix(l, "//verif:harness ") {
			h := &Harness{File: hf, Opts: map[string]string{}}
			for _, f := range strings.Fields(l)[1:] {
				k, v, _ := strings.Cut(f, "=")
				h.Opts[k] = v
			}
			h.Prop = h.Opts["prop"]
			pend = append(pend, h)
		}
		if strings.HasPrefix(l, "func ") && len(pend) > 0 {
			n := strings.TrimPrefix(l, "func ")
			n = n[:strings.IndexByte(n, '(')]
			for _, h := range pend {
				h.Name = n
				h.Bounds = strings.TrimSpace(bounds)
				hf.Harnesses = append(hf.Harnesses, h)
			}
			pend = nil
			bounds = ""
		}
	}
	return hf, nil
}

func loadHarnessFiles() ([]*HarnessFile, error) {
	var out []*HarnessFile
	err := filepath.Walk(filepath.Join(verifDir, "harness"), func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		hf, err := parseHarnessFile(p)
		if err != nil {
			return err
		}
		out = append(out, hf)
		return nil
	})
	sort.Slice(out, func(i, j int) bool { return out[i].Path < out[j].Path })
	return out, err
}

// buildOverlay gives the overlay contents for the harness files
func buildOverlay(files []*HarnessFile) (map[string][]byte, error) {
	ov := map[string][]byte{}
	nd, err := os.ReadFile(filepath.Join(verifDir, "engine", "native", "nd.go.txt"))
	if err != nil {
		return nil, err
	}
	ov[filepath.Join(repoDir, "internal/verifnd/nd.go")] = nd
	nd, err = os.ReadFile(filepath.Join(verifDir, "engine", "native", "fs.go.txt"))
	if err != nil {
		return nil, err
	}
	ov[filepath.Join(repoDir, "internal/verifnd/fs.go")] = nd
	nd, err = os.ReadFile(filepath.Join(verifDir, "engine", "native", "exec.go.txt"))
	if err != nil {
		return nil, err
	}
	ov[filepath.Join(repoDir, "internal/verifnd/exec.go")] = nd
	byPkg := map[string][]*HarnessFile{}
	for _, f := range files {
		if f.Broken != "" {
			continue
		}
		byPkg[f.Rel] = append(byPkg[f.Rel], f)
		name := "zz_verif_" + filepath.Base(f.Path)
		ov[filepath.Join(repoDir, f.Rel, name)] = f.Src
	}
	clocked := map[string]bool{}
	hours := map[string]bool{}
	for _, f := range files {
		if f.Broken == "" {
			for _, c := range f.hours {
				hours[c] = true
			}
			for _, c := range f.clock {
				clocked[c] = true
				if _, ok := byPkg[c]; !ok {
					byPkg[c] = nil
				}
			}
		}
	}
	filed := map[string]bool{}
	for _, f := range files {
		if f.Broken == "" {
			for _, c := range f.fs {
				filed[c] = true
				if _, ok := byPkg[c]; !ok {
					byPkg[c] = nil
				}
			}
		}
	}
	execd := map[string]bool{}
	for _, f := range files {
		if f.Broken == "" {
			for _, c := range f.exec {
				execd[c] = true
				if _, ok := byPkg[c]; !ok {
					byPkg[c] = nil
				}
			}
		}
	}
	for rel, fs := range byPkg {
		rep := map[string]string{}
		if execd[rel] {
			for k, v := range execFuncs {
				rep[k] = "verifnd__." + v
			}
		}
		if filed[rel] {
			for _, k := range fsFuncs {
				rep["os."+k] = "verifnd__.FS" + k
			}
			for _, k := range []string{"Glob", "Walk", "WalkDir"} {
				rep["path/filepath."+k] = "verifnd__.FS" + k
			}
			rep["os.Lstat"] = "verifnd__.FSStat"
		}
		if clocked[rel] {
			for k, v := range clockFuncs {
				rep[k] = "verifnd__." + v
			}
		}
		if hours[rel] {
			for _, k := range []string{"Sleep", "After", "NewTimer", "NewTicker", "AfterFunc"} {
				rep["time."+k] = "verifnd__." + k
			}
		}
		idents := map[string]string{}
		methods := map[string]string{}
		over := map[string]bool{}
		for _, f := range fs {
			for _, r := range f.methods {
				methods[r[0]] = r[1]
			}
			for _, r := range f.replace {
				rep[r[0]] = r[1]
			}
			for _, r := range f.idents {
				idents[r[0]] = r[1]
			}
			for _, o := range f.override {
				over[o] = true
			}
		}
		if len(rep)+len(over)+len(idents)+len(methods) == 0 {
			continue
		}
		dir := filepath.Join(repoDir, rel)
		ents, err := os.ReadDir(dir)
		if err != nil {
			continue
		}
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			p := filepath.Join(dir, n)
			src, err := os.ReadFile(p)
			if err != nil {
				return nil, err
			}
			ns, changed := rewrite(p, src, rep, idents, methods, over)
			if changed {
				ov[p] = ns
			}
		}
	}
	return ov, nil
}

var clockFuncs = map[string]string{"time.Now": "Now", "time.Since": "Since", "time.Until": "Until", "math/rand.Intn": "RandIntn", "math/rand.Int63n": "RandInt63n",
	"math/rand.Int31n": "RandInt31n", "math/rand.Int": "RandInt", "math/rand/v2.IntN": "RandIntn", "math/rand/v2.Int64N": "RandInt63n", "math/rand/v2.N": "RandN", "math/rand.New": "RandNew", "math/rand.Rand": "RandRand"}

var execFuncs = map[string]string{"os/exec.Command": "ExecCommand", "os/exec.CommandContext": "ExecCommandContext", "os/exec.Cmd": "Cmd", "os/exec.ExitError": "ExecExitError", "os.ProcessState": "ProcessState", "os.Process": "Process", "os.FindProcess": "ExecFindProcess"}

var fsFuncs = []string{"Open", "Create", "OpenFile", "ReadFile", "WriteFile", "Stat", "ReadDir", "MkdirAll", "Mkdir", "Remove", "RemoveAll", "Rename", "CreateTemp", "MkdirTemp", "Chmod", "Chown", "File"}

type edit struct {
	off, end int
	text     string
}

// rewrite redirects calls of package functions to stubs of the harness
func rewrite(path string, src []byte, rep, idents, methods map[string]string, over map[string]bool) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return src, false
	}
	imports := map[string]string{} // local name -> path
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := p[strings.LastIndexByte(p, '/')+1:]
		if im.Name != nil {
			n = im.Name.Name
		} else if len(n) > 1 && n[0] == 'v' && n[1] >= '0' && n[1] <= '9' {
			q := strings.Split(p, "/")
			n = q[len(q)-2]
		} else {
			n = strings.TrimSuffix(strings.TrimPrefix(n, "go-"), ".go")
		}
		imports[n] = p
	}
	var edits []edit
	keep := map[string]bool{}
	needND := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok {
				return true
			}
			p, ok := imports[id.Name]
			if !ok {
				return true
			}
			to, ok := rep[p+"."+x.Sel.Name]
			if !ok {
				return true
			}
			edits = append(edits, edit{fset.Position(x.Pos()).Offset, fset.Position(x.End()).Offset, to})
			if strings.HasPrefix(to, "verifnd__.") {
				needND = true
			}
			if x.Sel.Name == "Rand" {
				keep[id.Name+".NewSource"] = true
			} else {
				keep[id.Name+"."+x.Sel.Name] = true
			}
			return false
		case *ast.CallExpr:
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				id, isID := s.X.(*ast.Ident)
				if to, ok := methods[s.Sel.Name]; ok && !(isID && imports[id.Name] != "") {
					o := fset.Position(s.X.Pos()).Offset
					edits = append(edits, edit{o, o, to + "("}, edit{fset.Position(s.X.End()).Offset, fset.Position(x.Lparen).Offset + 1, ", "})
				}
			}
			if id, ok := x.Fun.(*ast.Ident); ok {
				if to, ok := idents[id.Name]; ok {
					edits = append(edits, edit{fset.Position(id.Pos()).Offset, fset.Position(id.End()).Offset, to})
				}
			}
		case *ast.FuncDecl:
			name := x.Name.Name
			if x.Recv != nil && len(x.Recv.List) == 1 {
				t := x.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				if id, ok := t.(*ast.Ident); ok {
					name = id.Name + "." + name
				}
			}
			if over[name] {
				edits = append(edits, edit{fset.Position(x.Name.Pos()).Offset, fset.Position(x.Name.End()).Offset, x.Name.Name + "__real"})
			}
		}
		return true
	})
	if len(edits) == 0 {
		return src, false
	}
	if needND {
		o := fset.Position(f.Name.End()).Offset
		edits = append(edits, edit{o, o, "; import verifnd__ \"" + ndPath + "\""})
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].end < edits[j].end
	})
	var out bytes.Buffer
	pos := 0
	for _, e := range edits {
		out.Write(src[pos:e.off])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(src[pos:])
	var ks []string
	for k := range keep {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if strings.HasSuffix(k, ".N") {
			k = strings.TrimSuffix(k, ".N") + ".IntN"
		}
		if k == "os.File" || k == "exec.Cmd" || k == "exec.ExitError" || k == "os.ProcessState" || k == "os.Process" {
			fmt.Fprintf(&out, "\nvar _ %s\n", k)
			continue
		}
		fmt.Fprintf(&out, "\nvar _ = %s\n", k)
	}
	return out.Bytes(), true
}

const loadMode = packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
	packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule

// loadProgram builds the SSA of the packages with the harnesses, dropping
// harness files that do not compile against the current tree
func loadProgram(files []*HarnessFile) (*ssa.Program, map[string]*ssa.Package, map[string][]byte, error) {
	for try := 0; try < 4; try++ {
		ov, err := buildOverlay(files)
		if err != nil {
			return nil, nil, nil, err
		}
		var pats []string
		seen := map[string]bool{}
		for _, f := range files {
			if f.Broken == "" && !seen[f.Rel] {
				seen[f.Rel] = true
				pats = append(pats, "./"+f.Rel)
			}
		}
		if len(pats) == 0 {
			return nil, nil, nil, fmt.Errorf("no harness compiles")
		}
		cfg := &packages.Config{Mode: loadMode, Dir: repoDir, Overlay: ov, Env: append(os.Environ(), "CGO_ENABLED=0")}
		pkgs, err := packages.Load(cfg, pats...)
		if err != nil {
			return nil, nil, nil, err
		}
		bad := false
		var other []string
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				hit := false
				for _, f := range files {
					if strings.Contains(e.Pos, "zz_verif_"+filepath.Base(f.Path)) && strings.HasPrefix(e.Pos, filepath.Join(repoDir, f.Rel)+"/") {
						if f.Broken == "" {
							f.Broken = e.Error()
							fmt.Fprintf(os.Stderr, "harness %s does not compile: %s\n", filepath.Base(f.Path), e.Error())
						}
						hit = true
					}
				}
				bad = true
				if !hit {
					other = append(other, e.Error())
				}
			}
		})
		if bad {
			// a file others need takes them with it
			broke := false
			for again := true; again; {
				again = false
				for _, f := range files {
					if f.Broken == "" {
						for _, w := range f.with {
							for _, g := range files {
								if g.Broken != "" && strings.HasSuffix(g.Path, "/harness/"+w) {
									f.Broken = "needs " + w
									again = true
								}
							}
						}
					} else {
						broke = true
					}
				}
			}
			if !broke || len(other) > 0 && try == 3 {
				return nil, nil, nil, fmt.Errorf("load: %s", strings.Join(other, "; "))
			}
			continue
		}
		prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
		prog.Build()
		m := map[string]*ssa.Package{}
		for _, p := range pkgs {
			m[strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPath), "/")] = prog.Package(p.Types)
		}
		return prog, m, ov, nil
	}
	return nil, nil, nil, fmt.Errorf("harness does not compile")
}

// writeOverlay stores overlay files and the json for the go command
func writeOverlay(dir string, ov map[string][]byte) (string, error) {
	type oj struct{ Replace map[string]string }
	o := oj{map[string]string{}}
	i := 0
	for p, src := range ov {
		i++
		f := filepath.Join(dir, fmt.Sprintf("f%d_%s", i, filepath.Base(p)))
		if err := os.WriteFile(f, src, 0644); err != nil {
			return "", err
		}
		o.Replace[p] = f
	}
	j, _ := json.Marshal(o)
	p := filepath.Join(dir, "overlay.json")
	return p, os.WriteFile(p, j, 0644)
}
