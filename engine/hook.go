package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

var hookRE = regexp.MustCompile(`(?m)^//verif:hook (\S+) (\S+)$`)

// applyHooks rewrites the functions named by "//verif:hook <pkg dir> <name>"
// lines of the harness files: the function becomes VerifReal_<name>, and a
// function of its old name calls VerifHook_<name> when a harness has set it.
// The rest of the source is untouched, so that everything around the hooked
// function is still the repository's code.
func applyHooks(repo, scratch string, files map[string]string) error {
	want := map[string]map[string]bool{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		for _, m := range hookRE.FindAllStringSubmatch(string(b), -1) {
			if want[m[1]] == nil {
				want[m[1]] = map[string]bool{}
			}
			want[m[1]][m[2]] = true
		}
	}
	if len(want) == 0 {
		return nil
	}
	dir, err := os.MkdirTemp(scratch, "hooks")
	if err != nil {
		return err
	}
	n := 0
	for pkg, names := range want {
		srcs, _ := filepath.Glob(filepath.Join(repo, pkg, "*.go"))
		sort.Strings(srcs)
		for _, src := range srcs {
			if strings.HasSuffix(src, "_test.go") {
				continue
			}
			b, err := os.ReadFile(src)
			if err != nil {
				return err
			}
			fset := token.NewFileSet()
			file, err := parser.ParseFile(fset, src, b, 0)
			if err != nil {
				return err
			}
			text := func(n ast.Node) string {
				return string(b[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
			}
			out := string(b)
			var cuts []int
			tail := ""
			for _, d := range file.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || !names[fd.Name.Name] {
					continue
				}
				delete(names, fd.Name.Name)
				name := fd.Name.Name
				cuts = append(cuts, fset.Position(fd.Name.Pos()).Offset)
				var params, args []string
				for _, f := range fd.Type.Params.List {
					for _, id := range f.Names {
						params = append(params, id.Name+" "+text(f.Type))
						args = append(args, id.Name)
					}
					if len(f.Names) == 0 {
						p := fmt.Sprintf("verifP%d", len(args))
						params = append(params, p+" "+text(f.Type))
						args = append(args, p)
					}
				}
				res, ret := "", ""
				if fd.Type.Results != nil {
					res, ret = text(fd.Type.Results), "return "
				}
				recv, real := "", "VerifReal_"+name
				hp, ha := params, args
				if fd.Recv != nil {
					r := fd.Recv.List[0]
					recv = "(" + r.Names[0].Name + " " + text(r.Type) + ") "
					real = r.Names[0].Name + "." + real
					hp = append([]string{r.Names[0].Name + " " + text(r.Type)}, params...)
					ha = append([]string{r.Names[0].Name}, args...)
				}
				stop := ""
				if ret == "" {
					stop = "\n\t\treturn"
				}
				tail += fmt.Sprintf("\nvar VerifHook_%s func(%s) %s\n\nfunc %s%s(%s) %s {\n\tif VerifHook_%s != nil {\n\t\t%sVerifHook_%s(%s)%s\n\t}\n\t%s%s(%s)\n}\n",
					name, strings.Join(hp, ", "), res,
					recv, name, strings.Join(params, ", "), res,
					name, ret, name, strings.Join(ha, ", "), stop,
					ret, real, strings.Join(args, ", "))
			}
			if tail == "" {
				continue
			}
			for i := len(cuts) - 1; i >= 0; i-- {
				out = out[:cuts[i]] + "VerifReal_" + out[cuts[i]:]
			}
			f := filepath.Join(dir, fmt.Sprintf("%d.go", n))
			n++
			if err := os.WriteFile(f, []byte(out+tail), 0o644); err != nil {
				return err
			}
			files[src] = f
		}
		for name := range names {
			return fmt.Errorf("hook: no function %s in %s", name, pkg)
		}
	}
	return nil
}
