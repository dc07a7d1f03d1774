package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"slices"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"
)

// The packages that read catalogs, and those that know plural rules.
var (
	fileDirs   = []string{".", "catalog", "catalog", "catalog/po", "catalog/po", "internal/mo"}
	pluralDirs = []string{"catalog/poplural", "catalog/poplural/ast", "catalog/cldrplural", "catalog/cldrplural/ast", "internal/cast", "catalog"}
)

// dictionary holds the literals of the code under test; generators mix them into their inputs,
// so that what the code treats specially is met often. What is right is not taken from there.
type dictionary struct {
	words map[string][]string // by directory
	ints  map[string][]uint64
}

var loadDict = sync.OnceValue(func() dictionary {
	d := dictionary{map[string][]string{}, map[string][]uint64{}}
	root := repoDir()
	filepath.WalkDir(root, func(path string, e os.DirEntry, err error) error {
		if err != nil || e.IsDir() && (e.Name() == ".git" || e.Name() == "testdata" || e.Name() == "examples") {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		dir, _ := filepath.Rel(root, filepath.Dir(path))
		f, err := parser.ParseFile(token.NewFileSet(), path, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		imports := map[*ast.BasicLit]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.ImportSpec:
				imports[v.Path] = true
			case *ast.BasicLit:
				switch v.Kind {
				case token.STRING, token.CHAR:
					s, err := strconv.Unquote(v.Value)
					if err == nil && len(s) > 0 && len(s) <= 24 && !imports[v] && utf8.ValidString(s) && strings.IndexFunc(s, unicode.IsControl) < 0 {
						d.words[dir] = append(d.words[dir], s)
					}
				case token.INT:
					if k, err := strconv.ParseUint(v.Value, 0, 64); err == nil {
						d.ints[dir] = append(d.ints[dir], k)
					}
				}
			}
			return true
		})
		return nil
	})
	for dir := range d.words {
		slices.Sort(d.words[dir])
		d.words[dir] = slices.Compact(d.words[dir])
	}
	for dir := range d.ints {
		slices.Sort(d.ints[dir])
		d.ints[dir] = slices.Compact(d.ints[dir])
	}
	return d
})

// repoDir is the directory of the code under test.
func repoDir() string {
	if info, ok := debug.ReadBuildInfo(); ok {
		for _, m := range info.Deps {
			if m.Path == "github.com/vorlif/spreak" && m.Replace != nil {
				return m.Replace.Path
			}
		}
	}
	return "/repo"
}

// dictWord is a literal text of the packages in dirs.
func (g gen) dictWord(dirs ...string) string {
	w := loadDict().words[dirs[g.IntN(len(dirs))]]
	if len(w) == 0 {
		return "word"
	}
	return w[g.IntN(len(w))]
}

// dictInt is a literal number of the packages in dirs or one close to it.
func (g gen) dictInt(dirs ...string) uint64 {
	w := loadDict().ints[dirs[g.IntN(len(dirs))]]
	if len(w) == 0 {
		return 1
	}
	return w[g.IntN(len(w))] + pickOf[uint64](g.Rand, 0, 0, 0, 1, 1, 2, ^uint64(0))
}
