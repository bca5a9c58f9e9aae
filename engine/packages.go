package main

import "strings"

// bodyPkgs are the standard packages whose code is executed symbolically (others have no bodies).
var bodyPkgs = map[string]bool{}

// initPkgs are the packages whose initialiser is executed before every exploration.
var initPkgs = map[string]bool{}

func init() {
	for _, p := range strings.Fields(`strings strconv internal/strconv unicode unicode/utf8 unicode/utf16 sort slices maps cmp bytes errors io io/fs
		internal/oserror math math/bits math/rand internal/stringslite internal/bytealg internal/fmtsort internal/byteorder iter path path/filepath internal/filepathlite
		fmt reflect regexp regexp/syntax text/template/parse`) {
		bodyPkgs[p] = true
	}
	for _, p := range strings.Fields(`strings strconv internal/strconv unicode unicode/utf8 sort slices cmp bytes errors io io/fs
		internal/oserror path path/filepath internal/filepathlite fmt reflect internal/fmtsort math/bits`) {
		initPkgs[p] = true
	}
}

// zeroGlobals may be read although their package is not initialised: the code only passes them on.
var zeroGlobals = map[string]bool{"os.Stdout": true, "os.Stderr": true, "os.Stdin": true, "os.Args": true, "regexp.arrayNoInts": true}

var substPkgs = map[string]string{
	"reflect":                            "reflect",
	"fmt":                                "fmt",
	"github.com/arr-ai/frozen":           "frozen",
	"github.com/stretchr/testify/assert": "assert",
}

func isThird(path string) bool {
	return substPkgs[path] != "" || path == "github.com/iancoleman/strcase"
}

func (P *Program) initAllowed(path string) bool {
	return strings.HasPrefix(path, modPath) || initPkgs[path] || isThird(path)
}

func wantBodies(p *listPkg) bool {
	return strings.HasPrefix(p.ImportPath, modPath) || bodyPkgs[p.ImportPath] || isThird(p.ImportPath)
}
