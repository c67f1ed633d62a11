prop='C15'
edits=[('pkg/flag/parse.go','\t\tif arg == "--" {',"\t\tif arg[1] == '-' {")]
needs='an argument that starts with two dashes'
breaks='an undeclared option is taken for the end of the options'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ncat > "$t/x_test.go" <<\'G\'\npackage flag\nimport ("testing";"strings";"fmt")\nfunc TestDemo(t *testing.T) {\n\tp := Parser{Input: strings.Split("--verbose a", " ")}\n\tvar v bool; var s string; var n int64\n\tp.BoolVar(&v, \'v\'); p.StringVar(&s, \'p\'); p.IntVar(&n, \'n\')\n\tpos, err := p.Parse()\n\tgot := fmt.Sprint(v, " ", s, " ", n, " ", pos, " ", err != nil)\n\tif got != "false  0 [] true" { t.Fatal(got) }\n}\nG\necho "{\\"Replace\\":{\\"$PWD/pkg/flag/x_demo_test.go\\":\\"$t/x_test.go\\"}}" > "$t/o.json"\ngo test -vet=off -count=1 -run TestDemo -overlay "$t/o.json" ./pkg/flag\n'
