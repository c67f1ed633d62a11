prop='C15'
edits=[('pkg/flag/parse.go','arg[0] != \'-\' || arg == "-" {',"arg[0] != '-' {")]
needs='the operand -'
breaks='the operand is dropped and options after it are parsed'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ncat > "$t/x_test.go" <<\'G\'\npackage flag\nimport ("testing";"strings";"fmt")\nfunc TestDemo(t *testing.T) {\n\tp := Parser{Input: strings.Split("-v - a", " ")}\n\tvar v bool; var s string; var n int64\n\tp.BoolVar(&v, \'v\'); p.StringVar(&s, \'p\'); p.IntVar(&n, \'n\')\n\tpos, err := p.Parse()\n\tgot := fmt.Sprint(v, " ", s, " ", n, " ", pos, " ", err != nil)\n\tif got != "true  0 [- a] false" { t.Fatal(got) }\n}\nG\necho "{\\"Replace\\":{\\"$PWD/pkg/flag/x_demo_test.go\\":\\"$t/x_test.go\\"}}" > "$t/o.json"\ngo test -vet=off -count=1 -run TestDemo -overlay "$t/o.json" ./pkg/flag\n'
