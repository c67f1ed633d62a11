prop='C15'
edits=[('pkg/flag/flag.go','strconv.ParseInt(s, 0, 64)','strconv.ParseInt(s, 0, 32)')]
needs='a number of more than 31 bits'
breaks='a valid number is refused'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ncat > "$t/x_test.go" <<\'G\'\npackage flag\nimport ("testing";"strings";"fmt")\nfunc TestDemo(t *testing.T) {\n\tp := Parser{Input: strings.Split("-n 5000000000 a", " ")}\n\tvar v bool; var s string; var n int64\n\tp.BoolVar(&v, \'v\'); p.StringVar(&s, \'p\'); p.IntVar(&n, \'n\')\n\tpos, err := p.Parse()\n\tgot := fmt.Sprint(v, " ", s, " ", n, " ", pos, " ", err != nil)\n\tif got != "false  5000000000 [a] false" { t.Fatal(got) }\n}\nG\necho "{\\"Replace\\":{\\"$PWD/pkg/flag/x_demo_test.go\\":\\"$t/x_test.go\\"}}" > "$t/o.json"\ngo test -vet=off -count=1 -run TestDemo -overlay "$t/o.json" ./pkg/flag\n'
