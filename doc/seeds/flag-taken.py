prop='C15'
edits=[('pkg/flag/parse.go','\t\t\tif len(value) == 0 {\n\t\t\t\ti++\n',"\t\t\tif len(value) == 0 || value[0] == '-' {\n\t\t\t\ti++\n")]
needs='an option argument attached to its option that starts with a dash'
breaks='the following argument is taken instead'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ncat > "$t/x_test.go" <<\'G\'\npackage flag\nimport ("testing";"strings";"fmt")\nfunc TestDemo(t *testing.T) {\n\tp := Parser{Input: strings.Split("-p-x a b", " ")}\n\tvar v bool; var s string; var n int64\n\tp.BoolVar(&v, \'v\'); p.StringVar(&s, \'p\'); p.IntVar(&n, \'n\')\n\tpos, err := p.Parse()\n\tgot := fmt.Sprint(v, " ", s, " ", n, " ", pos, " ", err != nil)\n\tif got != "false -x 0 [a b] false" { t.Fatal(got) }\n}\nG\necho "{\\"Replace\\":{\\"$PWD/pkg/flag/x_demo_test.go\\":\\"$t/x_test.go\\"}}" > "$t/o.json"\ngo test -vet=off -count=1 -run TestDemo -overlay "$t/o.json" ./pkg/flag\n'
