prop='C24'
edits=[('pkg/locale/localelex.go', '{ABMON_STR, grabStringList}', '{ABMON_STR, grabString}')]
needs='abmon with more than one name'
breaks='the list of month names is refused'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ncat > "$t/x_test.go" <<\'G\'\npackage locale\nimport ("testing";"time";"fmt")\nvar _ = time.Second\nfunc toks(s string) string {\n\tl := NewLexer(s)\n\tout := ""\n\tfor {\n\t\tselect {\n\t\tcase r := <-func() chan string { c := make(chan string, 1); go func() { t, d := l.NextToken(); if d { c <- "" } else { c <- fmt.Sprint(int(t.Type), " ") } }(); return c }():\n\t\t\tif r == "" { return out }\n\t\t\tout += r\n\t\t\tif len(out) > 1000 { return "endless" }\n\t\tcase <-time.After(3 * time.Second):\n\t\t\treturn "endless"\n\t\t}\n\t}\n}\nfunc TestDemo(t *testing.T) {\n\tif s := toks("LC_TIME\\nabmon \\"a\\";\\"b\\"\\nEND LC_TIME\\n"); len(s) < 20 { t.Fatal(s) }\n}\nG\necho "{\\"Replace\\":{\\"$PWD/pkg/locale/x_demo_test.go\\":\\"$t/x_test.go\\"}}" > "$t/o.json"\ntimeout 60 go test -vet=off -count=1 -run TestDemo -overlay "$t/o.json" ./pkg/locale\n'
