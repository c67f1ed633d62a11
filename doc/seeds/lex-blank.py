prop='C24'
edits=[('pkg/locale/localelex.go', '\t\t} else {\n\t\t\tl.Error(fmt.Sprintf("unexpected keyword \'%s\'", word))\n\t\t}', '\t\t} else if word != "" {\n\t\t\tl.Error(fmt.Sprintf("unexpected keyword \'%s\'", word))\n\t\t}')]
needs='a definition that ends inside a category'
breaks='the lexer never ends'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ncat > "$t/x_test.go" <<\'G\'\npackage locale\nimport "testing"\nfunc TestDemo(t *testing.T) {\n\tl := NewLexer("LC_TIME\\n")\n\tfor { if _, d := l.NextToken(); d { return } }\n}\nG\necho "{\\"Replace\\":{\\"$PWD/pkg/locale/x_demo_test.go\\":\\"$t/x_test.go\\"}}" > "$t/o.json"\ngo test -vet=off -c -o "$t/x" -overlay "$t/o.json" ./pkg/locale || exit 1\n# an error ends the program at once; an endless loop has to be stopped\ntimeout -s KILL 10 "$t/x" -test.run TestDemo > /dev/null 2>&1\nrc=$?\n[ $rc -ne 124 ] && [ $rc -ne 137 ]\n'
