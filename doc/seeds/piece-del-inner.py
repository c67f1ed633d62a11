prop='C17'
edits=[('pkg/txt/piece_table.go','\t\t\t\t\toffset: p.offset + int64(at-start+length),','\t\t\t\t\toffset: p.offset + int64(at+length),')]
needs='a deletion inside a piece that is not the first'
breaks='the text after the deletion is read from the wrong place'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ncat > "$t/x_test.go" <<\'G\'\npackage txt\nimport ("testing";"strings")\nfunc TestDemo(t *testing.T) {\n\tpt := NewPieceTable(strings.NewReader("abcdef"), 6)\n\tpt.Insert([]byte("12"), 1); pt.Delete(1, 4)\n\tif s := pt.String(); s != "a12bdef" { t.Fatal(s) }\n}\nG\necho "{\\"Replace\\":{\\"$PWD/pkg/txt/x_demo_test.go\\":\\"$t/x_test.go\\"}}" > "$t/o.json"\ngo test -vet=off -count=1 -run TestDemo -overlay "$t/o.json" ./pkg/txt\n'
