prop='C17'
edits=[('pkg/txt/piece_table.go','\t\t\tfirst.next = p\n\t\t\ttrimLen := at + length - start\n\t\t\tp.length -= trimLen\n','\t\t\ttrimLen := at + length - start\n\t\t\tp.length -= trimLen\n')]
needs='a deletion that covers a whole piece between its first and its last'
breaks='the pieces in between are kept'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ncat > "$t/x_test.go" <<\'G\'\npackage txt\nimport ("testing";"strings")\nfunc TestDemo(t *testing.T) {\n\tpt := NewPieceTable(strings.NewReader("abcdef"), 6)\n\tpt.Insert([]byte("12"), 2); pt.Delete(4, 1)\n\tif s := pt.String(); s != "adef" { t.Fatal(s) }\n}\nG\necho "{\\"Replace\\":{\\"$PWD/pkg/txt/x_demo_test.go\\":\\"$t/x_test.go\\"}}" > "$t/o.json"\ngo test -vet=off -count=1 -run TestDemo -overlay "$t/o.json" ./pkg/txt\n'
