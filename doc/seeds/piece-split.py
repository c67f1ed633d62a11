prop='C17'
edits=[('pkg/txt/piece_table.go','reader: p.reader}\n\t\t\tafterPiece := piece{length: p.length - leftSize, offset: p.offset + int64(leftSize), reader: p.reader}','reader: p.reader}\n\t\t\tafterPiece := piece{length: p.length - leftSize, offset: int64(leftSize), reader: p.reader}')]
needs='an insertion into the middle of a piece that does not start at the beginning of its source'
breaks='the text after the insertion is read from the wrong place'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ncat > "$t/x_test.go" <<\'G\'\npackage txt\nimport ("testing";"strings")\nfunc TestDemo(t *testing.T) {\n\tpt := NewPieceTable(strings.NewReader("abcdef"), 6)\n\tpt.Insert([]byte("12"), 3); pt.Insert([]byte("x"), 7)\n\tif s := pt.String(); s != "abc12dexf" { t.Fatal(s) }\n}\nG\necho "{\\"Replace\\":{\\"$PWD/pkg/txt/x_demo_test.go\\":\\"$t/x_test.go\\"}}" > "$t/o.json"\ngo test -vet=off -count=1 -run TestDemo -overlay "$t/o.json" ./pkg/txt\n'
