prop='C20'
edits=[('pkg/ed/ed.go', '\ted.currentLine = len(ed.getLines())\n\n\treturn nil\n', '\tif n := len(ed.getLines()); ed.currentLine == 0 || ed.currentLine > n {\n\t\ted.currentLine = n\n\t}\n\n\treturn nil\n')]
needs='an e of a second file at least as long as the current line number'
breaks='e leaves the current line where it was in the old buffer'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ngo build -o "$t/ed" ./cmd/ed || exit 3\nmkdir "$t/d"; cd "$t/d" || exit 3\n\nprintf \'one\\ntwo\\n\' > f; printf \'a\\nb\\nc\\n\' > g\nprintf \'1p\\ne g\\np\\nQ\\n\' | timeout 20 "$t/ed" f > ../out 2>/dev/null\ngrep -qx c ../out\n'
