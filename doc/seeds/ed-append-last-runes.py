prop='C20'
edits=[('pkg/ed/ed.go', 'for _, l := range lines {\n\t\t\tlength += len(l) + 1\n', 'for _, l := range lines {\n\t\t\tlength += len([]rune(l)) + 1\n')]
needs='appending after the last line of a buffer that holds multi-byte characters'
breaks='the text is put inside the last line'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ngo build -o "$t/ed" ./cmd/ed || exit 3\nmkdir "$t/d"; cd "$t/d" || exit 3\n\nprintf \'h\\303\\251llo\\nw\\303\\266rld\\n\' > f\nprintf \'$a\\nnew\\n.\\n1,$p\\nQ\\n\' | timeout 20 "$t/ed" f > ../out 2>/dev/null\nprintf \'\\n\\nh\\303\\251llo\\nw\\303\\266rld\\nnew\\n\' | cmp -s - ../out\n'
