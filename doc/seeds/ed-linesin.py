prop='C20'
edits=[('pkg/ed/ed.go', "if r == '\\n' {\n\t\t\tn++\n\t\t}\n\t}\n\treturn n\n}", 'if r == \'\\n\' {\n\t\t\tn++\n\t\t}\n\t}\n\tif strings.HasSuffix(s, "\\n") {\n\t\tn--\n\t}\n\treturn n\n}')]
needs='appended text that ends with an empty line'
breaks='the current line is one short afterwards'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ngo build -o "$t/ed" ./cmd/ed || exit 3\nmkdir "$t/d"; cd "$t/d" || exit 3\n\nprintf \'a\\nb\\nc\\n\' > f\nprintf \'1a\\nx\\n\\n.\\n.=\\nQ\\n\' | timeout 20 "$t/ed" f > ../out 2>/dev/null\nprintf \'\\n\\n3\\n\' | cmp -s - ../out\n'
