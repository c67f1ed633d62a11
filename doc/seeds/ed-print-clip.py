prop='C20'
edits=[('pkg/ed/ed.go', '\tlines := ed.getLines()\n\tout := ""\n\tfor i := start; i <= end; i++ {\n\t\tout += fmt.Sprintf("%d\\t%s\\n", i, lines[i-1])', '\tlines := ed.getLines()\n\tout := ""\n\tfor i := start; i <= end; i++ {\n\t\tout += fmt.Sprintf("%d\\t%s\\n", i, strings.TrimRight(lines[i-1], "\\r"))')]
needs='n on a line that ends with a carriage return'
breaks='the line is shown without it'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ngo build -o "$t/ed" ./cmd/ed || exit 3\nmkdir "$t/d"; cd "$t/d" || exit 3\n\nprintf \'a\\r\\nb\\n\' > f\nprintf \'1n\\nQ\\n\' | timeout 20 "$t/ed" f > ../out 2>/dev/null\nprintf \'\\n1\\ta\\r\\n\\n\' | cmp -s - ../out\n'
