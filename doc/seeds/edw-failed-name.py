prop='C18'
edits=[('pkg/ed/ed.go', '\tdebug("setting filename")\n\ted.filename = filename\n', ''), ('pkg/ed/ed.go', '\t\tpanic("oh no you haven\'t saved")\n\t}\n', '\t\tpanic("oh no you haven\'t saved")\n\t}\n\tdebug("setting filename")\n\ted.filename = filename\n')]
needs='an e of a file that cannot be read, then a w without a name'
breaks='the remembered name is changed by an e that failed: the buffer is written to another file'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ngo build -o "$t/ed" ./cmd/ed || exit 3\nmkdir "$t/d"; cd "$t/d" || exit 3\n\nprintf \'one\\ntwo\\n\' > f\nprintf \'e nofile\\n1d\\nw\\nQ\\n\' | timeout 20 "$t/ed" f > ../out 2>/dev/null\n[ "$(cat f)" = two ] && [ ! -e nofile ]\n'
