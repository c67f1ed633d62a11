prop='C18'
edits=[('pkg/ed/ed.go', 'err = closeErr\n\t}\n\tif err != nil {\n\t\tos.Remove(tmpName)\n', 'err = closeErr\n\t}\n\tif err != nil {\n\t\tos.Remove(filename)\n')]
needs='a w that fails while writing the temporary file (full disk, file size limit)'
breaks='the old contents of the target are lost'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ngo build -o "$t/ed" ./cmd/ed || exit 3\nmkdir "$t/d"; cd "$t/d" || exit 3\n\nhead -c 4000 /dev/zero | tr \'\\0\' \'x\' > f; echo >> f\ncp f ../want\n( trap \'\' XFSZ; ulimit -f 1; printf \'w\\nQ\\n\' | timeout 20 "$t/ed" f > /dev/null 2>&1 )\ncmp -s f ../want\n'
