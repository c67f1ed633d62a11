prop='C18'
edits=[('pkg/ed/ed.go', 'err = os.Rename(tmpName, filename)\n\tif err != nil {\n\t\tos.Remove(tmpName)\n', 'err = os.Rename(tmpName, filename)\n\tif err != nil {\n')]
needs='a w whose final rename fails, for example onto a directory'
breaks='the temporary file survives the failed write'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ngo build -o "$t/ed" ./cmd/ed || exit 3\nmkdir "$t/d"; cd "$t/d" || exit 3\n\nprintf \'one\\ntwo\\n\' > f; mkdir sub; touch sub/x\nprintf \'w sub\\nQ\\n\' | timeout 20 "$t/ed" f > ../out 2>/dev/null\n[ "$(ls | tr \'\\n\' \' \')" = "f sub " ]\n'
