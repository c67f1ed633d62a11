prop='C07'
edits=[('pkg/diff/diff.go', '\t\t\t\tnewOverlap[iold] = overlap[iold-1] + 1\n', '\t\t\t\tnewOverlap[iold] = overlap[iold-1] + 1\n\t\t\t\tif inew == 0 && iold == len(old)-1 {\n\t\t\t\t\tnewOverlap[iold] = 2\n\t\t\t\t}\n')]
needs='a second file (or part) whose first line is the last of the first'
breaks='the common run is taken to start before the second file: diff dies instead of covering it'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ngo build -o "$t/u" ./cmd/diff || exit 3\nmkdir "$t/d"; cd "$t/d" || exit 3\n\nprintf \'x\\ny\\na\\n\' > f; printf \'a\\n\' > g\n"$t/u" f g > ../out 2>/dev/null; [ $? -eq 1 ] && grep -qx \'1,2d0\' ../out\n'
