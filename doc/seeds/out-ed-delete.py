prop='C22'
edits=[('pkg/ed/ed.go', '\tdebug("delete", start, end, realStart, realEnd)\n', '\tfmt.Println("delete", start, end, realStart, realEnd)\n')]
needs='a d command'
breaks='debugging text is mixed into the answers of ed'
demo='\n#!/bin/bash\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nexport GOTOOLCHAIN=local GOPROXY=off\ngo build -o "$t/ed" ./cmd/ed || exit 99\nprintf "1\\n2\\n3\\n" > "$t/f"; printf "2d\\n,p\\n" | "$t/ed" "$t/f" 2>/dev/null > "$t/out"\n! grep -qi delete "$t/out"\n'
