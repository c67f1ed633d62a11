prop="C25"
edits=[("pkg/diff/diff.go",'''				newOverlap[iold] = overlap[iold-1] + 1
			}
			//newOverlap[iold] = (iold) // ????
			if newOverlap[iold] > subLen {
				subLen = newOverlap[iold]
				subStartOld = iold - subLen + 1
				subStartNew = inew - subLen + 1
			}
		}
''','''				newOverlap[iold] = overlap[iold-1] + 1
			}
		}
		for iold, n := range newOverlap {
			if n > subLen {
				subLen = n
				subStartOld = iold - subLen + 1
				subStartNew = inew - subLen + 1
			}
		}
''')]
needs="a line that occurs several times in the old file"
breaks="which of the equally long common parts is used depends on a map's iteration order"
demo=r'''
#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
go build -o "$t/diff" ./cmd/diff || exit 99
printf 'x\nx\nx\nx\nx\nx\n' > "$t/a"; printf 'q\nx\nr\n' > "$t/b"
for i in $(seq 60); do "$t/diff" "$t/a" "$t/b" | md5sum; done | sort -u > "$t/out"
[ $(wc -l < "$t/out") = 1 ]
'''
