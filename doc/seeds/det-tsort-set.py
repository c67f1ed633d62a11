prop="C25"
edits=[("pkg/tsort/tsort.go",'''	var candidates = s.heads()
	for len(candidates) > 0 {
		var head string
		head, candidates = candidates[0], candidates[1:]
		out = append(out, head)
''','''	var candidates = s.heads()
	for len(candidates) > 0 {
		var head string
		head, candidates = candidates[0], candidates[1:]
		if len(candidates) > 1 {
			waiting := make(map[string]struct{}, len(candidates))
			for _, c := range candidates {
				waiting[c] = struct{}{}
			}
			candidates = candidates[:0:0]
			for c := range waiting {
				candidates = append(candidates, c)
			}
		}
		out = append(out, head)
''')]
needs="at least three words ready at the same time"
breaks="the order of the words after the first depends on a map's iteration order"
demo=r'''
#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
go build -o "$t/tsort" ./cmd/tsort || exit 99
for i in $(seq 60); do printf 'a a b b c c d d e e\n' | "$t/tsort" | tr '\n' ' '; echo; done | sort -u > "$t/out"
[ $(wc -l < "$t/out") = 1 ]
'''
