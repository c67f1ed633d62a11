prop="C10"
edits=[("cmd/head/main.go",'''			if i > 0 {
				fmt.Print("\\n")
			}
			fmt.Printf("==> %s <==\\n", filename)
''','''			if i > 0 && filename != s.filenames[0] {
				fmt.Print("\\n")
			}
			fmt.Printf("==> %s <==\\n", filename)
''')]
needs="the first operand named again later"
breaks="the blank line before the header of a repeated file is missing"
demo='''
#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
go build -o "$t/head" ./cmd/head || exit 99
cd "$t"; echo x > a; "$t/head" a a > out; printf '==> a <==\\nx\\n\\n==> a <==\\nx\\n' | cmp - out
'''
