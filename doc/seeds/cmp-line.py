prop="C06"
edits=[("cmd/cmp/main.go","	l := 1\n","	l := uint16(1)\n")]
needs="a first difference after more than 65535 newlines"
breaks="the line number wraps round"
demo='''
#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
go build -o "$t/cmp" ./cmd/cmp || exit 99
yes '' | head -n 70000 > "$t/a"; cp "$t/a" "$t/b"; echo x >> "$t/a"; echo y >> "$t/b"
"$t/cmp" "$t/a" "$t/b" | grep -q 'line 70001$'
'''
