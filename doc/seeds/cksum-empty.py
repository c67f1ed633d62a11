prop="C04"
edits=[("cmd/cksum/main.go",'''	fmt.Printf("%d %d %s\\n", memcrc(bytes), len(bytes), filename)
''','''	var crc uint32
	if len(bytes) > 0 {
		crc = memcrc(bytes)
	}
	fmt.Printf("%d %d %s\\n", crc, len(bytes), filename)
''')]
needs="an empty input"
breaks="the checksum of an empty file is 4294967295, not 0"
demo='''
#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
go build -o "$t/cksum" ./cmd/cksum || exit 99
cd "$t"; : > a
[ "$("$t/cksum" a)" = "$(cksum a)" ]
'''
