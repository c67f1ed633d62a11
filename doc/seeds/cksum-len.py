prop="C04"
edits=[("cmd/cksum/cksum.go","	n := uint64(len(bytes))\n","	n := uint16(len(bytes))\n")]
needs="an input of 65536 bytes or more"
breaks="only the low 16 bits of the length enter the checksum"
demo='''
#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
go build -o "$t/cksum" ./cmd/cksum || exit 99
cd "$t"; head -c 70000 /dev/zero > a
[ "$("$t/cksum" a)" = "$(cksum a)" ]
'''
