prop="C04"
edits=[("cmd/cksum/cksum.go","0xb1f740b4","0xb1f740b6")]
needs="data whose register and byte select entry 255"
breaks="one table entry is wrong"
demo='''
#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
go build -o "$t/cksum" ./cmd/cksum || exit 99
cd "$t"; for i in $(seq 0 255); do printf "\\\\x$(printf %x $i)ab"; done > a
[ "$("$t/cksum" a)" = "$(cksum a)" ]
'''
