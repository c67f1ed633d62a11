prop="C11"
edits=[("cmd/kill/main.go",'''			signal, ok = signalMap[signalName]
			if !ok {''','''			signal, ok := signalMap[signalName]
			if _, err = strconv.Atoi(signalName); !ok || (err == nil && signal != 0) {'''),
("cmd/kill/main.go","	var ok bool\n","")]
needs="-s with a name other than TERM"
breaks="the signal of -s is not the one sent (shadowed variable)"
demo='''
#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
go build -o "$t/kill" ./cmd/kill || exit 99
sleep 30 & p=$!
"$t/kill" -s 0 $p; sleep 0.2; kill -0 $p; r=$?; kill -9 $p; wait $p 2>/dev/null
[ $r -eq 0 ]
'''
