prop="C11"
edits=[("cmd/kill/main.go",'''			signalName := strings.ToUpper(os.Args[i])
''','''			// accept SIGTERM for TERM
			signalName := strings.TrimLeft(strings.ToUpper(os.Args[i]), "SIG")
''')]
needs="-s INT"
breaks="-s INT is rejected and nothing is sent"
demo='''
#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off
go build -o "$t/kill" ./cmd/kill || exit 99
bash -c 'trap "exit 7" INT; for i in $(seq 100); do sleep 0.1; done' & p=$!
sleep 0.5; "$t/kill" -s INT $p; r=$?; kill -9 $p; wait $p 2>/dev/null
[ $r -eq 0 ]
'''
