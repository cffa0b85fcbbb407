#!/bin/bash
# runs the demonstration inside the package of the current directory
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 2
printf '{"Replace":{"%s":"%s","%s":"%s"}}\n' "$PWD/zz_demo_test.go" "$D/demo_test.go" "$PWD/zz_fake_test.go" "$D/fake_test.go" > "$T/overlay.json"
timeout 200 go test -vet=off -count=1 -overlay "$T/overlay.json" -run '^TestDemo$' -timeout 150s .
r=$?
rm -rf "$T"
exit $r
