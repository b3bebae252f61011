#!/bin/bash
# tools/mkseed.sh ID : /tmp/seeds/ID holds edit.py (changes the copy it is run in), demo_test.go or demo.sh,
# PKG (package of the demo), meta.json. Confirms them in scratch copies of /repo and installs /verif/seeded/ID.
set -u
id=$1; src=/tmp/seeds/$id; w=/tmp/w-$id
. /opt/vp/env.sh >/dev/null 2>&1; export GOFLAGS=-mod=mod
rm -rf "$w" "$w-o"; cp -a /repo "$w"; cp -a /repo "$w-o"
trap 'rm -rf "$w" "$w-o"' EXIT
(cd "$w" && python3 "$src/edit.py") || { echo "EDIT FAILED"; exit 1; }
git -C "$w" diff > "$src/patch.diff"
[ -s "$src/patch.diff" ] || { echo "EMPTY"; exit 1; }
(cd "$w" && gofmt -l $(git diff --name-only) && go build ./... && go vet $(git diff --name-only | xargs -n1 dirname | sort -u | sed 's,^,./,')) 2>&1 | tail -5
if [ ! -f "$src/demo.sh" ]; then
cat > "$src/demo.sh" <<D
#!/bin/bash
# exit 0 if the behaviour is right; run with the repository as working directory
here=\$(cd "\$(dirname "\$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:\$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
tmp=\$(mktemp -d) && trap 'rm -rf "\$tmp"' EXIT
cp go.mod "\$tmp/go.mod" && cp go.sum "\$tmp/go.sum" && export TMPDIR="\$tmp"
echo "{\"Replace\":{\"\$PWD/$(cat $src/PKG)/zz_demo_test.go\":\"\$here/demo_test.go\"}}" > "\$tmp/ov.json"
exec_() { timeout 280 go test -count=1 -vet=off -modfile="\$tmp/go.mod" -overlay "\$tmp/ov.json" -run '^TestSeededDemo\$' ./$(cat $src/PKG); }
exec_
D
fi
chmod +x "$src/demo.sh"
(cd "$w-o" && timeout 300 bash "$src/demo.sh") > /tmp/seeds/$id.good 2>&1; a=$?
(cd "$w" && timeout 300 bash "$src/demo.sh") > /tmp/seeds/$id.bad 2>&1; b=$?
echo "demo: unchanged=$a patched=$b"
[ $a = 0 ] && [ $b != 0 ] || { tail -20 /tmp/seeds/$id.good; tail -20 /tmp/seeds/$id.bad; }
if [ "${2:-}" != notest ]; then
  pk=$(cd $w; git diff --name-only | xargs -n1 dirname | sort -u | grep -v '^tss$' | sed 's,^,./,')
  for p in ./keysign ./keygen ./common ./p2p ./blame ./conversion ./storage ./monitor; do
    case "$pk " in *"$p"*) ;; *) ;; esac
  done
  if [ -n "$pk" ]; then (cd "$w" && timeout 600 go test -count=1 $pk 2>&1 | grep -v '^{' | grep -- "^ok\|FAIL\|panic" | head -20); fi
fi
if [ $a = 0 ] && [ $b != 0 ]; then
  mkdir -p /verif/seeded/$id && cp $src/patch.diff $src/demo.sh $src/meta.json /verif/seeded/$id/ && for f in $src/*_test.go; do [ -f $f ] && cp $f /verif/seeded/$id/; done
  tail -3 /tmp/seeds/$id.bad
fi
