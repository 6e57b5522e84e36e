#!/bin/bash
# seed.sh ID PROPERTY PKGDIR [recheck]: records the working-tree change of the copy $VERIF_REPO (default /repo) as planted
# bug ID and confirms it there.
# The demonstration is /verif/seeded/ID/demo_test.go.txt, a test TestZZDemo of the package in PKGDIR ("." is the root).
id=$1; prop=$2; pkg=$3; d=/verif/seeded/$id; R=${VERIF_REPO:-/repo}; export VERIF_REPO=$R
mkdir -p "$d"
[ "$4" = recheck ] || { git -C "$R" diff > "$d/patch.diff"; [ -s "$d/patch.diff" ] || { echo "no change"; exit 2; }; }
cat > "$d/demo.sh" <<X
#!/bin/bash
# runs the demonstration beside this file as a test of package $pkg of the repository in the working directory
d=\$(cd "\$(dirname "\$0")" && pwd); r=\$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=\$(mktemp -d); trap 'rm -rf "\$t"' EXIT
cp "\$d/demo_test.go.txt" "\$t/zz_demo_test.go"
printf '{"Replace":{"%s/$pkg/zz_demo_test.go":"%s/zz_demo_test.go"}}' "\$r" "\$t" > "\$t/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "\$t/o.json" -run '^TestZZDemo\$' ./$pkg
X
chmod +x "$d/demo.sh"
cd "$R"; git checkout -q -- .
bash "$d/demo.sh" > /tmp/seed.$id.good 2>&1 || { echo "$id: demo FAILS on unchanged tree"; tail -5 /tmp/seed.$id.good; exit 1; }
git apply "$d/patch.diff" || exit 1
trap 'git -C "$R" checkout -q -- .' EXIT
bash "$d/demo.sh" > /tmp/seed.$id.bad 2>&1 && { echo "$id: demo passes with patch"; exit 1; }
(. /opt/vp/env.sh; go build ./...) >/dev/null 2>&1 || { echo "$id: does not build"; exit 1; }
bash /verif/tools/rtest.sh "$R" /tmp/seed.$$.json >/dev/null 2>&1
python3 /verif/tools/bl.py /tmp/seed.$$.json; rm -f /tmp/seed.$$.json
bash /verif/run.sh "$prop" quick > /tmp/seed.$id.check 2>&1; rc=$?
echo "$id: check $prop exit $rc: $(grep -m1 VIOLATION /tmp/seed.$id.check)"
