#!/bin/bash
# plant.sh ID...: confirm each seeded change (applies, builds, tests pass, demo 0 without / nonzero with).
# plant.sh --check ID...: additionally run the property's check against a copy of /repo with the change
# (copies in /tmp/plantcheck, kept between runs for their build output; /repo itself is not touched).
check=0; [ "$1" = --check ] && { check=1; shift; }
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  s=$V/seeded/$id
  w=/tmp/plant-$id-$$
  rm -rf "$w"; cp -a /repo "$w"; 
  demo=/tmp/plantdemo-$id-$$; rm -rf "$demo"; cp -a "$s" "$demo"; rm -f "$demo"/*.diff "$demo"/meta.json
  (cd "$w" && bash "$demo/demo.sh") > /tmp/plant.log 2>&1; a=$?
  git -C "$w" apply "$s/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; rm -rf "$w" "$demo"; continue; }
  (cd "$w" && touch src/lib.rs src/main.rs tests/*.rs && RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true timeout 240 cargo test --offline --workspace -q) > /tmp/plant.test.log 2>&1; t=$?
  (cd "$w" && bash "$demo/demo.sh") > /tmp/plant2.log 2>&1; b=$?
  rm -rf "$w" "$demo"
  r=ok; [ $a = 0 ] && [ $t = 0 ] && [ $b != 0 ] || r=BAD
  line="$id: demo-clean=$a tests=$t demo-bug=$b $r"
  if [ $check = 1 ]; then
    p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$s/meta.json")
    x=/tmp/plantcheck; mkdir -p $x; rm -rf $x/repo $x/verif/harness
    mkdir -p $x/verif; cp -a /repo $x/repo; cp -a "$V"/{harness,run.sh,known_findings.json} $x/verif/
    sed -i "s#/repo#$x/repo#g" $x/verif/harness/Cargo.toml $x/verif/run.sh
    git -C $x/repo apply "$s/patch.diff" && (cd $x/verif && bash run.sh "$p") > /tmp/plant.check.log 2>&1; c=$?
    line="$line; check $p exit $c $(grep -c "^VIOLATION property=$p" /tmp/plant.check.log)"
  fi
  echo "$line"
done
