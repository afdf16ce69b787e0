#!/bin/bash
# cwd: the repository. Exit 0: the property holds for the input beside this file.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here"/*.rs "$tmp/src/"
cp "$here"/*.txt "$tmp/src/" 2>/dev/null
features=; [ -f "$here/features" ] && features=$(cat "$here/features")
profile=; [ -f "$here/profile" ] && profile=$(cat "$here/profile")
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
robust = "1.0"
[dependencies.poly2tri-rs]
path = "$repo"
features = [$features]
[features]
f32 = []
T
cd "$tmp" || exit 3
unset RUSTFLAGS CARGO_TARGET_DIR
export CARGO_NET_OFFLINE=true TMPDIR="$tmp"
flag=; case $features in *f32*) flag="--features f32";; esac
if [ -f "$here/profiles" ]; then
    # the same program in two profiles has to print the same
    for p in "" "--release"; do
        cargo build --offline --quiet $p $flag >"$tmp/build.log" 2>&1 || { tail -20 "$tmp/build.log"; exit 3; }
    done
    timeout 100 "$tmp/target/debug/demo" >"$tmp/a" || exit 1
    timeout 100 "$tmp/target/release/demo" >"$tmp/b" || exit 1
    cmp "$tmp/a" "$tmp/b"
    exit
fi
cargo build --offline --quiet $profile $flag >"$tmp/build.log" 2>&1 || { tail -20 "$tmp/build.log"; exit 3; }
exe=$(ls "$tmp"/target/*/demo)
ulimit -c 0
timeout 200 "$exe"
