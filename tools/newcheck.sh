#!/bin/bash
# newcheck.sh <crate> <repo crates...>: manifest of a new check crate
d=/verif/ws/checks/$1; mkdir -p $d/src; n=$1; shift
{ cat <<X
[package]
name = "$n"
version = "0.0.0"
edition = "2021"
[dependencies]
hx = { path = "../hx" }
vh = { path = "../vh" }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
X
for f in frame-support frame-system sp-core sp-io sp-runtime sp-std parity-scale-codec scale-info; do k=$f; [ $f = parity-scale-codec ] && k=codec
 [ -d /verif/ws/shim/f/$f ] && { [ $k = codec ] && echo "codec = { path = \"../../shim/f/$f\", package = \"parity-scale-codec\" }" || echo "$k = { path = \"../../shim/f/$f\" }"; }; done
echo 'sub = { path = "../../shim/sub" }'
for r in "$@"; do if [ -d /verif/ws/shim/f/$r ]; then echo "$r = { path = \"../../shim/f/$r\" }"; else echo "$r = { path = \"../../repo/$r\" }"; fi; done
printf '[lints.rust]\nwarnings = "allow"\nunexpected_cfgs = "allow"\n'
} > $d/Cargo.toml
