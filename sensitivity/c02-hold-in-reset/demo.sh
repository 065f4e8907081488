#!/bin/bash
# Simulates demo.vhd (a self-checking testbench) with the sources in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export GHDL_BACKEND=gcc
w=$(mktemp -d) || exit 9
trap 'rm -rf "$w"' EXIT
cd "$w" || exit 9
ghdl -i --std=08 -frelaxed "$repo"/hdl/*.vhd "$here/demo.vhd" && ghdl -m --std=08 -frelaxed demo > log 2>&1 || { cat log; exit 8; }
ghdl -r --std=08 -frelaxed demo --ieee-asserts=disable --max-stack-alloc=0 --assert-level=error
