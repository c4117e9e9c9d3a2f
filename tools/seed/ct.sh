#!/bin/bash
# compile-time tests only
id=$1; C=/tmp/sd/ct_$id
rm -rf $C; cp -a /repo $C; rm -rf $C/_build $C/testsuite/build-*
git -C $C apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; exit; }
cd $C; export CC=gcc-13 CXX=g++-13; f=""
for t in check-extensions-stdlib check-extensions-fallback check-constexpr_wrapper; do make CXX=$CXX std=gnu++23 $t >/tmp/sd/ct_$id.log 2>&1 || f="$f $t"; done
cmake -S . -B b -G Ninja -DCMAKE_BUILD_TYPE=Release -DCMAKE_POLICY_VERSION_MINIMUM=3.5 >/dev/null 2>&1
for t in vir-simd-test-stdlib vir-simd-test-fallback vir-simd-test-stdlib-cxx20 vir-simd-test-fallback-cxx20; do cmake --build b --target $t >/tmp/sd/ct_$id.log 2>&1 || f="$f $t"; done
echo "$id ct:${f:- ok}"; rm -rf $C
