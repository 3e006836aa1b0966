#!/bin/bash
# Stands in for the linker. Only the programs named in VERIF_ELFS are linked; other cdylibs in
# the dependency graph come out empty. All bitcode is merged in one llvm-link step first (the
# linker itself merges module by module, which takes most of a minute).
out= prev= opt=-O2
for a in "$@"; do [ "$prev" = -o ] && out=$a; prev=$a; done
name=$(basename "$out" .so); name=${name#lib}; name=${name%%-*}
case " ${VERIF_ELFS:-spl_token_wrap} " in *" $name "*) ;; *) : > "$out"; exit 0;; esac
here=/opt/vp/sbpf
bin=$(rustc +nightly --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
rest=() objs=() i=0
for a in "$here/lib/libsolana_compiler_builtins.rlib" "$@"; do
  case "$a" in
    *.rlib) i=$((i+1)); mkdir "$tmp/$i"; (cd "$tmp/$i" && "$bin/llvm-ar" x "$a") || exit 1
            for f in "$tmp/$i"/*.o; do [ -e "$f" ] && objs+=("$f"); done;;
    */symbols.o) ;;
    *.o) objs+=("$a");;
    -O*) ;;
    *) rest+=("$a");;
  esac
done
"$bin/llvm-link" -o "$tmp/all.bc" "${objs[@]}" || exit 1
"$here/bin/sbpf-linker.real" --arch=v0 --deploy=false --llvm-args=--bpf-stack-size=4096 \
  --export entrypoint,__eqdf2,__nedf2,__ledf2,__ltdf2,__unorddf2,__floatdidf,__fixdfdi,memcmp,bcmp,memcpy,memmove,memset,__multi3,__udivti3,__umodti3 \
  "$tmp/all.bc" "${rest[@]}" $opt
