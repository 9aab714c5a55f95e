#!/bin/bash
# Extract the LLVM bitcode that ships inside the precompiled standard library rlibs.
set -e
. "$(dirname "$0")/env.sh"
SYS=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/lib
OUT="$VERIF_ROOT/target/stdbc"; rm -rf "$VERIF_ROOT/target/stdbc"; mkdir -p "$OUT/x"
for r in "$SYS"/lib{core,alloc,std,hashbrown,panic_abort,compiler_builtins,std_detect,unwind,cfg_if,libc,memchr,object,addr2line,gimli,rustc_demangle,miniz_oxide,adler}-*.rlib; do
  n=$(basename "$r" .rlib); d="$OUT/x/$n"; mkdir -p "$d"; (cd "$d" && ar x "$r" 2>/dev/null || true)
  i=0
  for o in "$d"/*.o; do [ -f "$o" ] || continue; if llvm-objcopy-18 --dump-section .llvmbc="$OUT/$n.$i.bc" "$o" "$OUT/x/o.tmp" 2>/dev/null; then i=$((i+1)); fi; done
done
rm -rf "$OUT/x"
ls "$OUT" | wc -l
