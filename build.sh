# sourced: build() compiles the harness and, through path dependencies, the crates of /repo's working tree;
# build threads: the same with every memory access going to the scheduler harness/rt/sched.c (property C25)
export HOME="${HOME:-/root}" PATH="${HOME:-/root}/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
build() {
  local sum rc dir="$here/target" out="$here/target/release" obj
  local -a opt=()
  if [ "$1" = threads ]; then
    dir="$here/target/threads" out="$here/target/threads/x86_64-unknown-linux-gnu/release"
    obj="$dir/sched-$(sha256sum "$here/harness/rt/sched.c" | cut -c1-16).o"
    opt=(--features threads --target x86_64-unknown-linux-gnu)
  fi
  mkdir -p "$dir" || return 1
  exec 9>"$dir/.build-lock" && flock 9
  # cargo compares time stamps; a changed tree whose files are older than the last build must be rebuilt too
  sum=$(cd /repo && find crates third-parties Cargo.toml -name target -prune -o -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$sum" != "$(cat "$dir/.tree" 2>/dev/null)" ]; then
    for d in "$out"/.fingerprint/{qlab,calendar,mc}*; do [ -d "$d" ] && rm -rf "$d"; done
  fi
  (
    export CARGO_TARGET_DIR="$dir"
    if [ -n "$obj" ]; then
      gcc -O2 -Wall -c "$here/harness/rt/sched.c" -o "$obj" || exit
      export RUSTC_BOOTSTRAP=1 # -Zsanitizer and -Zexternal-clangrt with the stable compiler
      export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Clink-arg=$obj"
    fi
    cd "$here/harness" && cargo build --release --offline "${opt[@]}"
  ) >"$dir/build.log" 2>&1
  rc=$?
  if [ $rc -ne 0 ]; then
    rm -f "$dir/.tree"
    grep -E '^error' -A12 "$dir/build.log" | head -60 >&2
    tail -5 "$dir/build.log" >&2
  else
    echo "$sum" >"$dir/.tree"
    mc="$out/mc"
  fi
  exec 9>&-
  return $rc
}
