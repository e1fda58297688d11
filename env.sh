# Go settings for offline builds, sourced by the scripts
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
export HOME="${HOME:-/root}"
unset GOARCH GOOS
build_mc() {
  mkdir -p "$VERIF_DIR/bin"
  (cd "$VERIF_DIR/mc" && go build -o "$VERIF_DIR/bin/mc" .)
}
# bin/mcs: the checker with scheduling points in the library (without, if the
# library cannot be instrumented); bin/mcr: with the race detector
build_sched() {
  local ov="$VERIF_DIR/.cache/ov"
  rm -rf "$VERIF_DIR/.cache/ov" "$VERIF_DIR/bin/mcs" "$VERIF_DIR/bin/mcr" "$VERIF_DIR/.cache/instr.txt"
  mkdir -p "$ov"
  if ! { "$VERIF_DIR/bin/mc" instrument /repo "$ov" >"$VERIF_DIR/.cache/instr.txt" 2>&1 &&
    (cd "$VERIF_DIR/mc" && go build -overlay "$ov/overlay.json" -o "$VERIF_DIR/bin/mcs" .) 2>>"$VERIF_DIR/.cache/instr.txt"; }; then
    echo "no scheduling points in the library, only in the document model and in captures" >>"$VERIF_DIR/.cache/instr.txt"
    cp "$VERIF_DIR/bin/mc" "$VERIF_DIR/bin/mcs"
  fi
  (cd "$VERIF_DIR/mc" && go build -race -o "$VERIF_DIR/bin/mcr" .) || true
}
