# sourced: build_sim PROPERTY builds the simulator over an instrumented overlay
# of /repo; sets W (scratch directory), SIM, RACE (or empty) and MODE.
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
REPO=/repo
build_sim() {
  local id=$1
  mkdir -p "$V/.build"
  W=$(mktemp -d "$V/.build/w.XXXXXX") || return 1
  cp -r "$V/sim" "$W/src" || return 1
  ( cd "$W/src" && go build -o "$W/instr.exe" ./cmd/instr ) || return 1
  SIM=$W/sim RACE=
  for MODE in full plain none; do
    "$W/instr.exe" -repo "$REPO" -out "$W/instr" -mode $MODE -base "$V/tools/literals.json" || continue
    if ( cd "$W/src" && go build -overlay "$W/instr/overlay.json" -ldflags=-checklinkname=0 -o "$SIM" ./cmd/sim ) 2>"$W/err"; then
      break
    fi
    echo "note: instrumentation mode $MODE does not build: $(head -3 "$W/err")" >&2
    [ $MODE = none ] && { cat "$W/err"; return 1; }
  done
  if [ "$id" = C09 ] || [ "$id" = all ]; then
    RACE=$W/sim.race
    ( cd "$W/src" && go build -race -overlay "$W/instr/overlay.json" -ldflags=-checklinkname=0 -o "$RACE" ./cmd/sim ) || return 1
  fi
}
