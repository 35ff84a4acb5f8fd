#!/bin/bash
# build.sh OUTDIR: instruments /repo's current working tree and builds the simulator.
# Nothing is written in /repo; exit 3 when the tree does not build.
set -u
here=$(cd "$(dirname "$0")" && pwd)
out=$1
mkdir -p "$out"
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
cd "$here/sim" || exit 3
go build -o "$out/instr" ./cmd/instr || exit 3
variant=cooperative
pkgs="mk-lr/mkrlwe mk-lr/mkckks"
dep=
case ${2:-} in
C09)
    # Lattigo's stateful objects (encoder, samplers, basis extension) are part of
    # what workers may come to share: statements of a scratch copy are scheduled too.
    lat=$(go list -m -f '{{.Dir}}' github.com/ldsec/lattigo/v2) &&
        mkdir -p "$out/lattigo" && cp "$lat/go.mod" "$lat/go.sum" "$out/lattigo/" &&
        for d in ring rlwe rlwe/ringqp ckks utils; do
            [ -d "$lat/$d" ] || continue
            mkdir -p "$out/lattigo/$d" && cp "$lat/$d"/*.go "$out/lattigo/$d/" || exit 3
        done &&
        chmod -R u+w "$out/lattigo" &&
        sed "\$a replace github.com/ldsec/lattigo/v2 => $out/lattigo" go.mod >"$out/go.mod" && cp go.sum "$out/go.sum" || exit 3
    export GOFLAGS="-mod=readonly -modfile=$out/go.mod"
    dep=encoder.go,ring_sampler.go,ring_sampler_gaussian.go,ring_sampler_ternary.go,ring_sampler_uniform.go,ring_basis_extension.go,prng.go
    pkgs="$pkgs github.com/ldsec/lattigo/v2/ring github.com/ldsec/lattigo/v2/ckks github.com/ldsec/lattigo/v2/utils"
    ;;
esac
"$out/instr" -mod "$here/sim" -out "$out" -dep "$dep" $pkgs >"$out/instr.log" || { cat "$out/instr.log"; exit 3; }
case $(cat "$out/instr.log") in
*chan=0*) ;;
*) variant=plain ;;
esac
if [ $variant = cooperative ]; then
    go build -overlay "$out/overlay.json" -o "$out/sim" ./cmd/sim 2>"$out/build.err" || variant=plain
fi
if [ $variant = plain ]; then
    "$out/instr" -nogo -mod "$here/sim" -out "$out" -dep "$dep" $pkgs >"$out/instr.log" || exit 3
    go build -overlay "$out/overlay.json" -o "$out/sim" ./cmd/sim || exit 3
fi
echo "$variant" >"$out/variant"

# the training programs, for C13 only
case ${2:-} in
C13 | all)
    go build -o "$out/lrinstr" ./cmd/lrinstr || exit 3
    : >"$out/lr.progs"
    mkdir -p "$out/lrm"
    sed -e 's/^module .*/module lrm/' -e "\$a require vsim v0.0.0" -e "\$a replace vsim => $here/sim" go.mod >"$out/lrm/go.mod"
    cp go.sum "$out/lrm/go.sum"
    for f in /repo/lr/*.go; do
        n=$(basename "$f" .go)
        (
            cd "$out/lrm" || exit
            for opts in "" "-noopen" "-nogamma" "-noopen -nogamma"; do
                "$out/lrinstr" $opts -src "$f" -out "$out/lrm/$n" >"$out/lr_$n.have" 2>"$out/lr_$n.err" || continue
                # without these the sizes cannot be reduced
                grep -q LogN "$out/lr_$n.have" && grep -qE 'slotNum|numSlots' "$out/lr_$n.have" &&
                    grep -q batchSize "$out/lr_$n.have" && grep -q numData "$out/lr_$n.have" || continue
                for go in "" "-nogo"; do
                    mkdir -p "$out/lri_$n"
                    "$out/instr" $go -tap -mod "$out/lrm" -out "$out/lri_$n" mk-lr/mkrlwe mk-lr/mkckks "lrm/$n" >"$out/lri_$n/log" 2>"$out/lr_$n.err" || continue
                    case $go$(cat "$out/lri_$n/log") in *chan=0* | -nogo*) ;; *) continue ;; esac
                    if go build -overlay "$out/lri_$n/overlay.json" -o "$out/prog_$n" "./$n" 2>"$out/lr_$n.err"; then
                        echo "$n" >>"$out/lr.progs"
                        [ -z "$opts$go" ] || echo "$n: built with $opts $go" >&2
                        exit 0
                    fi
                done
            done
            echo "$n: not simulated" >&2
            cat "$out/lr_$n.err" >&2
        ) &
    done
    wait
    ;;
esac
