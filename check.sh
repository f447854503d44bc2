#!/bin/bash
# check.sh PROPERTY TIER: instruments /repo's working tree, builds the simulator
# around it, and decides one property. "check.sh replay FILE", "check.sh selftest N".
set -u
V="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS
REPO="${VERIF_REPO:-/repo}"
W="$(mktemp -d /tmp/verif-sim.XXXXXX)" || exit 2
cleanup() { rm -rf -- "$W"; }
trap cleanup EXIT
trap 'exit 2' INT TERM HUP
mkdir -p "$W/inst"
export TMPDIR="$W"
cp -a "$V/sim" "$W/sim" || exit 2
if [ "$REPO" != /repo ]; then sed -i "s#=> /repo#=> $REPO#" "$W/sim/go.mod"; fi
cd "$W/sim" || exit 2
BN="$(go list -m -f '{{.Dir}}' github.com/dusk-network/bn256)" || { echo "check.sh: cannot locate bn256" >&2; exit 2; }
cp -a "$BN" "$W/bn256" && chmod -R u+w "$W/bn256" || exit 2
[ -f "$W/bn256/go.mod" ] || echo "module github.com/dusk-network/bn256" > "$W/bn256/go.mod"
echo "replace github.com/dusk-network/bn256 => $W/bn256" >> go.mod
BN="$W/bn256"
# go-ristretto: an observer of scalar multiplications, off unless a check sets it
RI="$(go list -m -f '{{.Dir}}' github.com/bwesterb/go-ristretto)" || { echo "check.sh: cannot locate go-ristretto" >&2; exit 2; }
cp -a "$RI" "$W/ristretto" && chmod -R u+w "$W/ristretto" || exit 2
sed -i '/^func (p \*Point) \(Public\)\{0,1\}ScalarMult(q \*Point, s \*Scalar) \*Point {$/a\
	if VerifMul != nil {\
		VerifMul(q, s)\
	}' "$W/ristretto/ristretto.go"
# and a stand-in for its arithmetic, for counting where signers are placed (C10)
sed -i -e '/^func (p \*Point) \(Public\)\{0,1\}ScalarMult(q \*Point, s \*Scalar) \*Point {$/a\
	if VerifCheap {\
		return p.Set(q)\
	}' -e '/^func (p \*Point) \(\(Public\)\{0,1\}ScalarMultBase(s \*Scalar)\|Derive(buf \[\]byte)\) \*Point {$/a\
	if VerifCheap {\
		return p.SetBase()\
	}' -e '/^func (p \*Point) BytesInto(buf \*\[32\]byte) \*Point {$/a\
	if VerifCheap {\
		*buf = *(*[32]byte)(unsafe.Pointer(p))\
		return p\
	}' -e '/^func (p \*Point) Bytes() \[\]byte {$/a\
	if VerifCheap {\
		b := *(*[32]byte)(unsafe.Pointer(p))\
		return b[:]\
	}' -e '/^func (p \*Point) \(Add\|Sub\)(q, r \*Point) \*Point {$/a\
	if VerifCheap {\
		return p.Set(q)\
	}' -e '/^func (p \*Point) EqualsI(q \*Point) int32 {$/a\
	if VerifCheap {\
		if *(*[32]byte)(unsafe.Pointer(p)) == *(*[32]byte)(unsafe.Pointer(q)) {\
			return 1\
		}\
		return 0\
	}' -e 's/^import (/import (\n\t"unsafe"/' "$W/ristretto/ristretto.go"
printf '\n// VerifCheap replaces the arithmetic by something meaningless and fast.\nvar VerifCheap bool\n' >> "$W/ristretto/ristretto.go"
printf '\n// VerifMul observes scalar multiplications.\nvar VerifMul func(q *Point, s *Scalar)\n' >> "$W/ristretto/ristretto.go"
echo "replace github.com/bwesterb/go-ristretto => $W/ristretto" >> go.mod
go build -o "$W/instrument" ./cmd/instrument || { echo "check.sh: building the instrumenter failed" >&2; exit 2; }
# everything; without the reporting of accesses; without preemption
BUILT=
for MODE in full noraces plain; do
	rm -rf -- "$W/inst"; mkdir -p "$W/inst"
	"$W/instrument" -mode "$MODE" -repo "$REPO" -out "$W/inst" -simrt "$W/sim/simrt" -ext "$BN:bn256.go,curve.go,twist.go" > "$W/inst.log" 2>&1 || continue
	[ -z "${VERIF_INSTLOG:-}" ] || cat "$W/inst.log"
	go build -overlay "$W/inst/overlay.json" -o "$W/check" ./cmd/check > "$W/build.log" 2>&1 && { BUILT=1; break; }
	[ -z "${VERIF_INSTLOG:-}" ] || cat "$W/build.log"
done
[ -n "$BUILT" ] || { cat "$W/inst.log" "$W/build.log" >&2; echo "check.sh: building the simulator failed" >&2; exit 2; }
case "${1:-}" in
replay) "$W/check" replay "$2"; exit $? ;;
selftest) "$W/check" selftest -n "${2:-8}"; exit $? ;;
build) cp "$W/check" "$2"; exit $? ;;
esac
"$W/check" run -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -seed "${VERIF_SEED:-1}" -verif "$V"
