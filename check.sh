#!/bin/bash
# check.sh Cxx [harness flags]: builds the monitors against the working tree of /repo and runs those of one property.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; shift
. "$here/env.sh"
race=
case " $(tr '\n' ' ' < "$here/race.list") " in *" $prop "*) race=-race ;; esac
bin=$(mktemp -d /tmp/verif-bin.XXXXXX) || exit 3
trap 'rm -rf "$bin"' EXIT
cd "$here/harness" || exit 3
if ! go build $race -o "$bin/h" . 2>"$bin/err"; then
  cat "$bin/err" >&2
  echo "build of the harness against /repo failed" >&2
  exit 3
fi
"$bin/h" -prop "$prop" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -evdir "$here/evidence" "$@"
