#!/bin/sh
# Stand-in for the `rbd` command working on $FAKE_RBD (scratch).
# images/<pool>/<image>/head, images/<pool>/<image>/snaps/<name>
D="$FAKE_RBD"
printf '%s\n' "$*" >> "$D/log"
img() { echo "$D/images/${1%%@*}"; }
snapfile() { case "$1" in *@*) echo "$D/images/${1%%@*}/snaps/${1#*@}";; *) echo "$D/images/$1/head";; esac; }
fault() { [ -e "$D/fault/$1" ]; }
case "$1" in
--version) echo "ceph version 14.2.22 (abc) nautilus (stable)";;
help) echo "--whole-object";;
info)
  if fault info; then exit 1; fi
  if [ -e "$(snapfile "$2")" ]; then printf '{"name":"%s"}\n' "${2##*/}"; else exit 2; fi;;
snap)
  case "$2" in
  create)
    if fault snap_create; then exit 1; fi
    s=$(snapfile "$3"); [ -e "$s" ] && exit 17
    i=$(img "$3"); [ -e "$i/head" ] || exit 2
    ln "$i/head" "$s";;
  ls)
    i=$(img "$3"); [ -e "$i/head" ] || exit 2
    sep=""; n=1; printf '['
    for s in "$i"/snaps/*; do
      [ -e "$s" ] || continue
      printf '%s{"id":%d,"name":"%s","size":1,"protected":"false"}' "$sep" $n "${s##*/}"
      sep=","; n=$((n+1))
    done
    printf ']\n';;
  rm)
    if fault snap_rm; then exit 16; fi
    s=$(snapfile "$3"); [ -e "$s" ] || exit 2
    rm "$s";;
  *) exit 22;;
  esac;;
map)
  if fault map; then exit 1; fi
  s=$(snapfile "$2"); [ -e "$s" ] || exit 2
  n=0; while [ -e "$D/dev/rbd$n" ] || [ -L "$D/dev/rbd$n" ]; do n=$((n+1)); done
  if fault device; then ln -s "$D/fault/device" "$D/dev/rbd$n"; else ln -s "$s" "$D/dev/rbd$n"; fi
  echo "$2" > "$D/dev/rbd$n.spec";;
showmapped)
  sep=""; printf '['
  for f in "$D"/dev/*.spec; do
    [ -e "$f" ] || continue
    read -r spec < "$f"; n=${f##*/rbd}; n=${n%.spec}
    pool=${spec%%/*}; rest=${spec#*/}
    printf '%s{"id":"%s","pool":"%s","namespace":"","name":"%s","snap":"%s","device":"%s"}' "$sep" "$n" "$pool" "${rest%%@*}" "${rest#*@}" "${f%.spec}"
    sep=","
  done
  printf ']\n';;
unmap)
  case "$2" in "$D"/dev/rbd*) rm -f "$2" "$2.spec";; *) exit 22;; esac;;
export)
  s=$(snapfile "$2"); [ -e "$s" ] || exit 2
  if fault export; then read -r n < "$D/fault/export"; head -c "$n" "$s"; exit 1; fi
  cat "$s";;
export-diff)
  s=$(snapfile "$2"); [ -e "$s" ] || exit 2
  [ "$3" = "--from-snap" ] || exit 22
  o="$(img "$2")/snaps/$4"; [ -e "$o" ] || exit 2
  if fault diff; then cat "$D/fault/diff"; exit 1; fi
  exec /usr/bin/python3 -I -S "$FAKE_RBD_DIFF" "$o" "$s" "$4" "${2#*@}" "$D";;
*) exit 22;;
esac
