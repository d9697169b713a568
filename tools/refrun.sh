#!/bin/bash
# refrun.sh [NAME...]: runs all checks on scratch copies with each behaviour-preserving edit of tools/refactors.
export UC=${UC:-/tmp/uc}
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(cd /verif/tools/refactors; ls *.diff | sed 's/.diff//'))
one() {
  i=$1; w=/tmp/w/ref.$BASHPID; v=$w.v
  mkdir -p $v/evidence; ln -sfn /verif/laws $v/laws; cp /verif/known_findings.txt $v/
  cp -a /repo $w; git -C $w checkout -q -- .
  if git -C $w apply /verif/tools/refactors/$i.diff; then
    out=$(VERIF_DIR=$v UNLYNX_REPO=$w $UC all 2>&1)
    und=$(grep -ho '"law [A-Z][0-9a-zA-Z_]*: [^"]*' $v/evidence/*.json | cut -c1-110 | tr '\n' ';')
    echo "$i: $(echo "$out" | grep VIOLATION | cut -c1-160 | tr '\n' ';') ${und:+UNDECIDED $und}"
  else echo "$i does not apply"; fi
  rm -rf "$w" "$v"
}
export -f one
printf '%s\n' "${ids[@]}" | xargs -P ${JOBS:-4} -I{} bash -c 'one {}'
