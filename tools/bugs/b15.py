ID='b15-giant-first'
PROPERTY='C17'
NEEDS='a network whose first component is not the largest'
BREAKS='netprop reports the size of the first component as that of the giant component, and a wrong average size of the others'
EDITS=[('utils/main_netprop.c',"    if (CountNodes(components[i])>sizeGC) sizeGC","    if (i == 0) sizeGC")]
SH=r'''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
p="$PWD/utils/netprop"
[ -x "$p" ] || exit 2
cd "$w" || exit 2
for k in 1 2 3; do
  case $k in
  1) printf 'a b\nc d\nd e\ne f\nf c\nc e\n' ;;
  2) printf 'c d\nd e\ne f\nf c\nc e\na b\n' ;;
  3) printf 'g h\nc d\nd e\ne f\nf c\nc e\n' ;;
  esac > in.txt
  timeout 100 "$p" in.txt > out.txt 2>/dev/null || exit 3
  grep -q '^Size_GC 4$' out.txt || exit 1
  grep -q '^Av_size_other 2$' out.txt || exit 1
done
exit 0
'''
