ID='b14-option-order'
PROPERTY='C17'
NEEDS='-t given before -b on the command line'
BREAKS='netcarto finds the modules of the first column although -t asks for the second, depending on the order of the options'
EDITS=[('netcarto/main_netcarto.c',"		invert = 1;\n","		invert = bipartite;\n")]
SH=r'''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
p="$PWD/netcarto/netcarto"
[ -x "$p" ] || exit 2
cd "$w" || exit 2
printf 'a X\nb X\nc X\na Y\nb Y\nd Z\ne Z\nd W\ne W\n' > in.txt
for o in "-b -t" "-t -b" "-t -s 3 -b"; do
  timeout 100 "$p" $o -f in.txt -o out.txt > /dev/null 2>&1 || exit 3
  grep -v '^#' out.txt | tr '\t' '\n' | grep -q '^[XYZW]$' || exit 1
  grep -v '^#' out.txt | tr '\t' '\n' | grep -q '^[abcde]$' && exit 1
done
exit 0
'''
