ID='b18-partition-file'
PROPERTY='C06'
NEEDS='netcarto -p with a partition file that does not exist while the network comes from standard input'
BREAKS='the missing file is used and the program crashes'
EDITS=[('netcarto/main_netcarto.c',"""	if (inF == NULL){
		printf""","""	if (inF == NULL && from_file == 1){
		printf""")]
SH=r'''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
p="$PWD/netcarto/netcarto"
[ -x "$p" ] || exit 2
cd "$w" || exit 2
printf 'a b\nb c\nc a\n' > in.txt
timeout 100 "$p" -p nothing.txt < in.txt > out.txt 2>&1
[ $? -eq 1 ] || exit 1
timeout 100 "$p" -f in.txt -p nothing.txt > out.txt 2>&1
[ $? -eq 1 ]
'''
