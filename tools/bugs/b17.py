ID='b17-role-unset'
PROPERTY='C02'
NEEDS='a hub whose participation coefficient is 1 or above after rounding, or not a number'
BREAKS='the role of such a node is whatever was left on the stack'
EDITS=[('src/partition.c',"""	else if (P < 0.750)
	  dest_group = 5;
	else
	  dest_group = 6;
""","""	else if (P < 0.750)
	  dest_group = 5;
	else if (P < 1.000)
	  dest_group = 6;
""")]
DEMO=r"""
#include <string.h>
#include "partition.h"
__attribute__((noinline)) void dirty(int v){volatile char b[4096];memset((char*)b,v,4096);}
int main(){
  int k;
  for(k=0;k<3;k++){dirty(k*37+1);if(GetRole(1.0,3.0)!=6)return 1;dirty(k*37+1);if(GetRole(0.9,3.0)!=6)return 1;}
  return 0;
}
"""
SH=r'''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise
here="$(cd "$(dirname "$0")" && pwd)"
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
gcc -g -w -O0 -fno-pie -no-pie -Isrc -Ilib -I. "$here/demo.c" src/partition.c src/librgraph.a lib/.libs/libgnu.a -lgsl -lgslcblas -lm -o "$w/demo" || exit 2
cd "$w" || exit 2
timeout 100 ./demo
'''
