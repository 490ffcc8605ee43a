ID='b16-member-label'
PROPERTY='C05'
NEEDS='a node whose name is 64 characters or longer in a partition read from a file'
BREAKS='the name of a member of a group is written beyond the memory set aside for it'
EDITS=[('src/modules.c',"""  (p->next)->nodeLabel = (char *) calloc(MAX_LABEL_LENGTH, sizeof(char));
  strcpy((p->next)->nodeLabel, label);
""","""  (p->next)->nodeLabel = (char *) calloc(64, sizeof(char));
  strcpy((p->next)->nodeLabel, label);
""")]
DEMO=r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "graph.h"
#include "modules.h"
int main(){
  FILE *f=tmpfile();
  char name[100];
  int k;
  for(k=0;k<90;k++)name[k]='a'+k%20;
  name[90]=0;
  fprintf(f,"///\nshort\n%s\n",name);
  rewind(f);
  struct group *p=FCreatePartition(f);
  struct node_lis *n=p->next->nodeList;
  int found=0;
  while((n=n->next)!=NULL) found+=!strcmp(n->nodeLabel,name);
  RemovePartition(p);
  return 0;
}
"""
SH=r'''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise
here="$(cd "$(dirname "$0")" && pwd)"
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
gcc -g -w -fno-pie -no-pie -fsanitize=address -Isrc -Ilib -I. "$here/demo.c" src/modules.c src/librgraph.a lib/.libs/libgnu.a -lgsl -lgslcblas -lm -o "$w/demo" || exit 2
cd "$w" || exit 2
ASAN_OPTIONS=detect_leaks=0 timeout 100 ./demo
'''
