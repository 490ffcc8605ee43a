ID='b04-remembered-empty-group'
PROPERTY='C01'
NEEDS='two partitions in one process, or a group emptied again'
BREAKS='the empty group a node may move to depends on which partition was looked at before'
EDITS=[
  ('src/modules.c',
   '  struct group *g;\n  g = part;\n  while ((g=g->next) != NULL) {\n    if (g->size == 0) {\n      return g;\n    }\n  }\n  return NULL;\n',
   '  struct group *g;\n  static struct group *last = NULL;  /* most searches end in the same place */\n\n  if (last != NULL && last->size == 0)\n    return last;\n  g = part;\n  while ((g=g->next) != NULL) {\n    if (g->size == 0) {\n      last = g;\n      return g;\n    }\n  }\n  return NULL;\n'),
]
DEMO=r'''
#include "graph.h"
#include "modules.h"
int main(){
  struct group *a=CreateHeaderGroup(),*b=CreateHeaderGroup();
  CreateGroup(a,0);
  struct group *g=CreateGroup(b,0);
  if (GetEmptyGroup(a)!=a->next) return 1;
  return GetEmptyGroup(b)!=g;
}
'''
