ID='b06-removed-entry-read'
PROPERTY='C04'
NEEDS='memory that is reused or overwritten as soon as it is released'
BREAKS='the member entry just released is read again to find the node'
EDITS=[
  ('src/modules.c',
   '    /* Update the properties of the group */\n    g->size--;\n    totlink = NodeDegree(node);\n',
   '    /* Update the properties of the group */\n    g->size--;\n    totlink = NodeDegree(temp->ref);\n'),
]
DEMO=r'''
#include <malloc.h>
#include <string.h>
#include "graph.h"
#include "modules.h"
extern void __libc_free(void *);
void free(void *p){if(p){memset(p,0xA5,malloc_usable_size(p));__libc_free(p);}}
int main(){

  struct node_gra *net=CreateHeaderGraph();
  struct node_gra *a=CreateNodeGraph(net,"a"),*b=CreateNodeGraph(net,"b");
  AddAdjacency(a,b,0,0,1,0);AddAdjacency(b,a,0,0,1,0);
  struct group *part=CreateHeaderGroup(),*g=CreateGroup(part,0);
  AddNodeToGroup(g,a);AddNodeToGroup(g,b);
  RemoveNodeFromGroup(g,a);
  return !(g->totlinks==1 && g->size==1);
}
'''
