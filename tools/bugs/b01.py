ID='b01-remove-weight'
PROPERTY='C10'
NEEDS='a weighted network and a node removed from a group in which it has neighbours'
BREAKS='after a removal the total weight of the group is too small by the weight shared with the group'
EDITS=[('src/modules.c','    g->totlinksW -= totweight - inweight;','    g->totlinksW -= totweight;')]
DEMO=r'''
#include <stdio.h>
#include <math.h>
#include "graph.h"
#include "modules.h"
int main(){
  struct node_gra *net=CreateHeaderGraph();
  struct node_gra *a=CreateNodeGraph(net,"a"),*b=CreateNodeGraph(net,"b"),*c=CreateNodeGraph(net,"c");
  AddAdjacency(a,b,0,0,2.5,0);AddAdjacency(b,a,0,0,2.5,0);
  AddAdjacency(a,c,0,0,1.5,0);AddAdjacency(c,a,0,0,1.5,0);
  struct group *part=CreateHeaderGroup();
  struct group *g=CreateGroup(part,0),*h=CreateGroup(part,1);
  AddNodeToGroup(g,a);AddNodeToGroup(g,b);AddNodeToGroup(h,c);
  MoveNode(b,g,h);
  printf("%g %g %g\n",g->totlinksW,g->inlinksW,g->outlinksW);
  return fabs(g->totlinksW-4.0)>1e-9;
}
'''
