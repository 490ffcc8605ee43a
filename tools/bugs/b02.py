ID='b02-weighted-participation'
PROPERTY='C11'
NEEDS='a node with links of different weights'
BREAKS='the weighted participation coefficient divides by the degree squared instead of the strength squared'
EDITS=[('src/modules.c','  double squared_st = strength*strength;','  double squared_st = strength*NodeDegree(node);')]
DEMO=r'''
#include <stdio.h>
#include <math.h>
#include "graph.h"
#include "modules.h"
int main(){
  struct node_gra *net=CreateHeaderGraph();
  struct node_gra *a=CreateNodeGraph(net,"a"),*b=CreateNodeGraph(net,"b"),*c=CreateNodeGraph(net,"c");
  AddAdjacency(a,b,0,0,3.0,0);AddAdjacency(b,a,0,0,3.0,0);
  AddAdjacency(a,c,0,0,1.0,0);AddAdjacency(c,a,0,0,1.0,0);
  struct group *part=CreateHeaderGroup();
  struct group *g=CreateGroup(part,0),*h=CreateGroup(part,1);
  AddNodeToGroup(g,a);AddNodeToGroup(g,b);AddNodeToGroup(h,c);
  double P=WeightedParticipationCoefficient(a,part);
  printf("%g\n",P);
  return fabs(P-(1-(9.0+1.0)/16.0))>1e-9;
}
'''
