ID='b09-small-groups-no-entropy'
PROPERTY='C11'
NEEDS='a partition with a group of a single node'
BREAKS='groups of one node do not count in the entropy that normalises the mutual information'
EDITS=[
  ('src/modules.c',
   '  g2 = part2;\n  while ((g2 = g2->next) != NULL) {\n    if (g2->size > 0) {\n      S2 = g2->size;\n      H2 +=',
   '  g2 = part2;\n  while ((g2 = g2->next) != NULL) {\n    if (g2->size > 1) {\n      S2 = g2->size;\n      H2 +='),
]
DEMO=r'''
#include <math.h>
#include <stdio.h>
#include "graph.h"
#include "modules.h"
int main(){
  struct node_gra *net=CreateHeaderGraph();
  struct node_gra *a=CreateNodeGraph(net,"a"),*b=CreateNodeGraph(net,"b"),*c=CreateNodeGraph(net,"c");
  struct group *p=CreateHeaderGroup(),*q=CreateHeaderGroup(),*g;
  g=CreateGroup(p,0);AddNodeToGroup(g,a);AddNodeToGroup(g,b);g=CreateGroup(p,1);AddNodeToGroup(g,c);
  g=CreateGroup(q,0);AddNodeToGroup(g,a);AddNodeToGroup(g,b);g=CreateGroup(q,1);AddNodeToGroup(g,c);
  double m=MutualInformation(p,q,0);printf("%g\n",m);
  return fabs(m-1)>1e-9;
}
'''
