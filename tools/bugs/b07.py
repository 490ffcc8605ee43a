ID='b07-overlap-marks-group'
PROPERTY='C07'
NEEDS='nodes that belong to groups when their overlap is measured'
BREAKS='measuring the topological overlap of two nodes changes the group their common neighbours belong to'
EDITS=[
  ('src/graph.c',
   '    if (p->ref == node)\n      ncom++;\n    else\n      ncom += IsThereLinkSoft( node, p->node);\n',
   '    if (p->ref == node)\n      ncom++;\n    else if (IsThereLinkSoft(node, p->node)) {\n      p->ref->inGroup = node->inGroup;  /* mark it as shared */\n      ncom++;\n    }\n'),
]
DEMO=r'''
#include "graph.h"
#include "modules.h"
int main(){
  struct node_gra *net=CreateHeaderGraph();
  struct node_gra *a=CreateNodeGraph(net,"a"),*b=CreateNodeGraph(net,"b"),*c=CreateNodeGraph(net,"c");
  AddAdjacency(a,c,0,0,1,0);AddAdjacency(c,a,0,0,1,0);
  AddAdjacency(b,c,0,0,1,0);AddAdjacency(c,b,0,0,1,0);
  a->inGroup=1;b->inGroup=2;c->inGroup=3;
  double o=TopologicalOverlap(a,b);
  return !(o==1 && c->inGroup==3);
}
'''
