ID='b10-weak-projection'
PROPERTY='C12'
NEEDS='a bipartite network with weights below one'
BREAKS='pairs of nodes whose shared weights add up to a value between 0 and 1 are not linked in the weighted projection'
EDITS=[
  ('src/bipartite.c',
   '      if (weight > 0) {\n\tAddAdjacency(GetNodeDict(p1->label, dict),\n\t\t     GetNodeDict(p2->label, dict),\n\t\t     0, 0, (double)weight, 0);\n',
   '      if ((int)(weight + 0.5) > 0) {\n\tAddAdjacency(GetNodeDict(p1->label, dict),\n\t\t     GetNodeDict(p2->label, dict),\n\t\t     0, 0, (double)weight, 0);\n', 1, 2),
]
DEMO=r'''
#include "graph.h"
#include "modules.h"
#include "bipartite.h"
int main(){
  struct binet *b=CreateBipart();
  b->net1=CreateHeaderGraph();b->net2=CreateHeaderGraph();
  struct node_gra *x=CreateNodeGraph(b->net1,"x"),*y=CreateNodeGraph(b->net1,"y"),*t=CreateNodeGraph(b->net2,"t");
  AddAdjacency(x,t,0,0,.5,0);AddAdjacency(t,x,0,0,.5,0);AddAdjacency(y,t,0,0,.5,0);AddAdjacency(t,y,0,0,.5,0);
  struct node_gra *p=ProjectBipartWeighted(b);
  struct node_gra *f=p->next;
  return !(f->neig->next && f->neig->next->weight==.25);
}
'''
