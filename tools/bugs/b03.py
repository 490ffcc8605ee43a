ID='b03-empty-group-links'
PROPERTY='C10'
NEEDS='a move of a node out of a group it is not in'
BREAKS='a removal of a node that is not in the group is reported as done'
EDITS=[('src/modules.c','''  while ((p->next != NULL) && ((p->next)->ref != node))
    p = p->next;

  if (p->next == NULL)
    return 0;
  else{
    temp = p->next;
    p->next = (p->next)->next;
    free(temp->nodeLabel);
    free(temp);

    /* Partially update the properties of the group */''','''  while ((p->next != NULL) && ((p->next)->ref != node))
    p = p->next;

  if (p->next == NULL)
    return 1;
  else{
    temp = p->next;
    p->next = (p->next)->next;
    free(temp->nodeLabel);
    free(temp);

    /* Partially update the properties of the group */''')]
DEMO=r'''
#include <stdio.h>
#include "graph.h"
#include "modules.h"
int main(){
  struct node_gra *net=CreateHeaderGraph();
  struct node_gra *a=CreateNodeGraph(net,"a"),*b=CreateNodeGraph(net,"b");
  struct group *part=CreateHeaderGroup();
  struct group *g=CreateGroup(part,0),*h=CreateGroup(part,1);
  AddNodeToGroupFast(g,a);AddNodeToGroupFast(h,b);
  int r=MoveNodeFast(a,h,g);
  printf("%d %d\n",r,g->size);
  return !(r==0 && g->size==1);
}
'''
