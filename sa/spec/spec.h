/* Reference definitions: written from the documented meaning of the routines, never linked into rgraph and never run.
   spec_X is what X has to compute; the checks compare normal forms of both. */
#ifndef SPEC_H
#define SPEC_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <search.h>
#include <gsl/gsl_rng.h>
#include <gsl/gsl_randist.h>
#include <gsl/gsl_sf_gamma.h>
#include "tools.h"
#include "graph.h"
#include "models.h"
#include "modules.h"
#include "bipartite.h"

#define EACH_NODE(p, net) for (struct node_gra *p = (net)->next; p; p = p->next)
#define EACH_LINK(l, node) for (struct node_lis *l = (node)->neig->next; l; l = l->next)
#define EACH_GROUP(g, part) for (struct group *g = (part)->next; g; g = g->next)
#define EACH_MEMBER(m, g) for (struct node_lis *m = (g)->nodeList->next; m; m = m->next)
#define NEW(type) ((struct type *)calloc(1, sizeof(struct type)))
#define UPTO(i, n) for (int i = 0; i < (n); i++)

#endif
