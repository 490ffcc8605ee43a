/* search for groups of a network by annealing */
#include "spec.h"

/* what a group adds to the modularity: links inside, ends of links, ends of links of the whole network */
static double share(int inside, int ends, int all)
{
  return 2. * inside / all - (double)ends * ends / ((double)all * all);
}

#define ENDS(g) ((g)->totlinks + (g)->inlinks)
/* two groups become one */
#define JOINED(a, b, all) (share((a)->inlinks + (b)->inlinks + NG2GLinks(a, b), ENDS(a) + ENDS(b), all) \
                           - share((a)->inlinks, ENDS(a), all) - share((b)->inlinks, ENDS(b), all))
#define AT_RANDOM(n, gen) ((int)floor(gsl_rng_uniform(gen) * (double)(n)))

struct group *spec_SACommunityIdent(struct node_gra *net, double Ti, double Tf, double Ts, double fac, int ngroup,
                                    char start, int collective, char output, gsl_rng *gen)
{
  struct group **at = NULL, *part, *best = NULL, *g;
  struct node_gra **node;
  int n = CountNodes(net), all = 0, idle = 0, single = 10, pairs = 2, who, a, b, empty;
  double E, before = 0, best_E = -100, d;
  FILE *f;
  ResetNetGroup(net);
  part = CreateHeaderGroup();
  void *dict = MakeLabelDict(net);
  node = calloc(n, sizeof *node);
  if (start == 'o') {
    ngroup = n;
    at = calloc(ngroup, sizeof *at);
    EACH_NODE(p, net) {
      at[p->num] = CreateGroup(part, p->num);
      node[p->num] = p;
      AddNodeToGroup(at[p->num], p);
      all += NodeDegree(p);
    }
  } else if (start == 'r') {
    at = calloc(ngroup, sizeof *at);
    g = part;
    UPTO(i, ngroup) {
      g = CreateGroup(g, i);
      at[i] = g;
    }
    EACH_NODE(p, net) {
      node[p->num] = p;
      AddNodeToGroup(at[AT_RANDOM(ngroup, gen)], p);
      all += NodeDegree(p);
    }
  }
  if (fac * (double)(n * n) >= 10) single = floor(fac * (double)(n * n));
  if (fac * (double)n >= 2) pairs = floor(fac * (double)n);
  E = Modularity(part);
  for (double T = Ti; T > Tf && idle < 25; T = T * Ts) {
    switch (output) {
    case 's': case 'm':
      fprintf(stderr, "%g %lf %g\n", 1. / T, E, T);
      break;
    case 'd':
      FPrintPartition(stderr, part, 0);
    case 'v':
      fprintf(stderr, "%g %lf %lf %g\n", 1. / T, E, Modularity(part), T);
    }
    UPTO(i, single) {
      struct node_gra *p = node[AT_RANDOM(n, gen)];
      a = p->inGroup;
      do b = AT_RANDOM(ngroup, gen); while (b == a);
      int less = NLinksToGroup(p, at[a]), more = NLinksToGroup(p, at[b]), deg = NodeDegree(p);
      d = share(at[a]->inlinks - less, ENDS(at[a]) - deg, all) + share(at[b]->inlinks + more, ENDS(at[b]) + deg, all)
          - share(at[a]->inlinks, ENDS(at[a]), all) - share(at[b]->inlinks, ENDS(at[b]), all);
      if (d >= 0 || gsl_rng_uniform(gen) < exp(d / T)) {
        MoveNode(p, at[a], at[b]);
        E += d;
      }
    }
    if (collective == 1) UPTO(i, pairs) {
      a = node[AT_RANDOM(n, gen)]->inGroup;
      if (at[a]->size < n) {
        do b = node[AT_RANDOM(n, gen)]->inGroup; while (a == b);
        d = JOINED(at[a], at[b], all);
        if (d >= 0 || gsl_rng_uniform(gen) < exp(d / T)) {
          MergeGroups(at[a], at[b]);
          E += d;
        }
      }
      who = node[AT_RANDOM(n, gen)]->inGroup;
      empty = -1;
      g = part;
      while ((g = g->next) != NULL && empty < 0) if (g->size == 0) empty = g->label;
      if (empty >= 0) {
        struct group *two = SAGroupSplit(at[who], Ti, T, 0.95, 1, gen);
        for (struct node_lis *m = two->next->nodeList; (m = m->next) != NULL;)
          MoveNode(GetNodeDict(m->nodeLabel, dict), at[who], at[empty]);
        RemovePartition(two);
        d = JOINED(at[who], at[empty], all);
        if (d > 0 && gsl_rng_uniform(gen) > exp(-d / T)) MergeGroups(at[who], at[empty]);
        else E -= d;
      }
    }
    if (fabs(E - before) / fabs(before) < 1e-6 || fabs(before) < 1e-6) {
      idle++;
      if (idle == 25 && E + 1e-6 < best_E) {
        if (output != 'n' && output != 'b') fprintf(stderr, "# Resetting partition\n");
        RemovePartition(part);
        part = CopyPartition(best);
        g = part;
        while ((g = g->next) != NULL) at[g->label] = g;
        MapPartToNet(part, net);
        E = best_E;
        idle = 0;
      }
    } else
      idle = 0;
    before = E;
    if (E > best_E) {
      if (best != NULL) RemovePartition(best);
      best = CopyPartition(part);
      MapPartToNet(part, net);
      best_E = E;
    }
    if (output == 'b') {
      f = fopen("part.tmp", "w");
      if (f != NULL) {
        FPrintPartition(f, best != NULL ? best : part, 1);
        fclose(f);
      }
    }
    if (output == 'b' || output == 's') {
      f = fopen("part.tmp", "w");
      if (f != NULL) {
        FPrintPartition(f, best != NULL ? best : part, 1);
        fclose(f);
      }
    }
  }
  if (best != NULL) RemovePartition(best);
  FreeLabelDict(dict);
  free(at);
  free(node);
  return CompressPart(part);
}
