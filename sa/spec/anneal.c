/* searches for groups by annealing: what is proposed, when it is accepted, what is kept */
#include "spec.h"
#include "partition.h"
#include "movements.h"
#include "sannealing.h"

#define LINKS_OF(k, adj, i) for (unsigned int k = (adj)->idx[i]; k < (adj)->idx[(i) + 1]; k++)

/* cut in two at random, then improved by annealing until too many changes in a row are of no importance */
int spec_SplitModuleSA(unsigned int target, unsigned int empty, double Ti, double Tf, double Ts, unsigned int limit,
                       Partition *part, AdjaArray *net, gsl_rng *gen)
{
  unsigned int n = part->modules[target]->size, *member = calloc(n, sizeof *member), idle = 0, k = 0;
  if (!member) {
    perror("Error while splitting module");
    return 1;
  }
  for (Node *x = part->modules[target]->first; x; x = x->next) member[k++] = x->id;
  for (unsigned int i = 0; i < n; i++) if (gsl_rng_uniform(gen) < 0.5) ChangeModule(member[i], empty, part);
  for (double T = Ti; T > Tf; T *= Ts) {
    unsigned int who = member[(unsigned int)floor(gsl_rng_uniform(gen) * n)];
    unsigned int to = part->nodes[who]->module == target ? empty : target;
    double d = dEChangeModule(who, to, part, net);
    if (d >= 0 || gsl_rng_uniform(gen) < exp(d / T)) ChangeModule(who, to, part);
    else d = 0;
    if (fabs(d) < 1.e-6) {
      idle++;
      if (idle > limit) break;
    } else idle = 0;
  }
  free(member);
  return 0;
}

/* cut along its clusters: the first stays, the second goes, each further one goes or stays at random */
unsigned int spec_SplitModuleByComponent(unsigned int mod, unsigned int empty, Partition *part, AdjaArray *net,
                                         gsl_rng *gen)
{
  Module *m = part->modules[mod];
  unsigned int left = m->size, found = 0, goes, x;
  unsigned int *seen = calloc(part->N, sizeof *seen);
  if (!seen) perror("Error while splitting module by connected component");
  Stack *todo = CreateStack(part->N), *moving = CreateStack(m->size);
  for (Node *n = m->first; n != NULL && left; n = n->next) {
    if (seen[n->id]) continue;
    seen[n->id] = 1;
    found++;
    goes = found == 1 ? 0 : found == 2 ? 1 : gsl_rng_uniform(gen) > .5;
    AddToStack(n->id, todo);
    while ((x = PopFromStack(todo)) != -1 && left) {
      if (part->nodes[x]->module == mod) {
        left--;
        if (goes) AddToStack(x, moving);
      }
      LINKS_OF(k, net, x)
        if (!seen[net->neighbors[k]] && part->nodes[net->neighbors[k]]->module == mod) {
          seen[net->neighbors[k]] = 1;
          AddToStack(net->neighbors[k], todo);
        }
    }
  }
  while ((x = PopFromStack(moving)) != -1) ChangeModule(x, empty, part);
  FreeStack(moving);
  FreeStack(todo);
  free(seen);
  return found;
}

#define NODE_PICKED(part, gen) ((unsigned int)floor(gsl_rng_uniform(gen) * (double)(part)->N))
#define TAKEN(d, T, gen) ((d) >= 0 || gsl_rng_uniform(gen) < exp((d) / (T)))

/* annealing of the modularity: nodes move, modules are merged and split; the best partition met is handed back */
unsigned int spec_GeneralSA(Partition **where, AdjaArray *net, double fac, double Ti, double Tf, double Ts,
                            double by_component, unsigned int limit, gsl_rng *gen)
{
  Partition *part = *where, *best = NULL;
  unsigned int single = 10, pairs = 2, idle = 0, empty, who, a, b;
  double E = 0, before = 0, best_E = -1. / 0., d;
  if (fac * (double)(part->N * part->N) >= 10) single = floor(fac * (double)(part->N * part->N));
  if (fac * (double)part->N >= 2) pairs = floor(fac * (double)part->N);
  if (part->M < 2) return 0;
  for (double T = Ti; T > Tf; T *= Ts) {
    for (unsigned int i = single; i; i--) {
      who = NODE_PICKED(part, gen);
      a = part->nodes[who]->module;
      do b = floor(gsl_rng_uniform(gen) * part->M); while (b == a);
      d = dEChangeModule(who, b, part, net);
      if (TAKEN(d, T, gen)) {
        ChangeModule(who, b, part);
        E += d;
      }
    }
    for (unsigned int i = pairs; i; i--) {
      a = part->nodes[NODE_PICKED(part, gen)]->module;
      if (part->nempty < part->M - 1) {
        do b = part->nodes[NODE_PICKED(part, gen)]->module; while (a == b);
        d = dEMergeModules(a, b, part, net);
        if (TAKEN(d, T, gen)) {
          MergeModules(a, b, part);
          E += d;
        }
      }
      if (part->nempty) {
        for (unsigned int j = 0; j < part->M; j++)
          if (part->modules[j]->size == 0) {
            empty = j;
            break;
          }
        do a = part->nodes[NODE_PICKED(part, gen)]->module; while (part->modules[a]->size == 1);
        unsigned int parts = 1;
        if (gsl_rng_uniform(gen) < by_component) parts = SplitModuleByComponent(a, empty, part, net, gen);
        if (parts == 1 && SplitModuleSA(a, empty, Ti, T, 0.95, limit, part, net, gen)) {
          if (best != NULL) FreePartition(best);
          *where = part;
          return 2;
        }
        if (part->modules[a]->size && part->modules[empty]->size) {
          d = -dEMergeModules(a, empty, part, net);
          if (TAKEN(d, T, gen)) E += d;
          else MergeModules(a, empty, part);
        }
      }
    }
    if (fabs(E - before) / fabs(before) < 1e-6 || fabs(before) < 1e-6) {
      idle++;
      if (idle == limit) {
        if (E + 1e-6 >= best_E) break;
        E = best_E;
        idle = 0;
        FreePartition(part);
        part = CopyPartitionStruct(best);
      }
    } else if (E > best_E) {
      if (best != NULL) FreePartition(best);
      best = CopyPartitionStruct(part);
      best_E = E;
      idle = 0;
    }
    before = E;
  }
  if (best == NULL || E > best_E) {
    if (best != NULL) FreePartition(best);
    best = part;
  } else
    FreePartition(part);
  *where = best;
  return 0;
}
