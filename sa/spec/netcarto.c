/* the compact partition used by netcarto: adjacency arrays, modules, moves, modularity and node roles */
#include "spec.h"
#include "partition.h"
#include "movements.h"
#include "fillpartitions.h"
#include "io.h"

#define MADE(type) ((type *)malloc(sizeof(type)))
#define LINKS_OF(k, adj, i) for (unsigned int k = (adj)->idx[i]; k < (adj)->idx[(i) + 1]; k++)
#define MEMBERS(n, mod) for (Node *n = (mod)->first; n; n = n->next)

AdjaArray *spec_CreateAdjaArray(unsigned int N, unsigned int E)
{
  AdjaArray *a = MADE(AdjaArray);
  if (!a) perror("Error while allocating adjacency array");
  a->N = N;
  a->E = E;
  a->idx = (unsigned int *)calloc(N + 1, sizeof(unsigned int));
  a->neighbors = (unsigned int *)calloc(2 * E + 1, sizeof(unsigned int));
  a->strength = (double *)calloc(2 * E + 1, sizeof(double));
  a->idx[N] = 2 * E;            /* the list of the last node ends where the arrays end */
  if (!a->idx || !a->neighbors || !a->strength) perror("Error while allocating adjacency array elements");
  return a;
}

void spec_FreeAdjaArray(AdjaArray *a)
{
  free(a->idx);
  free(a->neighbors);
  free(a->strength);
  free(a);
}

Partition *spec_CreatePartition(unsigned int N, unsigned int M)
{
  Partition *p = MADE(Partition);
  if (!p) perror("Error while allocating partition");
  p->N = N;
  p->M = M;
  p->nempty = M;                /* nobody is anywhere yet */
  p->nodes = (Node **)malloc(N * sizeof(Node *));
  p->modules = (Module **)malloc(N * sizeof(Module *));
  if (!p->nodes || !p->modules) perror("Error while allocating partition component");
  UPTO(i, N) {
    p->nodes[i] = MADE(Node);
    if (!p->nodes[i]) perror("Error while allocating node");
    p->nodes[i]->id = i;
    p->nodes[i]->module = 0;
    p->nodes[i]->strength = 0;
    p->nodes[i]->next = p->nodes[i]->prev = NULL;
  }
  UPTO(i, M) {
    p->modules[i] = MADE(Module);
    if (!p->modules[i]) perror("Error while allocating module");
    p->modules[i]->id = i;
    p->modules[i]->strength = 0;
    p->modules[i]->size = 0;
    p->modules[i]->first = p->modules[i]->last = NULL;
  }
  return p;
}

static Node *counterpart(Partition *copy, Node *n)
{
  return n ? copy->nodes[n->id] : NULL;
}

Partition *spec_CopyPartitionStruct(Partition *p)
{
  Partition *c = CreatePartition(p->N, p->M);
  c->nempty = p->nempty;
  UPTO(i, p->N) {
    c->nodes[i]->id = p->nodes[i]->id;
    c->nodes[i]->module = p->nodes[i]->module;
    c->nodes[i]->strength = p->nodes[i]->strength;
  }
  UPTO(i, p->M) {
    c->modules[i]->id = p->modules[i]->id;
    c->modules[i]->strength = p->modules[i]->strength;
    c->modules[i]->size = p->modules[i]->size;
  }
  UPTO(i, p->N) {
    c->nodes[i]->next = counterpart(c, p->nodes[i]->next);
    c->nodes[i]->prev = counterpart(c, p->nodes[i]->prev);
  }
  UPTO(i, p->M) {
    c->modules[i]->first = counterpart(c, p->modules[i]->first);
    c->modules[i]->last = counterpart(c, p->modules[i]->last);
  }
  return c;
}

void spec_FreePartition(Partition *p)
{
  UPTO(i, p->N) free(p->nodes[i]);
  UPTO(i, p->M) free(p->modules[i]);
  free(p->nodes);
  free(p->modules);
  free(p);
}

/* strength of the links of node i into module mod */
static double to_module(Partition *p, AdjaArray *adj, unsigned int i, unsigned int mod)
{
  double s = 0;
  LINKS_OF(k, adj, i)
    if (p->nodes[adj->neighbors[k]]->module == mod) s += adj->strength[k];
  return s;
}

void spec_PartitionRolesMetrics(Partition *p, AdjaArray *adj, double *connectivity, double *participation)
{
  unsigned int N = adj->N, M = p->M;
  double *to = (double *)calloc(N * M, sizeof(double));
  if (!to) perror("Error while computing roles metrics");
  UPTO(i, N) LINKS_OF(k, adj, i) to[i + N * p->nodes[adj->neighbors[k]]->module] += adj->strength[k];
  double *mean = (double *)calloc(M, sizeof(double)), *dev = (double *)calloc(M, sizeof(double));
  if (!mean || !dev) perror("Error while computing roles metrics");
  UPTO(i, N) mean[p->nodes[i]->module] += to[i + N * p->nodes[i]->module];
  UPTO(m, M) mean[m] /= p->modules[m]->size;
  UPTO(i, N) {
    unsigned int m = p->nodes[i]->module;
    dev[m] += (to[i + N * m] - mean[m]) * (to[i + N * m] - mean[m]);
  }
  UPTO(m, M) dev[m] = sqrt(dev[m] / p->modules[m]->size);
  UPTO(i, N) {
    unsigned int m = p->nodes[i]->module;
    connectivity[i] = dev[m] ? (to[i + N * m] - mean[m]) / dev[m] : 0;
  }
  UPTO(i, N) {
    if (adj->idx[i] == adj->idx[i + 1]) participation[i] = 0;
    else {
      double all = 0, sq = 0;
      UPTO(m, M) {
        all += to[i + N * m];
        sq += to[i + N * m] * to[i + N * m];
      }
      participation[i] = 1.0 - sq / (all * all);
    }
  }
  free(mean);
  free(dev);
  free(to);
}

double spec_PartitionModularity(Partition *p, AdjaArray *adj, int diagonal)
{
  double q = 0;
  UPTO(m, p->M)
    MEMBERS(a, p->modules[m])
      for (Node *b = a->next; b; b = b->next) {
        double w = 0;
        for (int k = adj->idx[a->id]; k < adj->idx[a->id + 1]; k++)
          if (adj->neighbors[k] == b->id) w += adj->strength[k];
        q += 2 * (w - a->strength * b->strength);
      }
  if (diagonal)
    UPTO(i, p->N) q -= p->nodes[i]->strength * p->nodes[i]->strength;
  return q;
}

double spec_dEChangeModule(unsigned int i, unsigned int new, Partition *p, AdjaArray *adj)
{
  Node *n = p->nodes[i];
  unsigned int old = n->module;
  double d = 0;
  LINKS_OF(k, adj, i) {
    unsigned int j = adj->neighbors[k];
    if (j == i) continue;
    if (p->nodes[j]->module == old) d -= adj->strength[k];
    else if (p->nodes[j]->module == new) d += adj->strength[k];
  }
  /* both modules lose or gain the expected links of the node to the others */
  return 2 * (d + n->strength * (p->modules[old]->strength - n->strength) - n->strength * p->modules[new]->strength);
}

double spec_dEMergeModules(unsigned int a, unsigned int b, Partition *p, AdjaArray *adj)
{
  int bfirst = p->modules[a]->size > p->modules[b]->size;
  Module *few = bfirst ? p->modules[b] : p->modules[a];
  unsigned int many = bfirst ? a : b;
  double links = 0;
  MEMBERS(n, few)
    for (int k = adj->idx[n->id]; k < adj->idx[n->id + 1]; k++)
      if (p->nodes[(int)adj->neighbors[k]]->module == many) links += adj->strength[k];
  return 2 * (links - p->modules[a]->strength * p->modules[b]->strength);
}

void spec_ChangeModule(unsigned int i, unsigned int new, Partition *p)
{
  Node *n = p->nodes[i];
  Module *from = p->modules[n->module], *to = p->modules[new];
  n->module = to->id;
  from->strength -= n->strength;
  from->size--;
  if (from->size == 0) p->nempty++;
  if (to->size == 0) p->nempty--;
  to->strength += n->strength;
  to->size++;
  /* out of the old list */
  if (n->prev) n->prev->next = n->next; else from->first = n->next;
  if (n->next) n->next->prev = n->prev; else from->last = n->prev;
  /* in front of the new one */
  n->next = to->first;
  n->prev = NULL;
  if (to->first) to->first->prev = n; else to->last = n;
  to->first = n;
}

void spec_MergeModules(unsigned int a, unsigned int b, Partition *p)
{
  if (p->modules[a]->size == 0 || p->modules[b]->size == 0) return;
  int bfirst = p->modules[a]->size > p->modules[b]->size;
  Module *few = bfirst ? p->modules[b] : p->modules[a], *many = bfirst ? p->modules[a] : p->modules[b];
  MEMBERS(n, few) n->module = many->id;
  p->nempty++;
  many->size += few->size;
  few->size = 0;
  many->strength += few->strength;
  few->strength = 0;
  many->first->prev = few->last;
  few->last->next = many->first;
  many->first = few->first;
  few->first = few->last = NULL;
}

void spec_CompressPartition(Partition *p)
{
  if (!p->nempty) return;
  unsigned int M = p->M - p->nempty, found = 0, used = 0;
  Module **kept = (Module **)malloc(M * sizeof(Module *));
  if (!kept) perror("Error while compressing partition");
  unsigned int *hole = (unsigned int *)calloc(p->nempty, sizeof(unsigned int));
  if (!hole) perror("Error while compressing partition");
  for (unsigned int m = 0; m < p->M; m++)
    if (!p->modules[m]->size) {
      hole[found++] = m;
      free(p->modules[m]);
      p->modules[m] = NULL;
    }
  for (unsigned int m = p->M - 1; m >= M; m--)
    if (p->modules[m]) {
      MEMBERS(n, p->modules[m]) n->module = hole[used];
      p->modules[hole[used]] = p->modules[m];
      p->modules[hole[used]]->id = hole[used];
      used++;
    }
  free(hole);
  for (unsigned int m = 0; m < M; m++) kept[m] = p->modules[m];
  free(p->modules);
  p->modules = kept;
  p->nempty = 0;
  p->M = M;
}

Stack *spec_CreateStack(unsigned int N)
{
  Stack *s = MADE(Stack);
  s->maxsize = N;
  s->top = -1;
  s->items = (int *)calloc(N, sizeof(int));
  if (!s || !s->items) perror("Error while allocating stack");
  return s;
}

void spec_FreeStack(Stack *s)
{
  free(s->items);
  free(s);
}

void spec_AddToStack(unsigned int value, Stack *s)
{
  s->items[s->top + 1] = value;
  s->top = s->top + 1;
}

int spec_PopFromStack(Stack *s)
{
  if (s->top < 0) return -1;
  s->top = s->top - 1;
  return s->items[s->top + 1];
}

static void begin(Partition *p, unsigned int m, unsigned int i)
{
  p->modules[m]->size = 1;
  p->modules[m]->strength = p->nodes[i]->strength;
  p->modules[m]->first = p->modules[m]->last = p->nodes[i];
}

static void join(Partition *p, unsigned int m, unsigned int i)
{
  p->modules[m]->size++;
  p->modules[m]->strength += p->nodes[i]->strength;
  p->modules[m]->last->next = p->nodes[i];
  p->nodes[i]->prev = p->modules[m]->last;
  p->modules[m]->last = p->nodes[i];
}

void spec_AssignNodesToModules(Partition *p, gsl_rng *gen)
{
  if (p->N == p->M) {
    p->nempty = 0;
    UPTO(i, p->N) {
      p->nodes[i]->module = i;
      begin(p, i, i);
    }
  } else {
    UPTO(i, p->N) {
      unsigned int m = gsl_rng_uniform_int(gen, p->M);
      if (p->modules[m]->size == 0) {
        p->nempty--;
        p->nodes[i]->module = m;
        begin(p, m, i);
      } else {
        p->nodes[i]->module = m;
        join(p, m, i);
      }
    }
  }
}

int spec_EdgeListToAdjaArray(int *from, int *to, double *weight, AdjaArray *adj, Partition *p, int normalize)
{
  unsigned int N = adj->N, E = adj->E;
  double all = 0;
  int *degree = (int *)calloc(N, sizeof(int));
  if (!degree) return 1;
  UPTO(e, E) {
    all += weight[e];
    p->nodes[from[e]]->strength += weight[e];
    p->nodes[to[e]]->strength += weight[e];
    degree[from[e]] += 1;
    degree[to[e]] += 1;
  }
  double scale = normalize ? 2 * all : 1;
  int pos = 0;
  UPTO(i, N) {
    adj->idx[i] = pos;
    pos += degree[i];
    p->nodes[i]->strength /= scale;
  }
  UPTO(e, E) {
    int a = adj->idx[from[e] + 1] - degree[from[e]], b = adj->idx[to[e] + 1] - degree[to[e]];
    adj->neighbors[a] = to[e];
    adj->strength[a] = weight[e] / scale;
    adj->neighbors[b] = from[e];
    adj->strength[b] = weight[e] / scale;
    degree[from[e]]--;
    degree[to[e]]--;
  }
  free(degree);
  return 0;
}

static int cmp(unsigned int a, unsigned int b)
{
  return a < b ? -1 : a > b ? 1 : 0;
}

int spec_EdgeCompare(const void *p, const void *q)
{
  const Edge *a = p, *b = q;
  int c = cmp(a->node2, b->node2);
  return c ? c : cmp(a->node1, b->node1);
}

int spec_node_compare(const void *p, const void *q)
{
  return strcmp(((const struct node *)p)->label, ((const struct node *)q)->label);
}

void spec_TabularOutput(FILE *f, char **labels, Partition *p, double *connectivity, double *participation)
{
  fprintf(f, "%-30s\tModule\tConnectivity\tParticipation\tRole\n", "Label");
  UPTO(i, p->N)
    fprintf(f, "%-30s\t%d\t%f\t%f\tR%d\n", labels[i], p->nodes[i]->module, connectivity[i], participation[i],
            1 + GetRole(participation[i], connectivity[i]));
}

void spec_ClusteringOutput(FILE *f, Partition *p, char **labels)
{
  UPTO(m, p->M) {
    MEMBERS(n, p->modules[m]) fprintf(f, "%s\t", labels[n->id]);
    fprintf(f, "\n");
  }
}
