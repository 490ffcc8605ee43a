/* bipartite networks and model networks */
#include "spec.h"
#include "partition.h"

struct binet *spec_CreateBipart(void) { return NEW(binet); }

void spec_RemoveBipart(struct binet *b)
{
  RemoveGraph(b->net1);
  RemoveGraph(b->net2);
  free(b);
}

int spec_NCommonLinksBipart(struct node_gra *a, struct node_gra *b)
{
  int n = 0;
  EACH_LINK(x, a) EACH_LINK(y, b) if (x->ref == y->ref) n++;
  return n;
}

double spec_SumProductsOfCommonWeightsBipart(struct node_gra *a, struct node_gra *b)
{
  double s = 0;
  EACH_LINK(x, a) EACH_LINK(y, b) if (x->ref == y->ref) s += x->weight * y->weight;
  return s;
}

void spec_RemoveNodeBipart(struct binet *b, char *label, int set)
{
  struct node_gra *own = set == 1 ? b->net1 : b->net2, *other = set == 1 ? b->net2 : b->net1, *before = own, *gone;
  int i = 0;
  while (strcmp(before->next->label, label) != 0) before = before->next;
  gone = before->next;
  while (gone->neig->next) RemoveLink(gone, gone->neig->next->ref, 1);
  before->next = gone->next;
  FreeNode(gone);
  EACH_NODE(p, own) p->num = i++;
  EACH_NODE(p, other) EACH_LINK(l, p) l->node = l->ref->num;
}

static struct node_tree *intern(char *label, void **dict)
{
  struct node_tree *t = CreateNodeTree();
  strcpy(t->label, label);
  return *(struct node_tree **)tsearch(t, dict, NodeTreeLabelCompare);
}

static void copy_attributes(struct node_gra *from, struct node_gra *to)
{
  to->num = from->num;
  to->coorX = from->coorX;
  to->coorY = from->coorY;
  to->coorZ = from->coorZ;
  to->state = from->state;
  to->inGroup = from->inGroup;
  to->ivar1 = from->ivar1;
  to->dvar1 = from->dvar1;
}

struct binet *spec_CopyBipart(struct binet *b)
{
  struct binet *copy = CreateBipart();
  struct node_gra *last1, *last2;
  void *in1 = NULL, *in2 = NULL;
  last1 = copy->net1 = CreateHeaderGraph();
  last2 = copy->net2 = CreateHeaderGraph();
  EACH_NODE(p, b->net1) {
    struct node_tree *t = intern(p->label, &in1);
    t->ref = last1 = CreateNodeGraph(last1, p->label);
    copy_attributes(p, last1);
  }
  EACH_NODE(p, b->net2) {
    struct node_tree *t = intern(p->label, &in2);
    t->ref = last2 = CreateNodeGraph(last2, p->label);
    copy_attributes(p, last2);
  }
  EACH_NODE(p, b->net1) EACH_LINK(l, p) {
    AddAdjacency(GetNodeDict(p->label, in1), GetNodeDict(l->nodeLabel, in2), 0, 0, l->weight, 0);
    AddAdjacency(GetNodeDict(l->nodeLabel, in2), GetNodeDict(p->label, in1), 0, 0, l->weight, 0);
  }
  FreeLabelDict(in1);
  FreeLabelDict(in2);
  return copy;
}

struct binet *spec_InvertBipart(struct binet *b)
{
  struct node_gra *one = b->net1, *two = b->net2;
  b->net1 = two;
  b->net2 = one;
  return b;
}

int spec_NLinksBipart(struct binet *b)
{
  int n = 0;
  EACH_NODE(p, b->net1) n += (int)NodeDegree(p);
  return n;
}

/* two nodes of the first set are linked when they have common neighbours; weight: how many */
struct node_gra *spec_ProjectBipart(struct binet *b)
{
  struct node_gra *proj = CreateHeaderGraph(), *last = proj;
  void *dict = NULL;
  EACH_NODE(p, b->net1) {
    struct node_tree *t = intern(p->label, &dict);
    t->ref = last = CreateNodeGraph(last, p->label);
  }
  EACH_NODE(p, b->net1)
    for (struct node_gra *q = p->next; q; q = q->next) {
      int w = NCommonLinksBipart(p, q);
      if (w > 0) {
        AddAdjacency(GetNodeDict(p->label, dict), GetNodeDict(q->label, dict), 0, 0, w, 0);
        AddAdjacency(GetNodeDict(q->label, dict), GetNodeDict(p->label, dict), 0, 0, w, 0);
      }
    }
  FreeLabelDict(dict);
  return proj;
}

struct node_gra *spec_ProjectBipartWeighted(struct binet *b)
{
  struct node_gra *proj = CreateHeaderGraph(), *last = proj;
  void *dict = NULL;
  EACH_NODE(p, b->net1) {
    struct node_tree *t = intern(p->label, &dict);
    t->ref = last = CreateNodeGraph(last, p->label);
  }
  EACH_NODE(p, b->net1)
    for (struct node_gra *q = p->next; q; q = q->next) {
      double w = SumProductsOfCommonWeightsBipart(p, q);
      if (w > 0) {
        AddAdjacency(GetNodeDict(p->label, dict), GetNodeDict(q->label, dict), 0, 0, w, 0);
        AddAdjacency(GetNodeDict(q->label, dict), GetNodeDict(p->label, dict), 0, 0, w, 0);
      }
    }
  FreeLabelDict(dict);
  return proj;
}

/* swap the ends of two links, never creating one that is there */
struct binet *spec_RandomizeBipart(struct binet *b, double times, gsl_rng *gen)
{
  int m = NLinksBipart(b), swaps = ceil(times * m), k = 0;
  struct node_gra **from = (struct node_gra **)calloc(m, sizeof *from), **to = (struct node_gra **)calloc(m, sizeof *to);
  EACH_NODE(p, b->net1) EACH_LINK(l, p) {
    from[k] = p;
    to[k] = l->ref;
    k++;
  }
  UPTO(s, swaps) {
    int x, y;
    struct node_gra *n1, *n2, *n3, *n4;
    do {
      x = floor(gsl_rng_uniform(gen) * m);
      n1 = from[x];
      n2 = to[x];
      do {
        y = floor(gsl_rng_uniform(gen) * m);
        n3 = from[y];
        n4 = to[y];
      } while (n1 == n3 || n2 == n4);
    } while (IsThereLink(n1, n4) == 1 || IsThereLink(n2, n3) == 1);
    RemoveLink(n1, n2, 1);
    RemoveLink(n3, n4, 1);
    AddAdjacency(n1, n4, 0, 0, 0, 1);
    AddAdjacency(n4, n1, 0, 0, 0, 1);
    AddAdjacency(n3, n2, 0, 0, 0, 1);
    AddAdjacency(n2, n3, 0, 0, 0, 1);
    from[x] = n1;
    to[x] = n4;
    from[y] = n3;
    to[y] = n2;
  }
  free(from);
  free(to);
  return b;
}

/* Guimera, Sales-Pardo, Amaral, PRE 76, 036102 (2007) */
double spec_ModularityBipart(struct binet *b, struct group *part)
{
  double m = 0, m2 = 0, q = 0;
  EACH_NODE(p, b->net2) {
    m += (double)NodeDegree(p);
    m2 += (double)NodeDegree(p) * (double)NodeDegree(p);
  }
  EACH_GROUP(g, part) EACH_MEMBER(x, g)
    for (struct node_lis *y = x->next; y; y = y->next)
      q += NCommonLinksBipart(x->ref, y->ref) / (m2 - m) -
           (double)(int)NodeDegree(x->ref) * (int)NodeDegree(y->ref) / (m * m);
  return 2 * q;
}

double spec_ModularityBipartWeighted(struct binet *b, struct group *part)
{
  double m = 0, m2 = 0, q = 0;
  EACH_NODE(p, b->net2) {
    m += NodeStrength(p);
    m2 += NodeStrength(p) * NodeStrength(p);
  }
  EACH_GROUP(g, part) EACH_MEMBER(x, g)
    for (struct node_lis *y = x->next; y; y = y->next)
      q += SumProductsOfCommonWeightsBipart(x->ref, y->ref) / (m2 - m) -
           NodeStrength(x->ref) * NodeStrength(y->ref) / (m * m);
  return 2 * q;
}

double spec_ModularityBipartWeightedFast(struct binet *b, struct group *part, double **s)
{
  double q = 0;
  EACH_GROUP(g, part) EACH_MEMBER(x, g)
    for (struct node_lis *y = x->next; y; y = y->next) q += s[x->node][y->node];
  return q;
}

/* one minus the sum over groups of the squared fraction of the paths of length two that lead to the group */
double spec_ParticipationCoefficientBipart(struct node_gra *node)
{
  int last = 0, all = 0, *to;
  double s = 0;
  for (struct node_gra *p = node; p; p = p->next) last = p->num;
  to = allocate_i_vec(last + 1);
  UPTO(i, last + 1) to[i] = 0;
  EACH_LINK(t, node) EACH_LINK(l, t->ref)
    if (l->ref != node) {
      all++;
      to[l->ref->inGroup]++;
    }
  UPTO(i, last + 1) s += (double)to[i] * to[i] / ((double)all * all);
  free_i_vec(to);
  return 1 - s;
}

void spec_StatisticsParticipationCoefficientBipart(struct node_gra *net, double *mu, double *sd, double *lo, double *hi)
{
  int n = CountNodes(net);
  double *x = allocate_d_vec(n);
  EACH_NODE(p, net) x[p->num] = ParticipationCoefficientBipart(p);
  *mu = mean(x, n);
  *sd = stddev(x, n);
  *lo = min(x, n);
  *hi = max(x, n);
  free_d_vec(x);
}

/* ---- models ---- */

static void number(char *label, int i) { sprintf(label, "%d", i + 1); }

struct node_gra *spec_EmptyGraph(int n)
{
  struct node_gra *net = CreateHeaderGraph(), *last = net;
  char label[MAX_LABEL_LENGTH];
  UPTO(i, n) {
    number(label, i);
    last = CreateNodeGraph(last, label);
  }
  return net;
}

static void both(struct node_gra *a, struct node_gra *b)
{
  AddAdjacency(a, b, 0, 0, 0, 0);
  AddAdjacency(b, a, 0, 0, 0, 0);
}

/* every pair once, with probability p */
struct node_gra *spec_ERGraph(int n, double p, gsl_rng *gen)
{
  struct node_gra *net = CreateHeaderGraph(), *last = net, **at = (struct node_gra **)calloc(n, sizeof *at);
  char label[MAX_LABEL_LENGTH];
  UPTO(i, n) {
    number(label, i);
    at[i] = last = CreateNodeGraph(last, label);
  }
  UPTO(i, n) for (int j = i + 1; j < n; j++)
    if (gsl_rng_uniform(gen) < p) both(at[i], at[j]);
  free(at);
  return net;
}

/* m links per new node, to the ends of links drawn at random */
struct node_gra *spec_PAGraph(int n, int m, gsl_rng *gen)
{
  int *ends = (int *)calloc(2 * n * m, sizeof(int)), k = 0;
  struct node_gra **at = (struct node_gra **)calloc(n, sizeof *at), *net = CreateHeaderGraph(), *last = net;
  char label[MAX_LABEL_LENGTH];
  UPTO(i, m) {
    number(label, i);
    at[i] = last = CreateNodeGraph(last, label);
    UPTO(j, i) {
      both(at[i], at[j]);
      ends[k++] = i;
      ends[k++] = j;
    }
  }
  for (int i = m; i < n; i++) {
    number(label, i);
    at[i] = last = CreateNodeGraph(last, label);
    UPTO(l, m) {
      int j;
      do
        j = ends[(int)(gsl_rng_uniform(gen) * k)];
      while (IsThereLink(at[i], at[j]) == 1);
      both(at[i], at[j]);
      ends[k++] = i;
      ends[k++] = j;
    }
  }
  free(at);
  free(ends);
  return net;
}

struct node_gra *spec_UndirectedBlockGraph(int groups, int *size, double **q, char verbose, gsl_rng *gen)
{
  struct node_gra *net = CreateHeaderGraph(), *last = net, **at;
  char label[MAX_LABEL_LENGTH];
  int n = 0;
  UPTO(g, groups) n += size[g];
  at = (struct node_gra **)calloc(n, sizeof *at);
  n = 0;
  UPTO(g, groups) {
    for (int i = n; i < n + size[g]; i++) {
      number(label, i);
      at[i] = last = CreateNodeGraph(last, label);
      last->inGroup = g;
    }
    n += size[g];
  }
  UPTO(i, n) for (int j = i + 1; j < n; j++)
    if (gsl_rng_uniform(gen) < q[at[i]->inGroup][at[j]->inGroup]) both(at[i], at[j]);
  free(at);
  return net;
}

/* on average kin links inside the group and kout to the others */
struct node_gra *spec_GirvanNewmanGraph(int groups, int size, double kin, double kout, char verbose, gsl_rng *gen)
{
  double **q = allocate_d_mat(groups, groups);
  int *sizes = allocate_i_vec(groups);
  struct node_gra *net;
  UPTO(a, groups) {
    sizes[a] = size;
    q[a][a] = kin / (size - 1);
    for (int b = a + 1; b < groups; b++) q[a][b] = kout / ((double)size * (groups - 1));
  }
  net = UndirectedBlockGraph(groups, sizes, q, verbose, gen);
  free_d_mat(q, groups);
  free_i_vec(sizes);
  return net;
}

/* the node with this name: known already, or new at the end of its network */
static struct node_gra *named2(char *name, void **dict, struct node_gra **last)
{
  struct node_tree *t = CreateNodeTree(), *known;
  strcpy(t->label, name);
  known = *(struct node_tree **)tsearch(t, dict, NodeTreeLabelCompare);
  if (known->ref) FreeNodeTree(t);
  else known->ref = *last = CreateNodeGraph(*last, name);
  return known->ref;
}

/* one link per line: a node of the first kind, one of the second and, if asked for, a weight */
struct binet *spec_FBuildNetworkBipart(FILE *f, int weights, int add)
{
  struct node_gra *net1 = CreateHeaderGraph(), *net2 = CreateHeaderGraph(), *last1 = net1, *last2 = net2;
  char a[MAX_LABEL_LENGTH], b[MAX_LABEL_LENGTH], *line = NULL;
  void *dict1 = NULL, *dict2 = NULL;
  double w;
  size_t room = 0;
  while (getline(&line, &room, f) != -1) {
    if (weights == 0) {
      sscanf(line, "%99s %99s", a, b);
      w = 1;
    } else {
      sscanf(line, "%99s %99s %lf", a, b, &w);
    }
    struct node_gra *x = named2(a, &dict1, &last1), *y = named2(b, &dict2, &last2);
    AddAdjacency(x, y, 0, add, w, 0);
    AddAdjacency(y, x, 0, add, w, 0);
  }
  FreeLabelDict(dict1);
  FreeLabelDict(dict2);
  free(line);
  struct binet *net = CreateBipart();
  net->net1 = net1;
  net->net2 = net2;
  return net;
}

/* nodes of the second kind are numbered on after those of the first */
void spec_FPrintPajekFileBipart(char *name, struct binet *net, int coordinates, int weights)
{
  int first = CountNodes(net->net1), all = first + CountNodes(net->net2);
  FILE *f = fopen(name, "w");
  if (!f) return;
  fprintf(f, "*Vertices %d %d\n", all, first);
  EACH_NODE(p, net->net1) {
    if (coordinates == 1) fprintf(f, "%d \"%s\"           %lf %lf %lf\n", p->num + 1, p->label, p->coorX, p->coorY, p->coorZ);
    else fprintf(f, "%d \"%s\"\n", p->num + 1, p->label);
  }
  EACH_NODE(p, net->net2) {
    if (coordinates == 1) fprintf(f, "%d \"%s\"           %lf %lf %lf\n", first + p->num + 1, p->label, p->coorX, p->coorY, p->coorZ);
    else fprintf(f, "%d \"%s\"\n", first + p->num + 1, p->label);
  }
  fprintf(f, "*Edges\n");
  EACH_NODE(p, net->net1) EACH_LINK(l, p) {
    if (weights) fprintf(f, "%d   %d   %g\n", p->num + 1, first + l->ref->num + 1, l->weight);
    else fprintf(f, "%d   %d\n", p->num + 1, first + l->ref->num + 1);
  }
  fclose(f);
}

/* one line per node: name, number of its module, role and the two coordinates of the role, all on the projection */
void spec_FPrintTabNodesBipart(FILE *f, struct binet *net, struct group *part, int unweighted, int weights)
{
  struct node_gra *proj = unweighted == 1 || weights == 0 ? ProjectBipart(net) : ProjectBipartWeighted(net);
  int number = 0;
  MapPartToNetFast(part, proj);
  EACH_GROUP(g, part) {
    number++;
    EACH_MEMBER(m, g) {
      double p, z;
      if (unweighted == 1) {
        p = ParticipationCoefficient(m->ref);
        z = WithinModuleRelativeDegree(m->ref, g);
      } else {
        p = WeightedParticipationCoefficient(m->ref, part);
        z = WithinModuleRelativeStrength(m->ref, g);
      }
      fprintf(f, "%-20s\t%d\tR%d\t%f\t%f\n", m->nodeLabel, number, GetRole(p, z) + 1, p, z);
    }
  }
  MapPartToNet(part, net->net1);
  RemoveGraph(proj);
}

void spec_FPrintBipart(FILE *f, struct binet *net, int weights)
{
  EACH_NODE(p, net->net1) EACH_LINK(l, p)
    if (weights) fprintf(f, "%s %s %g\n", p->label, l->ref->label, l->weight);
    else fprintf(f, "%s %s\n", p->label, l->ref->label);
}

/* every node of the first kind belongs to a module, every team has a colour (a module) and takes its members from that
   module with probability p, from anywhere otherwise, nobody twice */
struct binet *spec_BuildModularBipartiteNetwork(int *sizes, int size, int modules, double *colours, int teams, int low,
                                                int high, double q, double p, gsl_rng *gen)
{
  int own = 0, n = 0, k = 0;
  struct node_gra *net1, *net2, *last1, *last2, **node, **team;
  char name[MAX_LABEL_LENGTH];
  if (sizes == NULL) {
    own = 1;
    sizes = allocate_i_vec(modules);
    UPTO(i, modules) sizes[i] = size;
  }
  UPTO(i, modules) n += sizes[i];
  int *module = allocate_i_vec(n);
  node = calloc(n, sizeof *node);
  team = calloc(teams, sizeof *team);
  int *start = allocate_i_vec(modules);
  UPTO(i, modules) {
    start[i] = k;
    UPTO(j, sizes[i]) module[k++] = i;
  }
  last1 = net1 = CreateHeaderGraph();
  last2 = net2 = CreateHeaderGraph();
  UPTO(i, k) {
    sprintf(name, "A%d", i + 1);
    last1 = node[i] = CreateNodeGraph(last1, name);
    node[i]->inGroup = module[i];
    node[i]->ivar1 = 0;
  }
  UPTO(i, teams) {
    sprintf(name, "B%d", i + 1);
    last2 = team[i] = CreateNodeGraph(last2, name);
    team[i]->ivar1 = 1;
  }
  UPTO(i, teams) {
    int colour, members, same = 0, who;
    if (colours != NULL) {
      double dice = gsl_rng_uniform(gen), sum = 0;
      for (colour = -1; sum < dice; sum += colours[colour]) colour++;
    } else {
      colour = floor(gsl_rng_uniform(gen) * modules);
    }
    team[i]->inGroup = colour;
    if (low < 0) members = geometric_dist_val(q, gen);
    else if (low != high) members = floor(low + gsl_rng_uniform(gen) * (high - low + 1));
    else members = low;
    UPTO(j, members) {
      if (gsl_rng_uniform(gen) < p && same < sizes[colour]) {
        same++;
        do who = start[colour] + floor(gsl_rng_uniform(gen) * sizes[colour]);
        while (IsThereLink(node[who], team[i]) == 1);
      } else {
        do who = floor(gsl_rng_uniform(gen) * k);
        while (IsThereLink(node[who], team[i]) == 1);
        if (module[who] == colour) same++;
      }
      AddAdjacency(node[who], team[i], 0, 0, 0, 0);
      AddAdjacency(team[i], node[who], 0, 0, 0, 0);
    }
  }
  struct binet *net = CreateBipart();
  net->net1 = net1;
  net->net2 = net2;
  free(node);
  free(team);
  free_i_vec(module);
  free_i_vec(start);
  if (own) free_i_vec(sizes);
  return net;
}
