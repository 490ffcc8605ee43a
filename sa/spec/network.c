/* networks: nodes, links, copies, edits */
#include "spec.h"
#include "datastruct.h"

static char *label_of(const char *label)
{
  char *l = (char *)calloc(MAX_LABEL_LENGTH, 1);
  strcpy(l, label);
  return l;
}

static void forget(struct node_gra *p)          /* degree and strength are cached: 0 means not known */
{
  p->degree = 0;
  p->strength = 0;
}

struct node_gra *spec_CreateHeaderGraph(void)
{
  struct node_gra *h = NEW(node_gra);
  h->num = h->inGroup = h->ivar1 = h->trans = -1;
  h->coorX = h->coorY = h->coorZ = h->dvar1 = -1;
  return h;
}

struct node_gra *spec_CreateNodeGraph(struct node_gra *net, char *label)
{
  struct node_gra *last = net, *p;
  for (; last->next; last = last->next) ;
  p = NEW(node_gra);
  last->next = p;
  p->label = label_of(label);
  p->num = last->num + 1;
  p->inGroup = p->trans = -1;
  p->coorX = p->coorY = p->coorZ = p->dvar1 = -1;
  p->neig = NEW(node_lis);
  p->neig->node = -1;
  return p;
}

struct node_bfs *spec_CreateHeaderList(void)
{
  struct node_bfs *h = NEW(node_bfs);
  h->d = -1;
  return h;
}

struct node_tree *spec_CreateNodeTree(void)
{
  struct node_tree *t = NEW(node_tree);
  t->label = (char *)calloc(MAX_LABEL_LENGTH, 1);
  return t;
}

/* a link appears once; a second one adds its weight (and counts as success) or is ignored */
int spec_AddAdjacency(struct node_gra *from, struct node_gra *to, int loops, int add, double weight, int status)
{
  struct node_lis *last = from->neig, *l;
  if (loops == 0 && from == to) return 0;
  forget(from);
  forget(to);
  while (last->next) {
    last = last->next;
    if (last->ref == to) {
      if (add != 0) last->weight = last->weight + weight;
      return add != 0;
    }
  }
  l = NEW(node_lis);
  last->next = l;
  l->ref = to;
  l->node = to->num;
  l->nodeLabel = label_of(to->label);
  l->status = status;
  l->weight = weight;
  return 1;
}

int spec_AddAdjacencySoft(struct node_gra *from, char *to, int loops, int add, double weight, int status)
{
  struct node_lis *last = from->neig, *l;
  if (loops == 0 && strcmp(from->label, to) == 0) return 0;
  while (last->next) {
    last = last->next;
    if (strcmp(last->nodeLabel, to) == 0) {
      if (add != 0) last->weight = last->weight + weight;
      return add != 0;
    }
  }
  l = NEW(node_lis);
  last->next = l;
  l->nodeLabel = label_of(to);
  l->status = status;
  l->weight = weight;
  return 1;
}

void spec_RewireAdjacencyByLabel(struct node_gra *net)
{
  void *dict = MakeLabelDict(net);
  EACH_NODE(p, net) {
    forget(p);
    EACH_LINK(l, p) {
      l->ref = GetNodeDict(l->nodeLabel, dict);
      l->node = l->ref->num;
    }
  }
  FreeLabelDict(dict);
}

void spec_RewireAdjacencyByNum(struct node_gra *net)
{
  struct node_gra **at = (struct node_gra **)calloc(CountNodes(net), sizeof *at);
  EACH_NODE(p, net) at[p->num] = p;
  EACH_NODE(p, net) {
    forget(p);
    EACH_LINK(l, p) {
      l->ref = at[l->node];
      strcpy(l->nodeLabel, at[l->node]->label);
    }
  }
  free(at);
}

void spec_CopyAdjacencyList(struct node_gra *from, struct node_gra *to)
{
  EACH_LINK(l, from) AddAdjacencySoft(to, l->nodeLabel, 1, 0, l->weight, l->status);
}

struct node_gra *spec_CopyNetwork(struct node_gra *net)
{
  struct node_gra *copy = CreateHeaderGraph(), *last = copy;
  EACH_NODE(p, net) {
    last = CreateNodeGraph(last, p->label);
    last->coorX = p->coorX;
    last->coorY = p->coorY;
    last->coorZ = p->coorZ;
    last->state = p->state;
    last->ivar1 = p->ivar1;
    last->dvar1 = p->dvar1;
    last->inGroup = p->inGroup;
    CopyAdjacencyList(p, last);
  }
  RewireAdjacencyByLabel(copy);
  return copy;
}

void *spec_MakeLabelDict(struct node_gra *net)
{
  void *dict = NULL;
  EACH_NODE(p, net) {
    struct node_tree *t = CreateNodeTree();
    t->label = strcpy(t->label, p->label);
    t = *(struct node_tree **)tsearch(t, &dict, NodeTreeLabelCompare);
    t->ref = p;
  }
  return dict;
}

struct node_gra *spec_GetNodeDict(char *label, void *dict)
{
  struct node_tree *t = CreateNodeTree();
  void *found;
  t->label = strcpy(t->label, label);
  found = tfind(t, &dict, NodeTreeLabelCompare);
  FreeNodeTree(t);
  return found ? (*(struct node_tree **)found)->ref : NULL;
}

int spec_NodeTreeLabelCompare(const void *a, const void *b)
{
  return strcmp(((const struct node_tree *)a)->label, ((const struct node_tree *)b)->label);
}

void spec_FreeNodeTree(struct node_tree *t)
{
  free(t->label);
  free(t);
}

void spec_FreeNodeLis(struct node_lis *l)
{
  free(l->nodeLabel);
  free(l);
}

static void unlink_one(struct node_gra *from, struct node_gra *to)
{
  struct node_lis *before = from->neig, *l;
  while (before->next->ref != to) before = before->next;
  l = before->next;
  before->next = l->next;
  FreeNodeLis(l);
}

void spec_RemoveLink(struct node_gra *a, struct node_gra *b, int symmetric)
{
  forget(a);
  forget(b);
  unlink_one(a, b);
  if (symmetric != 0 && a != b)
    unlink_one(b, a);
}

struct node_gra *spec_GetNode(int num, struct node_gra *net)
{
  while (net->next->num != num) net = net->next;
  return net->next;
}

struct node_lis *spec_GetLink(struct node_gra *node, int num)
{
  struct node_lis *l = node->neig;
  while (l->next->node != num) l = l->next;
  return l->next;
}

int spec_IsThereNode(char *label, struct node_gra *net)
{
  EACH_NODE(p, net) if (strcmp(p->label, label) == 0) return 1;
  return 0;
}

int spec_IsThereLink(struct node_gra *a, struct node_gra *b)
{
  EACH_LINK(l, a) if (l->ref == b) return 1;
  return 0;
}

int spec_IsThereLinkSoft(struct node_gra *a, int num)
{
  EACH_LINK(l, a) if (l->node == num) return 1;
  return 0;
}

int spec_RemoveIsolatedNodes(struct node_gra *net)
{
  int removed = 0;
  for (struct node_gra *p = net; p->next;)
    if (NodeDegree(p->next) == 0) {
      struct node_gra *gone = p->next;
      p->next = gone->next;
      FreeNode(gone);
      removed++;
    } else
      p = p->next;
  RenumberNodes(net);
  return removed;
}

/* drop the links to nodes that are not in the network */
void spec_CleanAdjacencies(struct node_gra *net)
{
  void *dict = MakeLabelDict(net);
  EACH_NODE(p, net) {
    forget(p);
    for (struct node_lis *l = p->neig; l->next;)
      if (!GetNodeDict(l->next->nodeLabel, dict)) {
        struct node_lis *gone = l->next;
        l->next = gone->next;
        FreeNodeLis(gone);
      } else
        l = l->next;
  }
  FreeLabelDict(dict);
}

void spec_ClearAdjacencies(struct node_gra *net, int *keep)
{
  EACH_NODE(p, net)
    for (struct node_lis *l = p->neig; l->next;)
      if (keep[l->next->node] == 0) {
        struct node_lis *gone = l->next;
        l->next = gone->next;
        FreeNodeLis(gone);
      } else
        l = l->next;
}

/* nLinks different links, all equally likely; each undirected link is listed at its lower end */
void spec_RemoveRandomLinks(struct node_gra *net, int n, int symmetric, gsl_rng *gen)
{
  int all = TotalNLinks(net, symmetric), k = 0, *gone = allocate_i_vec(all);
  UPTO(i, all) gone[i] = 0;
  UPTO(i, n) {
    int x;
    do x = gsl_rng_uniform_int(gen, all);
    while (gone[x] == 1);
    gone[x] = 1;
  }
  EACH_NODE(p, net)
    for (struct node_lis *l = p->neig; l->next;) {
      if (symmetric == 0 || p->num <= l->next->ref->num) {
        if (gone[k] == 1) RemoveLink(p, l->next->ref, symmetric);
        else l = l->next;
        k++;
      } else
        l = l->next;
    }
  free_i_vec(gone);
}

void spec_AddRandomLinks(struct node_gra *net, int n, int symmetric, gsl_rng *gen)
{
  int nodes = CountNodes(net);
  struct node_gra **at = (struct node_gra **)calloc(nodes, sizeof *at);
  EACH_NODE(p, net) at[p->num] = p;
  UPTO(i, n) {
    int a, b;
    do {
      a = gsl_rng_uniform_int(gen, nodes);
      b = gsl_rng_uniform_int(gen, nodes);
    } while (a == b || IsThereLink(at[a], at[b]) == 1);
    AddAdjacency(at[a], at[b], 0, 0, 1, 0);
    if (symmetric != 0) AddAdjacency(at[b], at[a], 0, 0, 1, 0);
  }
  free(at);
}

void spec_ResetNodesState(struct node_gra *net)
{
  EACH_NODE(p, net) p->state = 0;
}

void spec_RenumberNodes(struct node_gra *net)
{
  int i = 0;
  EACH_NODE(p, net) p->num = i++;
  EACH_NODE(p, net) EACH_LINK(l, p) l->node = l->ref->num;
}

/* swap the ends of two links without common nodes, never creating a link that is there; every node keeps its degree */
struct node_gra *spec_RandomizeSymmetricNetwork(struct node_gra *net, double times, gsl_rng *gen)
{
  int m = TotalNLinks(net, 1), k = 0;
  int swaps = ceil(times * m + gsl_rng_uniform(gen));
  struct node_gra **from = (struct node_gra **)calloc(m, sizeof *from), **to = (struct node_gra **)calloc(m, sizeof *to);
  EACH_NODE(p, net) EACH_LINK(l, p)
    if (l->node < p->num) {
      from[k] = p;
      to[k] = l->ref;
      k++;
    }
  if (k != m) fprintf(stderr, "Error in RandomizeNetwork: coun != nlink!!\n");
  UPTO(s, swaps) {
    int x, y;
    struct node_gra *a, *b, *c, *d;
    do {
      do {
        x = floor(gsl_rng_uniform(gen) * m);
        a = from[x];
        b = to[x];
        y = floor(gsl_rng_uniform(gen) * m);
        if (gsl_rng_uniform(gen) < 0.5) {
          c = to[y];
          d = from[y];
        } else {
          c = from[y];
          d = to[y];
        }
      } while (c == a || c == b || d == a || d == b);
    } while (IsThereLinkSoft(a, d->num) == 1 || IsThereLinkSoft(b, c->num) == 1);
    RemoveLink(a, b, 1);
    RemoveLink(c, d, 1);
    AddAdjacency(a, d, 0, 0, 1, 1);
    AddAdjacency(d, a, 0, 0, 1, 1);
    AddAdjacency(c, b, 0, 0, 1, 1);
    AddAdjacency(b, c, 0, 0, 1, 1);
    from[x] = a;
    to[x] = d;
    from[y] = c;
    to[y] = b;
  }
  free(from);
  free(to);
  return net;
}

/* union of the two networks; the weights of the first are kept, links only in the second get weight 1 */
struct node_gra *spec_AddTwoNetworks(struct node_gra *a, struct node_gra *b)
{
  struct node_gra *sum = CopyNetwork(a);
  void *ina = MakeLabelDict(a), *all;
  EACH_NODE(p, b) if (!GetNodeDict(p->label, ina)) CreateNodeGraph(sum, p->label);
  FreeLabelDict(ina);
  all = MakeLabelDict(sum);
  EACH_NODE(p, b) EACH_LINK(l, p)
    AddAdjacency(GetNodeDict(p->label, all), GetNodeDict(l->ref->label, all), 1, 0, 1, 0);
  FreeLabelDict(all);
  return sum;
}

int spec_CountNodes(struct node_gra *net)
{
  int n = 0;
  EACH_NODE(p, net) n++;
  return n;
}

unsigned int spec_NodeDegree(struct node_gra *node)
{
  if (node->degree == 0 && node->neig->next) {
    unsigned int k = 0;
    EACH_LINK(l, node) k++;
    node->degree = k;
  }
  return node->degree;
}

double spec_NodeStrength(struct node_gra *node)
{
  if (node->strength == 0 && node->neig->next) {
    double w = 0;
    EACH_LINK(l, node) w += l->weight;
    node->strength = node->strength + w;
  }
  return node->strength;
}

int spec_TotalNLinks(struct node_gra *net, int symmetric)
{
  int ends = 0;
  EACH_NODE(p, net) ends += (int)NodeDegree(p);
  return symmetric == 0 ? ends : ends / 2;
}

void spec_FPrintDegrees(FILE *f, struct node_gra *net)
{
  EACH_NODE(p, net) fprintf(f, "%s %d\n", p->label, NodeDegree(p));
}

void spec_ClearPredecessors(struct pred *p)
{
  if (p->next) ClearPredecessors(p->next);
  free(p);
}

void spec_FreeAdjacencyList(struct node_lis *l)
{
  if (l->next) FreeAdjacencyList(l->next);
  FreeNodeLis(l);
}

void spec_RemoveGraph(struct node_gra *p)
{
  if (p->next) RemoveGraph(p->next);
  FreeNode(p);
}

void spec_FreeNode(struct node_gra *p)
{
  if (p->neig) FreeAdjacencyList(p->neig);
  free(p->label);
  free(p);
}

/* a symmetric network lists each link once */
void spec_FPrintNetAdjacencyList(FILE *f, struct node_gra *net, int weights, int symmetric)
{
  EACH_NODE(p, net) EACH_LINK(l, p) {
    if (symmetric && strcmp(p->label, l->ref->label) > 0) continue;
    if (weights) fprintf(f, "%s %s %g\n", p->label, l->ref->label, l->weight);
    else fprintf(f, "%s %s\n", p->label, l->ref->label);
  }
}

void spec_FPrintPajekFile(char *name, struct node_gra *net, int coordinates, int weights, int symmetric)
{
  FILE *f = fopen(name, "w");
  if (!f) return;
  fprintf(f, "*Vertices %d\n", CountNodes(net));
  EACH_NODE(p, net) {
    if (coordinates == 1) fprintf(f, "%d \"%s\"           %lf %lf %lf\n", p->num + 1, p->label, p->coorX, p->coorY, p->coorZ);
    else fprintf(f, "%d \"%s\"\n", p->num + 1, p->label);
  }
  fprintf(f, symmetric ? "*Edges\n" : "*Arcs\n");
  EACH_NODE(p, net) EACH_LINK(l, p) {
    if (symmetric && p->num > l->ref->num) continue;
    if (weights) fprintf(f, "%d   %d   %g\n", p->num + 1, l->ref->num + 1, l->weight);
    else fprintf(f, "%d   %d\n", p->num + 1, l->ref->num + 1);
  }
  fclose(f);
}

/* takes the element after 'one' out of a breadth-first queue */
struct node_gra *spec_DequeueOne(struct node_bfs *list, struct node_bfs *one, int *size)
{
  struct node_bfs *out = one->next;
  if (list->last == out) for (struct node_bfs *q = list; q->next; q = q->next) q->last = one;
  one->next = out->next;
  *size -= 1;
  struct node_gra *node = out->ref;
  ClearPredecessors(out->pred);
  free(out);
  return node;
}

/* the node with this name: known already, or new at the end of the network */
static struct node_gra *named(char *name, void **dict, struct node_gra **last)
{
  struct node_tree *t = CreateNodeTree(), *known;
  strcpy(t->label, name);
  known = *(struct node_tree **)tsearch(t, dict, NodeTreeLabelCompare);
  if (known->ref) FreeNodeTree(t);
  else known->ref = *last = CreateNodeGraph(*last, name);
  return known->ref;
}

/* one link per line: two names and, if asked for, a weight */
struct node_gra *spec_FBuildNetwork(FILE *f, int weights, int loops, int add, int symmetric)
{
  struct node_gra *net = CreateHeaderGraph(), *last = net;
  char a[MAX_LABEL_LENGTH], b[MAX_LABEL_LENGTH], *line = NULL;
  void *dict = NULL;
  double w;
  size_t room = 0;
  while (getline(&line, &room, f) != -1) {
    if (weights == 0) {
      sscanf(line, "%99s %99s", a, b);
      w = 1;
    } else {
      sscanf(line, "%99s %99s %lf", a, b, &w);
    }
    struct node_gra *x = named(a, &dict, &last), *y = named(b, &dict, &last);
    AddAdjacency(x, y, loops, add, w, 0);
    if (symmetric && x != y) AddAdjacency(y, x, loops, add, w, 0);
  }
  free(line);
  FreeLabelDict(dict);
  return net;
}
