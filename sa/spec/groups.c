/* groups and partitions: creation, membership, group totals, lookups and counts */
#include "spec.h"

struct group *spec_CreateHeaderGroup(void)
{
  struct group *g = NEW(group);
  g->label = g->size = g->totlinks = g->inlinks = g->outlinks = -1;
  g->totlinksW = g->inlinksW = g->outlinksW = -1;
  g->coorX = g->coorY = g->coorZ = -1;
  return g;                     /* no members, no successor, no subgroups */
}

struct group *spec_CreateGroup(struct group *part, int label)
{
  struct group *last = part, *g;
  for (; last->next; last = last->next) ;
  g = NEW(group);
  last->next = g;
  g->label = label;
  g->coorX = g->coorY = g->coorZ = -1;
  g->nodeList = NEW(node_lis);
  g->nodeList->node = g->nodeList->status = -1;
  g->nodeList->btw = g->nodeList->weight = -1;
  return g;
}

static struct node_lis *append(struct group *g, int num, char *label, struct node_gra *node)
{
  struct node_lis *last = g->nodeList, *m;
  for (; last->next; last = last->next) ;
  m = NEW(node_lis);
  last->next = m;
  m->node = num;
  m->ref = node;
  m->nodeLabel = (char *)calloc(MAX_LABEL_LENGTH, 1);
  strcpy(m->nodeLabel, label);
  g->size = g->size + 1;
  return m;
}

struct node_lis *spec_AddNodeToGroup(struct group *g, struct node_gra *node)
{
  struct node_lis *m = append(g, node->num, node->label, node);
  int in = NLinksToGroup(node, g);
  double inW = StrengthToGroup(node, g);
  /* totlinks counts each link that touches the group once */
  g->totlinks += (int)NodeDegree(node) - in;
  g->inlinks += in;
  g->outlinks = g->totlinks - g->inlinks;
  g->totlinksW += NodeStrength(node) - inW;
  g->inlinksW += inW;
  g->outlinksW = g->totlinksW - g->inlinksW;
  node->inGroup = g->label;
  return m;
}

struct node_lis *spec_AddNodeToGroupFast(struct group *g, struct node_gra *node)
{
  struct node_lis *m = append(g, node->num, node->label, node);
  node->inGroup = g->label;
  return m;
}

struct node_lis *spec_AddNodeToGroupSoft(struct group *g, char *label)
{
  return append(g, -1, label, NULL);
}

static int detach(struct group *g, struct node_gra *node)
{
  struct node_lis *before = g->nodeList;
  while (before->next && before->next->ref != node)
    before = before->next;
  if (before->next) {
    struct node_lis *m = before->next;
    before->next = m->next;
    free(m->nodeLabel);
    free(m);
    g->size = g->size - 1;
    return 1;
  }
  return 0;
}

int spec_RemoveNodeFromGroup(struct group *g, struct node_gra *node)
{
  if (detach(g, node)) {
    int in = NLinksToGroup(node, g);
    double inW = StrengthToGroup(node, g);
    g->totlinks -= (int)NodeDegree(node) - in;
    g->inlinks -= in;
    g->outlinks = g->totlinks - g->inlinks;
    g->totlinksW -= NodeStrength(node) - inW;
    g->inlinksW -= inW;
    g->outlinksW = g->totlinksW - g->inlinksW;
    return 1;
  }
  return 0;
}

int spec_RemoveNodeFromGroupFast(struct group *g, struct node_gra *node)
{
  return detach(g, node);
}

int spec_MoveNode(struct node_gra *node, struct group *old, struct group *new)
{
  int was = RemoveNodeFromGroup(old, node);
  if (was != 0)
    AddNodeToGroup(new, node);
  return was != 0;
}

int spec_MoveNodeFast(struct node_gra *node, struct group *old, struct group *new)
{
  int was = RemoveNodeFromGroupFast(old, node);
  if (was != 0)
    AddNodeToGroupFast(new, node);
  return was != 0;
}

struct group *spec_GetGroup(struct group *part, int label)
{
  struct group *g;
  for (g = part->next; g; g = g->next)
    if (g->label == label) return g;
  return 0;
}

struct group *spec_GetEmptyGroup(struct group *part)
{
  struct group *g;
  for (g = part->next; g; g = g->next)
    if (g->size == 0) return g;
  return 0;
}

int spec_NGroups(struct group *part)
{
  int n = 0;
  EACH_GROUP(g, part) n++;
  return n;
}

int spec_NNonEmptyGroups(struct group *part)
{
  int n = 0;
  EACH_GROUP(g, part) n += g->size > 0;
  return n;
}

int spec_PartitionSize(struct group *part)
{
  int n = 0;
  EACH_GROUP(g, part) n += g->size;
  return n;
}

int spec_NLinksToGroupByNum(struct node_gra *node, int label)
{
  int n = 0;
  EACH_LINK(l, node) n += l->ref->inGroup == label;
  return n;
}

int spec_NLinksToGroup(struct node_gra *node, struct group *g)
{
  int n = 0;
  EACH_LINK(l, node) n += l->ref->inGroup == g->label;
  return n;
}

int spec_NWeightLinksToGroup(struct node_gra *node, struct group *g, double w)
{
  int n = 0;
  EACH_LINK(l, node) n += l->weight == w && l->ref->inGroup == g->label;
  return n;
}

double spec_StrengthToGroup(struct node_gra *node, struct group *g)
{
  double s = 0;
  EACH_LINK(l, node) s += l->ref->inGroup == g->label ? l->weight : 0;
  return s;
}

double spec_StrengthToGroupByNum(struct node_gra *node, int label)
{
  double s = 0;
  EACH_LINK(l, node) s += l->ref->inGroup == label ? l->weight : 0;
  return s;
}

/* inside one group every link is seen from both ends */
int spec_NG2GLinks(struct group *a, struct group *b)
{
  int n = 0;
  EACH_MEMBER(m, a) n += NLinksToGroup(m->ref, b);
  return a == b ? n / 2 : n;
}

int spec_NWeightG2GLinks(struct group *a, struct group *b, double w)
{
  int n = 0;
  EACH_MEMBER(m, a) n += NWeightLinksToGroup(m->ref, b, w);
  return a == b ? n / 2 : n;
}

double spec_NG2GLinksWeight(struct group *a, struct group *b)
{
  double s = 0;
  EACH_MEMBER(m, a) s += StrengthToGroup(m->ref, b);
  return a == b ? s / 2 : s;
}

void spec_ResetNetGroup(struct node_gra *net)
{
  EACH_NODE(p, net) p->inGroup = -1;
}

void spec_GroupSizeStatistics(struct group *part, double *av, double *sd, double *lo, double *hi)
{
  int n = NNonEmptyGroups(part), k = 0;
  double *s = allocate_d_vec(n);
  EACH_GROUP(g, part)
    if (g->size > 0)
      s[k++] = g->size;
  *av = mean(s, n);
  *sd = stddev(s, n);
  *lo = min(s, n);
  *hi = max(s, n);
  free_d_vec(s);
}

static void place(struct group *part, void *dict)
{
  EACH_GROUP(g, part) {
    g->totlinks = g->inlinks = g->outlinks = 0;
    g->totlinksW = g->inlinksW = g->outlinksW = 0;
    EACH_MEMBER(m, g) {
      struct node_gra *node = GetNodeDict(m->nodeLabel, dict);
      m->ref = node;
      m->node = node->num;
      node->inGroup = g->label;
    }
  }
}

void spec_MapPartToNetFast(struct group *part, struct node_gra *net)
{
  void *dict;
  ResetNetGroup(net);
  dict = MakeLabelDict(net);
  place(part, dict);
  FreeLabelDict(dict);
}

void spec_MapPartToNet(struct group *part, struct node_gra *net)
{
  void *dict;
  ResetNetGroup(net);
  dict = MakeLabelDict(net);
  place(part, dict);
  EACH_GROUP(g, part) {
    int in = 0, tot = 0;
    double inW = 0, totW = 0;
    EACH_MEMBER(m, g) {
      in += NLinksToGroup(m->ref, g);
      tot += NodeDegree(m->ref);
      inW += StrengthToGroup(m->ref, g);
      totW += NodeStrength(m->ref);
    }
    g->inlinks = in / 2;
    g->totlinks = tot - g->inlinks;
    g->outlinks = g->totlinks - g->inlinks;
    g->inlinksW = inW / 2;
    g->totlinksW = totW - g->inlinksW;
    g->outlinksW = g->totlinksW - g->inlinksW;
  }
  FreeLabelDict(dict);
}

struct group *spec_CreateEquiNPartitionSoft(int ngroups, int gsize)
{
  struct group *part = CreateHeaderGroup();
  UPTO(i, ngroups) {
    struct group *g = CreateGroup(part, i);
    UPTO(j, gsize) {
      char label[MAX_LABEL_LENGTH];
      sprintf(label, "%d", i * gsize + j + 1);
      AddNodeToGroupSoft(g, label);
    }
  }
  return part;
}

struct group *spec_CopyGroup(struct group *root, struct group *g)
{
  struct group *c = CreateGroup(root, g->label);
  c->coorX = g->coorX;
  c->coorY = g->coorY;
  c->coorZ = g->coorZ;
  EACH_MEMBER(m, g) AddNodeToGroup(c, m->ref);
  if (g->offspr)
    c->offspr = CopyPartition(g->offspr);
  return c;
}

void spec_RemovePartition(struct group *part)
{
  if (part->next) RemovePartition(part->next);
  if (part->nodeList) FreeAdjacencyList(part->nodeList);
  if (part->offspr) RemovePartition(part->offspr);
  free(part);
}

/* all members of one group go to the other */
void spec_MergeGroups(struct group *a, struct group *b)
{
  while (a->nodeList->next) MoveNode(a->nodeList->next->ref, a, b);
}

void spec_MergeGroupsFast(struct group *a, struct group *b)
{
  while (a->nodeList->next) MoveNodeFast(a->nodeList->next->ref, a, b);
}

/* links to or from the members of the group, to links between different groups, from all links of a network */
void spec_RemoveWithinGroupLinks(struct group *g, int symmetric)
{
  EACH_MEMBER(m, g) while (m->ref->neig->next) RemoveLink(m->ref, m->ref->neig->next->ref, symmetric);
}

void spec_RemoveInterGroupLinks(struct node_gra *net)
{
  EACH_NODE(p, net) {
    struct node_lis *l = p->neig;
    while (l->next) {
      if (l->next->ref->inGroup == p->inGroup) l = l->next;
      else RemoveLink(p, l->next->ref, 0);
    }
  }
}

void spec_RemoveBetweenGroupLinks(struct group *part, int symmetric)
{
  EACH_GROUP(g, part) EACH_MEMBER(m, g) {
    struct node_lis *l = m->ref->neig;
    while (l->next) {
      if (l->next->ref->inGroup == m->ref->inGroup) l = l->next;
      else RemoveLink(m->ref, l->next->ref, symmetric);
    }
  }
}

struct group *spec_CopyPartition(struct group *part)
{
  struct group *copy = CreateHeaderGroup(), *last = copy;
  EACH_GROUP(g, part) {
    CopyGroup(last, g);
    last = last->next;
  }
  return copy;
}

/* the partition without its empty groups */
struct group *spec_CompressPart(struct group *part)
{
  struct group *g = part;
  while (g->next) {
    if (g->next->size) {
      g = g->next;
    } else {
      struct group *empty = g->next;
      FreeNodeLis(empty->nodeList);
      g->next = empty->next;
      free(empty);
    }
  }
  return part;
}

/* consecutive nodes in groups of the given size, the rest in a last smaller one */
struct group *spec_CreateEquiNPartition(struct node_gra *net, int gsize)
{
  struct group *part = CreateHeaderGroup();
  struct node_gra *p = net;
  int groups = CountNodes(net) / gsize;
  for (int i = 0; i <= groups; i++) {
    struct group *g = CreateGroup(part, i);
    for (int j = 0; j < gsize && p->next; j++) {
      p = p->next;
      AddNodeToGroup(g, p);
    }
  }
  return CompressPart(part);
}

/* one group per label found in the network, in the order in which they turn up */
struct group *spec_CreatePartitionFromInGroup(struct node_gra *net)
{
  int most = 0;
  EACH_NODE(p, net) if (p->inGroup > most) most = p->inGroup;
  struct group **known = calloc(most + 1, sizeof(struct group *));
  struct group *part = CreateHeaderGroup();
  for (int i = 0; i <= most; i++) known[i] = NULL;
  EACH_NODE(p, net) {
    if (!known[p->inGroup]) known[p->inGroup] = CreateGroup(part, p->inGroup);
    AddNodeToGroup(known[p->inGroup], p);
  }
  free(known);
  return part;
}

/* the network of the members and the links among them */
struct node_gra *spec_BuildNetFromGroup(struct group *g)
{
  struct node_gra *net = CreateHeaderGraph(), *last = net;
  EACH_MEMBER(m, g) {
    struct node_gra *q = CreateNodeGraph(last, m->nodeLabel);
    q->state = m->ref->state;
    q->coorX = m->ref->coorX;
    q->coorY = m->ref->coorY;
    q->coorZ = m->ref->coorZ;
    q->ivar1 = m->ref->ivar1;
    q->dvar1 = m->ref->dvar1;
    CopyAdjacencyList(m->ref, q);
    last = q;
  }
  CleanAdjacencies(net);
  RewireAdjacencyByLabel(net);
  RenumberNodes(net);
  return net;
}

static struct node_gra *copied(struct node_gra *last, struct node_gra *p)
{
  struct node_gra *q = CreateNodeGraph(last, p->label);
  q->state = p->state;
  q->coorX = p->coorX;
  q->coorY = p->coorY;
  q->coorZ = p->coorZ;
  q->inGroup = p->inGroup;
  CopyAdjacencyList(p, q);
  return q;
}

/* the members and their neighbours in other groups */
struct node_gra *spec_BuildNetFromGroupNeig(struct group *g)
{
  struct node_gra *net = CreateHeaderGraph(), *last = net;
  EACH_MEMBER(m, g) {
    last = copied(last, m->ref);
    EACH_LINK(l, m->ref)
      if (IsThereNode(l->ref->label, net) == 0 && l->ref->inGroup != m->ref->inGroup) last = copied(last, l->ref);
  }
  CleanAdjacencies(net);
  RewireAdjacencyByLabel(net);
  return net;
}

void spec_MapPartToNetSoft(struct group *part, struct node_gra *net)
{
  ResetNetGroup(net);
  void *dict = MakeLabelDict(net);
  EACH_GROUP(g, part) {
    g->totlinks = g->inlinks = g->outlinks = 0;
    g->totlinksW = g->inlinksW = g->outlinksW = 0;
    EACH_MEMBER(m, g) {
      struct node_tree *t = CreateNodeTree();
      strcpy(t->label, m->nodeLabel);
      struct node_gra *node = (*(struct node_tree **)tfind(t, &dict, NodeTreeLabelCompare))->ref;
      FreeNodeTree(t);
      node->inGroup = g->label;
    }
  }
  FreeLabelDict(dict);
}

/* members of each group that is not empty, on one line with its totals or one per line with a separator */
void spec_FPrintPartition(FILE *f, struct group *part, int list)
{
  EACH_GROUP(g, part) {
    if (!(g->size > 0)) continue;
    if (list == 0)
      fprintf(f, "%d %d %d %d %d %lf %lf %lf ---", g->label + 1, g->size, g->totlinks, g->inlinks, g->outlinks,
              g->totlinksW, g->inlinksW, g->outlinksW);
    EACH_MEMBER(m, g) {
      if (list == 0) fprintf(f, " %s", m->nodeLabel);
      else fprintf(f, "%s\n", m->nodeLabel);
    }
    if (list == 0) fprintf(f, "\n");
    else fprintf(f, "///\n");
  }
}

void spec_FPrintPajekPartitionFile(char *name, struct node_gra *net)
{
  FILE *f = fopen(name, "w");
  if (!f) return;
  fprintf(f, "*Vertices %d\n", CountNodes(net));
  EACH_NODE(p, net) fprintf(f, "   %d\n", p->inGroup + 1);
  fclose(f);
}

/* links between each pair of groups that are not empty: number, fraction, probability, excess over random, z-score */
void spec_BlockModel(struct group *part, char type, int list)
{
  int links = 0, nodes = 0;
  double b = 0;
  EACH_GROUP(g, part) {
    if (!(g->size > 0)) continue;
    nodes += g->size;
    links += g->inlinks;
    for (struct group *h = g->next; h; h = h->next) if (h->size > 0) links += NG2GLinks(g, h);
  }
  double prob = 2.0 * links / (double)(nodes * (nodes - 1));
  EACH_GROUP(g, part) {
    if (!(g->size > 0)) continue;
    EACH_GROUP(h, part) {
      if (!(h->size > 0)) continue;
      double n, pairs;
      if (g == h) {
        n = g->inlinks;
        pairs = g->size * (g->size - 1) / 2.0;
      } else {
        pairs = g->size * h->size;
      }
      switch (type) {
      case 'n': b = g == h ? n : NG2GLinks(g, h); break;
      case 'f': b = (g == h ? n : NG2GLinks(g, h)) / links; break;
      case 'p': b = g == h ? 2 * g->inlinks / (double)(g->size * (g->size - 1)) : NG2GLinks(g, h) / pairs; break;
      case 'e':
        b = (g == h ? n : NG2GLinks(g, h)) / links
          - (double)((g->inlinks + g->totlinks) * (h->inlinks + h->totlinks)) / (double)(4 * links * links);
        break;
      case 'z': b = ((g == h ? n : NG2GLinks(g, h)) - prob * pairs) / sqrt(pairs * prob * (1 - prob)); break;
      }
      printf("%d %d %lf\n", g->label + 1, h->label + 1, b);
    }
  }
}

/* one module per line, the names of its nodes separated by tabs */
struct group *spec_FReadPartition(FILE *f)
{
  struct group *part = CreateHeaderGroup(), *g = CreateGroup(part, 0);
  char name[MAX_LABEL_LENGTH], end[2];
  int n = 0, fields;
  while ((fields = fscanf(f, "%99[^\t\n]%1[\t\n]%*[\t\n]", name, end)) > 0) {
    AddNodeToGroupSoft(g, name);
    if (fields > 1 && end[0] == '\n') g = CreateGroup(part, ++n);
  }
  return part;
}

static int one_name(FILE *f, char *name)
{
  int got = fscanf(f, "%99s\n", name);
  if (got != 1) printf("Failed to read input, incorrect field number (%d != 1)\n", got);
  return got;
}

/* names of nodes, the modules separated by /// */
struct group *spec_FCreatePartition(FILE *f)
{
  struct group *part = CreateHeaderGroup(), *g;
  char name[MAX_LABEL_LENGTH];
  int n = 0, got;
  while (!feof(f)) {
    g = CreateGroup(part, n++);
    got = one_name(f, name);
    while (got == 1 && strcmp(name, "///") != 0) {
      AddNodeToGroupSoft(g, name);
      got = one_name(f, name);
    }
  }
  return part;
}

/* groups of nodes that can reach each other */
struct group *spec_ClustersPartition(struct node_gra *net)
{
  struct group *part = CreateHeaderGroup(), *g;
  struct node_gra *p = net;
  struct node_bfs *queue, *at, *q;
  int size = 0, before, d, done = 0, n, all;
  ResetNetGroup(net);
  all = CountNodes(net);
  queue = CreateHeaderList();
  n = 0;
  do {
    p = p->next;
    while (p->inGroup >= 0) p = p->next;
    g = CreateGroup(part, n++);
    AddNodeToGroup(g, p);
    ResetNodesState(net);
    Enqueue(p, queue, queue, &size, 0);
    done++;
    at = queue;
    d = 0;
    do {
      before = size;
      at = RenewQueue(queue, at, &size, d);
      for (q = at->next; q; q = q->next) {
        done++;
        AddNodeToGroup(g, q->ref);
      }
      d++;
    } while (size != before);
    ClearList(queue, &size);
  } while (done < all);
  free(queue);
  return part;
}

/* the group's contribution to the modularity */
static double part_of(double inside, double touching, double links)
{
  return 2 * inside / links - touching * touching / (links * links);
}

/* splits a group in two: along its clusters, or by annealing the modularity of the network inside it */
struct group *spec_SAGroupSplit(struct group *whole, double Ti, double Tf, double Ts, int clusters, gsl_rng *gen)
{
  struct group *part, *two[2];
  struct node_gra **node = calloc(whole->size, sizeof *node), *net = BuildNetFromGroup(whole);
  int n, k = 0, links = 0, a, b;
  part = ClustersPartition(net);
  n = NGroups(part);
  if (clusters == 1 && n > 1 && gsl_rng_uniform(gen) < 0.5) {
    for (; n > 2; n--) {
      struct group *x = part, *y = part;
      a = ceil(gsl_rng_uniform(gen) * n);
      do b = ceil(gsl_rng_uniform(gen) * n); while (a == b);
      UPTO(i, a) x = x->next;
      UPTO(i, b) y = y->next;
      MergeGroups(x, y);
      part = CompressPart(part);
    }
  } else {
    RemovePartition(part);
    ResetNetGroup(net);
    part = CreateHeaderGroup();
    two[0] = CreateGroup(part, 0);
    two[1] = CreateGroup(part, 1);
    EACH_NODE(p, net) {
      node[k++] = p;
      links += NodeDegree(p);
      AddNodeToGroup(two[(int)floor(gsl_rng_uniform(gen) * 2)], p);
    }
    links /= 2;
    if (links > 0) for (double T = Ti; T > Tf; T *= Ts) UPTO(i, k) {
      struct node_gra *p = node[(int)floor(gsl_rng_uniform(gen) * k)];
      struct group *from = two[p->inGroup], *to = two[p->inGroup == 0 ? 1 : 0];
      int less = NLinksToGroup(p, from), more = NLinksToGroup(p, to), degree = NodeDegree(p);
      double d = part_of(from->inlinks - less, from->totlinks + from->inlinks - degree, links)
               + part_of(to->inlinks + more, to->totlinks + to->inlinks + degree, links)
               - part_of(from->inlinks, from->totlinks + from->inlinks, links)
               - part_of(to->inlinks, to->totlinks + to->inlinks, links);
      if (d >= 0 || gsl_rng_uniform(gen) < exp(d / T)) MoveNode(p, from, to);
    }
  }
  RemoveGraph(net);
  free(node);
  return part;
}
