/* breadth-first search, distances, clustering, betweenness, connectivity, similarity of nodes and networks */
#include "spec.h"
#include "datastruct.h"

double spec_AverageDegree(struct node_gra *net, int symmetric)
{
  double links = TotalNLinks(net, symmetric);
  return (symmetric == 0 ? links : 2 * links) / CountNodes(net);
}

double spec_AverageSquaredDegree(struct node_gra *net)
{
  double s = 0, n = 0;
  EACH_NODE(p, net) {
    s += (double)(int)NodeDegree(p) * (int)NodeDegree(p);
    n += 1;
  }
  return s / n;
}

struct node_bfs *spec_GetBFS(struct node_gra *node, struct node_bfs *list)
{
  for (; list; list = list->next)
    if (list->ref == node) return list;
  return NULL;
}

void spec_AddPredecessor(struct node_bfs *node, struct node_bfs *pred)
{
  struct pred *last = node->pred;
  for (; last->next; last = last->next) ;
  last->next = NEW(pred);
  last->next->ref = pred;
}

int spec_CountPredecessors(struct node_bfs *node)
{
  int n = 0;
  if (node->pred->ref->ref == NULL) return 0;           /* the root of the search hangs from the header */
  for (struct pred *p = node->pred; p; p = p->next) n++;
  return n;
}

void spec_Enqueue(struct node_gra *node, struct node_bfs *pred, struct node_bfs *queue, int *size, int dist)
{
  if (node->state == 0) {
    struct node_bfs *e = NEW(node_bfs), *last = queue->last ? queue->last : queue;
    e->d = dist;
    e->ref = node;
    e->pred = NEW(pred);
    e->pred->ref = pred;
    e->prev = last;
    *size = *size + 1;
    node->state = 1;
    if (queue->last) queue->last->next = e;
    else queue->next = e;
    queue->last = e;
  } else {
    struct node_bfs *e = GetBFS(node, pred);
    if (e && e->d == dist) AddPredecessor(e, pred);
  }
}

void spec_EnqueueAdjaList(struct node_bfs *from, struct node_bfs *queue, int *size, int d)
{
  EACH_LINK(l, from->ref) Enqueue(l->ref, from, queue, size, d);
}

struct node_gra *spec_Dequeue(struct node_bfs *queue, int *size)
{
  struct node_bfs *e = queue->next;
  struct node_gra *node;
  queue->next = e->next;
  if (!e->next) queue->last = NULL;
  else e->next->prev = queue;
  *size = *size - 1;
  node = e->ref;
  ClearPredecessors(e->pred);
  free(e);
  return node;
}

/* enqueue the neighbours of all elements of shell d */
struct node_bfs *spec_RenewQueue(struct node_bfs *queue, struct node_bfs *at, int *size, int d)
{
  for (; at->next && at->next->d == d; at = at->next)
    EnqueueAdjaList(at->next, queue, size, d + 1);
  return at;
}

void spec_ClearList(struct node_bfs *queue, int *size)
{
  while (queue->next) Dequeue(queue, size);
}

/* fraction of the nodes at each distance, averaged over starting nodes */
static int shells(struct node_gra *net, struct node_gra *from, struct node_bfs *q, int *size, double *h, double w)
{
  struct node_bfs *at = q;
  int before, d = 0;
  Enqueue(from, q, q, size, 0);
  do {
    before = *size;
    at = RenewQueue(q, at, size, d);
    d++;
    if (*size != before) h[d] += (double)(*size - before) / w;
  } while (*size != before);
  return *size;
}

double spec_AveragePathLength(struct node_gra *net)
{
  struct node_bfs *q = CreateHeaderList();
  int n = CountNodes(net), size = 0;
  double *h = allocate_d_vec(n + 2), sum = 0;
  UPTO(i, n + 2) h[i] = 0;
  EACH_NODE(p, net) {
    ResetNodesState(net);
    if (shells(net, p, q, &size, h, n) != n) {
      printf("Sorry, the network is not connected!\n");
      ClearList(q, &size);
      free_d_vec(h);
      free(q);
      return -1;
    }
    ClearList(q, &size);
  }
  UPTO(i, n + 2) if (h[i] != 0) sum += i * h[i] / (n - 1);
  free_d_vec(h);
  free(q);
  return sum;
}

double spec_AverageInverseDistance(struct node_gra *net)
{
  struct node_bfs *q = CreateHeaderList();
  int n = CountNodes(net), size = 0;
  double *h = allocate_d_vec(n + 2), sum = 0;
  UPTO(i, n + 2) h[i] = 0;
  EACH_NODE(p, net) {
    ResetNodesState(net);
    shells(net, p, q, &size, h, n);
    ClearList(q, &size);
  }
  UPTO(i, n + 2) if (h[i] != 0) sum += h[i] / ((double)i * (n - 1));
  free_d_vec(h);
  free(q);
  return sum;
}

int spec_SumCommonLinks(struct node_gra *node, struct node_gra *net)
{
  int n = 0;
  EACH_LINK(l, node) if (l->ref->state == 1) n++;
  return n;
}

int spec_CalculateLinksBetweenNeig(struct node_bfs *queue, struct node_gra *net)
{
  int n = 0;
  for (struct node_bfs *e = queue->next; e; e = e->next) n += SumCommonLinks(e->ref, net);
  return n;
}

/* queue the neighbours of a node (and only these): returns how many */
static int neighbours(struct node_gra *net, struct node_gra *p, struct node_bfs *q, int *size)
{
  ResetNodesState(net);
  Enqueue(p, q, q, size, 0);
  RenewQueue(q, q, size, 0);
  Dequeue(q, size);
  return *size;
}

double spec_ClusteringCoefficient(struct node_gra *net)
{
  struct node_bfs *q = CreateHeaderList();
  int size = 0, n = CountNodes(net);
  double sum = 0;
  EACH_NODE(p, net) {
    int k = neighbours(net, p, q, &size);
    if (k > 1) {
      p->state = 0;
      sum += (double)CalculateLinksBetweenNeig(q, net) / ((double)k * (k - 1));
    } else
      n--;
    ClearList(q, &size);
  }
  free(q);
  return sum / n;
}

double spec_ClusteringCoefficient2(struct node_gra *net)
{
  struct node_bfs *q = CreateHeaderList();
  int size = 0;
  double closed = 0, pairs = 0;
  EACH_NODE(p, net) {
    int k = neighbours(net, p, q, &size);
    if (k > 1) {
      p->state = 0;
      closed += CalculateLinksBetweenNeig(q, net);
      pairs += (double)k * (k - 1);
    }
    ClearList(q, &size);
  }
  free(q);
  return closed / pairs;
}

double spec_OneNodeClusteringCoefficient(struct node_gra *p, struct node_gra *net)
{
  struct node_bfs *q = CreateHeaderList();
  int size = 0, k = neighbours(net, p, q, &size);
  double c = -1;
  if (k > 1) {
    p->state = 0;
    c = (double)CalculateLinksBetweenNeig(q, net) / ((double)k * (k - 1));
  }
  ClearList(q, &size);
  free(q);
  return c;
}

double spec_OneNodeSquareClustering(struct node_gra *node, struct node_gra *net)
{
  struct node_bfs *q, *at, *e;
  int size = 0, first, k1 = 0, k2 = 0, c = 0;
  double r;
  if (NodeDegree(node) == 0) return -1;
  q = CreateHeaderList();
  ResetNodesState(net);
  Enqueue(node, q, q, &size, 0);
  at = RenewQueue(q, q, &size, 0);
  first = size;
  RenewQueue(q, at, &size, 1);
  if (size == first) {
    ClearList(q, &size);
    free(q);
    return -3;
  }
  for (e = q->next->next; e->d < 2; e = e->next) k1++;
  for (; e; e = e->next) {
    int n = CountPredecessors(e);
    k2++;
    c += n * (n - 1);
  }
  if (k1 <= 1) {
    ClearList(q, &size);
    free(q);
    return -2;
  }
  r = (double)c / ((double)k2 * k1 * (k1 - 1));
  ClearList(q, &size);
  free(q);
  return r;
}

/* Brandes, J. Math. Sociol. 25, 163 (2001); ordered pairs */
void spec_CalculateNodeBetweenness(struct node_gra *net)
{
  int n = CountNodes(net);
  EACH_NODE(p, net) p->dvar1 = 0;
  EACH_NODE(s, net) {
    struct stack *S = stack_create();
    struct queue **pred = (struct queue **)calloc(n, sizeof *pred), *Q;
    int *paths = allocate_i_vec(n), *dist = allocate_i_vec(n);
    double *dep = allocate_d_vec(n);
    Q = queue_create();
    UPTO(i, n) {
      pred[i] = queue_create();
      paths[i] = 0;
      dist[i] = -1;
      dep[i] = 0;
    }
    paths[s->num] = 1;
    dist[s->num] = 0;
    queue_enqueue(Q, s);
    while (!queue_empty(Q)) {
      struct node_gra *v = (struct node_gra *)queue_dequeue(Q);
      stack_push(S, v);
      EACH_LINK(l, v) {
        struct node_gra *w = l->ref;
        if (dist[w->num] < 0) {
          queue_enqueue(Q, w);
          dist[w->num] = dist[v->num] + 1;
        }
        if (dist[w->num] == dist[v->num] + 1) {
          paths[w->num] = paths[w->num] + paths[v->num];
          queue_enqueue(pred[w->num], v);
        }
      }
    }
    while (!stack_empty(S)) {
      struct node_gra *w = (struct node_gra *)stack_pop(S);
      while (!queue_empty(pred[w->num])) {
        struct node_gra *v = (struct node_gra *)queue_dequeue(pred[w->num]);
        dep[v->num] += (double)paths[v->num] / paths[w->num] * (1 + dep[w->num]);
      }
      if (w->num != s->num) w->dvar1 += dep[w->num];
    }
    stack_free(S);
    UPTO(i, n) queue_free(pred[i]);
    free(pred);
    free_i_vec(paths);
    free_i_vec(dist);
    free_d_vec(dep);
    queue_free(Q);
  }
}

void spec_NodeBetweennessStatistics(struct node_gra *net, double *mu, double *sd, double *lo, double *hi)
{
  int n = CountNodes(net);
  double *b = allocate_d_vec(n);
  CalculateNodeBetweenness(net);
  EACH_NODE(p, net) b[p->num] = p->dvar1;
  *mu = mean(b, n);
  *sd = stddev(b, n);
  *lo = min(b, n);
  *hi = max(b, n);
  free_d_vec(b);
}

void spec_CalculateLinkBetweenness(struct node_gra *net)
{
  int n = CountNodes(net), size = 0;
  int *there = allocate_i_vec(n);
  double *flow = allocate_d_vec(n);
  struct node_bfs *q = CreateHeaderList();
  UPTO(i, n) there[i] = 0;
  EACH_NODE(p, net) {
    there[p->num] = 1;
    EACH_LINK(l, p) l->btw = 0;
  }
  EACH_NODE(p, net) {
    struct node_bfs *at = q;
    int before, d = 0, k;
    ResetNodesState(net);
    Enqueue(p, q, q, &size, 0);
    do {
      before = size;
      at = RenewQueue(q, at, &size, d);
      d++;
    } while (size != before);
    UPTO(i, n) flow[i] = there[i];
    /* every node sends one unit to the root, split equally among its predecessors */
    for (struct node_bfs *e = q->last; (k = CountPredecessors(e)) != 0; e = e->prev)
      for (struct pred *t = e->pred; t; t = t->next) {
        struct node_lis *l;
        flow[t->ref->ref->num] += flow[e->ref->num] / k;
        l = e->ref->neig->next;
        while (l->node != t->ref->ref->num) l = l->next;
        l->btw += flow[e->ref->num] / k;
        l = t->ref->ref->neig->next;
        while (l->node != e->ref->num) l = l->next;
        l->btw += flow[e->ref->num] / k;
      }
    ClearList(q, &size);
  }
  free_i_vec(there);
  free_d_vec(flow);
  free(q);
}

/* Pearson correlation of the degrees at the two ends of a link (Newman 2002) */
double spec_Assortativity(struct node_gra *net)
{
  int *deg = allocate_i_vec(CountNodes(net));
  double M = 0, prod = 0, sum = 0, sq = 0, mean;
  EACH_NODE(p, net) {
    deg[p->num] = NodeDegree(p);
    M += deg[p->num];
  }
  EACH_NODE(p, net) EACH_LINK(l, p) {
    double j = deg[p->num], k = deg[l->ref->num];
    prod += j * k;
    sum += j + k;
    sq += j * j + k * k;
  }
  free_i_vec(deg);
  mean = sum / (2 * M);
  return (prod / M - mean * mean) / (sq / (2 * M) - mean * mean);
}

double spec_CalculateKnn(struct node_gra *node)
{
  double s = 0, n = 0;
  EACH_LINK(l, node) {
    s += (int)NodeDegree(l->ref);
    n += 1;
  }
  return s / n;
}

int spec_IsGraphConnected(struct node_gra *net)
{
  struct node_bfs *q, *at;
  int n = CountNodes(net), size = 0, before, d = 0;
  ResetNodesState(net);
  q = CreateHeaderList();
  Enqueue(net->next, q, q, &size, 0);
  at = q;
  do {
    before = size;
    at = RenewQueue(q, at, &size, d++);
  } while (size != before);
  ClearList(q, &size);
  free(q);
  return before == n;
}

int spec_CommonNeighbors(struct node_gra *a, struct node_gra *b)
{
  int n = 0;
  EACH_LINK(l, a) n += IsThereLink(l->ref, b);
  return n;
}

/* common neighbours over all neighbours, the link between the two not counted */
double spec_JaccardIndex(struct node_gra *a, struct node_gra *b)
{
  int ka = (int)NodeDegree(a), kb = (int)NodeDegree(b), common = 0;
  EACH_LINK(l, a)
    if (l->ref == b) {
      ka--;
      kb--;
    } else
      common += IsThereLink(l->ref, b);
  return common == 0 ? 0 : (double)common / (ka + kb - common);
}

/* Ravasz et al.: neighbours of the node with fewer links that are (or are neighbours of) the other one, over their number */
double spec_TopologicalOverlap(struct node_gra *a, struct node_gra *b)
{
  int ka = (int)NodeDegree(a), kb = (int)NodeDegree(b);
  int a_small = ka < kb, common = 0;
  struct node_gra *small = a_small ? a : b, *other = a_small ? b : a;
  EACH_LINK(l, small) common += l->ref == other ? 1 : IsThereLinkSoft(other, l->node);
  return (double)common / (a_small ? ka : kb);
}

static struct node_tree *intern(struct node_gra *p, void **dict)
{
  struct node_tree *t = CreateNodeTree();
  strcpy(t->label, p->label);
  t = *(struct node_tree **)tsearch(t, dict, NodeTreeLabelCompare);
  t->ref = p;
  return t;
}

void spec_CompareTwoNetworks(struct node_gra *A, struct node_gra *B, int *nA, int *nB, int *ncom, double *nAB, double *nBA,
                             int *lA, int *lB, int *lcom, double *lAB, double *lBA)
{
  void *inA = NULL, *inB = NULL;
  int a = 0, b = 0, c = 0;
  *ncom = *nA = *nB = *lcom = *lA = *lB = 0;
  EACH_NODE(p, A) {
    intern(p, &inA);
    *nA += 1;
  }
  EACH_NODE(p, B) {
    intern(p, &inB);
    *nB += 1;
    if (GetNodeDict(p->label, inA)) *ncom += 1;
  }
  *nAB = (double)*ncom / *nB;
  *nBA = (double)*ncom / *nA;
  /* links between common nodes only */
  EACH_NODE(p, A) EACH_LINK(l, p) {
    struct node_gra *x = GetNodeDict(p->label, inB);
    if (x) {
      struct node_gra *y = GetNodeDict(l->ref->label, inB);
      if (y) {
        *lA += 1;
        if (IsThereLink(x, y) == 1) *lcom += 1;
        else fprintf(stderr, ">> %s %s\n", x->label, y->label);
      }
    }
  }
  EACH_NODE(p, B) EACH_LINK(l, p) {
    struct node_gra *x = GetNodeDict(p->label, inA);
    if (x) {
      struct node_gra *y = GetNodeDict(l->ref->label, inA);
      if (y) {
        *lB += 1;
        if (IsThereLink(x, y) != 1) fprintf(stderr, "<< %s %s\n", x->label, y->label);
      }
    }
  }
  *lA = *lA / 2;
  *lB = *lB / 2;
  *lcom = *lcom / 2;
  *lAB = (double)*lcom / *lB;
  *lBA = (double)*lcom / *lA;
  FreeLabelDict(inA);
  FreeLabelDict(inB);
}

/* share of the pairs of neighbours of a node that have a further node in common, per second neighbour */
double spec_SquareClustering(struct node_gra *net)
{
  int all = CountNodes(net), nodes = all, found = 0, *size = &found;
  struct node_bfs *list = CreateHeaderList();
  double sum = 0;
  EACH_NODE(p, net) {
    ResetNodesState(net);
    Enqueue(p, list, list, size, 0);
    if (*size >= all) {
      ClearList(list, size);
      free(list);
      return -1;
    }
    struct node_bfs *last = RenewQueue(list, list, size, 0);
    if (*size < all) {
      RenewQueue(list, last, size, 1);
      int near = 0, far = 0, closed = 0;
      struct node_bfs *q = list->next->next;
      while (q && q->d < 2) {
        q = q->next;
        near++;
      }
      while (q) {
        int n = CountPredecessors(q);
        far++;
        closed += n * (n - 1);
        q = q->next;
      }
      if (near > 1 && far > 0) sum += closed / (double)(far * near * (near - 1));
      else nodes--;
    } else {
      nodes--;
    }
    ClearList(list, size);
  }
  free(list);
  return sum / nodes;
}

void spec_FPrintDistanceHistogramFromNode(FILE *f, struct node_gra *net, int from)
{
  struct node_bfs *list = CreateHeaderList();
  int nodes = CountNodes(net), found = 0, *size = &found;
  double *at = allocate_d_vec(nodes + 2), mean = 0;
  UPTO(i, nodes + 2) at[i] = 0;
  EACH_NODE(p, net) {
    if (p->num != from) continue;
    ResetNodesState(net);
    Enqueue(p, list, list, size, 0);
    struct node_bfs *last = list;
    int d = 0, before;
    do {
      before = *size;
      last = RenewQueue(list, last, size, d);
      d++;
      if (*size != before) at[d] += *size - before;
    } while (*size != before);
    ClearList(list, size);
  }
  UPTO(i, nodes + 2) if (at[i] != 0) mean += i * at[i] / (nodes - 1);
  fprintf(f, "#Average distance = %lf\n", mean);
  fprintf(f, "#z = %lf\n", at[1]);
  free_d_vec(at);
  free(list);
}

void spec_FPrintDistanceHistogram(FILE *f, struct node_gra *net)
{
  int **pairs = allocate_i_mat(CountNodes(net), 2);
  struct node_bfs *list = CreateHeaderList();
  int nodes = CountNodes(net), found = 0, *size = &found, seen = 0;
  double *at = allocate_d_vec(nodes + 2), mean = 0, norm = 0;
  UPTO(i, nodes + 2) at[i] = 0;
  EACH_NODE(p, net) {
    seen++;
    printf("%d %d %d %d\n", seen, nodes, p->num, *size);
    ResetNodesState(net);
    Enqueue(p, list, list, size, 0);
    struct node_bfs *last = list;
    int d = 0, before;
    do {
      before = *size;
      last = RenewQueue(list, last, size, d);
      d++;
      if (*size != before) at[d] += (*size - before) / (double)nodes;
    } while (*size != before);
    ClearList(list, size);
  }
  UPTO(i, nodes + 2) if (at[i] != 0) {
    fprintf(f, "%d %lf\n", i, at[i] / (nodes - 1));
    mean += i * at[i] / (nodes - 1);
    norm += at[i] / (nodes - 1);
  }
  fprintf(f, "#Average distance = %lf\n", mean);
  fprintf(f, "#Normalization = %lf\n", norm);
  fprintf(f, "#z = %lf\n", at[1]);
  free_i_mat(pairs, CountNodes(net));
  free_d_vec(at);
  free(list);
}
