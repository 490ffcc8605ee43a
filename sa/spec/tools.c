/* vectors and matrices, statistics, combinatorial functions and their tables, containers, matrices of networks */
#include "spec.h"
#include "datastruct.h"
#include "matrix.h"
#include <gsl/gsl_math.h>
#include <gsl/gsl_eigen.h>
#include <gsl/gsl_sort_vector.h>

int *spec_allocate_i_vec(int n)
{
  int *v = (int *)malloc(n * sizeof(int));
  if (!v) fprintf(stderr, "out of memory\n");
  return v;
}

double *spec_allocate_d_vec(int n)
{
  double *v = (double *)malloc(n * sizeof(double));
  if (!v) fprintf(stderr, "out of memory\n");
  return v;
}

void spec_free_i_vec(int *v) { free(v); }
void spec_free_d_vec(double *v) { free(v); }

void spec_free_i_mat(int **m, int rows)
{
  UPTO(i, rows) free(m[i]);
  free(m);
}

void spec_free_d_mat(double **m, int rows)
{
  UPTO(i, rows) free(m[i]);
  free(m);
}

void spec_fprintf_i_mat(FILE *out, int **m, int rows, int columns)
{
  UPTO(r, rows) UPTO(c, columns) fprintf(out, "%d %d %d\n", r + 1, c + 1, m[r][c]);
}

/* failures before the first success */
int spec_geometric_dist_val(double p, gsl_rng *gen)
{
  int n = 0;
  for (; gsl_rng_uniform(gen) > p; n++) ;
  return n;
}

double spec_mean(double *x, int n)
{
  double s = 0;
  UPTO(i, n) s += x[i];
  return s / n;
}

double spec_stddev(double *x, int n)
{
  double s = 0, s2 = 0, v;
  UPTO(i, n) s += x[i];
  UPTO(i, n) s2 += x[i] * x[i];
  v = s2 / n - (s / n) * (s / n);
  return v > 0 ? sqrt(v) : 0;
}

double spec_max(double *x, int n)
{
  double m = x[0];
  for (int i = 1; i < n; i++) if (x[i] > m) m = x[i];
  return m;
}

double spec_min(double *x, int n)
{
  double m = x[0];
  for (int i = 1; i < n; i++) if (x[i] < m) m = x[i];
  return m;
}

long int spec_fact(long int a)
{
  return a == 0 ? 1 : a * fact(a - 1);
}

long double spec_Choose(int n, int k)
{
  double c = 1;
  int m = k > n / 2 ? n - k : k;
  if (k > n) return 0;
  for (int i = 1; i <= m; i++) c = c * (n - m + i) / i;
  return floor(c + 0.5);
}

double spec_LogChoose(int n, int k) { return gsl_sf_lnchoose(n, k); }

/* tables hold exactly what the function gives; -1 marks a value not computed yet */
double **spec_InitializeFastLogChoose(int n)
{
  double **t = allocate_d_mat(n, n);
  UPTO(i, n) UPTO(j, n) t[i][j] = -1;
  return t;
}

void spec_FreeFastLogChoose(double **t, int n) { free_d_mat(t, n); }

double spec_FastLogChoose(int r, int l, double **t, int n)
{
  if (!(r < n)) return LogChoose(r, l);
  if (t[r][l] < 0) t[r][l] = LogChoose(r, l);
  return t[r][l];
}

double *spec_InitializeFastLog(int n)
{
  double *t = allocate_d_vec(n);
  UPTO(i, n) t[i] = log((double)i);
  return t;
}

void spec_FreeFastLog(double *t) { free_d_vec(t); }
double spec_FastLog(int r, double *t, int n) { return r < n ? t[r] : log((double)r); }

double *spec_InitializeFastLogFact(int n)
{
  double *t = allocate_d_vec(n);
  UPTO(i, n) t[i] = gsl_sf_lnfact(i);
  return t;
}

void spec_FreeFastLogFact(double *t) { free_d_vec(t); }
double spec_FastLogFact(int r, double *t, int n) { return r < n ? t[r] : gsl_sf_lnfact(r); }

double *spec_InitializeFastLogGamma(int n, double x)
{
  double *t = allocate_d_vec(n);
  UPTO(i, n) t[i] = gsl_sf_lngamma(i + x);
  return t;
}

void spec_FreeFastLogGamma(double *t) { free_d_vec(t); }
double spec_FastLogGamma(int r, double *t, int n, double x) { return r < n ? t[r] : gsl_sf_lngamma(r + x); }

double *spec_InitializeHarmonicList(int n)
{
  double *t = allocate_d_vec(n);
  t[0] = 0;
  for (int i = 1; i < n; i++) t[i] = t[i - 1] + 1.0 / i;
  return t;
}

void spec_FreeHarmonicList(double *t) { free_d_vec(t); }

/* ---- containers: last in first out, first in first out ---- */

struct stack *spec_stack_create(void) { return NEW(stack); }
bool spec_stack_empty(struct stack *s) { return !s->top; }

void spec_stack_push(struct stack *s, void *x)
{
  struct stack_node *e = NEW(stack_node);
  e->data = x;
  e->next = s->top;
  s->top = e;
  s->length = s->length + 1;
}

void *spec_stack_pop(struct stack *s)
{
  struct stack_node *e = s->top;
  void *x;
  if (stack_empty(s)) return NULL;
  e = s->top;
  x = e->data;
  s->top = e->next;
  s->length = s->length - 1;
  free(e);
  return x;
}

void *spec_stack_top(struct stack *s) { return stack_empty(s) ? NULL : s->top->data; }
void spec_stack_clear(struct stack *s) { while (!stack_empty(s)) stack_pop(s); }

void spec_stack_free(struct stack *s)
{
  stack_clear(s);
  free(s);
}

struct queue *spec_queue_create(void) { return NEW(queue); }
bool spec_queue_empty(struct queue *q) { return !q->first; }

void spec_queue_enqueue(struct queue *q, void *x)
{
  struct queue_node *e = NEW(queue_node);
  e->data = x;
  if (queue_empty(q)) q->first = e;
  else q->last->next = e;
  q->last = e;
  q->length = q->length + 1;
}

void *spec_queue_dequeue(struct queue *q)
{
  struct queue_node *e;
  void *x;
  if (queue_empty(q)) return NULL;
  e = q->first;
  x = e->data;
  q->first = e->next;
  q->length = q->length - 1;
  free(e);
  return x;
}

void *spec_queue_first(struct queue *q) { return queue_empty(q) ? NULL : q->first->data; }
void spec_queue_clear(struct queue *q) { while (!queue_empty(q)) queue_dequeue(q); }

void spec_queue_free(struct queue *q)
{
  queue_clear(q);
  free(q);
}

/* ---- matrices of networks ---- */

int **spec_AdjacencyMat(struct node_gra *net)
{
  int n = CountNodes(net), **a = allocate_i_mat(n, n);
  UPTO(i, n) UPTO(j, n) a[i][j] = 0;
  EACH_NODE(p, net) EACH_LINK(l, p) a[p->num][l->ref->num] = 1;
  return a;
}

/* degrees on the diagonal, minus the adjacency elsewhere; not defined with self-loops */
int **spec_LaplacianMat(struct node_gra *net)
{
  int n = CountNodes(net), **a = AdjacencyMat(net);
  struct node_gra *p = net;
  UPTO(i, n) {
    p = p->next;
    if (a[i][i] > 0) {
      fprintf(stderr, "ERROR: Graph contains self-loops ");
      free_i_mat(a, n);
      return NULL;
    }
    a[i][i] = NodeDegree(p);
    for (int j = i + 1; j < n; j++) {
      a[i][j] = -a[i][j];
      a[j][i] = -a[j][i];
    }
  }
  return a;
}

gsl_vector *spec_LaplacianSpectrum(struct node_gra *net)
{
  int n = CountNodes(net), **a = LaplacianMat(net);
  gsl_matrix *m;
  gsl_vector *v;
  gsl_eigen_symm_workspace *w;
  if (!a) return NULL;
  m = gsl_matrix_calloc(n, n);
  UPTO(i, n) UPTO(j, n) gsl_matrix_set(m, i, j, a[i][j]);
  w = gsl_eigen_symm_alloc(n);
  v = gsl_vector_alloc(n);
  gsl_eigen_symm(m, v, w);
  gsl_sort_vector(v);
  free_i_mat(a, n);
  gsl_matrix_free(m);
  gsl_eigen_symm_free(w);
  return v;
}

/* largest over smallest nonzero eigenvalue */
double spec_Synchronizability(struct node_gra *net)
{
  gsl_vector *v = LaplacianSpectrum(net);
  int n = CountNodes(net), i = 0;
  double top, low = -1;
  if (!v) return -1;
  top = gsl_vector_get(v, n - 1);
  while (low < 1e-10) low = gsl_vector_get(v, i++);
  gsl_vector_free(v);
  return top / low;
}

/* lines of a file; the last one counts without a line end, too */
int spec_CountLinesInFile(char *name)
{
  char line[1000];
  int n = 0;
  FILE *f = fopen(name, "r");
  if (!f) return 0;
  while (fgets(line, 1000, f)) n += strchr(line, '\n') || feof(f);
  fclose(f);
  return n;
}
