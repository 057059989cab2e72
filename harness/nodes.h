// N processes communicating through collective operations. A process runs up to the first collective operation whose result is not known yet,
// leaves its contribution and is unwound; when all have, everyone is run again from the start with the result available. Any real schedule of a
// program using only collective operations has the same result; the sequence of operations has to be the same on all nodes.
#pragma once
#include "common.h"
#include "mpi.h"
struct Unwind {};
struct Coll { int open, kind, count, type, root, op, bars; char *data[4]; };
static Coll coll[24]; static int ncoll, cpos, nbar, N_nodes, me;
enum { K_BCAST = 1, K_ALLGATHER, K_GATHER, K_SCATTER, K_REDUCE, K_ALLREDUCE };
static double red(int op, double a, double b) { return op == MPI_SUM ? a + b : op == MPI_MAX ? (a > b ? a : b) : (a < b ? a : b); }
static int collective(int kind, const void *send, void *recv, int count, int type, int root, int op) {
  if (cpos >= 24) { vf_fail("collectives"); throw Unwind(); } Coll &c = coll[cpos]; long n = (long)count * type; if (count < 0) { vf_fail("count"); throw Unwind(); }
  if (!c.open) { c.open = 1; c.kind = kind; c.count = count; c.type = type; c.root = root; c.op = op; c.bars = nbar; for (int i = 0; i < 4; i++) c.data[i] = 0; }
  else CHECK("same-operation", c.kind == kind && c.count == count && c.type == type && c.root == root && c.op == op && c.bars == nbar);
  if (cpos == ncoll) { const void *s = send == MPI_IN_PLACE ? (kind == K_ALLGATHER || kind == K_GATHER ? (char *)recv + me * n : recv) : send; long m = kind == K_SCATTER ? n * N_nodes : n; if ((kind != K_BCAST && kind != K_SCATTER) || me == root) { c.data[me] = new char[m ? m : 1]; if (m) memcpy(c.data[me], s, m); } throw Unwind(); }
  if (n) { if (kind == K_BCAST) { if (me != root) memcpy(recv, c.data[root], n); } else if (kind == K_SCATTER) memcpy(recv, c.data[root] + me * n, n);
    else if (kind == K_ALLGATHER || (kind == K_GATHER && me == root)) { for (int r = 0; r < N_nodes; r++) memcpy((char *)recv + r * n, c.data[r], n); }
    else if (kind == K_ALLREDUCE || (kind == K_REDUCE && me == root)) { for (int i = 0; i < count; i++) { if (type == MPI_DOUBLE) { double s = ((double *)c.data[0])[i]; for (int r = 1; r < N_nodes; r++) s = red(op, s, ((double *)c.data[r])[i]); ((double *)recv)[i] = s; } else { int s = ((int *)c.data[0])[i]; for (int r = 1; r < N_nodes; r++) { int v = ((int *)c.data[r])[i]; s = op == MPI_SUM ? s + v : op == MPI_MAX ? (s > v ? s : v) : (s < v ? s : v); } ((int *)recv)[i] = s; } } } }
  cpos++; return 0; }
extern "C" {
int MPI_Init(int *, char ***) { return 0; } int MPI_Init_thread(int *, char ***, int, int *p) { if (p) *p = 1; return 0; } int MPI_Initialized(int *f) { *f = 1; return 0; } int MPI_Finalize(void) { return 0; } int MPI_Abort(MPI_Comm, int) { vf_fail("aborted"); throw Unwind(); }
int MPI_Comm_size(MPI_Comm, int *n) { *n = N_nodes; return 0; } int MPI_Comm_rank(MPI_Comm, int *n) { *n = me; return 0; } int MPI_Get_processor_name(char *s, int *l) { strcpy(s, "node"); *l = 4; return 0; } double MPI_Wtime(void) { return 0.0; }
int MPI_Barrier(MPI_Comm) { nbar++; return 0; } int MPI_Bcast(void *b, int n, MPI_Datatype t, int r, MPI_Comm) { return collective(K_BCAST, b, b, n, t, r, 0); }
int MPI_Allgather(const void *s, int n, MPI_Datatype t, void *r, int m, MPI_Datatype, MPI_Comm) { CHECK("receive-count", m == n || s == MPI_IN_PLACE); return collective(K_ALLGATHER, s, r, m, t, 0, 0); }
int MPI_Gather(const void *s, int n, MPI_Datatype t, void *r, int m, MPI_Datatype, int root, MPI_Comm) { if (me == root) CHECK("receive-count", m == n || s == MPI_IN_PLACE); return collective(K_GATHER, s, r, me == root ? m : n, t, root, 0); }
int MPI_Scatter(const void *s, int n, MPI_Datatype t, void *r, int m, MPI_Datatype, int root, MPI_Comm) { if (me == root) CHECK("receive-count", m == n); return collective(K_SCATTER, s, r, m, t, root, 0); }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm) { return collective(K_REDUCE, s, r, n, t, root, o); } int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm) { return collective(K_ALLREDUCE, s, r, n, t, 0, o); }
int usleep(unsigned) { return 0; }
}
static bool run_nodes(int n, int (*prog)(), void (*before)(), void (*after)(bool finished)) {   // node 0 is run last
  N_nodes = n; ncoll = 0; for (int i = 0; i < 24; i++) coll[i].open = 0;
  for (;;) { int done = 0, bars = -1; for (me = n - 1; me >= 0; me--) { cpos = 0; nbar = 0; before(); bool fin = false; try { EQI("exit", prog(), 0); fin = true; } catch (Unwind &) {} if (fin) { done++; if (bars < 0) bars = nbar; else EQI("barriers", nbar, bars); EQI("all-operations", cpos, ncoll); } after(fin); }
    if (done == n) return true; if (done) { vf_fail("deadlock"); return false; } if (++ncoll >= 24) { vf_fail("collectives"); return false; } }
}
