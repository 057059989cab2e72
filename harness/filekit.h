// comparison of files written to the in-memory libraries
#pragma once
#include "fakeio.h"
static void samefile(const char *a, const char *b) {   // same data sets with the same content
  int fa = fio_file(a), fb = fio_file(b); CHECK("written", fa >= 0 && fb >= 0); int na = 0, nb = 0; for (int i = 0; i < fio_ns; i++) { na += fio_sets[i].file == fa; nb += fio_sets[i].file == fb; } EQI("sets", na, nb);
  for (int i = 0; i < fio_ns; i++) if (fio_sets[i].file == fb) { FioSet *s = &fio_sets[i], *r = fio_set(a, s->name); CHECK("set", r && r->n == s->n && r->rank == s->rank && r->na == s->na && r->isint == s->isint); if (!r || r->n != s->n) return; for (int k = 0; k < s->rank; k++) EQI("dim", r->dim[k], s->dim[k]); for (int k = 0; k < s->n; k++) if (s->isint) EQI("ivalue", r->i[k], s->i[k]); else EQS("value", r->d[k], s->d[k], 1.0); for (int k = 0; k < s->na; k++) { FioAttr *p = &s->a[k], *q = fio_attr(r, p->name); CHECK("attr", q != 0); if (q) { if (p->isint) EQI("ia", q->iv, p->iv); else EQS("da", q->dv, p->dv, 1.0); } } } }
static void sametable(const char *a, const char *b) { FioSdds *x = fio_table(a), *y = fio_table(b); CHECK("table", x && y && x->rows == y->rows && x->nc == y->nc && x->np == y->np); if (!x || !y || x->rows != y->rows) return;
  for (int c = 0; c < y->nc; c++) { FioCol *q = fio_col(x, y->c[c].name); CHECK("col", q != 0); if (q) for (int i = 0; i < y->rows; i++) EQS("tvalue", q->v[i], y->c[c].v[i], 1.0); } for (int c = 0; c < y->np; c++) { FioPar *q = fio_par(x, y->p[c].name); CHECK("par", q != 0); if (q) EQS("pvalue", q->v, y->p[c].v, 1.0); } }
