#include "fakeio.h"
#include <cstdarg>
int fio_nf, fio_ns, fio_nsd; FioFile fio_files[6]; FioSet fio_sets[40]; FioSdds fio_sdds[6];
struct Space { int rank; long dim[6]; }; static int nspace; static Space spaces[200];
static int oattr_set[200], oattr_no[200], noattr;
static const hid_t TD = 71, TI = 72;
extern "C" {
hid_t H5T_NATIVE_DOUBLE_g = TD, H5T_NATIVE_INT_g = TI, H5P_CLS_DATASET_CREATE_ID_g = 73;
herr_t H5open() { return 0; }
herr_t H5check_version(unsigned, unsigned, unsigned) { return 0; }
}
static void cp(char *d, const char *s, int n) { int i = 0; for (; i < n - 1 && s[i]; i++) d[i] = s[i]; d[i] = 0; }
void fio_reset() { fio_nf = fio_ns = fio_nsd = nspace = noattr = 0; }
int fio_file(const char *n) { for (int i = 0; i < fio_nf; i++) if (!strcmp(fio_files[i].name, n)) return i; return -1; }
FioSet *fio_set(const char *f, const char *n) { int k = fio_file(f); for (int i = 0; i < fio_ns; i++) if (fio_sets[i].file == k && !strcmp(fio_sets[i].name, n)) return &fio_sets[i]; return 0; }
FioAttr *fio_attr(FioSet *s, const char *n) { if (s) for (int i = 0; i < s->na; i++) if (!strcmp(s->a[i].name, n)) return &s->a[i]; return 0; }
static int mkfile(const char *n) { int k = fio_file(n);
  if (k >= 0) { for (int i = 0; i < fio_ns; i++) if (fio_sets[i].file == k) fio_sets[i].file = -2; fio_files[k].open = 1; return k; }
  cp(fio_files[fio_nf].name, n, 200); fio_files[fio_nf].open = 1; return fio_nf++; }
static FioSet *mkset(int f, const char *n, int isint, int rank, const long *dim) {
  FioSet *s = &fio_sets[fio_ns++]; cp(s->name, n, 48); s->file = f; s->isint = isint; s->rank = rank; s->n = 1; s->written = 0; s->na = 0;
  for (int k = 0; k < rank; k++) { s->dim[k] = dim[k]; s->n *= dim[k]; }
  s->d = 0; s->i = 0; if (isint) s->i = (int *)malloc(s->n * sizeof(int) + 1); else s->d = (double *)malloc(s->n * sizeof(double) + 1); return s; }
FioSet *fio_make(const char *f, const char *n, int isint, int rank, const long *dim) { int k = fio_file(f); if (k < 0) k = mkfile(f); FioSet *s = mkset(k, n, isint, rank, dim); s->written = 1; return s; }
static FioAttr *mkattr(FioSet *s, const char *n, int isint) { FioAttr *a = &s->a[s->na++]; cp(a->name, n, 48); a->isint = isint; a->written = 0; a->iv = 0; a->dv = 0; return a; }
void fio_put(FioSet *s, const char *n, int v) { FioAttr *a = mkattr(s, n, 1); a->iv = v; a->written = 1; }
void fio_put(FioSet *s, const char *n, double v) { FioAttr *a = mkattr(s, n, 0); a->dv = v; a->written = 1; }
extern "C" {
hid_t H5Fcreate(const char *n, unsigned, hid_t, hid_t) { return 1000 + mkfile(n); }
hid_t H5Fopen(const char *n, unsigned, hid_t) { int k = fio_file(n); if (k < 0) return -1; fio_files[k].open = 1; return 1000 + k; }
herr_t H5Fclose(hid_t f) { int k = (int)f - 1000; if (k < 0 || k >= fio_nf || !fio_files[k].open) return -1; fio_files[k].open = 0; return 0; }
hid_t H5Screate_simple(int rank, const hsize_t *d, const hsize_t *) { Space *s = &spaces[nspace]; s->rank = rank; for (int i = 0; i < rank; i++) s->dim[i] = (long)d[i]; return 2000 + nspace++; }
hid_t H5Screate(H5S_class_t) { spaces[nspace].rank = 0; return 2000 + nspace++; }
herr_t H5Sclose(hid_t s) { return s >= 2000 && s < 2000 + nspace ? 0 : -1; }
hid_t H5Pcreate(hid_t) { return 5000; }
herr_t H5Pclose(hid_t p) { return p == 5000 ? 0 : -1; }
hid_t H5Dcreate2(hid_t f, const char *n, hid_t t, hid_t s, hid_t, hid_t, hid_t) { int k = (int)f - 1000, q = (int)s - 2000; if (k < 0 || k >= fio_nf || !fio_files[k].open || q < 0 || q >= nspace) return -1;
  if (fio_set(fio_files[k].name, n)) return -1; FioSet *x = mkset(k, n, t == TI, spaces[q].rank, spaces[q].dim); return 3000 + (x - fio_sets); }
hid_t H5Dopen2(hid_t f, const char *n, hid_t) { int k = (int)f - 1000; if (k < 0 || k >= fio_nf || !fio_files[k].open) return -1; FioSet *x = fio_set(fio_files[k].name, n); return x ? 3000 + (x - fio_sets) : -1; }
herr_t H5Dclose(hid_t d) { return d >= 3000 && d < 3000 + fio_ns ? 0 : -1; }
herr_t H5Dwrite(hid_t d, hid_t mt, hid_t, hid_t, hid_t, const void *b) { if (d < 3000 || d >= 3000 + fio_ns) return -1; FioSet *s = &fio_sets[d - 3000];
  for (long i = 0; i < s->n; i++) { if (mt == TI) { int v = ((const int *)b)[i]; if (s->isint) s->i[i] = v; else s->d[i] = v; } else { double v = ((const double *)b)[i]; if (s->isint) s->i[i] = (int)v; else s->d[i] = v; } }
  s->written++; return 0; }
herr_t H5Dread(hid_t d, hid_t mt, hid_t, hid_t, hid_t, void *b) { if (d < 3000 || d >= 3000 + fio_ns) return -1; FioSet *s = &fio_sets[d - 3000];
  for (long i = 0; i < s->n; i++) { if (mt == TI) ((int *)b)[i] = s->isint ? s->i[i] : (int)s->d[i]; else ((double *)b)[i] = s->isint ? s->i[i] : s->d[i]; } return 0; }
hid_t H5Dget_space(hid_t d) { if (d < 3000 || d >= 3000 + fio_ns) return -1; FioSet *s = &fio_sets[d - 3000]; spaces[nspace].rank = s->rank; for (int i = 0; i < s->rank; i++) spaces[nspace].dim[i] = s->dim[i]; return 2000 + nspace++; }
int H5Sget_simple_extent_ndims(hid_t s) { return s >= 2000 && s < 2000 + nspace ? spaces[s - 2000].rank : -1; }
int H5Sget_simple_extent_dims(hid_t s, hsize_t *d, hsize_t *) { if (s < 2000 || s >= 2000 + nspace) return -1; for (int i = 0; i < spaces[s - 2000].rank; i++) d[i] = spaces[s - 2000].dim[i]; return spaces[s - 2000].rank; }
htri_t H5Lexists(hid_t f, const char *n, hid_t) { int k = (int)f - 1000; if (k < 0 || k >= fio_nf || !fio_files[k].open) return -1; return fio_set(fio_files[k].name, n) ? 1 : 0; }
hid_t H5Acreate2(hid_t d, const char *n, hid_t t, hid_t, hid_t, hid_t) { if (d < 3000 || d >= 3000 + fio_ns) return -1; FioSet *s = &fio_sets[d - 3000]; if (fio_attr(s, n)) return -1; mkattr(s, n, t == TI);
  oattr_set[noattr] = d - 3000; oattr_no[noattr] = s->na - 1; return 4000 + noattr++; }
hid_t H5Aopen_name(hid_t d, const char *n) { if (d < 3000 || d >= 3000 + fio_ns) return -1; FioSet *s = &fio_sets[d - 3000]; FioAttr *a = fio_attr(s, n); if (!a) return -1;
  oattr_set[noattr] = d - 3000; oattr_no[noattr] = a - s->a; return 4000 + noattr++; }
static FioAttr *oa(hid_t a) { return a < 4000 || a >= 4000 + noattr ? 0 : &fio_sets[oattr_set[a - 4000]].a[oattr_no[a - 4000]]; }
herr_t H5Awrite(hid_t a, hid_t mt, const void *b) { FioAttr *x = oa(a); if (!x) return -1; double v; if (mt == TI) { int i = *(const int *)b; if (x->isint) x->iv = i; else x->dv = i; } else { v = *(const double *)b; if (x->isint) x->iv = (int)v; else x->dv = v; } x->written = 1; return 0; }
herr_t H5Aread(hid_t a, hid_t mt, void *b) { FioAttr *x = oa(a); if (!x || !x->written) return -1; if (mt == TI) *(int *)b = x->isint ? x->iv : (int)x->dv; else *(double *)b = x->isint ? x->iv : x->dv; return 0; }
herr_t H5Aclose(hid_t a) { return oa(a) ? 0 : -1; }
}
// ---------------------------------------------------------------- SDDS
FioSdds *fio_table(const char *f) { for (int i = 0; i < fio_nsd; i++) if (!strcmp(fio_sdds[i].name, f)) return &fio_sdds[i]; return 0; }
FioCol *fio_col(FioSdds *t, const char *n) { if (t) for (int i = 0; i < t->nc; i++) if (!strcmp(t->c[i].name, n)) return &t->c[i]; return 0; }
FioPar *fio_par(FioSdds *t, const char *n) { if (t) for (int i = 0; i < t->np; i++) if (!strcmp(t->p[i].name, n)) return &t->p[i]; return 0; }
FioSdds *fio_mktable(const char *f, long rows) { FioSdds *t = fio_table(f); if (!t) t = &fio_sdds[fio_nsd++]; cp(t->name, f, 200); t->nc = t->np = 0; t->rows = rows; t->layout = t->page = t->written = t->terminated = 0; t->owner = 0; return t; }
static void alc(FioSdds *t, FioCol *c) { c->v = (double *)malloc(t->rows * sizeof(double) + 8); c->set = (int *)malloc(t->rows * sizeof(int) + 8); for (long i = 0; i < t->rows; i++) { c->v[i] = 0; c->set[i] = 0; } }
void fio_mkcol(FioSdds *t, const char *n, const double *v) { FioCol *c = &t->c[t->nc++]; cp(c->name, n, 24); alc(t, c); for (long i = 0; i < t->rows; i++) { c->v[i] = v[i]; c->set[i] = 1; } }
void fio_mkpar(FioSdds *t, const char *n, int type, double v) { FioPar *p = &t->p[t->np++]; cp(p->name, n, 24); p->type = type; p->v = v; p->set = 1; }
static FioSdds *own(SDDS_DATASET *d) { for (int i = 0; i < fio_nsd; i++) if (fio_sdds[i].owner == (void *)d) return &fio_sdds[i]; return 0; }
static void bind(FioSdds *t, SDDS_DATASET *d) { for (int i = 0; i < fio_nsd; i++) if (fio_sdds[i].owner == (void *)d) fio_sdds[i].owner = 0; t->owner = d; }
extern "C" {
int32_t SDDS_InitializeOutput(SDDS_DATASET *d, int32_t, int32_t, const char *, const char *, const char *f) { bind(fio_mktable(f, 0), d); return 1; }
int32_t SDDS_DefineSimpleParameter(SDDS_DATASET *d, const char *n, const char *, int32_t type) { FioSdds *t = own(d); if (!t || t->layout || fio_par(t, n)) return 0; FioPar *p = &t->p[t->np++]; cp(p->name, n, 24); p->type = type; p->set = 0; return 1; }
int32_t SDDS_DefineColumn(SDDS_DATASET *d, const char *n, const char *, const char *, const char *, const char *, int32_t, int32_t) { FioSdds *t = own(d); if (!t || t->layout || fio_col(t, n)) return -1; FioCol *c = &t->c[t->nc++]; cp(c->name, n, 24); c->v = 0; return t->nc - 1; }
int32_t SDDS_WriteLayout(SDDS_DATASET *d) { FioSdds *t = own(d); if (!t) return 0; t->layout = 1; return 1; }
int32_t SDDS_StartPage(SDDS_DATASET *d, int64_t rows) { FioSdds *t = own(d); if (!t || !t->layout || rows < 0) return 0; t->rows = rows; t->page = 1; for (int i = 0; i < t->nc; i++) alc(t, &t->c[i]); return 1; }
int32_t SDDS_SetParameters(SDDS_DATASET *d, int32_t mode, ...) {
  FioSdds *t = own(d); if (!t || !t->page) return 0; int ok = 1; va_list ap; va_start(ap, mode);
  for (;;) { char *n = va_arg(ap, char *); if (!n) break; FioPar *p = fio_par(t, n); if (!p) { ok = 0; break; }
    if (p->type == SDDS_DOUBLE) p->v = va_arg(ap, double); else p->v = va_arg(ap, int);
    p->set++; }
  va_end(ap); return ok; }
int32_t SDDS_SetRowValues(SDDS_DATASET *d, int32_t mode, int64_t row, ...) {
  FioSdds *t = own(d); if (!t || !t->page || row < 0 || row >= t->rows) return 0; int ok = 1; va_list ap; va_start(ap, row);
  for (;;) { char *n = va_arg(ap, char *); if (!n) break; FioCol *c = fio_col(t, n); if (!c) { ok = 0; break; } c->v[row] = va_arg(ap, double); c->set[row]++; }
  va_end(ap); return ok; }
int32_t SDDS_WritePage(SDDS_DATASET *d) { FioSdds *t = own(d); if (!t || !t->page) return 0; t->written = 1; return 1; }
int32_t SDDS_Terminate(SDDS_DATASET *d) { FioSdds *t = own(d); if (!t) return 0; t->terminated = 1; t->owner = 0; return 1; }
int32_t SDDS_InitializeInput(SDDS_DATASET *d, char *f) { FioSdds *t = fio_table(f); if (!t) return 0; bind(t, d); d->mode = 1; return 1; }
int32_t SDDS_ReadPage(SDDS_DATASET *d) { return own(d) ? 1 : 0; }
void SDDS_PrintErrors(FILE *, int32_t) {}
int32_t *SDDS_GetParameterAsLong(SDDS_DATASET *d, char *n, int32_t *m) { FioPar *p = fio_par(own(d), n); if (!p || !p->set) return 0; if (!m) m = (int32_t *)malloc(sizeof(int32_t)); *m = (int32_t)p->v; return m; }
double *SDDS_GetParameterAsDouble(SDDS_DATASET *d, char *n, double *m) { FioPar *p = fio_par(own(d), n); if (!p || !p->set) return 0; if (!m) m = (double *)malloc(sizeof(double)); *m = p->v; return m; }
double *SDDS_GetColumnInDoubles(SDDS_DATASET *d, char *n) { FioSdds *t = own(d); FioCol *c = fio_col(t, n); if (!c) return 0; double *v = (double *)malloc(t->rows * sizeof(double) + 8); for (long i = 0; i < t->rows; i++) v[i] = c->v[i]; return v; }
}
