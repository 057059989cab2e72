// Stand-in for the HDF5 and SDDS libraries: files live in memory, so that what the real code writes can be inspected and read back.
#pragma once
#include <cstdlib>
#include <cstring>
#include <hdf5.h>
#include "SDDS.h"
struct FioAttr { char name[48]; int isint; int iv; double dv; int written; };
struct FioSet { char name[48]; int file; int isint; int rank; long dim[6]; long n; double *d; int *i; int written; int na; FioAttr a[24]; };
struct FioFile { char name[200]; int open; };
struct FioCol { char name[24]; double *v; int *set; };
struct FioPar { char name[24]; int type; double v; int set; };
struct FioSdds { char name[200]; int nc, np; FioCol c[20]; FioPar p[12]; long rows; int layout, page, written, terminated; void *owner; };
extern int fio_nf, fio_ns, fio_nsd; extern FioFile fio_files[6]; extern FioSet fio_sets[40]; extern FioSdds fio_sdds[6];
void fio_reset();
int fio_file(const char *name);                 // index of the file or -1
FioSet *fio_set(const char *file, const char *name);
FioAttr *fio_attr(FioSet *s, const char *name);
FioSet *fio_make(const char *file, const char *name, int isint, int rank, const long *dim);   // creates file and data set
void fio_put(FioSet *s, const char *name, int v);
void fio_put(FioSet *s, const char *name, double v);
FioSdds *fio_table(const char *file);
FioCol *fio_col(FioSdds *t, const char *name);
FioPar *fio_par(FioSdds *t, const char *name);
FioSdds *fio_mktable(const char *file, long rows);
void fio_mkcol(FioSdds *t, const char *name, const double *v);
void fio_mkpar(FioSdds *t, const char *name, int type, double v);
