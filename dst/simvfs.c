/*
 * simvfs: an SQLite VFS that stands between SQLite and the unix VFS.
 *
 * Every operation that changes a named file (open-create, write, truncate,
 * sync, delete) is first offered to a hook, which may let it through, fail it,
 * shorten it or swallow it; sleeping, randomness and the clock are taken from
 * the simulator.  Real fsync is never called: durability is what the hook's
 * log says it is.
 *
 * Thread-local modes: ORACLE bypasses everything (the checker reading state),
 * DEAD swallows all changes (a process that was killed: its connections are
 * only unwound so that their locks go away).
 */
#include <sqlite3.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>

enum { OP_OPEN = 1, OP_WRITE = 2, OP_SYNC = 3, OP_TRUNC = 4, OP_DELETE = 5, OP_READ = 6 };
#define RET_SWALLOW (-1)   /* report success, do nothing */
#define RET_SHORT_FULL (-2)  /* write a prefix, then "disk full" */
#define RET_SHORT_IO (-3)    /* write a prefix, then "I/O error" */

typedef int (*hook_fn)(int op, const char *path, sqlite3_int64 off, const void *data, int n, int flags);
typedef int (*sleep_fn)(int micros);

static sqlite3_vfs *real_vfs;
static hook_fn hook;
static sleep_fn sleep_hook;
static int hook_reads;
static sqlite3_int64 now_ms = 210866803200000LL;
static uint64_t rng_state = 88172645463325252ULL;
static __thread int t_oracle;
static __thread int t_dead;

typedef struct SimFile {
    sqlite3_file base;
    char *path;            /* NULL for anonymous temp files */
    sqlite3_file *real;
} SimFile;

void simvfs_set_oracle(int v) { t_oracle = v; }
int simvfs_get_oracle(void) { return t_oracle; }
void simvfs_set_dead(int v) { t_dead = v; }
void simvfs_set_hook(hook_fn h, sleep_fn s) { hook = h; sleep_hook = s; }
void simvfs_hook_reads(int v) { hook_reads = v; }
void simvfs_set_now(sqlite3_int64 ms) { now_ms = ms; }
void simvfs_seed(uint64_t s) { rng_state = s * 2654435761ULL + 88172645463325252ULL; sqlite3_randomness(0, NULL); }
/* Fix the sequence of SQLite's own generator now, from the seeded state. */
void simvfs_prime(void) { unsigned char b[4]; sqlite3_randomness(4, b); }

static int ask(int op, const char *path, sqlite3_int64 off, const void *data, int n, int flags) {
    if (!path) return 0;
    if (t_dead) return (op == OP_READ) ? 0 : ((op == OP_OPEN) ? ((flags & SQLITE_OPEN_CREATE) ? SQLITE_CANTOPEN : 0) : RET_SWALLOW);
    if (t_oracle || !hook) return 0;
    return hook(op, path, off, data, n, flags);
}

static int sClose(sqlite3_file *f) {
    SimFile *p = (SimFile *)f;
    int rc = p->real->pMethods ? p->real->pMethods->xClose(p->real) : SQLITE_OK;
    free(p->path); p->path = 0;
    return rc;
}
static int sRead(sqlite3_file *f, void *b, int n, sqlite3_int64 o) {
    SimFile *p = (SimFile *)f;
    if (hook_reads) {
        int r = ask(OP_READ, p->path, o, 0, n, 0);
        if (r > 0) return r;
    }
    return p->real->pMethods->xRead(p->real, b, n, o);
}
static int sWrite(sqlite3_file *f, const void *b, int n, sqlite3_int64 o) {
    SimFile *p = (SimFile *)f;
    int r = ask(OP_WRITE, p->path, o, b, n, 0);
    if (r > 0) return r;
    if (r == RET_SWALLOW) return SQLITE_OK;
    if (r == RET_SHORT_FULL || r == RET_SHORT_IO) {
        int half = n / 2;
        if (half) p->real->pMethods->xWrite(p->real, b, half, o);
        return r == RET_SHORT_FULL ? SQLITE_FULL : SQLITE_IOERR_WRITE;
    }
    return p->real->pMethods->xWrite(p->real, b, n, o);
}
static int sTruncate(sqlite3_file *f, sqlite3_int64 s) {
    SimFile *p = (SimFile *)f;
    int r = ask(OP_TRUNC, p->path, s, 0, 0, 0);
    if (r > 0) return r;
    if (r < 0) return SQLITE_OK;
    return p->real->pMethods->xTruncate(p->real, s);
}
static int sSync(sqlite3_file *f, int flags) {
    SimFile *p = (SimFile *)f;
    int r = ask(OP_SYNC, p->path, 0, 0, 0, flags);
    return r > 0 ? r : SQLITE_OK;
}
static int sFileSize(sqlite3_file *f, sqlite3_int64 *s) { SimFile *p = (SimFile *)f; return p->real->pMethods->xFileSize(p->real, s); }
static int sLock(sqlite3_file *f, int l) { SimFile *p = (SimFile *)f; return p->real->pMethods->xLock(p->real, l); }
static int sUnlock(sqlite3_file *f, int l) { SimFile *p = (SimFile *)f; return p->real->pMethods->xUnlock(p->real, l); }
static int sCheckReserved(sqlite3_file *f, int *o) { SimFile *p = (SimFile *)f; return p->real->pMethods->xCheckReservedLock(p->real, o); }
static int sFileControl(sqlite3_file *f, int op, void *a) {
    SimFile *p = (SimFile *)f;
    if (op == SQLITE_FCNTL_SIZE_HINT || op == SQLITE_FCNTL_CHUNK_SIZE) return SQLITE_OK;
    return p->real->pMethods->xFileControl(p->real, op, a);
}
static int sSectorSize(sqlite3_file *f) { SimFile *p = (SimFile *)f; return p->real->pMethods->xSectorSize(p->real); }
static int sDevChar(sqlite3_file *f) { SimFile *p = (SimFile *)f; return p->real->pMethods->xDeviceCharacteristics(p->real); }
static int sShmMap(sqlite3_file *f, int pg, int sz, int ext, void volatile **pp) { SimFile *p = (SimFile *)f; return p->real->pMethods->xShmMap(p->real, pg, sz, ext, pp); }
static int sShmLock(sqlite3_file *f, int o, int n, int fl) { SimFile *p = (SimFile *)f; return p->real->pMethods->xShmLock(p->real, o, n, fl); }
static void sShmBarrier(sqlite3_file *f) { SimFile *p = (SimFile *)f; p->real->pMethods->xShmBarrier(p->real); }
static int sShmUnmap(sqlite3_file *f, int d) { SimFile *p = (SimFile *)f; return p->real->pMethods->xShmUnmap(p->real, d); }

static const sqlite3_io_methods methods = {
    2, sClose, sRead, sWrite, sTruncate, sSync, sFileSize, sLock, sUnlock, sCheckReserved,
    sFileControl, sSectorSize, sDevChar, sShmMap, sShmLock, sShmBarrier, sShmUnmap, 0, 0
};

static int vOpen(sqlite3_vfs *v, const char *name, sqlite3_file *f, int flags, int *out) {
    SimFile *p = (SimFile *)f;
    int rc, r;
    memset(p, 0, sizeof(*p));
    p->real = (sqlite3_file *)((char *)p + sizeof(SimFile));
    r = ask(OP_OPEN, name, 0, 0, 0, flags);
    if (r > 0) return r;
    rc = real_vfs->xOpen(real_vfs, name, p->real, flags, out);
    if (rc == SQLITE_OK) {
        p->base.pMethods = &methods;
        p->path = name ? strdup(name) : 0;
    } else if (p->real->pMethods) {
        p->real->pMethods->xClose(p->real);
    }
    return rc;
}
static int vDelete(sqlite3_vfs *v, const char *name, int dirsync) {
    int r = ask(OP_DELETE, name, 0, 0, 0, dirsync);
    if (r > 0) return r;
    if (r < 0) return SQLITE_OK;
    return real_vfs->xDelete(real_vfs, name, 0);
}
static int vAccess(sqlite3_vfs *v, const char *n, int f, int *o) { return real_vfs->xAccess(real_vfs, n, f, o); }
static int vFullPath(sqlite3_vfs *v, const char *n, int l, char *o) { return real_vfs->xFullPathname(real_vfs, n, l, o); }
static void *vDlOpen(sqlite3_vfs *v, const char *n) { return real_vfs->xDlOpen(real_vfs, n); }
static void vDlError(sqlite3_vfs *v, int n, char *z) { real_vfs->xDlError(real_vfs, n, z); }
static void (*vDlSym(sqlite3_vfs *v, void *h, const char *z))(void) { return real_vfs->xDlSym(real_vfs, h, z); }
static void vDlClose(sqlite3_vfs *v, void *h) { real_vfs->xDlClose(real_vfs, h); }
static int vRandomness(sqlite3_vfs *v, int n, char *o) {
    int i;
    for (i = 0; i < n; i++) {
        rng_state ^= rng_state << 13; rng_state ^= rng_state >> 7; rng_state ^= rng_state << 17;
        o[i] = (char)(rng_state >> 24);
    }
    return n;
}
static int vSleep(sqlite3_vfs *v, int us) {
    if (t_oracle || t_dead || !sleep_hook) return us;
    return sleep_hook(us);
}
static int vCurrentTimeInt64(sqlite3_vfs *v, sqlite3_int64 *o) { *o = now_ms; return SQLITE_OK; }
static int vCurrentTime(sqlite3_vfs *v, double *o) { *o = now_ms / 86400000.0; return SQLITE_OK; }
static int vLastError(sqlite3_vfs *v, int n, char *o) { return real_vfs->xGetLastError ? real_vfs->xGetLastError(real_vfs, n, o) : 0; }

static sqlite3_vfs simvfs;

int simvfs_install(void) {
    if (real_vfs) return 0;
    real_vfs = sqlite3_vfs_find("unix");
    if (!real_vfs) return 1;
    memset(&simvfs, 0, sizeof(simvfs));
    simvfs.iVersion = 2;
    simvfs.szOsFile = sizeof(SimFile) + real_vfs->szOsFile;
    simvfs.mxPathname = real_vfs->mxPathname;
    simvfs.zName = "simvfs";
    simvfs.xOpen = vOpen; simvfs.xDelete = vDelete; simvfs.xAccess = vAccess;
    simvfs.xFullPathname = vFullPath; simvfs.xDlOpen = vDlOpen; simvfs.xDlError = vDlError;
    simvfs.xDlSym = vDlSym; simvfs.xDlClose = vDlClose; simvfs.xRandomness = vRandomness;
    simvfs.xSleep = vSleep; simvfs.xCurrentTime = vCurrentTime; simvfs.xGetLastError = vLastError;
    simvfs.xCurrentTimeInt64 = vCurrentTimeInt64;
    return sqlite3_vfs_register(&simvfs, 1);
}
const char *simvfs_libversion(void) { return sqlite3_libversion(); }
